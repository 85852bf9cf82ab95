"""Make a planted bug from a spec file and see whether it counts and is caught.

usage: python3 tools/plant.py SPEC.py [--no-check] ...

A spec defines: id, property, needs, breaks, edits = [(file, old, new), ...],
demo (Python source, run with goats' interpreter).  Writes seeded/<id>/, then, with
the patch applied to /repo for as long as it takes: the stable tests, the demo, the
property's quick check.
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
    return not run('git status --porcelain', cwd=REPO).stdout.strip()


DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def make(spec):
    folder = os.path.join(ROOT, 'seeded', spec['id'])
    os.makedirs(folder, exist_ok=True)
    assert clean(), 'dirty repo'
    try:
        for file, old, new in spec['edits']:
            path = os.path.join(REPO, file)
            text = open(path).read()
            assert text.count(old) == 1, (file, old, text.count(old))
            open(path, 'w').write(text.replace(old, new))
        diff = run('git diff', cwd=REPO).stdout
    finally:
        run('git checkout -- .', cwd=REPO)
    with open(os.path.join(folder, 'patch.diff'), 'w') as fp:
        fp.write(diff)
    with open(os.path.join(folder, 'demo.py'), 'w') as fp:
        fp.write(spec['demo'].lstrip('\n'))
    with open(os.path.join(folder, 'demo.sh'), 'w') as fp:
        fp.write(DEMO_SH)
    with open(os.path.join(folder, 'meta.json'), 'w') as fp:
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, fp, indent=1)
        fp.write('\n')
    return folder


def evaluate(id, check=True, tests=True):
    folder = os.path.join(ROOT, 'seeded', id)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    out = {'id': id, 'property': prop}
    assert clean(), 'dirty repo'
    demo = f'bash {folder}/demo.sh'
    before = run(demo, cwd=REPO)
    out['demo_before'] = before.returncode
    if before.returncode:
        print(before.stdout[-1500:])
    done = run(f'git apply {folder}/patch.diff', cwd=REPO)
    out['applies'] = done.returncode == 0
    try:
        after = run(demo, cwd=REPO)
        out['demo_after'] = after.returncode
        out['demo_says'] = after.stdout.strip()[-200:]
        if tests:
            run('bash /opt/vp/test.sh /tmp/plant.json', cwd=REPO)
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            out['missing'] = sorted(stable - set(json.load(open('/tmp/plant.json'))['passed']))
        if check:
            done = run(f'bash {ROOT}/check.sh {prop} quick')
            out['check'] = done.returncode
            lines = done.stdout.splitlines()
            out['caught'] = done.returncode == 1 and any(l.startswith(f'VIOLATION property={prop} ') for l in lines)
            out['first'] = next((lines[i] + ' ' + (lines[i + 1] if i + 1 < len(lines) else '')
                                 for i, l in enumerate(lines) if l.startswith('  ')), '')[:400]
            out['last'] = lines[-1][-150:] if lines else ''
    finally:
        run('git checkout -- .', cwd=REPO)
    out['counts'] = (out['applies'] and before.returncode == 0 and after.returncode != 0 and not out.get('missing'))
    return out


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for arg in args:
        if arg.endswith('.py'):
            spec = {}
            exec(open(arg).read(), spec)
            specs = spec['specs'] if 'specs' in spec else [spec]
            ids = []
            for s in specs:
                make(s)
                ids.append(s['id'])
        else:
            ids = [arg]
        for id in ids:
            res = evaluate(id, check='--no-check' not in sys.argv, tests='--no-tests' not in sys.argv)
            print(json.dumps(res, indent=1))
