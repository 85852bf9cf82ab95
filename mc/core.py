"""The explorer.

A *property module* (``mc/props/pXX.py``) declares one or more *spaces*.  A space
is a finite, deterministic enumeration of cases (an input shape, an operation
sequence, a history, an environment answer), simplest first, and a step function
which runs the **real goats code** on one case, compares it step by step with a
reference model and returns what it observed.  The explorer visits every case of
every space, splits them over worker processes, counts what was covered, and
turns each disagreement into a replayable artefact.

Nothing here samples: a space is either enumerated completely or the run says
that it was not (``exhaustive: false`` and the number of cases left).
"""
import hashlib
import itertools
import json
import os
import pickle
import signal
import sys
import time
import traceback
import typing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(ROOT, 'known_findings.json')

WORKERS = 8
CASE_LIMIT_S = 150
"""A case that runs longer than this did not terminate (wall clock)."""
DEADLINE_S = {'quick': 700, 'thorough': 820}
"""Stop exploring after this long, and say so in the evidence."""
MAX_KEPT = 40
"""Violations kept per worker and space (each with a distinct key)."""


class Violation(Exception):
    """The code disagrees with the property on this case."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class NotTerminated(Exception):
    pass


class Obs:
    """What one explored case observed.

    steps : how many transitions (calls into goats compared with the model)
    states : hashable, canonical forms of the model states that were reached
    """

    __slots__ = ('steps', 'states')

    def __init__(self):
        self.steps = 0
        self.states = []

    def step(self, state=None):
        self.steps += 1
        if state is not None:
            self.states.append(state)


class Space:
    """A finite set of cases and the function that decides each of them."""

    def __init__(self, name, cases, check, bound='', isolate=False):
        self.name = name
        self.cases = cases      # cases(tier) -> iterable of JSON-able cases
        self.check = check      # check(case, obs); raises Violation
        self.bound = bound      # text: alphabet and bound
        self.isolate = isolate  # run every case in its own forked process


def digest(obj) -> int:
    """A stable 60-bit hash of an observation."""
    raw = obj if isinstance(obj, bytes) else repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(raw, digest_size=7).digest(), 'big')


def forked(function, *args):
    """Run `function(*args)` in a forked child and return its result.

    The child starts from this process's current state and leaves no trace on
    it: this is how histories are explored from the same starting point without
    reaching into the code's private caches.
    """
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            try:
                payload = ('ok', function(*args))
            except Violation as err:
                payload = ('violation', (err.message, err.key))
            except BaseException:
                payload = ('error', traceback.format_exc())
            data = pickle.dumps(payload)
            with os.fdopen(wr, 'wb') as fp:
                fp.write(data)
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(wr)
    chunks = []
    with os.fdopen(rd, 'rb') as fp:
        while True:
            chunk = fp.read(65536)
            if not chunk:
                break
            chunks.append(chunk)
    _, status = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if not data:
        raise Violation(f"the process died (wait status {status})")
    kind, payload = pickle.loads(data)
    if kind == 'ok':
        return payload
    if kind == 'violation':
        raise Violation(*payload)
    raise Violation(f"unexpected exception\n{payload}")


def _alarm(signum, frame):
    raise NotTerminated()


def _describe(err: BaseException) -> str:
    frames = traceback.extract_tb(err.__traceback__)
    where = ''
    for frame in reversed(frames):
        if '/goats/' in frame.filename:
            where = f" at {frame.filename}:{frame.lineno} in {frame.name}"
            break
    return f"unexpected {type(err).__name__}: {err}{where}"


def decide(space: Space, case, obs: Obs):
    """Run one case.  Returns None or (message, key)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        if space.isolate:
            def body():
                inner = Obs()
                space.check(case, inner)
                return inner.steps, inner.states
            steps, states = forked(body)
            obs.steps += steps
            obs.states.extend(states)
        else:
            space.check(case, obs)
    except Violation as err:
        return err.message, err.key
    except NotTerminated:
        return f"no answer within {CASE_LIMIT_S} s", None
    except Exception as err:
        return _describe(err), None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def default_key(space: str, case) -> str:
    return f"{space}:{json.dumps(case, sort_keys=True, default=str)}"


def load_known(prop: str) -> dict:
    try:
        with open(KNOWN) as fp:
            entries = json.load(fp)
    except FileNotFoundError:
        return {}
    return {
        e['key']: e for e in entries
        if e['property'] == prop and e['status'] == 'known'
    }


def _work(index, spaces, tier, deadline, known):
    """Explore this worker's share of every space."""
    out = {}
    for space in spaces:
        res = {
            'executions': 0, 'steps': 0, 'states': set(), 'violations': [],
            'known': {}, 'samples': [], 'skipped': 0,
        }
        keys = set()
        for i, case in enumerate(space.cases(tier)):
            if i % WORKERS != index:
                continue
            if time.time() > deadline:
                res['skipped'] += 1
                continue
            obs = Obs()
            bad = decide(space, case, obs)
            res['executions'] += 1
            res['steps'] += obs.steps
            for state in obs.states:
                res['states'].add(digest(state))
            if len(res['samples']) < 2 and (i // WORKERS) % 7 == 3:
                res['samples'].append(
                    {'space': space.name, 'case': case,
                     'last_state': repr(obs.states[-1])[:300] if obs.states else None}
                )
            if bad is not None:
                message, key = bad
                key = key or default_key(space.name, case)
                if key in known:
                    res['known'][key] = res['known'].get(key, 0) + 1
                elif key not in keys and len(res['violations']) < MAX_KEPT:
                    keys.add(key)
                    res['violations'].append((i, case, message, key))
        out[space.name] = res
    return out


def explore(spaces, tier, prop, workers=WORKERS):
    """Explore all spaces in parallel; return merged results."""
    start = time.time()
    deadline = start + DEADLINE_S[tier]
    known = load_known(prop)
    jobs = []
    for index in range(workers):
        rd, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd)
                try:
                    payload = ('ok', _work(index, spaces, tier, deadline, known))
                except BaseException:
                    payload = ('error', traceback.format_exc())
                with os.fdopen(wr, 'wb') as fp:
                    pickle.dump(payload, fp)
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                os._exit(code)
        os.close(wr)
        jobs.append((pid, rd))
    results = []
    for index, (pid, rd) in enumerate(jobs):
        with os.fdopen(rd, 'rb') as fp:
            data = fp.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            results.append(('died', f"worker {index} died, wait status {status}"))
        else:
            results.append(pickle.loads(data))
    return results, known, start


def main(prop: str, tier: str, module) -> int:
    """Decide one property; print the verdict and write the evidence."""
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(REPLAYS, exist_ok=True)
    for name in os.listdir(REPLAYS):
        if name.startswith(f"{prop}-"):
            os.unlink(os.path.join(REPLAYS, name))
    try:
        spaces = module.spaces(tier)
    except Exception as err:
        # The code under test could not even be driven.
        spaces = []
        setup_error = _describe(err) + '\n' + traceback.format_exc()
    else:
        setup_error = None
    results, known, start = explore(spaces, tier, prop)
    merged = {
        s.name: {'executions': 0, 'steps': 0, 'states': set(), 'skipped': 0,
                 'bound': s.bound} for s in spaces
    }
    violations, seen_known, samples = [], {}, []
    if setup_error:
        violations.append(('setup', 0, None, setup_error, 'setup'))
    for kind, payload in results:
        if kind == 'died':
            violations.append(('worker', 0, None, payload, 'worker-died'))
            continue
        if kind == 'error':
            violations.append(('worker', 0, None, payload, 'worker-error'))
            continue
        for name, res in payload.items():
            m = merged[name]
            m['executions'] += res['executions']
            m['steps'] += res['steps']
            m['states'] |= res['states']
            m['skipped'] += res['skipped']
            for item in res['violations']:
                violations.append((name, *item))
            for key, n in res['known'].items():
                seen_known[key] = seen_known.get(key, 0) + n
            samples.extend(res['samples'])
    order = {s.name: i for i, s in enumerate(spaces)}
    violations.sort(key=lambda v: (order.get(v[0], -1), v[1]))
    unique, keys = [], set()
    for v in violations:
        if v[4] not in keys:
            keys.add(v[4])
            unique.append(v)
    wall = time.time() - start
    skipped = sum(m['skipped'] for m in merged.values())
    coverage = {
        'states': sum(len(m['states']) for m in merged.values()),
        'transitions': sum(m['steps'] for m in merged.values()),
        'traces_validated_against_impl': sum(m['executions'] for m in merged.values()),
        'exhaustive': skipped == 0,
        'cases_not_reached': skipped,
        'spaces': {
            name: {
                'executions': m['executions'],
                'transitions': m['steps'],
                'distinct_states': len(m['states']),
                'not_reached': m['skipped'],
                'alphabet_and_bound': m['bound'],
            } for name, m in merged.items()
        },
        'samples': samples[:12] or ['none'],
        'known_findings_seen': {k: n for k, n in sorted(seen_known.items())},
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])) + [
            'behaviour outside the stated alphabets and bounds is not covered',
            'the enumeration is deterministic: VERIF_SEED does not change it',
        ],
        'wall_s': round(wall, 3),
        'violations': len(unique),
    }
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1, default=str)
        fp.write('\n')
    for name, m in merged.items():
        print(f"{prop} {name}: executions={m['executions']} transitions={m['steps']} "
              f"states={len(m['states'])}"
              + (f" NOT-REACHED={m['skipped']}" if m['skipped'] else ''))
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[key]['what']} [{key}]")
    for n, (name, i, case, message, key) in enumerate(unique[:5]):
        path = os.path.join(REPLAYS, f"{prop}-{n}.json")
        with open(path, 'w') as fp:
            json.dump({'property': prop, 'tier': tier, 'space': name, 'index': i,
                       'case': case, 'key': key, 'message': message,
                       'replay_with': f"bash /verif/replay.sh {path}"},
                      fp, indent=1, default=str)
            fp.write('\n')
        print(f"  {name}[{i}] {json.dumps(case, default=str)[:600]}\n    {message[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if len(unique) > 5:
        print(f"  ... and {len(unique) - 5} more distinct violations")
    print(f"{prop} {tier}: states={coverage['states']} transitions={coverage['transitions']} "
          f"executions={coverage['traces_validated_against_impl']} "
          f"exhaustive={coverage['exhaustive']} violations={len(unique)} wall={wall:.1f}s")
    return 1 if unique else 0


def replay(path: str, module) -> int:
    """Run the one case in a replay file again, without the explorer."""
    with open(path) as fp:
        data = json.load(fp)
    spaces = {s.name: s for s in module.spaces(data['tier'])}
    space = spaces[data['space']]
    # JSON turns tuples into lists: take the case from the enumeration.
    case = next(itertools.islice(space.cases(data['tier']), data['index'], None))
    bad = decide(space, case, Obs())
    if bad is None:
        # Perhaps it needs what the same worker ran before it.
        for i, prior in enumerate(space.cases(data['tier'])):
            if i > data['index']:
                break
            if i % WORKERS == data['index'] % WORKERS:
                bad = decide(space, prior, Obs())
        print('fresh process: not reproduced; after the preceding cases: '
              + ('reproduced' if bad else 'not reproduced'))
    if bad:
        print(f"reproduced: {json.dumps(case, default=str)}\n{bad[0]}")
        return 1
    return 0
