import json,subprocess
known=[e for e in json.load(open('/verif/known_findings.json')) if e['status']=='known']
M={'6c0aa24':'P01','1934e9e':'P01','e6350a2':'P01','154388e':'P03','fd3cf87':'P03','903d79c':'P04','0b31476':'P01','32e3b91':'P05','a431b2e':'P05','4cbb51e':'P05','465ed8e':'P05','fe48f6c':'P05','a87cda4':'P05','2eab0a4':'P07','f4ee202':'P05','d55daed':'P05','875396e':'P06','6f5d68c':'P01','7c49487':'P05','2f22f3c':'P05'}
import os
if os.path.exists('/verif/tools/fixes.json'): M=json.load(open('/verif/tools/fixes.json'))
log=subprocess.run('git -C /repo log --reverse --format="%h%x09%s" 52ba5bc..HEAD',shell=True,text=True,capture_output=True).stdout
out=list(known)
for l in log.splitlines():
    h,s=l.split('\t')
    if not s.startswith('fix:'): continue
    h7=h[:7]
    if h7 not in M: print('unassigned',h7,s); continue
    out.append({'property':M[h7],'status':'fixed','commit':h7,'what':s[5:],'line':f"fixed: property={M[h7]} {h7} {s[5:]}"})
json.dump(M,open('/verif/tools/fixes.json','w'),indent=0)
open('/verif/known_findings.json','w').write('[\n'+',\n'.join(' '+json.dumps(e,ensure_ascii=False) for e in out)+'\n]\n')
