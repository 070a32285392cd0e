#!/usr/bin/env python3
"""mk.py FILE.py... : each defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], MAIN (rust main body)"""
import sys, os, subprocess, json, shutil
WT='/tmp/wt'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(WT):
    sh('cp -a --reflink=auto /repo /tmp/wt; rm -rf /tmp/wt/target')
for f in sys.argv[1:]:
    g={}; exec(open(f).read(), g)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=WT)
    bad=False
    for p,o,n in g['EDITS']:
        s=open(f'{WT}/{p}').read()
        if s.count(o)!=1: print(g['ID'],'edit matches',s.count(o),p); bad=True; break
        open(f'{WT}/{p}','w').write(s.replace(o,n))
    if bad: continue
    d=f"/tmp/seed/out/{g['ID']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(sh('git diff',cwd=WT).stdout)
    open(d+'/main.rs','w').write(open('/tmp/seed/prelude.rs').read()+'\nfn main() {\n'+g['MAIN'].strip('\n')+'\n}\n')
    shutil.copy('/tmp/seed/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(d+'/meta.json','w'),indent=1)
    r=sh(f'bash {d}/demo.sh',cwd='/repo'); ok0=r.returncode
    if ok0: print(g['ID'],'demo fails on clean',r.returncode,r.stdout[-600:])
    r=sh(f'bash {d}/demo.sh',cwd=WT); ok1=r.returncode
    if ok1==0 or ok1==3: print(g['ID'],'demo with patch rc',ok1,r.stdout[-500:])
    out1=r.stdout
    r=sh('CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/wt-target cargo test --offline 2>&1 | tail -30',cwd=WT)
    tests='test result: ok' in r.stdout and 'FAILED' not in r.stdout and 'error' not in r.stdout
    os.makedirs('/tmp/svtlog',exist_ok=True)
    r2=sh('. /opt/vp/env.sh; cd /tmp/wt; touch src/lib.rs; CARGO_TARGET_DIR=/tmp/wt-target python3 /tmp/seed/svt.py /tmp/svtlog')
    got={l[5:] for l in r2.stdout.splitlines() if l.startswith('PASS ')}
    miss=[t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t.startswith('svtest:') and t not in got]
    if miss: tests=False; print(g['ID'],'SVTESTS',miss[:4])
    if not tests: print(g['ID'],'TESTS FAIL')
    good = ok0==0 and ok1 not in (0,3) and tests
    print(g['ID'],'GOOD' if good else 'BAD', out1[-300:].replace('\n',' / '))
    if good:
        t=f"/verif/seeded/{g['ID']}"; shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t)
