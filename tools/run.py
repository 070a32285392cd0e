#!/usr/bin/env python3
"""run.py ID[:PROP,..]...: applies each seed to /repo, runs the quick check of its property, reverts"""
import sys, subprocess, json, time, os
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
for a in sys.argv[1:]:
    i,_,p=a.partition(':')
    d=f'/verif/seeded/{i}'
    props=p.split(',') if p else [json.load(open(d+'/meta.json'))['property']]
    r=sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(i,'APPLY',r.stderr); continue
    try:
        for q in props:
            t=time.time(); r=sh(f'python3 bin/check.py {q} --tier quick', cwd='/verif', env=env)
            v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print(f"{i} {q} rc={r.returncode} {time.time()-t:.0f}s {v[:1]} {'' if v else r.stdout[-300:]}", flush=True)
            rf='/verif/bin/seed_results.json'; R=json.load(open(rf)) if os.path.exists(rf) else {}
            R[i]=f"{'caught' if r.returncode==1 and v else 'missed (rc %d)'%r.returncode} by {q}"; json.dump(R,open(rf,'w'),indent=1,sort_keys=True)
    finally: sh('git -C /repo checkout -- .')
