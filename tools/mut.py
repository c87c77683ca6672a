"""Mutation runs: python3 tools/mut.py FILE [NAME...]. FILE is a python list of
(name, repo-file, old, new, [properties], ...). For each: apply to /repo, run the stable tests, run the quick checks, undo."""
import json, os, subprocess, sys, time
R="/repo"
g={}; t=open(sys.argv[1]).read()
try: ms=eval(t)
except SyntaxError: exec(t,g); ms=g['MUTS']
only=sys.argv[2:]
skip=os.environ.get("NOTEST")
assert not subprocess.check_output(["git","-C",R,"status","--porcelain"]).strip(), "/repo dirty"
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for m in ms:
    name,edits,props=m
    if only and name not in only: continue
    try:
        for f,old,new in edits:
            p=os.path.join(R,f); s=open(p).read()
            if s.count(old)!=1: print(name,f,s.count(old),old); raise SystemExit
            open(p,"w").write(s.replace(old,new))
        note=""
        if not skip:
            r=subprocess.run(["bash","/opt/vp/test.sh","/tmp/mo.json"],capture_output=True,text=True)
            try:
                got=set(json.load(open('/tmp/mo.json'))['passed'])
            except Exception: got=set()
            miss=base-got
            note="tests ok" if not miss else f"TESTS FAIL {len(miss)} {sorted(miss)[:2]}"
            if len(miss)>100: print(name,"does not build",r.stdout[-600:],r.stderr[-600:]); continue
        res=[]
        if "FAIL" not in note or os.environ.get("ALL"):
            for p in props:
                t=time.time()
                r=subprocess.run(["bash","/verif/tools/check.sh",p,"quick"],capture_output=True,text=True,cwd="/verif")
                l=[x for x in r.stdout.splitlines() if x.startswith("run ")]
                res.append(f"{p}={r.returncode} {time.time()-t:.0f}s {l[0][:160] if l else (r.stderr[-300:] if r.returncode not in(0,1) else '')}")
                if r.returncode==1 and os.environ.get('FIRST'): break
        print(name,"|",note,"|"," ; ".join(res),flush=True)
    finally:
        subprocess.check_call(["git","-C",R,"checkout","-q","--","."])
