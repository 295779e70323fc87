"""make seeded bugs: list of dict(id, prop, file, edits[(old,new)], needs, breaks, demo)"""
import subprocess, os, sys, json, shutil, tempfile, importlib.util
spec=importlib.util.spec_from_file_location("seeds", sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only=set(sys.argv[2:])
PY="/opt/venv/bin/python"
env=dict(os.environ,MPLBACKEND="Agg",OPENBLAS_NUM_THREADS="2",PYTHONDONTWRITEBYTECODE="1",PYTHONHASHSEED="0")
stable=set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
PRE='''import os
import sys
import io
import contextlib

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
import ff
from ff import ff_lib, ff_utils, ff_combinatorics, ff_graph_theory, ff_random_states, ff_distance_measures

'''
from concurrent.futures import ThreadPoolExecutor
def one(s):
    d="/verif/seeded/"+s["id"]
    tmp=tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(f"cp -a /repo {tmp}/repo",shell=True,check=True)
        r=tmp+"/repo"
        for f,old,new in s["edits"]:
            p=f"{r}/src/ff/{f}.py"; src=open(p).read()
            k=s.get("count",1)
            if src.count(old)<1 or (src.count(old)>1 and not s.get("first")): return s["id"],"OLD count %d: %r"%(src.count(old),old)
            open(p,"w").write(src.replace(old,new,1))
        diff=subprocess.run(["git","-C",r,"diff"],capture_output=True,text=True).stdout
        open(tmp+"/demo.py","w").write(PRE+s["demo"].strip("\n")+"\n")
        def demo(cwd):
            c=subprocess.run([PY,tmp+"/demo.py"],cwd=cwd,env=env,capture_output=True,text=True,timeout=280)
            return c.returncode,(c.stdout+c.stderr)[-400:]
        a=demo("/repo"); b=demo(r)
        if a[0]!=0: return s["id"],"demo fails on unchanged: "+a[1]
        if b[0]==0: return s["id"],"demo passes on patched"
        c=subprocess.run([PY,"-m","pytest","tests","-m","","-p","no:cacheprovider","-q","--timeout=60","--junitxml",tmp+"/o.xml"],cwd=r,env=dict(env,PYTHONPATH=r+"/src"),capture_output=True,text=True)
        subprocess.run([sys.executable,"/opt/vp/results.py",tmp+"/o.json","junit:"+tmp+"/o.xml"])
        bad=stable-set(json.load(open(tmp+"/o.json"))["passed"])
        if bad: return s["id"],"tests: "+str(sorted(bad)[:3])
        if 0: return s["id"],"tests: "+"\n".join(c.stdout.splitlines()[-6:])
        os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        shutil.copy(tmp+"/demo.py",d+"/demo.py")
        open(d+"/demo.sh","w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
        return s["id"],"ok"
    finally:
        shutil.rmtree(tmp)
todo=[s for s in m.S if not only or s["id"] in only]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one,todo): print(*r,flush=True)
