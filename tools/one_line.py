import sys,subprocess,shutil,os
# usage: mm.py checks file line old new
PY="/opt/venv/bin/python"
def go(name,checks,f,line,old,new):
    d="/tmp/exp/mm_%s"%name; shutil.rmtree(d,ignore_errors=True)
    shutil.copytree("/repo",d,ignore=shutil.ignore_patterns(".git"))
    p=d+"/machup/"+f; L=open(p,newline="").read().split("\n")
    assert old in L[line-1],(name,L[line-1])
    L[line-1]=L[line-1].replace(old,new,1); open(p,"w",newline="").write("\n".join(L))
    for c in checks.split(","):
        r=subprocess.run([PY,"-m","vlib.run",c,"quick"],cwd="/verif",env=dict(os.environ,VERIF_REPO=d,VERIF_SEED="1",VLIB_STOP="1",VLIB_EVIDENCE="/tmp/exp/ev_"+name,VLIB_WORKERS="4",PYTHONDONTWRITEBYTECODE="1"),capture_output=True,text=True)
        print(name,c,r.returncode,[l[:140] for l in r.stdout.splitlines() if "scenario" in l][:1],flush=True)
        if r.returncode: break
    shutil.rmtree(d)
for m in eval(open(sys.argv[1]).read()): go(*m)
