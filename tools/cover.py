import sys, os, tempfile, json, collections
sys.path.insert(0,"/verif"); os.environ["VLIB_SCRATCH"]=tempfile.mkdtemp(prefix="vlib_")
for k in ("OPENBLAS_NUM_THREADS",): os.environ[k]="1"
from vlib import run, core
hit=collections.defaultdict(set)
M=sys.monitoring
def line(code, n):
    if "/machup/" in code.co_filename: hit[os.path.basename(code.co_filename)].add(n)
    return M.DISABLE
import multiprocessing as mp
def f(cid):
    M.use_tool_id(4,"cov"); M.register_callback(4,M.events.LINE,line); M.set_events(4,M.events.LINE)
    mod=run.load(cid)
    for sc,(fn,q,t) in mod.SCENARIOS.items():
        for i in range(min(q,12 if cid not in("C09","C27","C24") else 5)):
            try: core.run_case(mod,sc,1,i,"quick")
            except BaseException as e: print(cid,sc,i,repr(e)[:80])
    return {k:sorted(v) for k,v in hit.items()}
with mp.get_context("fork").Pool(4,maxtasksperchild=1) as p:
    tot=collections.defaultdict(set)
    for r in p.imap_unordered(f,["C%02d"%k for k in range(1,30)],chunksize=1):
        for k,v in r.items(): tot[k]|=set(v)
json.dump({k:sorted(v) for k,v in tot.items()},open("/tmp/exp/cover.json","w"))
