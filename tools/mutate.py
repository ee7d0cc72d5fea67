"""development helper: mutation analysis. Changes one operator, constant, condition or statement of /repo/machup at a time, drops the changes that the
stable tests see, and runs the checks (scaled down, one after another) until one raises an alarm.
usage: mutate.py OUT.jsonl [--every N] [--offset K] [--workers W] [--only IDS]     result: one line per mutant; "killed" by which check, or "survived"."""
import ast, copy, sys, os, json, subprocess, shutil, argparse, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
W = "/tmp/exp/mw"
BASE = W + "/base"        # snapshot: /repo and /verif may change meanwhile
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", VLIB_WORKERS="1", VLIB_STOP="1")
FILES = ("MU.py", "geometry.py", "llgrid.py", "llmodel.py", "propmodel.py", "propssolver.py", "outputstl.py", "helpers.py")
ORDER = ["C03", "C02", "C01", "C25", "C13", "C14", "C15", "C04", "C06", "C08", "C26", "C05", "C12", "C20", "C22", "C16", "C17", "C11", "C18", "C19",
         "C21", "C28", "C10", "C29", "C23", "C09", "C07", "C24", "C27"]
FIRST = {"MU.py": ["C04", "C16", "C17", "C18", "C21", "C23", "C09", "C19", "C10", "C29"], "geometry.py": ["C01", "C02", "C25", "C22", "C28"],
         "propmodel.py": ["C25", "C13", "C14", "C12", "C15", "C11"], "propssolver.py": ["C14", "C04", "C15", "C12", "C23", "C20"], "outputstl.py": ["C20"],
         "helpers.py": ["C20"]}
SCALE = {"C09": .03, "C27": .02, "C24": .03, "C10": .05, "C18": .06, "C19": .06, "C28": .03, "C29": .05, "C21": .08, "C23": .05}


def sites(tree, cover=None):
    """(path of the node, kind) of every possible mutation, in a fixed order"""
    out = []
    for n, x in enumerate(ast.walk(tree)):
        if cover is not None and not any(k in cover for k in range(getattr(x, "lineno", 0), getattr(x, "end_lineno", 0) + 1)):
            continue
        if isinstance(x, ast.BinOp) and type(x.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow):
            if not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)) and not isinstance(x.right, ast.Constant) or True:
                out.append((n, "op"))
        elif isinstance(x, ast.Compare) and len(x.ops) == 1:
            out.append((n, "edge" if type(x.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE) else "not"))
            if type(x.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
                out.append((n, "flip"))
        elif isinstance(x, ast.Constant) and type(x.value) in (int, float):
            out.append((n, "const"))
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            out.append((n, "sign"))
        elif isinstance(x, ast.BoolOp):
            out.append((n, "bool"))
        elif isinstance(x, (ast.If, ast.IfExp)):
            out.append((n, "false"))
        elif isinstance(x, (ast.AugAssign,)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) \
                or isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((n, "drop"))
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("copy", "deepcopy"):
            out.append((n, "alias"))
    return out


def mutate(src, site):
    tree = ast.parse(src)
    n, kind = site
    x = list(ast.walk(tree))[n]
    line = getattr(x, "lineno", 0)
    before = ast.unparse(x)
    if kind == "op":
        x.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}[type(x.op)]()
    elif kind == "edge":
        x.ops[0] = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}[type(x.ops[0])]()
    elif kind == "flip":
        x.ops[0] = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(x.ops[0])]()
    elif kind == "not":
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        x.ops[0] = m[type(x.ops[0])]()
    elif kind == "const":
        v = x.value
        x.value = v + 1 if type(v) is int else (v*1.1 if v else .1)
    elif kind == "sign":
        x.op = ast.UAdd()
    elif kind == "bool":
        x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
    elif kind == "false":
        x.test = ast.Constant(False)
    elif kind == "alias":
        new = x.func.value if x.func.attr == "copy" and not x.args else x.args[0]
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is x:
                    setattr(p, f, new)
                elif isinstance(v, list) and any(e is x for e in v):
                    v[[e is x for e in v].index(True)] = new
        return ast.unparse(tree), line, kind + ": " + before[:90]
    elif kind == "drop":
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if isinstance(v, list) and any(e is x for e in v):
                    v[[e is x for e in v].index(True)] = ast.Pass()
        return ast.unparse(ast.fix_missing_locations(tree)), line, kind + ": " + before[:90]
    after = ast.unparse(x)
    if kind == "false":
        before, after = before.split("\n")[0], after.split("\n")[0]
    return ast.unparse(tree), line, "%s: %s -> %s" % (kind, before[:90], after[:90])


def run(job):
    f, site, k = job
    src = open(BASE + "/machup/" + f).read()
    new, line, what = mutate(src, site)
    d = "%s/%d" % (W, k)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE, d, ignore=shutil.ignore_patterns(".git"))
    open(d + "/machup/" + f, "w").write(new)
    res = dict(file=f, line=line, what=what, site=list(site))
    try:
        stable = [t.replace(".", "/", 2).replace("::", ".py::", 1) for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
        try:
            p = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"] + stable, cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True, timeout=60)
            ok = p.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            return dict(res, result="tests")
        order = FIRST.get(f, [])
        order = order + [c for c in ORDER if c not in order]
        for c in only or order:
            e = dict(ENV, VERIF_REPO=d, VLIB_SCALE=str(SCALE.get(c, .07)*scale), VERIF_SEED=str(seed), VLIB_EVIDENCE="/tmp/exp/mw/ev%d" % k)
            try:
                p = subprocess.run([PY, "-m", "vlib.run", c, "quick"], cwd=HERE, env=e, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                return dict(res, result="timeout", check=c)
            if p.returncode:
                return dict(res, result="killed", check=c, msg=[l[:150] for l in p.stdout.splitlines() if "scenario" in l][:1])
        return dict(res, result="survived")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--every", type=int, default=1)
    a.add_argument("--offset", type=int, default=0)
    a.add_argument("--workers", type=int, default=8)
    a.add_argument("--scale", type=float, default=1.)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--only", default="")
    a.add_argument("--files", default="")
    a.add_argument("--cover", default="", help="json: executed lines of every file")
    a.add_argument("--again", default="", help="repeat the survivors of an earlier result")
    o = a.parse_args()
    scale, seed, only = o.scale, o.seed, [x for x in o.only.split(",") if x]
    shutil.rmtree(BASE, ignore_errors=True)
    shutil.copytree("/repo", BASE, ignore=shutil.ignore_patterns(".git"))
    shutil.rmtree(W + "/verif", ignore_errors=True)
    shutil.copytree(HERE, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded"))
    HERE = W + "/verif"
    jobs = []
    if o.again:
        for l in open(o.again):
            r = json.loads(l)
            if r["result"] in ("survived", "timeout"):
                jobs.append((r["file"], tuple(r["site"])))
    else:
        for f in FILES:
            if not o.files or f in o.files.split(","):
                cov = json.load(open(o.cover)).get(f, []) if o.cover else None
                jobs += [(f, s) for s in sites(ast.parse(open(BASE + "/machup/" + f).read()), None if cov is None else set(cov))]
        print(len(jobs), "mutants")
        jobs = jobs[o.offset::o.every]
    done = set()
    if os.path.exists(o.out):
        done = {(r["file"], tuple(r["site"])) for r in map(json.loads, open(o.out))}
    jobs = [(f, s, k) for k, (f, s) in enumerate(jobs) if (f, s) not in done]
    print(len(jobs), "to do", flush=True)
    with ThreadPoolExecutor(o.workers) as ex, open(o.out, "a") as h:
        for r in as_completed([ex.submit(run, j) for j in jobs]):
            r = r.result()
            h.write(json.dumps(r) + "\n")
            h.flush()
