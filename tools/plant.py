"""development helper: turns a description of a planted bug into /verif/seeded/<id>/ after confirming it in a scratch copy, and runs checks against it
usage: plant.py make FILE.py [ids]   (FILE defines PLANTS: list of dict(id, property, needs, what, edits=[(file, old, new)], demo=python source))
       plant.py hunt [ids] [--checks C01,C02|own|all]"""
import sys, os, json, subprocess, shutil, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")


def copy(name):
    d = "/tmp/exp/pl/" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d


def demo(seed, cwd):
    return subprocess.run(["bash", os.path.join(seed, "demo.sh")], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)


def tests(d):
    stable = [t.replace(".", "/", 2).replace("::", ".py::", 1) for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"] + stable, cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
    return p.returncode == 0 and "7 passed" in p.stdout, p.stdout[-300:]


def make(p):
    sd = os.path.join(HERE, "seeded", p["id"])
    d = copy(p["id"])
    for f, old, new in p["edits"]:
        path = os.path.join(d, "machup", f)
        s = open(path, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (p["id"], f, s.count(old), old)
        open(path, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=d)
    os.makedirs(sd, exist_ok=True)
    open(sd + "/patch.diff", "wb").write(diff)
    open(sd + "/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport numpy as np\n" + p["demo"].strip() + "\n")
    open(sd + "/demo.sh", "w").write("#!/bin/bash\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(sd + "/demo.sh", 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what"]}, open(sd + "/meta.json", "w"), indent=1)
    clean = demo(sd, "/repo")
    bad = demo(sd, d)
    ok, out = tests(d)
    good = clean.returncode == 0 and bad.returncode != 0 and ok
    print("%-28s %s  demo clean %d patched %d tests %s" % (p["id"], "OK" if good else "*** BAD", clean.returncode, bad.returncode, ok))
    if clean.returncode:
        print(clean.stdout[-300:], clean.stderr[-900:])
    if not bad.returncode:
        print("   patched:", bad.stdout[-300:], bad.stderr[-300:])
    else:
        print("   ", (bad.stderr.strip().splitlines() or [""])[-1][:150])
    if not ok:
        print(out)
    shutil.rmtree(d)
    return good


def hunt(i, checks):
    sd = os.path.join(HERE, "seeded", i)
    meta = json.load(open(sd + "/meta.json"))
    d = copy("hunt_" + i)
    subprocess.check_call(["git", "apply", sd + "/patch.diff"], cwd=d)
    ids = [meta["property"]] if checks == "own" else ["C%02d" % k for k in range(1, 40) if os.path.exists(HERE + "/vlib/checks/c%02d.py" % k)] if checks == "all" else checks.split(",")
    res = []
    for c in ids:
        p = subprocess.run([PY, "-m", "vlib.run", c, "quick"], cwd=HERE, env=dict(ENV, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
        hit = p.returncode == 1 and "VIOLATION property=" + c in p.stdout
        res.append((c, hit, p.returncode))
        if c == meta["property"]:
            print("  ", [l[:170] for l in p.stdout.splitlines() if "scenario" in l][:1])
    print("%-28s %s own:%s  %s" % (i, meta["property"], "CAUGHT" if any(c == meta["property"] and h for c, h, _ in res) else "MISSED",
                                    " ".join(c for c, h, _ in res if h) + "".join(" %s:rc%d" % (c, r) for c, h, r in res if not h and r)), flush=True)
    shutil.rmtree(d)


if sys.argv[1] == "make":
    ps = runpy.run_path(sys.argv[2])["PLANTS"]
    for p in ps:
        if len(sys.argv) < 4 or p["id"] in sys.argv[3:]:
            make(p)
else:
    a = sys.argv[2:]
    checks = "own"
    if "--checks" in a:
        k = a.index("--checks")
        checks = a[k + 1]
        a = a[:k] + a[k + 2:]
    for i in a or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        hunt(i, checks)
