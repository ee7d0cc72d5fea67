"""python -m vlib.run <ID> [quick|thorough]      decide one property
   python -m vlib.run replay <file>              re-execute one recorded case"""
import os, sys
for k, v in dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                 MPLCONFIGDIR="/tmp").items():
    os.environ[k] = v
sys.dont_write_bytecode = True
import json, time, signal, shutil, tempfile, importlib, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEADLINE = {"quick": 240., "thorough": 780.}
CASE_WALL = 150


def load(cid):
    return importlib.import_module("vlib.checks." + cid.lower())


def _alarm(sig, frm):
    from .core import CaseTimeout
    raise CaseTimeout()


def _work(args):
    cid, sc, seed, i, tier = args
    from . import core
    mod = load(cid)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_WALL)
    try:
        return core.run_case(mod, sc, seed, i, tier)
    except core.CaseTimeout:
        return dict(scenario=sc, index=i, status="timeout", msg="wall clock", counts={}, maxes={}, evals=0, nontrivial=False, sig="", steps=0)
    except BaseException:
        return dict(scenario=sc, index=i, status="error", msg=traceback.format_exc()[-1500:], counts={}, maxes={}, evals=0,
                    nontrivial=False, sig="", steps=0)
    finally:
        signal.alarm(0)


def known(cid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == cid and e.get("status") == "known":
                    out.append(e)
    return out


def write_replay(cid, res, seed, tier):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s_%d_%d.json" % (cid, res["scenario"], seed, res["index"]))
    with open(path, "w") as f:
        json.dump(dict(property=cid, scenario=res["scenario"], seed=seed, index=res["index"], tier=tier, message=res.get("msg"),
                       input=res.get("input"), data=res.get("data")), f, indent=1, default=repr)
    return path


def main(argv):
    if argv[0] == "replay":
        j = json.load(open(argv[1]))
        from . import core
        os.environ["VLIB_SCRATCH"] = d = tempfile.mkdtemp(prefix="vlib_")
        try:
            r = core.run_case(load(j["property"]), j["scenario"], j["seed"], j["index"], j["tier"])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps({k: r.get(k) for k in ("status", "msg", "data", "input")}, indent=1, default=repr)[:8000])
        return 1 if r["status"] == "violation" else 0
    cid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vlib_")
    os.environ["VLIB_SCRATCH"] = scratch
    os.environ["MPLCONFIGDIR"] = scratch
    try:
        return decide(cid, tier, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(cid, tier, seed, t0):
    mod = load(cid)
    jobs = []
    scen = {}
    for name, (fn, nq, nt) in mod.SCENARIOS.items():
        n = nq if tier == "quick" else nt
        if os.environ.get("VLIB_SCALE"):
            n = max(1, int(n*float(os.environ["VLIB_SCALE"])))
        scen[name] = dict(planned=n, ok=0, skipped=0, evaluations=0)
        jobs += [(cid, name, seed, i, tier) for i in range(n)]
    # interleave the scenarios so that a deadline cuts all of them evenly
    jobs.sort(key=lambda j: (j[3]/max(1, scen[j[1]]["planned"])))
    stats, counts, maxes, sigs, samples = {}, {}, {}, set(), []
    viol, errors = [], []
    nw = int(os.environ.get("VLIB_WORKERS", "0")) or min(8, os.cpu_count() or 2)
    ctx = mp.get_context("fork")
    cut = False
    steps = 0
    with ctx.Pool(nw) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        done = 0
        while done < len(jobs):
            left = DEADLINE[tier] - (time.time() - t0)
            try:
                r = it.next(timeout=max(0.1, left))
            except mp.TimeoutError:
                cut = True
                break
            except StopIteration:
                break
            done += 1
            s = scen[r["scenario"]]
            stats[r["status"]] = stats.get(r["status"], 0) + 1
            s["evaluations"] += r["evals"]
            steps = max(steps, r.get("steps", 0))
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
            for k, v in r["maxes"].items():
                maxes[k] = max(maxes.get(k, 0.), v)
            if r["status"] == "ok":
                s["ok"] += 1
                if r["nontrivial"]:
                    sigs.add(r["sig"])
            elif r["status"] == "skip":
                s["skipped"] += 1
            elif r["status"] == "violation":
                viol.append(r)
            elif r["status"] == "error":
                errors.append(r)
            if r.get("input") and len(samples) < 6 and r["status"] == "ok" and not any(x["scenario"] == r["scenario"] for x in samples[-2:]):
                samples.append(dict(scenario=r["scenario"], index=r["index"], input=r["input"]))
            if len(viol) >= int(os.environ.get("VLIB_STOP", 3)) or len(errors) >= 20 or time.time() - t0 > DEADLINE[tier]:
                cut = True
                break
        pool.terminate()
    for k in known(cid):
        print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    comparisons = sum(s["evaluations"] for s in scen.values())
    evaluations = stats.get("ok", 0) + stats.get("violation", 0)
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=[json.dumps(x, default=repr)[:1500] for x in samples] or ["none"]),
              wall_s=round(time.time() - t0, 2),
              observed=dict(monitor_comparisons=comparisons, scenarios=scen, case_status=stats, events=counts, worst_ratio={k: float("%.3g" % v) for k, v in maxes.items()},
                            max_loop_iterations_in_a_case=steps, cut_by_deadline=cut))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    viol.sort(key=lambda r: r["index"])
    for r in viol:
        print("VIOLATION property=%s replay=%s" % (cid, write_replay(cid, r, seed, tier)))
        print("   scenario %s case %d: %s" % (r["scenario"], r["index"], r["msg"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d comparisons, %s, %.1f s" % (
        cid, tier, seed, evaluations, len(sigs), comparisons, stats, time.time() - t0))
    if viol:
        return 1
    if errors:
        print("HARNESS ERROR (no verdict):\n" + errors[0]["msg"])
        return 2
    ok = stats.get("ok", 0)
    if ok < 0.2*len(jobs) and not cut or ok == 0:
        print("too few usable cases: no verdict")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
