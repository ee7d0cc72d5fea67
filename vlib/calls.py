"""random public calls on a MachUp model and their comparison"""
import os, json, copy
import numpy as np
from .common import *
from .core import StepBudget, Violation, CaseTimeout


def call(r, s, heavy=True, invalid=.12, files=.1, derivs=True):
    """(method, args, kwargs): json-like plain data"""
    a = gen.aero(r, s=s)
    c = gen.controls(r)
    st = gen.prop_state(r, s, a, ("J", "rps", "default", "static"))
    u = r.random()
    if u < .12:
        a = None
        st = gen.prop_state(r, s, {"V_mag": 10.}, ("J", "rps", "default"))
    if r.random() < .15:
        c = gen.pick(r, None, {})
    if r.random() < .2:
        st = None
    kw = dict(aero_state=a, control_state=c, prop_state=st)
    for k in list(kw):
        if kw[k] is None and r.random() < .5:
            del kw[k]
    if r.random() < invalid:
        return invalid_call(r, s, a, c, st)
    names = ["solve"]*5 + ["distributions"]*3
    if heavy:
        if derivs:
            names += ["stability_derivatives", "damping_derivatives", "control_derivatives", "derivatives"]
        if s["wings"]:
            names += ["target_lift"]*2 + ["pitch_trim"]*2 + ["stall_onset", "stall_airspeed"]
        names += ["create_stl"]
        if r.random() < .06:
            names = ["find_aero_center"]
    n = names[int(r.integers(len(names)))]
    if not s["wings"] and n not in ("solve", "distributions", "create_stl"):
        n = "solve"
    args = []
    q = load_scale(s, a)
    if n == "target_lift":
        args = [q*gen.U(r, -.2, .6)]
    if n == "pitch_trim":
        args = [q*gen.U(r, 0, .6)]
        if r.random() < .4:
            args.append(q*gen.U(r, -.05, .05)*s["scale"])
        if r.random() < .5:
            kw["error"] = 1e-6*q
    if n == "stall_airspeed":
        args = [q*gen.U(r, .3, 2.)]
        if r.random() < .85:
            kw["error"] = float(gen.pick(r, 1e-2, 1e-3, 1e-4))     # the search is long with the default
    if n == "create_stl":
        kw = {}
    if n in ("create_stl",) or (r.random() < files and n not in ("stability_derivatives", "damping_derivatives", "control_derivatives")):
        kw["filename"] = "FILE.stl" if n == "create_stl" else ("FILE.txt" if n == "distributions" else "FILE.json")
    return n, args, kw


def load_scale(s, a):
    a = a or {"V_mag": 10., "rho": .0023769}
    sw = sum(rw.full_wing(w)["span"]*rw.full_wing(w)["root_chord"]*2 for w in s["wings"]) or 1.
    return .5*a["rho"]*a["V_mag"]**2*sw


def invalid_call(r, s, a, c, st):
    """requests that must be refused"""
    a = dict(a or {"V_mag": 10., "rho": 1.})
    opts = []
    for k in ("V_mag", "rho"):
        b = {x: v for x, v in a.items() if x != k}
        if b:
            opts.append(("solve", [], dict(aero_state=b, control_state=c, prop_state=st)))
            opts.append(("distributions", [], dict(aero_state=b, control_state=c, prop_state=st)))
    if s["props"]:
        opts.append(("solve", [], dict(aero_state=a, prop_state={"throttle": .5})))
        opts.append(("solve", [], dict(aero_state=a, prop_state={"J": 0.})))
        opts.append(("solve", [], dict(aero_state=a, prop_state={"J": 0})))
        if not s.get("units") or not any(q.get("motor") for q in s["props"]):
            opts.append(("solve", [], dict(aero_state=a, prop_state={"electric_throttle": .5})))
    if s["wings"]:
        opts.append(("target_lift", [load_scale(s, a)*1e4], dict(aero_state=a, control_state=c, prop_state={"J": .5})))
        if not any("elevator" in (w.get("control") or {}).get("mix", {}) and (w["control"]["mix"]["elevator"] != 0) for w in s["wings"]):
            opts.append(("pitch_trim", [load_scale(s, a)*.1], dict(aero_state=a, prop_state={"J": .5})))
    else:
        opts += [("stall_onset", [], dict(aero_state=a)), ("stall_airspeed", [1.], dict(aero_state=a)), ("derivatives", [], dict(aero_state=a))]
    return opts[int(r.integers(len(opts)))]


def execute(m, cl, tag="x", steps=4_000_000):
    """("ok", result, file) or ("error", type name); arguments are copied so that they are pristine"""
    n, args, kw = cl
    args, kw = copy.deepcopy(args), copy.deepcopy(kw)
    return run_call(m, n, args, kw, tag, steps)


def run_call(m, n, args, kw, tag="x", steps=4_000_000):
    f = None
    if "filename" in kw:
        f = os.path.join(scratch(), "c_%d_%s_%s" % (os.getpid(), tag, kw["filename"]))
        if os.path.exists(f):
            os.remove(f)
        kw = dict(kw, filename=f)
    try:
        with budget(steps):
            res = getattr(m, n)(*args, **kw)
    except Violation:
        raise
    except (StepBudget, CaseTimeout):
        raise
    except Exception as e:
        return ("error", type(e).__name__ if type(e) is RuntimeError else "exception", None)
    body = None
    if f is not None and os.path.exists(f):
        body = open(f, "rb").read()
        if n == "create_stl":
            body = body[80:]            # the header of the STL holds a date
        os.remove(f)
    return ("ok", res, body)


def values(x):
    return list(numbers(x))


def agree(ctx, got, want, msg, rel=1e-7):
    """same outcome: kind, structure, texts and numbers"""
    ctx.check_that(got[0] == want[0], "%s: %s instead of %s" % (msg, describe(got), describe(want)))
    if got[0] == "error":
        return
    if frozen(got[1]) != frozen(want[1]):
        g, w = values(got[1]), values(want[1])
        ctx.check_that([k for k, _ in g] == [k for k, _ in w], "%s: different structure" % msg)
        # numbers are compared within their own entry (array) and against the whole result
        whole = max([abs(v) for _, v in w if np.isfinite(v)] or [0.])
        groups = {}
        for k, v in w:
            groups[k.split("[")[0]] = max(groups.get(k.split("[")[0], 0.), abs(v) if np.isfinite(v) else 0.)
        for (k, x), (_, y) in zip(g, w):
            sc = groups[k.split("[")[0]] if "[" in k else whole
            same_nan = x == y or (np.isnan(x) and np.isnan(y))
            if not same_nan:
                ctx.close(x, y, rel*max(sc, 1e-300), msg + " " + k)
        ctx.check_that(texts(got[1]) == texts(want[1]), "%s: different texts" % msg)
    else:
        ctx.evals += 1
    ctx.check_that((got[2] is None) == (want[2] is None), msg + ": file")


def texts(x):
    if isinstance(x, dict):
        return {k: texts(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [texts(v) for v in x]
    if isinstance(x, np.ndarray):
        return [str(v) for v in x.ravel()] if x.dtype.kind in "OU" else None
    return x if isinstance(x, str) else None


def describe(o):
    return "an error (%s)" % o[1] if o[0] == "error" else "a result"
