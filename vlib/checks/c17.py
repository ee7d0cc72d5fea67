"""C17 target lift and pitch trim attain what was asked"""
import json, os
from ..common import *
from ..transform import full_case, scales

ID = "C17"
RULE = ("random airplanes, base states and targets; the returned angle of attack and elevator are applied to a fresh model; "
        "non-trivial: target away from the load of the start state")


def base(ctx, elevator=False):
    r = ctx.r
    for _ in range(20):
        s, a, c, st, m, S, R, P = full_case(ctx, nprops=int(gen.pick(r, 0, 0, 0, 1)), wings=int(gen.pick(r, 1, 2, 2)), maxgrid=10)
        if not elevator:
            break
        if np.abs(S.me*S.eff).max() > .05:
            break
    else:
        raise Skip("no elevator")
    if abs(a.get("alpha", 0.)) > 25 or abs(a.get("beta", 0.)) > 20:
        a["alpha"], a["beta"] = gen.U(r, -5, 5), gen.U(r, -5, 5)
    if r.random() < .12:
        a["alpha"] = gen.pick(r, -.2, 0., .1, -.5)
    return s, a, c, st, m, S, R, P


def at(s, a, c, st, m=None):
    with budget():
        return (m or mu(s)).solve(a, c, st)


def lift(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = base(ctx)
    al = gen.pick(r, gen.U(r, -8, 10), a.get("alpha", 0.), p=[.92, .08])
    fs, ms = scales(R, P)
    FL = {x: at(s, dict(a, alpha=x), c, st)["FL"] for x in (al - 1, al, al + 1)}
    slope = FL[al + 1] - FL[al - 1]
    curve = FL[al + 1] - 2*FL[al] + FL[al - 1]
    target = FL[al]
    if r.random() < .08 and min(FL.values())*max(FL.values()) < 0:
        target = 0.
    kw = {}
    f = None
    if r.random() < .2:
        f = kw["filename"] = file_path(ctx)
    if r.random() < .2:
        c = None if not any((c or {}).values()) else c
    ctx.note(spec=s, aero=a, controls=c, prop_state=st, target=target, start=a.get("alpha"), attained_at=al)
    bef = frozen((a, c, st))
    try:
        with budget():
            res = m.target_lift(target, a, c, st, **kw)
    except RuntimeError as e:
        res = None
    if res is None or "error" in res:
        if not s["props"] and abs(slope) > 20*abs(curve) and abs(slope)*30 > fs*.05 and S.N > 1:
            raise Violation("a lift attained at alpha = %g is reported as unattainable" % al)
        ctx.count("reported unattainable")
        return
    if f:
        ctx.check_that(json.load(open(f)) == {k: v for k, v in res.items()}, "file of target lift")
        os.remove(f)
    x = res["alpha"]
    ctx.check_that(np.isfinite(x), "angle of attack not finite")
    got = at(s, dict(a, alpha=x), c, st)["FL"]
    lo, hi = at(s, dict(a, alpha=x - 1e-6), c, st)["FL"], at(s, dict(a, alpha=x + 1e-6), c, st)["FL"]
    # a change of the angle of 1e-6 degrees brackets the convergence criterion of 1e-9
    tol = abs(hi - lo) + 1e-9*max(1., R["cond"]/1e4)*max(fs, abs(target))
    ctx.close(got, target, tol, "lift at the returned angle of attack")
    ctx.check_that(frozen((a, c, st)) == bef, "arguments modified")
    ctx.count("targets attained")
    ctx.nontrivial = abs(a.get("alpha", 0.) - x) > .1


def trim(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = base(ctx, True)
    al, de = gen.U(r, -4, 8), gen.U(r, -8, 8)
    fs, ms = scales(R, P)
    c = dict(c)
    goal = at(s, dict(a, alpha=al), dict(c, elevator=de), st)
    mt = goal["MY"] if r.random() < .6 else 0.
    err = 1e-7*min(fs, ms)
    if max(fs, ms) < 500 and R["cond"] < 1e4 and r.random() < .5:
        err = 1e-9                 # the default
    ctx.note(spec=s, aero=a, controls=c, prop_state=st, target=[goal["FL"], mt], attained_at=[al, de], error=err)
    f = None
    kw = {}
    if r.random() < .15:
        f = kw["filename"] = file_path(ctx)
    argc = c if r.random() < .8 or any(v for k, v in c.items() if k != "elevator") else gen.pick(r, None, {})
    m0 = mu(s)
    if err != 1e-9:
        kw["error"] = err
    try:
        with budget():
            if r.random() < .5 or mt:
                res = m0.pitch_trim(goal["FL"], mt, a, argc, st, **kw)
            else:
                res = m0.pitch_trim(goal["FL"], aero_state=a, control_state=argc, prop_state=st, **kw)
    except (RuntimeError, np.linalg.LinAlgError) as e:
        res = None
        ctx.check_that("no elevator" not in str(e), "an airplane with an effective elevator is reported to have none")
    if f:
        w = json.load(open(f))
        os.remove(f)
        if res is None:
            ctx.check_that("error" in w, "file of a failed trim")
        else:
            ctx.check_that(w == res, "file of a trim")
    if res is None or "error" in res:
        ctx.count("reported untrimmable")
        if well_posed(s, a, c, st, al, de, fs, ms, mt, S) and mt == goal["MY"]:
            raise Violation("a trim state at alpha=%g elevator=%g exists, but is reported as unattainable" % (al, de))
        return
    t = at(s, dict(a, alpha=res["alpha"]), dict(c, elevator=res["elevator"]), st)
    w = 1e-9*max(1., R["cond"]/1e4)
    ctx.close(t["FL"], goal["FL"], err + w*max(fs, abs(goal["FL"])), "lift at the trim state")
    ctx.close(t["MY"], mt, err + w*max(ms, abs(mt)), "pitching moment at the trim state")
    ctx.count("trims attained")
    ctx.nontrivial = abs(res["elevator"]) > .1


def well_posed(s, a, c, st, al, de, fs, ms, mt, S):
    """the linear system at the start and at the solution are alike and well conditioned, no propellers, deflections below the
    efficiency break at 11 degrees: Newton's method converges"""
    if s["props"] or any(abs(v) > 5 for k, v in c.items() if k != "elevator") or S.N < 2:
        return False
    if np.abs(S.me).max()*abs(de) > 5 or abs(a.get("beta", 0)) > 10:
        return False

    def jac(x, y):
        f = lambda p, q: (lambda t: np.array([t["FL"]/fs, t["MY"]/ms]))(at(s, dict(a, alpha=p), dict(c, elevator=q), st))
        return np.column_stack([(f(x + .5, y) - f(x - .5, y)), (f(x, y + .5) - f(x, y - .5))])
    J0, J1 = jac(0., 0.), jac(al, de)
    if np.linalg.cond(J1) > 100 or np.linalg.cond(J0) > 100:
        return False
    return np.linalg.norm(np.linalg.solve(J0, J1) - np.eye(2)) < .15


SCENARIOS = {"lift": (lift, 600, 6000), "trim": (trim, 500, 5000)}
