"""C18 stall onset and stall airspeed"""
import json, os
from ..common import *
from ..transform import full_case, scales

ID = "C18"
RULE = ("random airplanes and states; the search is replayed state by state with the section lift reported by a fresh model against the maximum lift of "
        "the described airfoils; non-trivial: onset above zero degrees")


def base(ctx, rates=.3):
    r = ctx.r
    s, a, c, st, m, S, R, P = full_case(ctx, nprops=int(gen.pick(r, 0, 0, 1)), wings=int(gen.pick(r, 1, 2, 2)), maxgrid=8, rates=rates)
    if r.random() < .3:
        for w in s["wings"]:
            for af in (w.get("airfoils") or {}).values():
                af["CL_max"] = float(af["CL_max"]*gen.U(r, .3, .8))
        S = rw.sections(s)
        m = mu(s)
    if r.random() < .8:
        c = {k: v*.3 for k, v in c.items()}
    if abs(a.get("beta", 0.)) > 12:
        a["beta"] = gen.U(r, -8, 8)
    ctx.note(spec=s, aero=a, controls=c, prop_state=st)
    return s, a, c, st, m, S, R, P


def onset(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = base(ctx)
    f = None
    kw = {}
    if r.random() < .2:
        f = kw["filename"] = file_path(ctx)
    try:
        with budget(8_000_000):
            res = m.stall_onset(a, c, st, **kw)
    except RuntimeError as e:
        res = None
    if f:
        w = json.load(open(f))
        os.remove(f)
        ctx.check_that(res is not None and w == json.loads(json.dumps(res)), "file of the stall onset")
    fresh = mu(s)
    if res is None or "error" in res:
        # no angle of the search grid may stall
        for x in np.arange(0, 900, 7)/10:
            cl = section_cl(fresh, a, c, st, x)
            if (cl > S.CLmax + 1e-6).any():
                raise Violation("section %d exceeds its maximum lift at %g degrees, but no stall is reported" % (int((cl - S.CLmax).argmax()), x))
        ctx.count("never stalls")
        return
    al = res["alpha"]
    ctx.check_that(abs(al*10 - round(al*10)) < 1e-9 and al >= 0, "stall angle not on the search grid")
    n = int(round(al*10))
    near = False
    for i in range(n + 1):
        x = .1*i
        cl = section_cl(fresh, a, c, st, x)
        over = cl - S.CLmax
        if (np.abs(over) < 1e-8).any():
            near = True            # on the limit within rounding
        if i < n:
            ctx.check_that(not (over > 1e-8).any(), "a section exceeds its maximum lift at %.1f degrees, below the reported stall at %.1f" % (x, al))
    if not near:
        ctx.check_that((over > 0).any(), "no section exceeds its maximum lift at the reported stall angle")
        ok = [i for i in range(S.N) if over[i] > 0 and S.name[i] == res["stalled_wing"] and abs(S.f[i] - res["span_location"]) < 1e-9]
        ctx.check_that(bool(ok), "reported stall location %s %g is not a stalled section" % (res["stalled_wing"], res["span_location"]),
                       stalled=[(S.name[i], float(S.f[i])) for i in np.where(over > 0)[0]][:6])
        ctx.count("left" if str(res["stalled_wing"]).startswith("left") else "right")
        # lift of that state
        with budget():
            t = fresh.solve(dict(a, alpha=float(al)), c, st)
        ctx.close(res["lift"], t["FL"], 1e-8*sum(scales(R, P)[:1])*10 + 1e-8*abs(t["FL"]), "lift at stall onset")
    ctx.count("grid states replayed", n + 1)
    ctx.nontrivial = n > 0


def section_cl(m, a, c, st, x):
    with budget():
        return np.array(m.distributions(dict(a, alpha=float(x)), c, st)[0]["section_CL"], float)


def airspeed(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = base(ctx, rates=.15)
    try:
        with budget(8_000_000):
            on = m.stall_onset(a, c, st)
    except RuntimeError:
        raise Skip()
    if on["lift"] <= 0:
        raise Skip()
    weight = float(on["lift"]*np.exp(gen.U(r, -2, 2)))
    ctx.note(weight=weight)
    ratelike = any(a.get(k) for k in ("roll_rate", "pitch_rate", "yaw_rate"))
    kw = {}
    f = None
    if r.random() < .2:
        f = kw["filename"] = file_path(ctx)
    try:
        with budget(30_000_000):
            res = m.stall_airspeed(weight, a, c, st, **kw)
    except RuntimeError:
        res = None
    if f:
        w = json.load(open(f))
        os.remove(f)
        ctx.check_that(res is not None and w == json.loads(json.dumps(res)), "file of the stall airspeed")
    if res is None or "error" in res:
        ctx.count("no stall airspeed found")
        ctx.check_that(bool(s["props"]) or ratelike, "no stall airspeed found although lift grows with the square of the speed")
        return
    V = res["airspeed"]
    ctx.check_that(np.isfinite(V), "airspeed not finite")
    if V <= 0:
        ctx.check_that(bool(s["props"]) or ratelike or abs(V + np.sqrt(weight/on["lift"])*a["V_mag"]) < 1e-6*abs(V), "stall airspeed not positive")
        ctx.count("negative root")
        return
    fresh = mu(s)
    with budget(8_000_000):
        chk = fresh.stall_onset(dict(a, V_mag=V), c, st)
    fs = scales(R, P)[0]*max(1., (V/a["V_mag"])**2)
    if abs(chk["lift"] - weight) > 1e-6*(weight + fs):
        # the onset may jump to another grid angle within the convergence tolerance
        alt = [fresh.stall_onset(dict(a, V_mag=V*(1 + e)), c, st)["lift"] for e in (-1e-9, 1e-9)]
        ctx.check_that(min(abs(x - weight) for x in alt) <= 1e-6*(weight + fs), "lift at the stall airspeed %g is %g, the weight is %g" % (V, chk["lift"], weight))
    if not s["props"] and not ratelike:
        ctx.close(V, a["V_mag"]*np.sqrt(weight/on["lift"]), 1e-7*V + 1e-8, "stall airspeed")
        ctx.check_that(res["alpha"] == on["alpha"] and res["stalled_wing"] == on["stalled_wing"], "stall angle at the stall airspeed")
    ctx.check_that(res["alpha"] == chk["alpha"] or bool(s["props"]) or ratelike, "reported stall angle")
    ctx.count("airspeeds")
    ctx.nontrivial = abs(V/a["V_mag"] - 1) > .01


SCENARIOS = {"onset": (onset, 170, 4000), "airspeed": (airspeed, 80, 2000)}
