"""C13 blade-element equilibrium and integrated propeller loads"""
import numpy as np
from ..common import *

ID = "C13"
RULE = ("random propellers (all pitch/chord kinds, 1-6 blades, one to four airfoils) over advance ratios 0-2.5 including windmilling and static states; "
        "non-trivial: nodes on both sides of stall or a blade with varying airfoil, or an advance ratio outside 0.2-0.8")


def state(r, a, d):
    u = r.random()
    if u < .55:
        return {"J": gen.U(r, .05, 1.2)}
    if u < .7:
        return {"J": gen.U(r, 1.2, 2.5)}
    if u < .8:
        return {"J": gen.U(r, .001, .05)}
    if u < .88:
        return {"J": 0., "rot_per_sec": gen.U(r, 5, 200)}
    if u < .92:
        return None
    return {"rot_per_sec": a["V_mag"]/(d*gen.U(r, .05, 1.5))}


def case(ctx, n=1):
    r = ctx.r
    for _ in range(6):
        s = prop_only(r, n)
        if all(good_blade(rp.Blade(q)) for q in s["props"]):
            break
    else:
        raise Skip("degenerate blade")
    a = gen.aero(r, rates=0)
    d = rp.full_prop(s["props"][0])["d"]
    st = state(r, a, d)
    ctx.note(spec=s, aero=a, prop_state=st)
    return s, a, st


def equilibrium(ctx):
    s, a, st = case(ctx)
    m = mu(s)
    ps = PropsSolver(m.myairplane, None)
    with budget():
        wd, pd = m.distributions(a, None, st)
    q = s["props"][0]
    B = rp.Blade(q)
    J, n = advance(q, st, a["V_mag"])
    D = lambda k: np.asarray(pd[k], float)
    ctx.check_that(list(pd["name"]) == [q["name"]]*B.n, "names of the propeller nodes")
    ctx.close(D("radial_position"), B.r, 1e-12*B.d, "radial positions")
    ctx.close(D("advance_angle"), np.degrees(np.arctan2(J, np.pi*B.z)), 1e-9, "advance angle")
    ctx.close(D("pitch"), np.degrees(B.beta), 1e-8, "aerodynamic pitch angle")
    ei = np.radians(D("induced_angle"))
    al = np.radians(D("alpha"))
    einf = np.arctan2(J, np.pi*B.z)
    ctx.close(al, B.beta - einf - ei, 1e-10, "alpha = pitch - advance - induced angle")
    res = B.residual(J, ei)
    kink = B.kinks(al)
    # a node whose polar jumps at the solution has no exact solution: the sign change is localised instead
    jump = np.abs(B.CL(al + 1e-6) - B.CL(al - 1e-6))*B.sig/(8*B.z)
    bad = (np.abs(res) > 1e-7) & (np.abs(res) > 1.01*jump + 1e-7)
    ctx.check_that(not bad.any(), "section lift and induced angle are not in equilibrium: residual %.3g at node %d" % (
        np.abs(res).max(), int(np.abs(res).argmax())))
    ctx.maxi("equilibrium residual away from jumps", np.abs(res[jump < 1e-4]).max() if (jump < 1e-4).any() else 0)
    ok = kink > KINK
    cl = B.CL(al)
    cd = B.CD(al, D("section_CL"))
    sc = 1 + np.abs(cl)
    ctx.close(D("section_CL")[ok], cl[ok], 1e-8*sc[ok]*10, "section lift coefficient")
    ctx.close(D("section_CD")[ok], cd[ok], 1e-8*(1 + np.abs(cd[ok])), "section drag coefficient")
    Vi, Vx, Vt = B.induced(n, J, ei)
    vs = 1e-9*np.abs(2*np.pi*n*B.r[-1])
    ctx.close(D("Vi"), Vi, vs, "induced velocity")
    ctx.close(D("Vi_x"), Vx, vs, "axial induced velocity")
    ctx.close(D("Vi_t"), Vt, vs, "tangential induced velocity")
    ctx.count("nodes", B.n)
    ctx.count("stalled nodes", ((al > B.ast + B.dA) | (al < -B.ast + B.dA)).sum())
    ctx.count("nodes at a jump of the polar", (jump > 1e-4).sum())
    ctx.count("windmilling cases", (al < 0).any())
    ctx.nontrivial = J < .2 or J > .8 or len(q.get("airfoils", [])) > 1


def loads(ctx):
    s, a, st = case(ctx)
    m = mu(s)
    with budget():
        res = m.solve(a, None, st)
    f = PropsSolver(m.myairplane, None)
    P, _ = f.solve(a, st)
    L = ref_props(s, a, st, prop_data(m))[0]
    if L["kink"] < KINK or not np.isfinite(L["fscale"]):
        raise Skip("at a branch point of the section polar")
    B = L["B"]
    # CLslope is a finite difference over 1e-3 rad: jumps inside of it are amplified
    if B.kinks(L["alpha"] + 1e-3).min() < KINK or B.kinks(L["alpha"] - 1e-3).min() < KINK:
        raise Skip("branch point within the difference step")
    ctx.close(P["total"]["Thrust"], L["T"], 1e-7*L["fscale"], "thrust")
    ctx.close(P["total"]["Torque"], L["torque"], 1e-7*L["mscale"], "torque")
    for i, k in enumerate(("FX", "FY", "FZ")):
        ctx.close(res[k], L["F"][i], 1e-7*L["fscale"], "propeller force " + k)
    for i, k in enumerate(("MX", "MY", "MZ")):
        ctx.close(res[k], L["M"][i], 1e-7*L["mscale"], "propeller moment " + k)
    ctx.count("solutions")
    ctx.count("off-axis", L["ang"] > 1e-6)
    ctx.nontrivial = L["ang"] > .01


SCENARIOS = {"equilibrium": (equilibrium, 2000, 12000), "loads": (loads, 2000, 12000)}
