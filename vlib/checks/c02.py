"""C02 section airfoil properties and control surfaces"""
import numpy as np
from .. import gen, refwing as rw
from ..build import plane, LLGrid, LLModel
from ..common import wing_state, relerr, compare_fm
from ..core import Skip

ID = "C02"
RULE = ("random airplanes with different root and tip airfoils, full/partial span, tapered, sealed/unsealed control surfaces and all mixes; "
        "non-trivial: a control surface with at least one section and two different airfoils, or a deflection that moved loads")


def grid(ctx):
    r = ctx.r
    s = gen.plane(r, nprops=0)
    for w in s["wings"]:
        if r.random() < .3:
            w["grid"] = int(r.integers(1, 12))
    cosine = bool(r.random() < .7)
    ctx.note(spec=s, cosine=cosine)
    S = rw.sections(s, cosine)
    if not np.isfinite(S.rc).all():
        raise Skip()
    g = LLGrid(plane(s), cosine)
    T = 1e-12
    ctx.close(g.get_lift_slopes(), S.CLa, T*10, "lift slope")
    ctx.close(g.get_zero_lift_alpha(), S.aL0, T, "zero lift angle")
    cma, cml0, cmd = g.get_moment_slopes()
    ctx.close(cma, S.Cma, T, "moment slope")
    ctx.close(cml0, S.CmL0, T, "zero lift moment")
    ctx.close(cmd, S.cmd, T*10, "control moment slope")
    for k, x, y in zip(("CD0", "CD1", "CD2"), g.get_drag_coefficients(), (S.CD0, S.CD1, S.CD2)):
        ctx.close(x, y, T*10, "drag coefficient " + k)
    left = np.array([x == "left" for x in S.side])        # the left airfoil is the tip one on the left side
    ends = []
    for x, A, B in zip(left, S.raf, S.taf):
        ends.append((B, A) if x else (A, B))
    for i, side in enumerate(("left", "right")):
        want = lambda key: np.array([e[i][key] for e in ends])
        G = lambda n: getattr(g, n.replace("*", side))()
        ctx.close(G("get_*_lift_slopes"), want("CL_alpha"), T*10, side + " lift slope")
        ctx.close(G("get_*_zero_lift_alpha"), want("alpha_L0"), T, side + " zero lift angle")
        ctx.close(G("get_*_moment_slopes"), want("Cm_alpha"), T, side + " moment slope")
        ctx.close(G("get_*_zero_lift_moments"), want("Cm_L0"), T, side + " zero lift moment")
        for k, x in zip(("CD0", "CD0_L", "CD0_L2"), G("get_*_drag_coeff")):
            ctx.close(x, want(k), T*10, side + " drag coefficient " + k)
    ctx.close(g.get_max_lifts(), S.CLmax, T*10, "maximum lift")
    ctx.close(g.get_flap_effectiveness(), S.eff, T*10, "flap effectiveness")
    ma, me, mr, mf = g.get_control_mix()
    ctx.close(ma, S.ma, T, "aileron mix (opposite on the left)")
    ctx.close(me, S.me, T, "elevator mix")
    ctx.close(mr, S.mr, T, "rudder mix (opposite on the left)")
    ctx.close(mf, S.mf, T, "flap mix")
    n = int((S.eff != 0).sum())
    ctx.count("sections", S.N)
    ctx.count("controlled sections", n)
    ctx.nontrivial = n > 0 and any((w.get("airfoils") or {}).get("tip") for w in s["wings"])


def distributions(ctx):
    """section coefficients of the solution are those of the interpolated airfoils at the section angle of attack"""
    s, a, c, S, R = wing_state(ctx)
    from ..build import mu
    m = mu(s)
    d, _ = m.distributions(a, c)
    al = np.asarray(d["alpha"], float)
    e = relerr(R)*max(1., float(np.abs(R["alpha"]).max()))*10
    cl = S.CLaL*(al - S.aL0L)*(1 - S.s) + S.CLaR*(al - S.aL0R)*S.s
    delta = np.radians(c.get("aileron", 0)*S.ma + c.get("elevator", 0)*S.me + c.get("rudder", 0)*S.mr + c.get("flap", 0)*S.mf)
    cd = S.CD0 + S.CD1*cl + S.CD2*cl*cl + 0.002*np.abs(np.degrees(delta))
    ctx.close(d["section_CL"], cl, e*10, "section lift coefficient of the interpolated airfoil")
    ctx.close(d["section_CD_parasitic"], cd, 1e-9*(1 + np.abs(cd).max()), "section parasitic drag coefficient")
    cm = np.array([(A["Cm_L0"] + A["Cm_alpha"]*(x - A["alpha_L0"]))*(1 - f) + (B["Cm_L0"] + B["Cm_alpha"]*(x - B["alpha_L0"]))*f
                   for x, f, A, B in zip(al, S.f, S.raf, S.taf)]) + delta*S.cmd
    ctx.close(d["section_Cm"], cm, 1e-9*(1 + np.abs(cm).max()), "section moment coefficient")
    ctx.close(d["section_alpha_L0"], S.aL0, 1e-12, "section zero lift angle")
    ctx.count("deflected sections", (delta != 0).sum())
    ctx.nontrivial = bool((delta != 0).any())


def mixing(ctx):
    """only the deflection of each section counts: four inputs and their mixed equivalent agree"""
    s, a, c, S, R = wing_state(ctx)
    if len(s["wings"]) != 1 or not s["wings"][0].get("control") or s["wings"][0].get("side", "both") == "both":
        w = s["wings"][0]
        s = dict(s, wings=[dict(w, side=["left", "right"][int(ctx.r.integers(2))], is_main=1, control=gen.control(ctx.r))])
    ctx.note(spec=s, aero=a, controls=c)
    w = s["wings"][0]
    sg = 1. if w["side"] == "right" else -1.
    mix = w["control"]["mix"]
    d = sum(c.get(k, 0.)*mix.get(k, 0.)*(sg if k in ("aileron", "rudder") else 1.) for k in ("aileron", "elevator", "rudder", "flap"))
    S, R = rw.solve(s, a, c)
    from ..common import usable
    if not usable(R):
        raise Skip()
    if abs(abs(d) - 11) < 1e-6:
        raise Skip()
    kind = ["aileron", "elevator", "rudder", "flap"][int(ctx.r.integers(4))]
    s2 = dict(s, wings=[dict(w, control=dict(w["control"], mix={kind: 1.}))])
    c2 = {kind: d*(sg if kind in ("aileron", "rudder") else 1.)}
    from ..build import LLModel as M
    r1 = M(plane(s)).solve("linear", a, c)
    r2 = M(plane(s2)).solve("linear", a, c2)
    for k in ("inviscid", "viscous", "total"):
        compare_fm(ctx, r2[k], r1[k], R["fscale"], R["mscale"], relerr(R), "mixed control inputs " + k)
        compare_fm(ctx, r1[k], R[k], R["fscale"], R["mscale"], relerr(R), "effect of the deflection " + k)
    ctx.count("large deflections " + ("up" if d < 0 else "down"), abs(d) > 11)
    ctx.nontrivial = d != 0
    ctx.count("mixes")


SCENARIOS = {"grid": (grid, 4800, 25000), "distributions": (distributions, 1200, 5000), "mixing": (mixing, 1200, 5000)}
