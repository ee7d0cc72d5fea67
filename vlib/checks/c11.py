"""C11 finite, reproducible results that never read uninitialised memory"""
from ..calls import *
from ..transform import full_case

ID = "C11"
RULE = ("random and boundary states solved with fresh numpy.empty memory filled with different patterns (nan, huge, negative), results compared bitwise and "
        "tested for finiteness; non-trivial: at least one poisoned buffer was handed out")
FILLS = (float("nan"), 1e300, -7.25, 0.)


def boundary_spec(r):
    for _ in range(10):
        s = gen.plane(r, maxgrid=7)
        for w in s["wings"]:
            if r.random() < .2:
                w["grid"] = 1
        for q in s["props"]:
            u = r.random()
            if u < .25:
                # symmetric sections, whose zero lift angle and moment are exactly zero
                for a in q.get("airfoils", []):
                    a["alpha_L0"] = 0.
            if r.random() < .3 and s["wings"]:
                w = rw.full_wing(s["wings"][0])
                side = "left" if w["side"] == "both" else w["side"]
                S = rw.sections(s)
                i = int(r.integers(S.N))
                # a control point exactly on the propeller axis
                q["orient"] = [0., 0.]
                q["pos"] = [float(S.rc[i, 0] + gen.U(r, .1, 2)*s["scale"]), float(S.rc[i, 1]), float(S.rc[i, 2])]
        if all(good_blade(rp.Blade(q)) for q in s["props"]):
            if s["wings"]:
                S, R = rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": 3.}, {})
                if not usable(R):
                    continue
            return s
    raise Skip()


def boundary_state(r, s):
    a = gen.aero(r, s=s, big=bool(r.random() < .3))
    u = r.random()
    if u < .25:
        a["alpha"] = gen.pick(r, 0., -0., 1e-300, 1e-12, 90. - 1e-9, 45.)
    if u > .75:
        a["beta"] = gen.pick(r, 0., 1e-14, -1e-9, 30.)
    if r.random() < .15:
        a["V_mag"] = gen.pick(r, 1e-6, 1e5, 1)
    c = gen.controls(r)
    st = gen.prop_state(r, s, a, ("J", "rps", "default", "static"))
    if s["props"] and r.random() < .4:
        q = rp.full_prop(s["props"][0])
        B = rp.Blade(q)
        i = int(r.integers(B.n))
        # advance ratio at which one node is exactly at zero angle of attack for no induced velocity, and extremes
        st = gen.pick(r, {"J": float(np.pi*B.z[i]*np.tan(B.beta[i]))}, {"J": 0, "rot_per_sec": 20.}, {"J": 1e-8}, {"J": 3.}, {"rot_per_sec": 1e3})
    if s["wings"] and abs(a.get("beta", 0.)) > 80 or abs(a.get("alpha", 0.)) > 80:
        S, R = rw.solve(s, a, c)
        if not usable(R):
            raise Skip()
    return a, c, st


def ref_ok(s, a, c):
    if not s["wings"]:
        return True
    S, R = rw.solve(s, a, c)
    return usable(R)


def poisoned(ctx):
    r = ctx.r
    s = boundary_spec(r)
    a, c, st = boundary_state(r, s)
    ctx.note(spec=s, aero=a, controls=c, prop_state=st)
    if not ref_ok(s, a, c):
        raise Skip()
    out = []
    hits = 0
    fills = [FILLS[i] for i in r.permutation(4)[:3]]
    for f in fills:
        with Poison(f) as po, budget():
            m = mu(s)
            t = m.solve(a, c, st)
            d = m.distributions(a, c, st)
        hits += po.hits
        out.append((t, d))
    allfinite(ctx, out[0][0], "totals")
    allfinite(ctx, out[0][1], "distributions")
    for x in out[1:]:
        ctx.check_that(same(x, out[0]), "results depend on the content of uninitialised memory")
    ctx.count("poisoned buffers", hits)
    ctx.count("runs", len(fills))
    ctx.nontrivial = hits > 0 or not s["props"]


def analyses(ctx):
    """derived analyses under poisoned memory"""
    r = ctx.r
    s = boundary_spec(r)
    cl = call(r, s, files=0., invalid=0.)
    if cl[0] in ("create_stl", "find_aero_center"):
        cl = ("derivatives" if s["wings"] else "solve", [], {})
    a = cl[2].get("aero_state") or {"V_mag": 10., "rho": 1.}
    if not ref_ok(s, a, {}):
        raise Skip()
    ctx.note(spec=s, call=cl)
    res = []
    for f in (float("nan"), 1e300):
        with Poison(f), quiet():
            res.append(execute(mu(s), cl))
    agree(ctx, res[1], res[0], "%s under different memory contents" % cl[0], 0.)
    if res[0][0] == "ok":
        allfinite(ctx, res[0][1], cl[0], skip=("static_margin",))
        ctx.count("analyses")
    ctx.nontrivial = True


def polar(ctx):
    """section polars at every angle, including the exact branch points"""
    r = ctx.r
    s = prop_only(r, 1)
    q = s["props"][0]
    if r.random() < .4:
        for a in q.get("airfoils", []):
            a["alpha_L0"] = 0.
    B = rp.Blade(q)
    if not good_blade(B):
        raise Skip()
    ctx.note(spec=s)
    m = mu(s)
    pm = m.myprops.get_prop_models()[0]
    angles = [np.zeros(B.n), np.full(B.n, -0.), B.ast + B.dA, -B.ast + B.dA, B.ast, B.dA + np.radians(2), -B.dA - np.radians(2), B.dA, -B.dA,
              np.linspace(-np.pi/2, np.pi/2, B.n), r.uniform(-1.5, 1.5, B.n)]
    for al in angles:
        res = []
        for f in (float("nan"), 1e300):
            with Poison(f):
                res.append([np.array(x) for x in pm.get_coefficients_alpha(np.array(al))])
        ctx.check_that(same(res[0], res[1]), "section coefficients depend on uninitialised memory")
        for x, nm in zip(res[0], ("CL", "CL_alpha", "CD")):
            ok = np.abs(al - B.dA) > 1e-9 if nm == "CL" else np.ones(B.n, bool)
            ctx.check_that(np.isfinite(x[ok]).all(), "section %s not finite" % nm)
        ctx.count("angles", B.n)
    ctx.nontrivial = True


SCENARIOS = {"poisoned": (poisoned, 700, 7000), "analyses": (analyses, 240, 2000), "polar": (polar, 300, 3000)}
