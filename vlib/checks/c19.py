"""C19 aerodynamic center"""
import json, os
from ..common import *
from ..transform import full_case, translate, scale

ID = "C19"
RULE = ("random airplanes and states; the aerodynamic center recomputed by independent least squares over solves of a fresh model; metamorphic "
        "translation, scaling, density, speed and center of gravity; non-trivial: nonzero angle of attack, controls or propellers")
ALPHAS = np.arange(-10, 10, .05)


def base(ctx, props=True, rates=.2, plain=False):
    r = ctx.r
    for _ in range(6):
        s, a, c, st, m, S, R, P = full_case(ctx, nprops=int(gen.pick(r, 0, 0, 1)) if props else 0, wings=int(gen.pick(r, 1, 2, 2)), maxgrid=6, rates=rates)
        if S.N < 3:
            continue
        a["alpha"] = gen.pick(r, gen.U(r, -6, 8), 0.)
        if abs(a.get("beta", 0.)) > 10:
            a["beta"] = gen.U(r, -6, 6)
        if plain:
            a.pop("roll_rate", None), a.pop("pitch_rate", None), a.pop("yaw_rate", None)
        ctx.note(spec=s, aero=a, controls=c, prop_state=st)
        return s, a, c, st, m, S, R, P
    raise Skip()


def reference(s, a, c, st, S, m=None):
    """(x, z), sensitivity of the fit"""
    m = m or mu(s)
    lat, lon = rw.reference_lengths(s, S.Sw)
    dp = .5*a["rho"]*a["V_mag"]**2*S.Sw
    with budget():
        T = [m.solve(dict(a, alpha=float(x)), c, st) for x in ALPHAS]
    g = lambda k: np.array([t[k] for t in T])
    CN, CA, Cm = -g("FZ")/dp, -g("FX")/dp, g("MY")/dp/lon
    al = np.radians(ALPHAS)
    ca, sa = np.cos(al), np.sin(al)
    CL, CD = CN*ca - CA*sa, CA*ca + CN*sa
    fit = lambda cols, y: np.linalg.lstsq(np.column_stack(cols), y, rcond=None)[0]
    p, q = fit([sa, ca], CL)
    # lift slope and zero-lift angle of CL = slope (sin a - tan a0 cos a)
    C, a0 = p, np.arctan(-q/p)
    D0, D1, D2 = fit([np.ones_like(CL), CL, CL*CL], CD)
    m0, mN, mA = fit([np.sin(2*al), CN, CA], Cm)
    cond = max(np.linalg.cond(np.column_stack([np.sin(2*al), CN, CA])), np.linalg.cond(np.column_stack([np.ones_like(CL), CL, CL*CL])))
    den = 2*C + 3*D0 - 2*D2*C*C
    at = np.radians(a.get("alpha", 0.))
    x = lon*(m0*(4 + 2*D0/C + (12*at*at - 4)*D2*C)/den + mN)
    z = -lon*(m0*(4*a0 + 4*D1 + 12*at*D2*C)/den + mA)
    cg = np.array(s["cg"])
    size = lon*(abs(mN) + abs(mA) + abs(m0)*(4 + 2*abs(D0/C) + abs(4*D2*C))/abs(den) + abs(m0*(4*a0 + 4*D1 + 12*at*D2*C)/den))
    # condition of the closed form in its coefficients
    sens = (2*abs(C) + 3*abs(D0) + 2*abs(D2*C*C))/abs(den)
    return np.array([x + cg[0], z + cg[2]]), size + np.abs(cg).max(), cond*sens


def run(m, a, c, st, **kw):
    with budget(20_000_000):
        return np.asarray(m.find_aero_center(a, c, st, **kw), float)


def ok_tol(cond, size, R):
    e = 1e-13*cond*cond*max(1., R["cond"]/1e3) + 1e-9
    if not e < 1e-4:
        raise Skip("ill conditioned fit")
    return e*size


def fit(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = base(ctx)
    want, size, cond = reference(s, a, c, st, S)
    tol = ok_tol(cond, size, R)
    kw = {}
    f = None
    if r.random() < .3:
        f = kw["filename"] = file_path(ctx)
    bef = frozen((a, c, st))
    got = run(m, a, c, st, **kw)
    ctx.check_that(frozen((a, c, st)) == bef, "arguments modified")
    ctx.check_that(got.shape == (3,), "shape of the aerodynamic center")
    ctx.close(got[[0, 2]], want, tol, "aerodynamic center")
    ctx.close(got[1], 0., 0, "aerodynamic center off the plane of symmetry")
    if f:
        w = json.load(open(f))
        os.remove(f)
        ctx.check_that(w == {"x_ac": got[0], "z_ac": got[2]}, "file of the aerodynamic center")
    ctx.maxi("largest condition of the fit", cond)
    ctx.count("fits")
    ctx.nontrivial = a["alpha"] != 0 or bool(P)


def meta(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = base(ctx, props=False, plain=True)
    want, size, cond = reference(s, a, c, st, S, m)
    tol = ok_tol(cond, size, R)
    g0 = run(m, a, c, st)
    mode = gen.pick(r, "translate", "cg", "scale", "flow")
    ctx.note(mode=mode)
    lon = rw.reference_lengths(s, S.Sw)[1]
    if mode == "translate":
        t = r.uniform(-3, 3, 3)*s["scale"]
        g = run(mu(translate(s, t)), a, c, st)
        ctx.close(g - g0, t*[1, 0, 1], 4*tol + 1e-9*np.abs(t).max(), "aerodynamic center of a translated airplane")
    elif mode == "cg":
        q = copy.deepcopy(s)
        t = r.uniform(-1, 1, 3)*s["scale"]
        q["cg"] = [float(x) for x in np.array(s["cg"]) + t]
        w2, size2, cond2 = reference(q, a, c, st, S)
        g = run(mu(q), a, c, st)
        ctx.close((g - g0)[[0, 2]], [0., 0.], tol + ok_tol(cond2, size2, R), "aerodynamic center for another center of gravity")
    elif mode == "scale":
        k = float(np.exp(gen.U(r, -2, 2)))
        q = scale(s, k)
        for key in ("lat_ref", "long_ref"):
            pass
        g = run(mu(q), a, c, st)
        ctx.close(g/k, g0, 4*tol, "aerodynamic center of a scaled airplane")
    else:
        b = dict(a, rho=a["rho"]*gen.U(r, .2, 5), V_mag=a["V_mag"]*gen.U(r, .2, 5))
        ctx.close(run(m, b, c, st), g0, 4*tol, "aerodynamic center for another density and speed")
    ctx.count(mode)
    ctx.nontrivial = True


def definition(ctx):
    """the closed form approximates the general definition (point about which the first and second change of the moment vanish)"""
    r = ctx.r
    s, a, c, st, m, S, R, P = base(ctx, props=False, plain=True)
    a["alpha"] = gen.U(r, -3, 3)
    a.pop("beta", None)
    c = {}
    lat, lon = rw.reference_lengths(s, S.Sw)
    dp = .5*a["rho"]*a["V_mag"]**2*S.Sw
    with budget():
        T = [m.solve(dict(a, alpha=float(x)), c, st) for x in ALPHAS[::8]]
    x = np.radians(ALPHAS[::8] - a["alpha"])
    k = [np.polynomial.polynomial.polyfit(x, y, 5) for y in ([-t["FZ"]/dp for t in T], [-t["FX"]/dp for t in T], [t["MY"]/dp/lon for t in T])]
    (N1, A1, M1), (N2, A2, M2) = [q[1] for q in k], [2*q[2] for q in k]
    D = N1*A2 - A1*N2
    if abs(D) < .2*(abs(N1*A2) + abs(A1*N2)) or N1 < 1. or abs(A2) < .5:
        raise Skip()
    want = -lon*(A1*M2 - M1*A2)/D + s["cg"][0]
    got = run(m, a, c, st)
    span = np.abs(S.rc[:, 0] - s["cg"][0]).max() + lon
    ctx.close(got[0], want, .3*span, "aerodynamic center against its general definition")
    ctx.count("definitions")
    ctx.nontrivial = True


SCENARIOS = {"fit": (fit, 60, 1500), "meta": (meta, 60, 1500), "definition": (definition, 50, 1000)}
