"""C26 only the onset flow matters to the lifting surfaces"""
from ..common import *

ID = "C26"
RULE = ("random airplanes under uniform, rotating and arbitrary per-section onset fields, each given to the lifting line in every way the interface has "
        "(speed and angles, explicit per-section field, rates, mixtures, default) and in histories; non-trivial: rates or a non-uniform field")
KEYS = ("FL", "FD", "FS") + tuple(FM)


def solve(model, a, c):
    with budget():
        return copy.deepcopy(model.solve("linear", aero_state=a, control_state=c))


def match(ctx, got, want, R, msg, f=1.):
    """results (or the reference R itself): inviscid part, viscous part and total"""
    t = relerr(R)*f
    for part in ("inviscid", "viscous", "total"):
        g, w = got[part], want[part]
        for k in FM:
            ctx.close(g[k], w[k], t*(R["mscale"] if k[0] == "M" else R["fscale"]), "%s: %s %s" % (msg, part, k))
    for k in KEYS[:3]:
        ctx.close(got["total"][k], want["total"][k], t*R["fscale"], "%s: total %s" % (msg, k))


def times(x, k):
    return {p: {q: k*v for q, v in x[p].items()} for p in ("inviscid", "viscous", "total")}


def array(v, rho):
    return np.concatenate([np.asarray(rho, float).reshape(-1, 1), v], axis=1)


def reference(S, s, a, c):
    v, rho, u = rw.onset(S, s, a)
    R = rw.airloads(S, s, v, rho, u, c)
    # sections that see no flow have no defined angle of attack
    V = np.sqrt((v*v).sum(1))
    if not usable(R) or V.min() < 1e-3*V.max():
        raise Skip("degenerate flow")
    return v, rho, u, R


def descriptions(ctx):
    """one flow, described in all ways"""
    r = ctx.r
    s, a, c, S, _ = wing_state(ctx, maxgrid=10)
    for k, lo in (("alpha", -14), ("beta", -20)):
        if r.random() < .8:
            a[k] = gen.U(r, lo, -lo)
    rates = {}
    if r.random() < .75:
        w = a["V_mag"]/max(np.abs(S.rc - np.array(s["cg"])).max(), 1e-6)
        for k in ("roll_rate", "pitch_rate", "yaw_rate"):
            if r.random() < .7:
                rates[k] = w*gen.U(r, -.2, .2)
    a = {k: v for k, v in a.items() if not k.endswith("rate")}
    full = dict(a, **rates)
    ctx.note(aero=full)
    v, rho, u, R = reference(S, s, full, c)
    p = plane(s)
    m = LLModel(p)
    got = solve(m, dict(full), c)
    match(ctx, got, R, R, "speed, angles and rates against the reference")
    base = np.tile(a["V_mag"]*u, (S.N, 1))
    angles = {k: a[k] for k in ("V_mag", "alpha", "beta") if k in a}
    ways = {
        # the whole field, direction of the wake from the angles (their speed is immaterial)
        "field and angles": dict(angles, local_state=array(v, rho)),
        "field, angles and another speed": dict(angles, V_mag=gen.U(r, 1, 90), rho=gen.U(r, .1, 2), local_state=array(v, rho)),
        # freestream as a field, rates superimposed
        "uniform field and rates": dict(rates, local_state=array(base, rho), **angles),
        "zero rates": dict(full, **{k: rates.get(k, 0.) for k in ("roll_rate", "pitch_rate", "yaw_rate")}),
    }
    if not rates:
        ways["field alone"] = dict(local_state=array(v, rho))
    if all(abs(a.get(k, 0.)) < 1e-300 for k in ("alpha", "beta")):
        ways["explicit zero angles"] = dict(full, alpha=0, beta=0)
    order = [list(ways)[i] for i in r.permutation(len(ways))]
    for n in order:
        st = ways[n]
        keep = copy.deepcopy(st)
        mm = m if r.random() < .7 else LLModel(p)
        match(ctx, solve(mm, st, c), got, R, n)
        ctx.check_that(frozen(st) == frozen(keep), "the given aero state was changed (%s)" % n)
        ctx.count(n)
    # angles a full turn apart are the same direction
    turn = dict(full, alpha=full.get("alpha", 0.) + 360.*int(r.integers(-1, 2)), beta=full.get("beta", 0.) - 360.*int(r.integers(-1, 2)))
    match(ctx, solve(m, turn, c), got, R, "angles a turn apart", 10)
    # back to the first description
    match(ctx, solve(m, dict(full), c), got, R, "the first description again", .01)
    ctx.nontrivial = bool(rates)


def field(ctx):
    """arbitrary smooth and rough per-section fields"""
    r = ctx.r
    s, a, c, S, _ = wing_state(ctx, maxgrid=12)
    a = {k: v for k, v in a.items() if not k.endswith("rate")}
    V = a["V_mag"]
    u = rw.freestream(a)
    x = S.rc/max(np.abs(S.rc).max(), 1e-9)
    v = np.tile(V*u, (S.N, 1))
    kind = gen.pick(r, "shear", "rough", "jet", "swirl")
    if kind == "shear":
        v = v*(1 + .3*(x@r.uniform(-.5, .5, 3)))[:, None]
    elif kind == "rough":
        v = v + V*.1*r.standard_normal((S.N, 3))
    elif kind == "jet":
        v[r.random(S.N) < .4] *= gen.U(r, .3, 2.5)
    else:
        v = v + V*.15*np.cross(r.uniform(-1, 1, 3), x)
    rho = a["rho"]*(np.ones(S.N) if r.random() < .4 else r.uniform(.5, 1.5, S.N))
    st = dict(local_state=array(v, rho))
    if r.random() < .6:
        st.update({k: a[k] for k in ("V_mag", "alpha", "beta") if k in a})
        uw = u
    else:
        uw = v.mean(0)/np.sqrt((v.mean(0)**2).sum())
    w = np.zeros(3)
    if r.random() < .5:
        w = r.uniform(-.15, .15, 3)*V/max(np.abs(S.rc - np.array(s["cg"])).max(), 1e-6)
        for i, k in enumerate(("roll_rate", "pitch_rate", "yaw_rate")):
            st[k] = float(w[i])
    von = v - np.cross(w, S.rc - np.array(s["cg"], float))
    # the lifting line cannot treat reversed or strongly inclined sections alike
    ax = (von*S.ua).sum(1)
    if ax.min() < .05*np.abs(von).max():
        raise Skip("reversed section")
    R = rw.airloads(S, s, von, rho, uw, c)
    if not usable(R):
        raise Skip("nearly singular")
    ctx.note(aero={k: v for k, v in st.items() if k != "local_state"}, field=kind, local_state=st["local_state"].tolist())
    m = LLModel(plane(s))
    hist = r.random() < .5
    if hist:
        solve(m, gen.aero(r, s=s), gen.controls(r))
    keep = copy.deepcopy(st)
    got = solve(m, st, c)
    match(ctx, got, R, R, "%s field against the reference" % kind)
    ctx.check_that(frozen(st) == frozen(keep), "the given field was changed")
    # forces are proportional to the density ...
    k = gen.U(r, .3, 4)
    st2 = dict(keep, local_state=array(v, rho*k))
    t2 = solve(m, st2, c)
    match(ctx, t2, times(got, k), dict(R, fscale=k*R["fscale"], mscale=k*R["mscale"]), "density scaled")
    # ... and to the square of all speeds
    st3 = dict(keep, local_state=array(v*k, rho))
    for q in ("roll_rate", "pitch_rate", "yaw_rate"):
        if q in st3:
            st3[q] *= k
    t3 = solve(m, st3, c)
    match(ctx, t3, times(got, k*k), dict(R, fscale=k*k*R["fscale"], mscale=k*k*R["mscale"]), "speeds scaled")
    # integers, non-contiguous or reversed arrays are the same field
    big = np.full((S.N, 9), np.nan)
    big[:, 1::2] = keep["local_state"]
    match(ctx, solve(m, dict(keep, local_state=big[:, 1::2]), c), got, R, "strided array", .01)
    match(ctx, solve(m, dict(keep, local_state=np.asfortranarray(keep["local_state"])), c), got, R, "column-major array", .01)
    # nothing of the field remains for a state without one
    A = gen.aero(r, s=s)
    C = gen.controls(r)
    try:
        v4, rho4, u4, R4 = reference(S, s, A, C)
    except Skip:
        R4 = None
    if R4:
        match(ctx, solve(m, A, C), R4, R4, "uniform state after a field")
    ctx.count(kind)
    ctx.count("with rates", bool(w.any()))
    ctx.count("direction from the mean", "V_mag" not in keep)
    ctx.nontrivial = True


def default(ctx):
    """no state: a uniform flow of 10 along -x with unit density, whatever came before"""
    r = ctx.r
    s, a, c, S, _ = wing_state(ctx, maxgrid=10)
    d = {"V_mag": 10., "rho": 1.}
    v, rho, u, R = reference(S, s, d, c)
    m = LLModel(plane(s))
    for i in range(3):
        match(ctx, solve(m, gen.pick(r, None, {}), c), R, R, "no state")
        st = gen.aero(r, s=s)
        if r.random() < .5:
            st["local_state"] = array(np.tile(rw.freestream(st)*st["V_mag"], (S.N, 1))*r.uniform(.8, 1.2, (S.N, 1)), np.full(S.N, st["rho"]))
        solve(m, st, gen.controls(r))
    ctx.count("default states", 3)
    ctx.nontrivial = True


def machup(ctx):
    """the complete model: freestream directions and rates for wings with the documented default state"""
    r = ctx.r
    s, a, c, S, _ = wing_state(ctx, maxgrid=10)
    v, rho, u, R = reference(S, s, a, c)
    m = mu(s)
    with budget():
        t = m.solve(dict(a), c)
    for k in KEYS:
        ctx.close(t[k], R["total"][k], relerr(R)*(R["mscale"] if k[0] == "M" else R["fscale"]), "complete model: " + k)
    got = solve(LLModel(plane(s)), dict(local_state=array(v, rho), **{k: a[k] for k in ("V_mag", "alpha", "beta") if k in a}), c)
    for k in KEYS:
        ctx.close(got["total"][k], t[k], relerr(R)*(R["mscale"] if k[0] == "M" else R["fscale"]), "complete model against the explicit field: " + k)
    ctx.count("models")
    ctx.nontrivial = any(k.endswith("rate") for k in a)


SCENARIOS = {"descriptions": (descriptions, 1400, 8000), "field": (field, 1400, 8000), "default": (default, 600, 3000), "machup": (machup, 600, 3000)}
