"""C16 derivatives are central differences of the model's own loads"""
from ..common import *
from ..transform import full_case, scales

ID = "C16"
RULE = ("random airplanes with propellers at random base states; every derivative recomputed from solves of a fresh model; "
        "non-trivial: base state with rates, sideslip or deflections, or a propeller")
NAMES = dict(CL="FL", CD="FD", CS="FS", CX="FX", CY="FY", CZ="FZ", Cl="MX", Cm="MY", Cn="MZ")


def quotient(ctx, got, suffix, back, forw, step, dp, lat, lon, fs, ms, msg):
    """step: full nondimensional (radian) difference"""
    for k, f in NAMES.items():
        ref = {"Cl": lat, "Cm": lon, "Cn": lat}.get(k, 1.)
        want = (forw[f] - back[f])/step/dp/ref
        tol = 1e-10*(ms if f[0] == "M" else fs)/step/dp/ref
        ctx.check_that(k + suffix in got, "%s: %s missing" % (msg, k + suffix))
        ctx.close(got[k + suffix], want, tol, "%s: %s" % (msg, k + suffix))
    ctx.count("derivatives", 9)


def check(ctx, s, a, c, st, R, P, m, fams):
    fs, ms = scales(R, P)
    w = 3*max(1., R["cond"]/1e4)
    fs, ms = fs*w, ms*w
    fresh = mu(s)
    S = rw.sections(s)
    Sw = S.Sw
    lat, lon = rw.reference_lengths(s, Sw)
    fa = dict(a) if a else {"V_mag": 10., "rho": .0023769, "alpha": 0.}
    fc = dict(c) if c else {}
    V = fa["V_mag"]
    dp = .5*fa["rho"]*V*V*Sw

    def at(aa, cc):
        with budget():
            return fresh.solve(aa, cc, st)

    def shift(d, k, x):
        return dict(d, **{k: d.get(k, 0.) + x})
    for fam, got in fams:
        if fam == "stability":
            for k, x in (("alpha", "_a"), ("beta", "_b")):
                quotient(ctx, got, x, at(shift(fa, k, -.5), fc), at(shift(fa, k, .5), fc), np.radians(1.), dp, lat, lon, fs, ms, k)
        elif fam == "control":
            for k, x in (("aileron", "_da"), ("elevator", "_de"), ("rudder", "_dr"), ("flap", "_df")):
                quotient(ctx, got, x, at(fa, shift(fc, k, -.25)), at(fa, shift(fc, k, .25)), np.radians(.5), dp, lat, lon, fs, ms, k)
        else:
            for k, x, l in (("roll_rate", "_pbar", lat), ("pitch_rate", "_qbar", lon), ("yaw_rate", "_rbar", lat)):
                # rates nondimensional with the reference length: rate*length/(2 V)
                d = .005*2*V/l
                quotient(ctx, got, x, at(shift(fa, k, -d), fc), at(shift(fa, k, d), fc), .01, dp, lat, lon, fs, ms, k)
        extra = set(got) - {k + x for k in NAMES for x in ("_a", "_b", "_da", "_de", "_dr", "_df", "_pbar", "_qbar", "_rbar")} - {"static_margin"}
        ctx.check_that(not extra, "unknown derivatives %s" % sorted(extra)[:3])


def family(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = full_case(ctx, rates=.6, wings=int(gen.pick(r, 1, 2, 3)), maxgrid=10)
    fam = gen.pick(r, "stability", "control", "damping")
    if r.random() < .12:
        c = gen.pick(r, None, {})
    if r.random() < .1:
        a = None
        st = gen.pick(r, None, {"J": .4})
    ctx.note(spec=s, aero=a, controls=c, prop_state=st, family=fam)
    with budget():
        got = getattr(m, fam + "_derivatives")(a, c, st)
    if a is None:
        d = {"V_mag": 10., "rho": .0023769, "alpha": 0.}
        with budget():
            m.solve(d, c, st)
        P = ref_props(s, d, st, prop_data(m))
        _, R = rw.solve(s, d, c or {}, S=S)
        if not usable(R) or not np.isfinite(sum(L["fscale"] + L["mscale"] for L in P)):
            raise Skip()
    check(ctx, s, a, c, st, R, P, m, [(fam, got)])
    ctx.count(fam)
    ctx.nontrivial = bool(s["props"]) or bool(c) and any(c.values()) or bool(a) and any(a.get(k) for k in ("beta", "roll_rate", "pitch_rate", "yaw_rate"))


def report(ctx):
    """combined report"""
    r = ctx.r
    s, a, c, st, m, S, R, P = full_case(ctx, rates=.6, wings=int(gen.pick(r, 1, 2)), maxgrid=8)
    with budget():
        d = m.derivatives(a, c, st)
    ctx.check_that(set(d) == {"stability_derivatives", "control_derivatives", "damping_derivatives"}, "families of the report")
    sd = d["stability_derivatives"]
    want = -sd["Cm_a"]/sd["CL_a"]
    ctx.close(sd["static_margin"], want, 1e-12*abs(want), "static margin")
    check(ctx, s, a, c, st, R, P, m, [("stability", sd), ("control", d["control_derivatives"]), ("damping", d["damping_derivatives"])])
    ctx.nontrivial = True


SCENARIOS = {"family": (family, 1600, 8000), "report": (report, 400, 2000)}
