"""C07 dimensional consistency"""
from ..transform import *

ID = "C07"
RULE = ("random airplanes with length, velocity and density scaled by random factors (1e-3..1e3); non-trivial: all three factors differ from one")


def scaled(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = full_case(ctx)
    k, v, d = [float(np.exp(gen.U(r, -4, 4))) if r.random() < .85 else 1. for _ in range(3)]
    if r.random() < .3:
        k = pick_unit(r)
    ctx.note(length=k, velocity=v, density=d)
    t = m.solve(a, c, st)
    s2 = scale(s, k)
    a2 = dict(a, V_mag=a["V_mag"]*v, rho=a["rho"]*d)
    for x in ("roll_rate", "pitch_rate", "yaw_rate"):
        if x in a2:
            a2[x] *= v/k
    st2 = scale_state(st, v/k)
    m2 = mu(s2)
    t2 = m2.solve(a2, c, st2)
    fs, ms = scales(R, P)
    f = d*v*v*k*k
    for key in FM:
        if key[0] == "F":
            ctx.close(t2[key]/f, t[key], 1e-8*fs, "force coefficient: " + key)
        else:
            ctx.close(t2[key]/f/k, t[key], 1e-8*ms, "moment coefficient: " + key)
    if s["wings"]:
        ctx.close(m2.Sw/k**2, m.Sw, 1e-9*m.Sw, "reference area")
        ctx.close(m2.lat_ref/k, m.lat_ref, 1e-9*m.lat_ref, "lateral length")
        ctx.close(m2.long_ref/k, m.long_ref, 1e-9*m.long_ref, "longitudinal length")
    ctx.count("pairs")
    ctx.count("with propellers", bool(P))
    ctx.nontrivial = 1. not in (k, v, d)


def pick_unit(r):
    return [0.3048, 3.280839895, 1000., 0.001, 12.][int(r.integers(5))]


def scale_state(st, f):
    if not st:
        return st
    if any(isinstance(v, dict) for v in st.values()):
        return {n: scale_state(v, f) for n, v in st.items()}
    return {k: (v*f if k == "rot_per_sec" else v) for k, v in st.items()}


def derivatives(ctx):
    """nondimensional derivatives are independent of the units"""
    r = ctx.r
    s, a, c, st, m, S, R, P = full_case(ctx, nprops=int(r.choice([0, 0, 1])), wings=int(r.integers(1, 3)), maxgrid=8, rates=0)
    k, v, d = [float(np.exp(gen.U(r, -3, 3))) for _ in range(3)]
    ctx.note(length=k, velocity=v, density=d)
    s2 = scale(s, k)
    a2 = dict(a, V_mag=a["V_mag"]*v, rho=a["rho"]*d)
    st2 = scale_state(st, v/k)
    d1 = m.derivatives(a, c, st)
    d2 = mu(s2).derivatives(a2, c, st2)
    fs, ms = scales(R, P)
    q = .5*a["rho"]*a["V_mag"]**2*m.Sw
    big = 1e-6*(fs/q + ms/q/min(m.lat_ref, m.long_ref))
    n1, n2 = dict(numbers(d1)), dict(numbers(d2))
    ctx.check_that(n1.keys() == n2.keys(), "same derivatives")
    for key in n1:
        if "static_margin" in key:
            continue
        if P and ("_a" in key or "_b" in key) and not np.isclose(n1[key], n2[key], rtol=1e-5, atol=big*100):
            # a perturbed state may sit on a jump of a section polar or of the slipstream
            ctx.count("discontinuous perturbation")
            continue
        ctx.close(n2[key], n1[key], big*(1 + abs(n1[key])), "derivative " + key)
    ctx.nontrivial = True
    ctx.count("derivatives", len(n1))


SCENARIOS = {"scaled": (scaled, 2000, 10000), "derivatives": (derivatives, 320, 1500)}
