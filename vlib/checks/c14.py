"""C14 direction, position and rotation sense of propeller loads"""
from ..common import *
from ..transform import smooth, mirror, mirror_state, ODD
from .c12 import blades

ID = "C14"
RULE = ("random propellers at random positions and orientations in random flow directions; non-trivial: the flow is not along the propeller axis")
RELP = 1e-8


def case(ctx, n=1, rates=0, kinds=("J", "rps", "default", "static")):
    r = ctx.r
    for _ in range(6):
        s = blades(ctx, n)
        for q in s["props"]:
            if r.random() < .25:
                q["orient"] = [gen.U(r, -80, 80), gen.U(r, -80, 80)]
        a = gen.aero(r, rates=rates, s=s)
        st = gen.prop_state(r, s, a, kinds)
        ctx.note(spec=s, aero=a, prop_state=st)
        t, P, m = run(s, a, st)
        if all(smooth(L) for L in P):
            return s, a, st, t, P, m
    raise Skip()


def run(s, a, st):
    m = mu(s)
    with budget():
        t = m.solve(a, None, st)
    return t, ref_props(s, a, st, prop_data(m)), m


def vec(t):
    return np.array([t["FX"], t["FY"], t["FZ"]]), np.array([t["MX"], t["MY"], t["MZ"]])


def sc(P):
    return sum(L["fscale"] for L in P), sum(L["mscale"] for L in P)


def forces(ctx):
    """body axes loads against the reference resolution; position and center of gravity"""
    s, a, st, t, P, m = case(ctx, int(gen.pick(ctx.r, 1, 2)))
    fs, ms = sc(P)
    F, M = vec(t)
    ctx.close(F, sum(L["F"] for L in P), RELP*fs*10, "force in body axes")
    ctx.close(M, sum(L["M"] for L in P), RELP*ms*10, "moment in body axes")
    # getters
    for q, L in zip(s["props"], P):
        pm = [x for x in m.myprops.get_prop_models() if x.get_name() == q["name"]][0]
        ctx.close(pm.get_position(), L["B"].pos, 1e-12*(1 + np.abs(L["B"].pos).max()), "position")
    # rotation rates of the airplane do not change the loads of a propeller
    a2 = dict(a, roll_rate=gen.U(ctx.r, -.1, .1), yaw_rate=.1)
    with budget():
        t2 = m.solve(a2, None, st)
    ctx.check_that(same(t, t2) or max(abs(t[k] - t2[k]) for k in FM) < 1e-9*(fs + ms), "propeller loads with airplane rotation rates")
    # moving one propeller: force constant, moment transfers
    i = int(ctx.r.integers(len(s["props"])))
    q = copy.deepcopy(s)
    d = np.array([gen.U(ctx.r, -2, 2) for _ in range(3)])
    p0 = np.array(q["props"][i].get("pos", [0., 0., 0.]))
    q["props"][i]["pos"] = [float(x) for x in p0 + d]
    t3, P3, _ = run(q, a, st)
    F3, M3 = vec(t3)
    mm = ms + sc(P3)[1]
    ctx.close(F3, F, RELP*fs, "force of a moved propeller")
    one = dict(s, props=[s["props"][i]])
    F1, _ = vec(run(one, a, local_state(st, s["props"][i]["name"]))[0])
    ctx.close(M3 - M, np.cross(d, F1), RELP*mm, "moment transfer of a moved propeller")
    ctx.count("propellers", len(P))
    ctx.count("clockwise", sum(L["B"].rot < 0 for L in P))
    ctx.nontrivial = any(L["ang"] > .01 for L in P)


def reversal(ctx):
    """reversed rotation: same force, reversed torque and yawing couple"""
    s, a, st, t, P, m = case(ctx)
    r = ctx.r
    q = copy.deepcopy(s)
    rot = P[0]["B"].rot
    q["props"][0]["rot"] = gen.pick(r, "CW", "cw", 0, -1) if rot > 0 else gen.pick(r, "CCW", "ccw", 1, 1.)
    t2, P2, _ = run(q, a, st)
    fs, ms = sc(P)
    F, M = vec(t)
    F2, M2 = vec(t2)
    arm = P[0]["B"].pos - np.array(s["cg"])
    ctx.close(F2, F, RELP*fs, "force with reversed rotation")
    ctx.close(M2 + M, 2*np.cross(arm, F), RELP*ms*2, "moment with reversed rotation")
    # sense: the torque reaction of a counterclockwise propeller is about its backward axis
    C = M - np.cross(arm, F)
    if P[0]["Q"] > 1e-6*ms:
        ctx.check_that((C@P[0]["B"].fwd)*rot < 0, "sense of the torque reaction")
        ctx.count("torque senses")
    ctx.nontrivial = P[0]["ang"] > .01


def axial(ctx):
    """flow along the axis: force and couple along the axis only"""
    s, a, st, t, P, m = case(ctx)
    r = ctx.r
    # orient the propeller along the flight direction of a given alpha and beta
    h = -rw.freestream(a)
    q = copy.deepcopy(s)
    th = -np.degrees(np.arcsin(h[2]))
    ga = np.degrees(np.arctan2(h[1], h[0]))
    q["props"][0]["orient"] = [float(th), float(ga)]
    q["cg"] = [float(x) for x in P[0]["B"].pos]
    t2, P2, _ = run(q, a, st)
    fs, ms = P2[0]["fscale"], P2[0]["mscale"]
    F, M = vec(t2)
    ctx.close(F - (F@h)*h, np.zeros(3), 1e-6*fs, "force across the axis in axial flow")
    ctx.close(M - (M@h)*h, np.zeros(3), 1e-6*ms, "couple across the axis in axial flow")
    ctx.close(F@h, P2[0]["T"], RELP*10*fs, "thrust in axial flow")
    ctx.close(t2["FD"], -F@h, RELP*10*fs, "drag is the negative thrust")
    ctx.close([t2["FL"], t2["FS"]], [0., 0.], 1e-6*fs, "lift and side force in axial flow")
    ctx.nontrivial = abs(a.get("alpha", 0.)) + abs(a.get("beta", 0.)) > 1


def rotate(ctx):
    """rigid rotation of propeller, position and flow about the body y or z axis rotates the loads"""
    s, a, st, t, P, m = case(ctx)
    r = ctx.r
    ax = gen.pick(r, "y", "z")
    w = gen.U(r, -30, 30)
    q, b = copy.deepcopy(s), dict(a)
    o = s["props"][0].get("orient", [0., 0.])
    rad = np.radians(w)
    c_, s_ = np.cos(rad), np.sin(rad)
    if ax == "z":
        R = np.array([[c_, -s_, 0], [s_, c_, 0], [0, 0, 1.]])
    else:
        R = np.array([[c_, 0, s_], [0, 1, 0], [-s_, 0, c_]])
    f = R@P[0]["B"].fwd
    q["props"][0]["orient"] = [float(-np.degrees(np.arcsin(np.clip(f[2], -1, 1)))), float(np.degrees(np.arctan2(f[1], f[0])))]
    q["props"][0]["pos"] = [float(x) for x in R@P[0]["B"].pos]
    q["cg"] = [float(x) for x in R@np.array(s["cg"])]
    h = R@(-rw.freestream(a))
    if h[0] < .1:
        raise Skip()
    b["alpha"], b["beta"] = float(np.degrees(np.arctan(h[2]/h[0]))), float(np.degrees(np.arctan(h[1]/h[0])))
    ctx.close(-rw.freestream(b), h, 1e-12, "monitor self test")
    t2, P2, _ = run(q, b, st)
    fs, ms = sc(P)
    F, M = vec(t)
    F2, M2 = vec(t2)
    ctx.close(F2, R@F, 1e-7*fs, "force of a rotated propeller in rotated flow")
    ctx.close(M2, R@M, 1e-7*(ms + sc(P2)[1]), "moment of a rotated propeller in rotated flow")
    ctx.nontrivial = abs(w) > 1 and P[0]["ang"] > .01


def scaling(ctx):
    """linear in density; quadratic in speed at fixed advance ratio"""
    s, a, st, t, P, m = case(ctx, kinds=("J", "static", "default"))
    r = ctx.r
    k = float(np.exp(gen.U(r, -3, 3)))
    v = float(np.exp(gen.U(r, -1.5, 1.5)))
    b = dict(a, rho=a["rho"]*k, V_mag=a["V_mag"]*v)
    st2 = {}

    def sp(x):
        return dict(x, rot_per_sec=x["rot_per_sec"]*v) if x and "rot_per_sec" in x else x
    st2 = {n: sp(x) for n, x in st.items()} if st and isinstance(list(st.values())[0], dict) else sp(st)
    with budget():
        t2 = m.solve(b, None, st2)
    fs, ms = sc(P)
    for x in FM:
        ctx.close(t2[x]/(k*v*v), t[x], RELP*(fs if x[0] == "F" else ms), "density and speed scaling: " + x)
    ctx.nontrivial = P[0]["ang"] > .01


SCENARIOS = {"forces": (forces, 1600, 8000), "reversal": (reversal, 1000, 5000), "axial": (axial, 800, 4000), "rotate": (rotate, 1000, 5000),
             "scaling": (scaling, 1000, 4000)}
