"""C12 equivalent descriptions of a propeller's operating point"""
from ..calls import *

ID = "C12"
RULE = ("random propellers, speeds, densities and operating points described by advance ratio, rotation rate, brake power and electric throttle; "
        "non-trivial: the operating point had to be searched (power, throttle), several propellers with own states, or a default")


def blades(ctx, n=1, motor=False, units=None):
    r = ctx.r
    for _ in range(12):
        s = prop_only(r, n, motor, units)
        # units can only be given in an input file, which cannot place airfoils at arbitrary positions
        if (not units or json_ok(s)) and all(good_blade(rp.Blade(q)) for q in s["props"]):
            return s
    raise Skip("degenerate blade")


def speed(data, name, q, V):
    """(J, rps) from the reported advance angles"""
    B = rp.Blade(q)
    J = np.pi*B.z*np.tan(data[name]["einf"])
    return float(np.median(J)), V/(float(np.median(J))*B.d)


def both(s, a, st, m=None):
    m = m or mu(s)
    with budget():
        t = m.solve(a, None, st)
    return t, prop_data(m), m


def match(ctx, t, u, ref, msg, rel):
    fs = sum(L["fscale"] for L in ref)
    ms = sum(L["mscale"] for L in ref)
    for k in FM:
        ctx.close(t[k], u[k], rel*(fs if k[0] == "F" else ms), "%s: %s" % (msg, k))


def stiff(L):
    """loads change abruptly with the operating point close to a branch point of the polar"""
    return L["kink"] < 1e-4 or not np.isfinite(L["fscale"]) or L["B"].kinks(L["alpha"] + 1e-3).min() < 1e-4 or L["B"].kinks(L["alpha"] - 1e-3).min() < 1e-4


def ratio_rate(ctx):
    """J and rotation rate; extra keys; default advance ratio"""
    r = ctx.r
    s = blades(ctx, int(gen.pick(r, 1, 1, 2)))
    a = gen.aero(r, rates=0)
    d = rp.full_prop(s["props"][0])["d"]
    J = gen.U(r, .1, 1.1)
    ctx.note(spec=s, aero=a, J=J)
    t, pd, m = both(s, a, {"J": J})
    for q in s["props"]:
        B = rp.Blade(q)
        ctx.close(pd[q["name"]]["einf"], np.arctan2(J, np.pi*B.z), 1e-12, "advance angle for a given advance ratio")
    ref = ref_props(s, a, {"J": J}, pd)
    if any(stiff(L) for L in ref):
        raise Skip()
    st = {q["name"]: {"rot_per_sec": a["V_mag"]/(J*rp.full_prop(q)["d"])} for q in s["props"]}
    t2, pd2, _ = both(s, a, st, m)
    match(ctx, t2, t, ref, "rotation rate equivalent to an advance ratio", 1e-7)
    if len(s["props"]) == 1:
        t3, _, _ = both(s, a, st[s["props"][0]["name"]], m)
        match(ctx, t3, t, ref, "state without propeller name", 1e-7)
    # default
    t4, pd4, _ = both(s, a, gen.pick(r, None, {}), m)
    t5, pd5, _ = both(s, a, {"J": .5}, m)
    ctx.check_that(same(t4, t5), "default advance ratio is not 0.5")
    # the dimensional loads for a rotation rate given explicitly
    n = gen.U(r, 5, 200)
    t6, pd6, _ = both(s, a, {"rot_per_sec": n}, m)
    R = ref_props(s, a, {"rot_per_sec": n}, pd6)
    for q, L in zip(s["props"], R):
        ctx.close(pd6[q["name"]]["einf"], np.arctan2(a["V_mag"]/(n*rp.full_prop(q)["d"]), np.pi*L["B"].z), 1e-12, "advance ratio of a rotation rate")
    if not any(stiff(L) for L in R):
        F = sum(L["F"] for L in R)
        M = sum(L["M"] for L in R)
        fs, ms = sum(L["fscale"] for L in R), sum(L["mscale"] for L in R)
        for i, k in enumerate(("FX", "FY", "FZ")):
            ctx.close(t6[k], F[i], 1e-7*fs, "loads at a rotation rate: " + k)
        for i, k in enumerate(("MX", "MY", "MZ")):
            ctx.close(t6[k], M[i], 1e-7*ms, "loads at a rotation rate: " + k)
    # zero advance ratio needs and uses the rotation rate
    t7, pd7, _ = both(s, a, {"J": gen.pick(r, 0, 0.), "rot_per_sec": n}, m)
    for q in s["props"]:
        ctx.close(pd7[q["name"]]["einf"], np.zeros(rp.full_prop(q)["nodes"]), 0, "static advance angle")
    ctx.count("solutions", 7)
    ctx.nontrivial = len(s["props"]) > 1 or J > .6


def named(ctx):
    """states addressed by propeller name equal models with a single propeller in that state"""
    r = ctx.r
    s = blades(ctx, int(gen.pick(r, 2, 3)))
    if r.random() < .3:
        gen.alike(r, s, s["props"])
    a = gen.aero(r, rates=0)
    st = {}
    for q in s["props"]:
        J = gen.U(r, .1, 1.1)
        d = rp.full_prop(q)["d"]
        st[q["name"]] = {} if r.random() < .1 else gen.pick(r, {"J": J}, {"rot_per_sec": a["V_mag"]/(d*J)}, {"J": 0., "rot_per_sec": gen.U(r, 5, 60)})
    ctx.note(spec=s, aero=a, prop_state=st)
    if r.random() < .5:
        # shuffled state dictionary
        st = {k: st[k] for k in [list(st)[i] for i in r.permutation(len(st))]}
    t, pd, m = both(s, a, st)
    ref = ref_props(s, a, st, pd)
    fs, ms = sum(L["fscale"] for L in ref), sum(L["mscale"] for L in ref)
    if not np.isfinite(fs + ms):
        raise Skip()
    tot = {k: 0. for k in FM}
    for q in s["props"]:
        one = dict(s, props=[q])
        u, pu, _ = both(one, a, st[q["name"]] or {"J": .5})
        ctx.count("propellers with an empty state of their own", not st[q["name"]])
        ctx.check_that(same(pu[q["name"]], pd[q["name"]]), "a propeller does not work at the state given for it by name")
        for k in FM:
            tot[k] += u[k]
    for k in FM:
        ctx.close(t[k], tot[k], 1e-9*(fs if k[0] == "F" else ms), "sum over propellers with own states: " + k)
    ctx.count("propellers", len(s["props"]))
    ctx.nontrivial = True


def power(ctx):
    """brake power absorbed at the rotation rate that is found"""
    r = ctx.r
    s = blades(ctx)
    q = s["props"][0]
    a = gen.aero(r, rates=0)
    B = rp.Blade(q)
    J0 = gen.U(r, .15, .7)
    ctx.note(spec=s, aero=a, J0=J0)
    t0, pd0, m = both(s, a, {"J": J0})
    L0 = ref_props(s, a, {"J": J0}, pd0)[0]
    n0 = a["V_mag"]/(J0*B.d)
    P = a["rho"]*n0**3*B.d**5*2*np.pi*L0["Cl"]
    if not (np.isfinite(P) and P > 0) or stiff(L0):
        raise Skip()
    ctx.note(brake_power=P)
    P *= gen.pick(r, 1., gen.U(r, .9, 1.1))
    st = {"brake_power": float(P)}
    if r.random() < .4:
        st = {q["name"]: st}
    t, pd, _ = both(s, a, st, m)
    J, n = speed(pd, q["name"], q, a["V_mag"])
    ctx.check_that(n > 0, "rotation rate not positive")
    L = ref_props(s, a, {"J": J}, pd)[0]
    if stiff(L):
        raise Skip()
    got = a["rho"]*n**3*B.d**5*2*np.pi*L["Cl"]
    ctx.close(got, P, 1e-6*P + 1e-6*a["rho"]*n**3*B.d**5*2*np.pi*L["Cls"], "absorbed power equals the brake power")
    t2, pd2, _ = both(s, a, {"J": J}, m)
    match(ctx, t2, t, [L], "advance ratio found for a brake power", 1e-6)
    t3, pd3, _ = both(s, a, {"rot_per_sec": n}, m)
    match(ctx, t3, t, [L], "rotation rate found for a brake power", 1e-6)
    # torque times speed is the power
    Pq, _ = PropsSolver(m.myairplane, None).solve(a, st)
    ctx.close(abs(Pq["total"]["Torque"])*2*np.pi*n, P, 1e-6*P + 1e-6*a["rho"]*n**3*B.d**5*2*np.pi*L["Cls"], "reported torque times speed")
    ctx.count("operating points")
    ctx.nontrivial = True


def motor(ctx):
    """shaft torque equals motor torque"""
    r = ctx.r
    units = gen.pick(r, "English", "SI")
    s = blades(ctx, 1, True, units)
    q = s["props"][0]
    mo = q["motor"]
    B = rp.Blade(q)
    thr = gen.pick(r, gen.U(r, .1, 1.), 1., 1)
    # speed within the range where the motor drives the propeller
    nmax = motor_free_speed(mo, thr, units)
    a = gen.aero(r, rates=0)
    if nmax <= 1:
        raise Skip("the motor does not turn")
    a["V_mag"] = float(min(a["V_mag"], gen.U(r, .1, .5)*nmax*B.d))
    ctx.note(spec=s, aero=a, throttle=thr)
    st = {"electric_throttle": thr}
    if r.random() < .4:
        st = {q["name"]: st}
    m = mu(s)
    try:
        t, pd, m = both(s, a, st, m)
    except RuntimeError as e:
        if "rotation rate" not in str(e):
            raise
        # only acceptable if the motor cannot drive this propeller at any speed
        for n in np.linspace(.02, 1., 25)*nmax:
            tn, pn, _ = both(s, a, {"rot_per_sec": float(n)}, m)
            L = ref_props(s, a, {"rot_per_sec": float(n)}, pn)[0]
            if a["rho"]*n**2*B.d**5*L["Cl"] < rp.motor_torque(mo, thr, n, units) and n < .9*nmax:
                lo = n
            elif "lo" in locals():
                raise Violation("an operating point exists between %g and %g rev/s, but none was found" % (lo, n))
        raise Skip("no operating point")
    J, n = speed(pd, q["name"], q, a["V_mag"])
    ctx.check_that(n > 0, "rotation rate not positive")
    L = ref_props(s, a, {"J": J}, pd)[0]
    if stiff(L):
        raise Skip()
    shaft = a["rho"]*n**2*B.d**5*L["Cl"]
    sc = a["rho"]*n**2*B.d**5*L["Cls"]
    mt = rp.motor_torque(mo, thr, n, units)
    stall = rp.motor_torque(mo, thr, 0., units)
    ctx.close(shaft, mt, 1e-6*(sc + abs(stall)), "shaft torque equals motor torque")
    t2, pd2, _ = both(s, a, {"rot_per_sec": n}, m)
    match(ctx, t2, t, [L], "rotation rate found for a throttle", 1e-5)
    # the same shaft power, or another one straight after the throttle
    if shaft > 1e-3*sc:
        P = 2*np.pi*n*shaft
        if r.random() < .5:
            P *= gen.U(r, .9, 1.1)
            both(s, a, st, m)
        t3, pd3, _ = both(s, a, {"brake_power": float(P)}, m)
        J3, n3 = speed(pd3, q["name"], q, a["V_mag"])
        L3 = ref_props(s, a, {"J": J3}, pd3)[0]
        if not stiff(L3):
            ctx.close(a["rho"]*n3**3*B.d**5*2*np.pi*L3["Cl"], P, 1e-6*a["rho"]*n3**3*B.d**5*2*np.pi*L3["Cls"] + 1e-6*P, "power of the motor as brake power")
    ctx.count("operating points " + units)
    ctx.nontrivial = True


def motor_free_speed(mo, thr, units):
    """rotation rate of zero motor torque"""
    t0, t1 = rp.motor_torque(mo, thr, 0., units), rp.motor_torque(mo, thr, 1., units)
    return t0/(t0 - t1) if t0 > t1 else 0.


SCENARIOS = {"ratio_rate": (ratio_rate, 800, 5000), "named": (named, 600, 4000), "power": (power, 800, 5000), "motor": (motor, 800, 5000)}
