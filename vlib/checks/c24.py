"""C24 every analysis ends within a bounded number of loop iterations"""
from ..calls import *
from .. import core

ID = "C24"
RULE = ("public analyses under ordinary, extreme and meaningless operating states, targets, tolerances and airplanes; a logical clock counts the loop "
        "iterations executed by the code under test and stops a call that exceeds the bound for its method and airplane; non-trivial: the call iterated")

SOLVES = dict(solve=1, distributions=1, create_stl=1, stability_derivatives=4, damping_derivatives=6, control_derivatives=8, derivatives=18,
              find_aero_center=120, target_lift=23, pitch_trim=910, stall_onset=902, stall_airspeed=53*902)
NAN, INF = float("nan"), float("inf")


def limit(s, method, power):
    """loop iterations of one call, with a margin of about ten: searches stop after 20 (lift), 50 (airspeed), 100 (trim) or 900 (stall) steps"""
    sections = sum(rw.full_wing(w)["grid"]*2 for w in s["wings"])
    per = 200 + 10*len(s["wings"]) + 2*sections
    for q in s["props"]:
        per += 130*(1 + 230*power) + 2*rp.full_prop(q)["nodes"]
    n = 3*SOLVES[method]*per
    if method == "create_stl":
        n += 400*(sections + sum(rp.full_prop(q)["nodes"]*(1 + rp.full_prop(q)["k"]) for q in s["props"]))
    return min(n, 4_000_000)


def rounds(s, method):
    """iterations of one single loop with much work in it, a search of the method"""
    return 3*dict(target_lift=21, pitch_trim=101, find_aero_center=401, stall_onset=902, stall_airspeed=902).get(method, 0) + 200 + (1500 if method == "create_stl" else 0)


def pairs(s):
    """iterations of loops over all pairs of sections or nodes, if the code has any"""
    n = sum(rw.full_wing(w)["grid"]*2 for w in s["wings"]) + sum(rp.full_prop(q)["nodes"] for q in s["props"])
    return 20*n*n + 500


def scale_of(s, a):
    try:
        return load_scale(s, a)
    except OverflowError:
        return INF


def run(ctx, s, m, n, args, kw, what, lim=None):
    power = "brake_power" in repr(kw) or "electric" in repr(kw)
    lim = min(lim or INF, limit(s, n, power))
    core.install_monitor()
    out = "result"
    err = None
    core._steps[0] = 0
    try:
        with quiet(), budget(int(max(lim, pairs(s))), rounds(s, n)):
            try:
                getattr(m, n)(*copy.deepcopy(args), **copy.deepcopy(kw))
            except Exception as e:
                err = e
            used = core._steps[0]
    except Violation:
        raise Violation("%s does not end: more than %d loop iterations, more than %d of them in one loop (%s)" % (n, lim, rounds(s, n), what))
    ctx.check_that(not isinstance(err, RecursionError), "%s: unbounded recursion (%s)" % (n, what))
    ctx.maxi("iterations/bound " + n, used/lim)
    ctx.count("iterations", used)
    ctx.count(n)
    ctx.count("signalled" if err else "returned")
    return used


def hostile_number(r, v):
    return float(gen.pick(r, 0., -v, v*1e-12, v*1e12, 1e-300, 1e300, NAN, INF, -INF, v*gen.U(r, -5, 5), 90., -90., 180., p=None))


def state(r, s, level):
    a = gen.aero(r, s=s, big=True)
    c = gen.controls(r)
    st = gen.prop_state(r, s, a, ("J", "rps", "default", "static"))
    if level == 0:
        return a, c, st
    for k in list(a) + ["alpha", "beta"]:
        if r.random() < .15*level:
            a[k] = hostile_number(r, a.get(k, 1.) or 1.)
    for k in list(c):
        if r.random() < .1*level:
            c[k] = hostile_number(r, 10.)
    if s["props"] and r.random() < .5:
        d = rp.full_prop(s["props"][0])["d"]
        v = min(abs(a["V_mag"]), 1e6) if np.isfinite(a["V_mag"]) else 1.
        st = gen.pick(r, {"J": hostile_number(r, .5)}, {"J": gen.U(r, 1., 30.)}, {"rot_per_sec": hostile_number(r, 50.)},
                      {"brake_power": hostile_number(r, a["rho"]*v**3*d**2)}, {"J": 0., "rot_per_sec": hostile_number(r, 50.)})
    return a, c, st


def airplane(r, level):
    s = gen.plane(r, maxgrid=5, nprops=int(gen.pick(r, 0, 0, 0, 1, 1, 2)), wings=int(gen.pick(r, 1, 1, 1, 2, 2, 0)))
    for q in s["props"]:
        q["nodes"] = int(min(q.get("nodes", 100), 20))
    if level > 1:                                 # degenerate or meaningless airplanes
        for w in s["wings"]:
            for k, opts in dict(span=(0., 1e-9, 1e9, -1.), root_chord=(0., 1e-9, -1.), tip_chord=(0., -1.), sweep=(90., 89.999, NAN), dihedral=(180., NAN),
                                grid=(1, 2)).items():
                if r.random() < .08:
                    w[k] = gen.pick(r, *opts)
            for a in (w.get("airfoils") or {}).values():
                for k, opts in dict(CL_alpha=(0., -6., 1e-12, NAN), CL_max=(0., -1., INF, NAN, 1e6), CD0=(0., -1., NAN), alpha_L0=(1.5, NAN)).items():
                    if r.random() < .1:
                        a[k] = gen.pick(r, *opts)
        for q in s["props"]:
            for k, opts in dict(d=(0., 1e-9, 1e6, NAN), hd=(0., 50.), k=(0, 1, 100), nodes=(1, 2, 3)).items():
                if r.random() < .08:
                    q[k] = gen.pick(r, *opts)
            for a in q.get("airfoils", []):
                for k, opts in dict(CL_alpha=(0., -6., NAN), CL_max=(0., -1., NAN, 1e6), alpha_L0=(1., NAN)).items():
                    if r.random() < .1:
                        a[k] = gen.pick(r, *opts)
    return s


def hostile(ctx, level=None, methods=None):
    r = ctx.r
    if level is None:
        level = int(gen.pick(r, 0, 1, 1, 2, 2, 3))
    s = airplane(r, level)
    ctx.note(spec=s, level=level)
    try:
        with quiet(), budget(2_000_000):
            m = mu(s)
    except Violation:
        raise
    except Exception:
        ctx.count("not an airplane")
        raise Skip()
    tot = 0
    for i in range(3):
        a, c, st = state(r, s, level)
        q = scale_of(s, a)
        names = ["solve"]*3 + ["distributions"]
        if s["wings"]:
            names += ["target_lift"]*6 + ["pitch_trim"]*3 + ["stall_onset"]*3 + ["stall_airspeed"] + ["derivatives", "find_aero_center"]*2
        n = gen.pick(r, *(methods or names))
        if not s["wings"]:
            n = "solve"
        L = gen.pick(r, q*gen.U(r, -1, 1), hostile_number(r, q or 1.), q*1e-12, q*gen.U(r, -20, 20))
        args = [L] if n in ("target_lift", "pitch_trim", "stall_airspeed") else []
        kw = dict(aero_state=a, control_state=c, prop_state=st)
        if n == "pitch_trim" and r.random() < .3:
            kw["m_target"] = hostile_number(r, abs(q) if np.isfinite(q) else 1.)
        if n in ("target_lift", "pitch_trim", "stall_airspeed") and r.random() < .5:
            kw["error"] = gen.pick(r, 0., -1., NAN, 1e-300, 1e-3, 1e-15)
        if r.random() < .1:
            del kw["aero_state"]
        ctx.note(call=[n, args, kw])
        if n in ("pitch_trim", "stall_onset", "stall_airspeed") and "brake_power" in repr(kw) and r.random() < .9:
            continue                              # a power search inside a search: bounded, but long
        tot += run(ctx, s, m, n, args, kw, "hostile level %d" % level)
    ctx.nontrivial = tot > 50


def propeller(ctx):
    """propeller searches: advance ratios, speeds, powers and motors without solution"""
    r = ctx.r
    s = prop_only(r, int(r.integers(1, 3)), motor=True, units=gen.pick(r, None, "SI", "English"))
    for q in s["props"]:
        q["nodes"] = int(min(q.get("nodes", 100), 25))
    if s.get("units") and not json_ok(s):
        s["units"] = None
    for q in s["props"]:
        if q.get("motor") and r.random() < .4:
            for k in list(q["motor"]):
                if r.random() < .3 and not isinstance(q["motor"][k], str):
                    q["motor"][k] = hostile_number(r, float(q["motor"][k]) or 1.)
        for a in q.get("airfoils", []):
            for k, opts in dict(CL_alpha=(0., -6., NAN), CL_max=(0., -1., NAN, 1e6), alpha_L0=(1., NAN)).items():
                if r.random() < .05:
                    a[k] = gen.pick(r, *opts)
    ctx.note(spec=s)
    try:
        with quiet(), budget(2_000_000):
            m = mu(s)
    except Violation:
        raise
    except Exception:
        raise Skip()
    d = rp.full_prop(s["props"][0])["d"]
    tot = 0
    for i in range(4):
        a = gen.aero(r, s=s, big=True)
        if r.random() < .25:
            a["V_mag"] = hostile_number(r, 20.)
        v = min(abs(a["V_mag"]), 1e6) if np.isfinite(a["V_mag"]) else 1.
        st = gen.pick(r, {"J": gen.U(r, -3, 10)}, {"rot_per_sec": gen.U(r, -100, 200)}, {"brake_power": a["rho"]*v**3*d*d*float(np.exp(gen.U(r, -12, 12)))},
                      {"brake_power": -a["rho"]*v**3*d*d*float(np.exp(gen.U(r, -8, 3)))}, {"electric_throttle": gen.U(r, -.5, 1.5)},
                      {"electric_throttle": hostile_number(r, .5)}, {"brake_power": hostile_number(r, 100.)})
        ctx.note(call=[a, st])
        tot += run(ctx, s, m, gen.pick(r, "solve", "distributions"), [], dict(aero_state=a, prop_state=st), "propeller")
    ctx.nontrivial = tot > 50


def rough(ctx):
    """targets close to or beyond the reachable maximum, where the searches wander"""
    r = ctx.r
    s = airplane(r, 0)
    if not s["wings"]:
        raise Skip()
    ctx.note(spec=s)
    with quiet():
        m = mu(s)
    tot = 0
    for i in range(3):
        a, c, st = state(r, s, 0)
        q = scale_of(s, a)
        n = gen.pick(r, "target_lift", "target_lift", "pitch_trim", "stall_airspeed", "stall_onset", p=[.4, .27, .21, .04, .08])
        args = [] if n == "stall_onset" else [q*gen.pick(r, gen.U(r, .5, 6.), -gen.U(r, .5, 6.), float(np.exp(gen.U(r, -20, 20))))]
        kw = dict(aero_state=a, control_state=c, prop_state=st)
        if n != "stall_onset" and r.random() < .4:
            kw["error"] = float(10**gen.U(r, -16, 0))
        ctx.note(call=[n, args, kw])
        tot += run(ctx, s, m, n, args, kw, "target %g" % (args[0] if args else 0))
    ctx.nontrivial = tot > 50


def airspeed(ctx):
    """stall airspeeds that do not exist or that no tolerance accepts, for airplanes that stall within a few steps"""
    r = ctx.r
    for _ in range(6):
        s = gen.plane(r, maxgrid=2, nprops=0, wings=int(gen.pick(r, 1, 1, 2)))
        a, c = gen.aero(r, s=s), gen.controls(r)
        for k in ("alpha", "roll_rate", "pitch_rate", "yaw_rate"):
            a.pop(k, None)
        if usable(rw.solve(s, a, c)[1]):
            break
    else:
        raise Skip()
    for w in s["wings"]:
        for x in (w.get("airfoils") or {}).values():
            x["CL_max"] = gen.U(r, .01, .08)
    ctx.note(spec=s)
    with quiet():
        m = mu(s)
    q = scale_of(s, a)
    # the stall angle does not depend on the airspeed: the search repeats the same stall search a bounded number of times
    one = sum(run(ctx, s, m, "stall_onset", [], dict(aero_state=dict(a, V_mag=v), control_state=c), "stall") for v in (a["V_mag"], -a["V_mag"]))
    lim = 60*one*20 + 1000
    tot = 0
    for i in range(2):
        kw = dict(aero_state=a, control_state=c)
        W = q*gen.pick(r, -gen.U(r, .01, 5.), -gen.U(r, .01, 5.), gen.U(r, .01, 5.), 0., -1e-9)
        if W > 0 or r.random() < .3:
            kw["error"] = gen.pick(r, 0., -1., NAN, 1e-15)
        ctx.note(call=["stall_airspeed", [W], kw])
        tot += run(ctx, s, m, "stall_airspeed", [W], kw, "weight %g" % W, lim)
    ctx.nontrivial = tot > 50


SCENARIOS = {"airspeed": (airspeed, 48, 1500), "hostile": (hostile, 170, 6000), "propeller": (propeller, 300, 8000), "rough": (rough, 80, 3000)}
