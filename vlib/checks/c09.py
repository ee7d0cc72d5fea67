"""C09 history independence and defaults"""
from ..calls import *
import itertools

ID = "C09"
RULE = ("random histories of 3-9 public calls (valid, failing, with files) on one model, each call compared with the same call on a fresh model, and "
        "omitted against explicit default states; non-trivial: the history contains at least two different successful methods")
DEF_AERO = {"V_mag": 10, "rho": 0.0023769, "alpha": 0.}


def spec(r, **kw):
    for _ in range(10):
        s = gen.plane(r, maxgrid=8, **kw)
        if all(good_blade(rp.Blade(q)) for q in s["props"]):
            if s["wings"]:
                S, R = rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": 3.}, {})
                if not usable(R):
                    continue
            return s
    raise Skip()


def history(ctx):
    r = ctx.r
    s = spec(r)
    m = mu(s)
    n = int(r.integers(3, 10))
    done = []
    cl = None
    for i in range(n):
        # mostly new calls, sometimes the same one again (right after another state) or the same call with one entry dropped
        if cl is None or r.random() < .75:
            cl = call(r, s)
        else:
            cl = (cl[0], cl[1], drop(r, cl[2]))
        done.append(cl)
        ctx.note(spec=s, history=done)
        with quiet():
            got = execute(m, cl, "h")
            want = execute(mu(s), cl, "f")
        agree(ctx, got, want, "call %d (%s) after %s" % (i, cl[0], [d[0] for d in done[:-1]]))
        ctx.count("calls")
        ctx.count("failing calls", want[0] == "error")
        ctx.count("call " + cl[0])
    ctx.nontrivial = len({d[0] for d in done}) > 1


def drop(r, kw):
    kw = copy.deepcopy(kw)
    for k in ("aero_state", "control_state", "prop_state"):
        v = kw.get(k)
        if isinstance(v, dict) and v and r.random() < .6:
            opt = [x for x in v if x not in ("V_mag", "rho")]
            if opt and k != "prop_state":
                v.pop(opt[int(r.integers(len(opt)))])
            elif r.random() < .4:
                kw.pop(k)
    return kw


ANALYSES = ("solve", "pitch_trim", "target_lift", "stall_airspeed", "stability_derivatives", "distributions", "damping_derivatives", "stall_onset",
            "control_derivatives", "derivatives")


def defaults(ctx):
    """an omitted state or entry means its documented default: every analysis with every combination of omitted states in turn"""
    r = ctx.r
    n = ANALYSES[ctx.index % len(ANALYSES)]
    k = ctx.index//len(ANALYSES) % 4
    props = int(r.choice([0, 0, 1, 2]))
    for _ in range(20):
        s = spec(r, nprops=props)
        if n not in ("pitch_trim", "control_derivatives") or any("elevator" in (w.get("control") or {}).get("mix", {}) for w in s["wings"]):
            break
    cl = call(r, s, invalid=0., files=0.)
    kw = {x: cl[2].get(x) for x in ("aero_state", "control_state", "prop_state")}
    if k in (0, 1):
        kw["aero_state"] = None
    elif not kw["aero_state"]:
        kw["aero_state"] = gen.aero(r, s=s)
    a = kw["aero_state"]
    if k in (1, 2):
        kw["control_state"] = gen.pick(r, None, None, {})
    elif not kw["control_state"]:
        kw["control_state"] = gen.controls(r)
    if r.random() < .6 or a is None:
        kw["prop_state"] = gen.pick(r, None, {"J": .6}, p=[.8, .2])
    q = load_scale(s, a)
    args = []
    if n == "target_lift":
        args = [q*gen.U(r, 0, .5)]
    elif n == "pitch_trim":
        args = [q*gen.U(r, 0, .4)]
        kw["error"] = 1e-7*q
    elif n == "stall_airspeed":
        args = [q*gen.U(r, .5, 1.5)]
        kw["error"] = 1e-3
    full = dict(kw)
    full["aero_state"] = dict({"alpha": 0., "beta": 0., "roll_rate": 0., "pitch_rate": 0., "yaw_rate": 0.}, **(a or DEF_AERO))
    full["control_state"] = dict({"aileron": 0., "elevator": 0., "rudder": 0., "flap": 0.}, **(kw["control_state"] or {}))
    if not kw["prop_state"]:
        full["prop_state"] = {"J": .5}
    ctx.note(spec=s, call=[n, args, kw])
    mi = {k: v for k, v in kw.items() if v is not None or r.random() < .5}
    with quiet():
        got = execute(mu(s), (n, args, mi), "d")
        want = execute(mu(s), (n, args, full), "e")
    agree(ctx, got, want, "defaults of " + n, 1e-6)
    ctx.count("default " + n)
    ctx.count("answers of " + n, want[0] == "ok")
    ctx.nontrivial = a is None or len(full["aero_state"]) > len(a)


def wings(ctx):
    """the lifting line alone: histories of solutions, omitted states, getters in between"""
    r = ctx.r
    s, a, c, S, R = wing_state(ctx, maxgrid=10)
    if r.random() < .35:
        s = evened(r, s)
        S, R = rw.solve(s, a, c)
        if not usable(R):
            raise Skip()
        ctx.note(spec=s)
        ctx.count("airplanes with a plane of symmetry")
    m = LLModel(plane(s))
    seq = []
    for i in range(int(r.integers(2, 7))):
        A = gen.pick(r, None, gen.aero(r, s=s), gen.aero(r, s=s), a)
        C = gen.pick(r, None, {}, gen.controls(r), c)
        if seq and seq[-1][0] and r.random() < .5:
            # the flow before with one change: rates, sideslip, the same velocities at other sections
            A = copy.deepcopy(seq[-1][0])
            C = gen.pick(r, seq[-1][1], C)
            k = gen.pick(r, "roll_rate", "pitch_rate", "yaw_rate", "beta", "rows")
            if k == "rows" and "local_state" in A:
                A["local_state"] = gen.pick(r, A["local_state"][::-1], A["local_state"][r.permutation(S.N)])
            elif k == "beta":
                A[k] = -A.get(k, 3.)
            elif k != "rows":
                A[k] = gen.pick(r, -A.get(k, 0.), 0., gen.U(r, -.1, .1)*A["V_mag"]/s["scale"])
            ctx.count("one change in the flow")
        elif A and r.random() < .3:
            # per-section velocities
            A = dict(A)
            u = rw.freestream(A)*A["V_mag"]
            loc = np.empty((S.N, 4))
            loc[:, 0] = A["rho"]
            loc[:, 1:] = u*(1 + .1*r.standard_normal((S.N, 1)))
            A["local_state"] = loc
        seq.append((A, C))
        ctx.note(seq=seq)
        kw = {}
        if A is not None or r.random() < .5:
            kw["aero_state"] = A
        if C is not None or r.random() < .5:
            kw["control_state"] = C
        got = m.solve("linear", **copy.deepcopy(kw))
        want = LLModel(plane(s)).solve("linear", **copy.deepcopy(kw))
        agree(ctx, ("ok", got, None), ("ok", want, None), "solution %d" % i, 1e-9)
        if A is None:
            ref = LLModel(plane(s)).solve("linear", aero_state={"V_mag": 10., "rho": 1., "alpha": 0., "beta": 0.}, control_state=C)
            agree(ctx, ("ok", got, None), ("ok", ref, None), "default flow of the lifting line", 1e-9)
        ctx.count("solutions")
    ctx.nontrivial = len(seq) > 1


def evened(r, s):
    """an airplane of the same kind that is symmetric with respect to y = 0"""
    s = copy.deepcopy(s)
    s["cg"][1] = 0.
    if s.get("position") is not None:
        s["position"][1] = 0.
    for w in s["wings"]:
        w["side"] = "both"
        if not w.get("connect"):
            w["pos"][1] = 0.
        if r.random() < .5:
            w["dihedral"] = 0.
    return s


def vary(r, kw):
    """the same states with one or two entries changed: sign, size, exchange of two entries"""
    kw = copy.deepcopy(kw)
    leaves = []
    for k in ("aero_state", "control_state", "prop_state"):
        for d in [kw.get(k)] + list((kw.get(k) or {}).values()):
            if isinstance(d, dict):
                leaves += [(d, x, k) for x, v in d.items() if not isinstance(v, dict)]
    for _ in range(int(gen.pick(r, 1, 1, 1, 2))):
        if kw.get("aero_state") and r.random() < .2:
            # a rate added or dropped
            k = gen.pick(r, "roll_rate", "pitch_rate", "yaw_rate")
            a = kw["aero_state"]
            leaves = [x for x in leaves if x[0] is not a or x[1] != k]
            if a.pop(k, None) is None:
                a[k] = gen.U(r, -.03, .03)*a["V_mag"]
            continue
        if not leaves:
            return kw
        d, x, k = leaves[int(r.integers(len(leaves)))]
        u = r.random()
        positive = x in ("V_mag", "rho", "J", "rot_per_sec")
        if u < .35 and not positive:
            d[x] = -d[x]
        elif u < .5 and not positive:
            others = [(e, y) for e, y, j in leaves if j == k and y not in ("V_mag", "rho") and (e, y) != (d, x)]
            if others:
                e, y = others[int(r.integers(len(others)))]
                d[x], e[y] = e[y], d[x]
        elif u < .6 and not positive:
            d[x] = 0.
        elif d[x] == 0 and x in ("J",):
            continue
        else:
            d[x] = d[x]*(1 + gen.pick(r, 1e-4, -1e-3, .01, .1)) + (0 if positive else gen.pick(r, 0., 0., .001, .2))
    return kw


def neighbours(ctx):
    """states that differ in single entries, and returns to earlier states, on one model"""
    r = ctx.r
    s = spec(r)
    if r.random() < .3:
        s = evened(r, s)
        if s["wings"] and not usable(rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": 3.}, {})[1]):
            raise Skip()
    m = mu(s)
    for _ in range(20):
        cl = call(r, s, heavy=False, invalid=0., files=0.)
        if cl[2].get("aero_state") and len(cl[2]["aero_state"]) > 2:
            break
    a = cl[2].get("aero_state") or {"V_mag": 20., "rho": 1.1}
    for k in ("alpha", "beta"):
        if k not in a and r.random() < .7:
            a[k] = gen.U(r, -8, 8)
    cl[2]["aero_state"] = a
    past = [cl]
    n = int(r.integers(3, 8))
    for i in range(n):
        if i:
            old = past[int(r.integers(len(past)))] if r.random() < .4 else past[-1]
            kw = old[2] if r.random() < .15 else vary(r, old[2])
            cl = (gen.pick(r, old[0], "solve", "distributions"), [], kw)
            past.append(cl)
        ctx.note(spec=s, history=past)
        with quiet():
            got = execute(m, cl, "h")
            want = execute(mu(s), cl, "f")
        agree(ctx, got, want, "call %d (%s) after neighbouring states" % (i, cl[0]), 1e-7 if s["props"] else 1e-9)
        ctx.count("neighbouring states")
    ctx.nontrivial = True


def point(r, s, a):
    """a propeller state of any kind, sometimes one that is refused"""
    d = rp.full_prop(s["props"][0])["d"]
    V = (a or {"V_mag": 10.})["V_mag"]
    rho = (a or {"rho": .0023769})["rho"]
    n = (V or 20.)/(gen.U(r, .2, .9)*d)

    def one():
        k = gen.pick(r, "J", "rps", "static", "power", "throttle", "J0", "unknown", p=[.17, .17, .12, .22, .22, .05, .05])
        return {"J": {"J": gen.U(r, .1, .9)}, "rps": {"rot_per_sec": n}, "static": {"J": 0., "rot_per_sec": n},
                "power": {"brake_power": rho*n**3*d**5*gen.U(r, .01, .08)}, "throttle": {"electric_throttle": gen.U(r, .2, 1.)}, "J0": {"J": 0.},
                "unknown": {"throttle": .4}}[k]
    u = r.random()
    if u < .15:
        return None
    if u < .5:
        return {q["name"]: one() for q in s["props"]}
    return one()


def points(ctx):
    """propellers alone: every way to give an operating point after every other one, including still air and points that do not exist"""
    r = ctx.r
    units = gen.pick(r, "English", "SI", None)
    for _ in range(12):
        s = prop_only(r, int(gen.pick(r, 1, 1, 2)), units is not None, units)
        if (not units or json_ok(s)) and all(good_blade(rp.Blade(q)) for q in s["props"]):
            break
    else:
        raise Skip("degenerate blade")
    m = mu(s)
    done = []
    for i in range(int(r.integers(3, 9))):
        a = gen.pick(r, gen.aero(r, rates=0), None, p=[.9, .1])
        if a and r.random() < .12:
            a["V_mag"] = 0.
        cl = (gen.pick(r, "solve", "solve", "distributions"), [], dict(aero_state=a, prop_state=point(r, s, a)))
        if done and r.random() < .4:
            # the same flow with another way to give the point, or the same point in another flow
            k = gen.pick(r, "aero_state", "prop_state")
            cl[2][k] = copy.deepcopy(done[-1][2][k])
        done.append(cl)
        ctx.note(spec=s, history=done)
        with quiet():
            got = execute(m, cl, "h")
            want = execute(mu(s), cl, "f")
        agree(ctx, got, want, "operating point %d %s after %s" % (i, cl[2]["prop_state"], [d[2]["prop_state"] for d in done[:-1]]), 1e-9)
        ctx.count("operating points")
        ctx.count("operating points refused", want[0] == "error")
    ctx.nontrivial = True


def solver(ctx):
    """the blade element solver alone: histories of solutions with velocities at given points, omitted states"""
    r = ctx.r
    s = spec(r, nprops=int(gen.pick(r, 1, 2)))
    if not s["props"]:
        raise Skip()
    with quiet():
        p = plane(s)
        pts = gen.pick(r, None, r.uniform(-1, 1, (int(r.integers(1, 9)), 3))*s["scale"])
        make = lambda: PropsSolver(p, None if pts is None else pts.copy())
        m = make()
        seq = []
        for i in range(int(r.integers(2, 7))):
            A = gen.pick(r, None, {}, gen.aero(r, rates=0, s=s), p=[.2, .05, .75])
            st = point(r, s, A)
            seq.append((A, st))
            ctx.note(spec=s, seq=seq)
            kw = {k: v for k, v in (("aero_state", A), ("prop_state", st)) if v is not None or r.random() < .5}
            cl = ("solve", [], kw)
            got, want = execute(m, cl), execute(make(), cl)
            agree(ctx, got, want, "propeller solution %d" % i, 1e-9)
            if not A or st is None:
                full = ("solve", [], dict(aero_state=A or {"V_mag": 10., "rho": .0023769, "alpha": 0., "beta": 0.}, prop_state=st or {"J": .5}))
                agree(ctx, got, execute(make(), full), "default states of the propeller solver", 1e-9)
                ctx.count("default states")
            ctx.count("propeller solutions")
            ctx.count("propeller solutions refused", want[0] == "error")
    ctx.nontrivial = True


SCENARIOS = {"solver": (solver, 200, 4000), "points": (points, 200, 4000), "history": (history, 110, 1500), "neighbours": (neighbours, 150, 4000), "defaults": (defaults, 160, 2400), "wings": (wings, 200, 4000)}
