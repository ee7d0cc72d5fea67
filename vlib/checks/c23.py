"""C23 impossible requests are signalled and leave the model usable"""
import json, os
from ..calls import *
from ..build import jsondict
from .c10 import spec
from .c12 import blades

ID = "C23"
RULE = ("every kind of incomplete, invalid or unattainable request, with and without file name, at random points of a history; a monitor demands an "
        "exception or the error entry, and compares the following valid requests with a model that never saw the invalid one; non-trivial: an invalid "
        "request was refused and a valid one answered afterwards")


def requests(r, s):
    """all invalid requests applicable to the airplane: (kind, method, args, kwargs)"""
    a = gen.aero(r, s=s)
    c = gen.controls(r)
    st = gen.prop_state(r, s, a, ("J", "rps", "default"))
    q = load_scale(s, a)
    W, P = s["wings"], s["props"]
    L = [q*gen.U(r, .1, .5)]
    anal = [("solve", []), ("distributions", [])]
    if W:
        anal += [("stability_derivatives", []), ("damping_derivatives", []), ("control_derivatives", []), ("derivatives", []), ("target_lift", L),
                 ("pitch_trim", L), ("stall_onset", []), ("stall_airspeed", L), ("find_aero_center", [])]
    out = []

    def add(kind, method, args=(), **kw):
        out.append((kind, method, list(args), kw))
    for k in ("V_mag", "rho"):
        b = {x: v for x, v in a.items() if x != k}
        n, args = anal[int(r.integers(len(anal)))]
        if b and (n != "stall_airspeed" or k != "V_mag"):
            add("without " + k, n, args, aero_state=b, control_state=c, prop_state=st)
        add("without " + k, "solve", aero_state=b or {"alpha": 1.}, control_state=c, prop_state=st)
        add("without " + k, "distributions", aero_state=b or {"alpha": 1.}, control_state=c, prop_state=st)
    if P:
        n, args = anal[int(r.integers(len(anal)))]
        bad = [("unknown propeller state", gen.pick(r, {"rpm": 3000.}, {"throttle": .5}, {"j": .5}, {"advance_ratio": .5}))]
        bad += [("static propeller without speed", {"J": gen.pick(r, 0., 0)})]
        name = P[int(r.integers(len(P)))]["name"]
        bad += [("unknown propeller state", {name: {"rpm": 1.}})]
        if len(P) > 1:
            bad += [("propeller without state", {name: {"J": .6}}), ("static propeller without speed", dict({"J": .6}, **{name: {"J": 0.}}))]
        nomotor = [p["name"] for p in P if not p.get("motor")]
        motor = [p["name"] for p in P if p.get("motor")]
        if not s.get("units"):
            bad += [("throttle without units", {"electric_throttle": .5})]
            if motor:
                bad += [("throttle without units", dict({"J": .5}, **{motor[0]: {"electric_throttle": .6}}))]
        elif nomotor:
            bad += [("throttle without motor", {"electric_throttle": .5}), ("throttle without motor", dict({"J": .5}, **{nomotor[0]: {"electric_throttle": .6}}))]
        d = max(rp.full_prop(p)["d"] for p in P)
        bad += [("power no propeller can take", {"brake_power": -1e5*a["rho"]*a["V_mag"]**3*d*d})]
        for kind, x in bad:
            add(kind, "solve" if kind.startswith("power") or r.random() < .5 else n, [] if kind.startswith("power") else args,
                aero_state=a, control_state=c, prop_state=x)
            if out[-1][1] == "solve":
                out[-1] = (kind, "solve", [], out[-1][3])
        z = dict(a, V_mag=0.)
        if not W:
            add("static propeller without speed", "solve", aero_state=z, prop_state={"J": .5})
    if W:
        add("lift out of reach", "target_lift", [gen.pick(r, 1, -1)*q*gen.U(r, 1e3, 1e5)], aero_state=a, control_state=c, prop_state=st)
        if not any((w.get("control") or {}).get("mix", {}).get("elevator") for w in W):
            add("no elevator", "pitch_trim", L, aero_state=a, control_state=c, prop_state=st)
            add("no elevator", "pitch_trim", L, aero_state=a, prop_state=st)
    else:
        for n, args in (("stall_onset", []), ("stall_airspeed", [1.]), ("derivatives", [])):
            add(n + " without wings", n, args, aero_state=a, prop_state=st)
            add(n + " without wings", n, args)
    return out


FILES = ("solve", "distributions", "find_aero_center", "stall_onset", "stall_airspeed", "derivatives", "target_lift", "pitch_trim")
ENTRY = {"lift out of reach": "unliftable", "no elevator": "no_elevator", "out of trim": "untrimmable", "stall_onset without wings": "unstallable",
         "stall_airspeed without wings": "unstallable", "derivatives without wings": "underivable", "no stall": "unstallable"}


def refuse(ctx, m, kind, n, args, kw, r):
    """execute an invalid request; it has to be signalled"""
    args, kw = copy.deepcopy(args), copy.deepcopy(kw)
    f = None
    if n in FILES and r.random() < .5:
        f = file_path(ctx, "txt" if n == "distributions" else "json")
        if os.path.exists(f):
            os.remove(f)
        kw["filename"] = f
    ctx.note(invalid=[kind, n, args, {k: v for k, v in kw.items() if k != "filename"}, bool(f)])
    msg = "%s: %s%s" % (n, kind, " (with file)" if f else "")
    res, err = None, None
    try:
        with quiet(), budget(6_000_000):
            res = getattr(m, n)(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        err = e
    ctx.evals += 1
    if kind == "out of trim" and err is None and list(numbers(res)):
        # within the reach of the linear surface effectiveness after all: then it has to be a trim state
        with quiet():
            x = m.solve(dict(kw["aero_state"], alpha=res["alpha"]), dict(kw.get("control_state") or {}, elevator=res["elevator"]))
        ctx.check_that(abs(x["FL"] - args[0]) < 1e-6*abs(args[0]) and abs(x["MY"]) < 1e-6*abs(args[0]), "%s: not a trim state" % msg)
        ctx.count("trimmed after all")
    elif err is None:
        body = None
        if f is not None and os.path.exists(f):
            try:
                body = json.load(open(f))
            except ValueError:
                body = "a file that is not JSON"
        entry = isinstance(body, dict) and set(body) == {"error"} and isinstance(body["error"], str) and body["error"]
        ctx.check_that(entry, "%s is not signalled: returned %.200r" % (msg, res))
        if kind in ENTRY and not (kind == "out of trim" and body["error"] == "no_elevator"):     # angles beyond rounding have no effect
            ctx.check_that(body["error"] == ENTRY[kind], "%s: error entry %r" % (msg, body["error"]))
        ctx.check_that(not list(numbers(res)), "%s: an error entry and numbers: %.200r" % (msg, res))
        ctx.count("error entries")
    else:
        ctx.check_that(not (isinstance(err, np.linalg.LinAlgError if kind == "no elevator" else ()) and f is not None), "%s: raised %r instead of writing the error entry" % (msg, err))
        ctx.check_that(not (isinstance(err, RuntimeError) and f is not None and kind in ENTRY and ENTRY[kind] != "unstallable"),
                       "%s: raised %r instead of writing the error entry" % (msg, err))
        ctx.count("exceptions")
        if f is not None and os.path.exists(f):
            try:
                body = json.load(open(f))
                ctx.check_that(set(body) == {"error"}, "%s: a result was written although an error was raised" % msg)
            except ValueError:
                pass
    if f is not None and os.path.exists(f):
        os.remove(f)
    ctx.count(kind)


def model(r):
    if r.random() < .35:
        s = prop_only(r, int(r.integers(1, 4)), motor=gen.pick(r, False, True), units=gen.pick(r, None, "English", "SI"))
        if r.random() < .5 and s["props"]:
            s["props"][0].pop("motor", None)
        for q in s["props"]:
            q["nodes"] = int(min(q.get("nodes", 100), 20))
        if not all(good_blade(rp.Blade(q)) for q in s["props"]) or (s.get("units") and not json_ok(s)):
            raise Skip()
        return s
    return spec(r)


def history(ctx):
    r = ctx.r
    s = model(r)
    ctx.note(spec=s)
    m = mu(s)
    answered = refused = 0
    for i in range(int(r.integers(2, 5))):
        opts = requests(r, s)
        for j in range(int(r.integers(1, 5))):
            kinds = sorted({o[0] for o in opts})
            k = kinds[int(r.integers(len(kinds)))]
            same_kind = [o for o in opts if o[0] == k]
            refuse(ctx, m, *same_kind[int(r.integers(len(same_kind)))], r)
            refused += 1
        cl = call(r, s, heavy=r.random() < .12, invalid=0., files=0.)
        if cl[0] == "create_stl":
            cl = ("solve", [], {})
        ctx.note(call=cl)
        with quiet():
            got = execute(m, cl, "a")
            want = execute(mu(s), cl, "b")
        agree(ctx, got, want, "%s after refused requests" % cl[0])
        answered += got[0] == "ok"
    ctx.nontrivial = bool(answered and refused)


def unattainable(ctx):
    """airplanes that cannot be trimmed or stalled"""
    r = ctx.r
    for _ in range(10):
        s = spec(r, wings=int(gen.pick(r, 1, 2)), nprops=0)
        if s["wings"]:
            break
    u = r.random()
    a, c = gen.aero(r, s=s), gen.controls(r)
    q = load_scale(s, a)
    kw = dict(aero_state=a, control_state=c)
    if u < .5:
        for w in s["wings"]:
            ends = w.get("airfoils") or {}
            if "both" not in ends:
                w["airfoils"] = {"both": gen.airfoil(r)}
            w["airfoils"]["both"]["CL_max"] = gen.U(r, 200., 1e4)
        req = gen.pick(r, ("no stall", "stall_onset", [], kw), ("no stall", "stall_airspeed", [q], kw))
    else:
        w = s["wings"][0]
        w["control"] = dict(span=(0., 1.), chord=.3, mix={"elevator": 1.})
        req = ("out of trim", "pitch_trim", [gen.pick(r, 1, -1)*q*gen.U(r, 1e3, 1e5)], kw)
        for w in s["wings"]:
            w["grid"] = min(w.get("grid", 40), 5)
    ctx.note(spec=s)
    if not usable(rw.solve(s, a, c)[1]):
        raise Skip()
    m = mu(s)
    refuse(ctx, m, *req, r)
    cl = ("solve", [], dict(kw))
    with quiet():
        got, want = execute(m, cl, "a"), execute(mu(s), cl, "b")
    agree(ctx, got, want, "solve after a refused request")
    ctx.nontrivial = got[0] == "ok"


def construction(ctx):
    """descriptions that are not an airplane"""
    r = ctx.r
    for _ in range(20):
        s = spec(r)
        if json_ok(s) and s["wings"]:
            break
    else:
        raise Skip()
    d = jsondict(s)
    P = geometry.Airplane
    af = gen.airfoil(r)
    props = {k: v for k, v in af.items() if k != "name"}

    def write(x):
        f = file_path(ctx, "json")
        with open(f, "w") as o:
            o.write(x if isinstance(x, str) else json.dumps(x))
        return f

    def without(*path):
        x = copy.deepcopy(d)
        y = x
        for k in path[:-1]:
            y = y[k]
        del y[path[-1]]
        return lambda: MU.MachUp(write(x))

    def changed(v, *path):
        x = copy.deepcopy(d)
        y = x
        for k in path[:-1]:
            y = y[k]
        y[path[-1]] = v
        return lambda: MU.MachUp(write(x))

    def built(f):
        def g():
            p = P("p")
            p.add_wing("w", grid=4)
            f(p)
            m = MU.MachUp(inputAirplane=p)
            with quiet():
                return m.solve({"V_mag": 10., "rho": 1.})
        return g
    w = list(d["wings"])[int(r.integers(len(d["wings"])))]
    miss = list(props)[int(r.integers(len(props)))]
    one = {k: v for k, v in props.items() if k != miss}
    opts = [("missing file", lambda: MU.MachUp(os.path.join(scratch(), "does_not_exist.json"))),
            ("truncated file", lambda: MU.MachUp(write(json.dumps(d)[:int(r.integers(1, len(json.dumps(d))))]))),
            ("unknown units", changed("parsec", "condition", "units")),
            ("unknown side", changed("middle", "wings", w, "side")),
            ("unknown parent", changed(77, "wings", w, "connect", "ID")),
            ("no position", without("wings", w, "connect", "dx")), ("no span", without("wings", w, "span")), ("no cg", without("plane", "CGz")),
            ("no airfoil data", without("wings", w, "airfoils", list(d["wings"][w]["airfoils"])[0], "properties")),
            ("no plane", without("plane")),
            ("unknown side", built(lambda p: p.add_wing("x", side="middle"))),
            ("unknown parent", built(lambda p: p.add_wing("x", connect_to=("nothing", "tip")))),
            ("incomplete airfoil", built(lambda p: p.add_wing("x").airfoil("a", **one))),
            ("control surface without mix", built(lambda p: p.add_wing("x").control_surface(percent_span=(0., 1.), percent_chord=.3))),
            ("unknown pitch type", built(lambda p: p.add_prop("x", pitch_info={"type": "none"}))),
            ("unknown chord type", built(lambda p: p.add_prop("x", chord_info={"type": "none"}))),
            ("missing table", built(lambda p: p.add_prop("x", pitch_info={"type": "from_file", "filename": os.path.join(scratch(), "no.txt")}))),
            ("airfoils without position", built(lambda p: (lambda q: [q.airfoil("a", **props), q.airfoil("b", **props)])(p.add_prop("x"))))]
    if d.get("propellers"):
        q = list(d["propellers"])[0]
        opts += [("no diameter", without("propellers", q, "diameter")), ("unknown pitch type", changed({"type": "none"}, "propellers", q, "pitch"))]
    k, f = opts[ctx.index % len(opts)]
    ctx.note(spec=s, kind=k)
    try:
        with quiet(), budget(6_000_000):
            x = f()
    except Violation:
        raise
    except Exception:
        x = None
    p = file_path(ctx, "json")
    if os.path.exists(p):
        os.remove(p)
    ctx.check_that(x is None, "an airplane with %s is accepted" % k)
    ctx.count(k)
    cl = call(r, s, heavy=False, invalid=0., files=0.)
    with quiet():
        got = execute(mu(s), cl, "a")
    ctx.check_that(got[0] == "ok" or "brake" in repr(cl), "a valid airplane fails after an invalid one: %r" % (got,))
    ctx.nontrivial = True


SCENARIOS = {"history": (history, 440, 4000), "unattainable": (unattainable, 48, 500), "construction": (construction, 240, 1000)}
