"""C10 arguments are not modified, returned objects are snapshots"""
from ..calls import *

ID = "C10"
RULE = ("random calls with frozen arguments; returned objects frozen across later calls and edited by the caller before later calls; "
        "non-trivial: at least two successful calls")


def spec(r, **kw):
    for _ in range(10):
        s = gen.plane(r, maxgrid=6, **kw)
        if all(good_blade(rp.Blade(q)) for q in s["props"]):
            if s["wings"]:
                S, R = rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": 3.}, {})
                if not usable(R):
                    continue
            return s
    raise Skip()


def scribble(x):
    """hostile caller: overwrite everything reachable in a returned object"""
    if isinstance(x, dict):
        for k in list(x):
            v = x[k]
            if isinstance(v, (dict, list, np.ndarray)):
                scribble(v)
            else:
                x[k] = -12345.678
        x["scribble"] = 1
    elif isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            x[...] = -777.
        elif x.dtype.kind in "OU":
            x[...] = "scribble"
    elif isinstance(x, list):
        for i in range(len(x)):
            scribble(x[i]) if isinstance(x[i], (dict, list, np.ndarray)) else x.__setitem__(i, -1.)
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def arguments(ctx):
    r = ctx.r
    s = spec(r)
    m = mu(s)
    old = []
    ok = 0
    for i in range(int(r.integers(2, 5))):
        n, args, kw = call(r, s, files=.1)
        ctx.note(spec=s, call=[n, args, kw])
        before = frozen(kw)
        shared = kw
        fn = {k: v for k, v in shared.items()}
        with quiet():
            got = run_call(m, n, args, fn, "a")
        ctx.check_that(frozen(kw) == before, "%s changed its arguments" % n)
        ctx.check_that(frozen({k: fn[k] for k in kw if k != "filename"}) == frozen({k: kw[k] for k in kw if k != "filename"}), "%s changed its arguments" % n)
        for name, obj, fr in old:
            ctx.check_that(frozen(obj) == fr, "%s changed the earlier result of %s" % (n, name))
        if got[0] == "ok":
            ok += 1
            old.append((n, got[1], frozen(got[1])))
            ctx.count("results watched")
        ctx.count("calls")
    ctx.nontrivial = ok > 1


def edits(ctx):
    """editing returned objects, and the argument dictionaries after the call, has no effect on later calls"""
    r = ctx.r
    s = spec(r)
    m = mu(s)
    for i in range(int(r.integers(2, 5))):
        cl = call(r, s, files=0., invalid=.05)
        ctx.note(spec=s, call=cl)
        n, args, kw = cl
        mine = copy.deepcopy(kw)
        with quiet():
            got = run_call(m, n, list(args), mine)
            want = execute(mu(s), cl)
        agree(ctx, got, want, "%s after the caller edited earlier results" % n)
        if got[0] == "ok":
            scribble(got[1])
        scribble(mine.get("aero_state"))
        scribble(mine.get("control_state"))
        if r.random() < .5 and isinstance(mine.get("prop_state"), dict):
            scribble(mine["prop_state"])
        ctx.count("calls")
    ctx.nontrivial = True


def lifting_line(ctx):
    """the wing solver by itself: states with arrays, results of two solutions"""
    r = ctx.r
    s, a, c, S, R = wing_state(ctx, maxgrid=10)
    m = LLModel(plane(s))
    u = rw.freestream(a)*a["V_mag"]
    loc = np.empty((S.N, 4))
    loc[:, 0] = a["rho"]
    loc[:, 1:] = u
    st = dict(a, local_state=loc)
    b = frozen(st), frozen(c)
    r1 = m.solve("linear", st, c)
    ctx.check_that((frozen(st), frozen(c)) == b, "lifting-line solution changed its arguments")
    f1 = frozen(r1)
    a2 = gen.aero(r, s=s)
    r2 = m.solve("linear", a2, {})
    ctx.check_that(frozen(r1) == f1, "later lifting-line solution changed an earlier result")
    loc[:] = 1e6
    scribble(r2)
    r3 = m.solve("linear", a, c)
    want = LLModel(plane(s)).solve("linear", a, c)
    agree(ctx, ("ok", r3, None), ("ok", want, None), "solution after edits", 1e-9)
    ctx.nontrivial = True


def propellers(ctx):
    """the propeller solver by itself"""
    r = ctx.r
    s = spec(r, nprops=int(r.integers(1, 3)))
    if not s["wings"]:
        raise Skip()
    p = plane(s)
    g = LLGrid(p)
    pts = np.array(g.get_control_point_pos(), float)
    fp = frozen(pts)
    ps = PropsSolver(p, pts)
    a = gen.aero(r, s=s)
    st = gen.prop_state(r, s, a)
    f = frozen(a), frozen(st)
    r1, v1 = ps.solve(a, st)
    ctx.note(spec=s, aero=a, prop_state=st)
    ctx.check_that((frozen(a), frozen(st)) == f and frozen(pts) == fp, "propeller solution changed its arguments")
    f1 = frozen(r1), frozen(v1)
    a2 = gen.aero(r, s=s)
    r2, v2 = ps.solve(a2, gen.prop_state(r, s, a2))
    ctx.check_that((frozen(r1), frozen(v1)) == f1, "later propeller solution changed an earlier result")
    v1[...] = 1e9
    scribble(r1)
    scribble(r2)
    r3, v3 = ps.solve(a, st)
    ctx.check_that((frozen(r3), frozen(v3)) == f1, "propeller solution changed by edits of earlier results")
    ctx.nontrivial = True


def description(ctx):
    """building an airplane and a model does not modify the description it is given; the input file is only read"""
    r = ctx.r
    s = spec(r)
    ctx.note(spec=s)
    if json_ok(s):
        path = file_path(ctx)
        m = mu_json(s, path)
        body = open(path, "rb").read()
        with quiet():
            m.solve({"V_mag": 10., "rho": 1.}, {}, {"J": .5})
        ctx.check_that(open(path, "rb").read() == body, "input file changed")
    # dictionaries and lists handed to the builder
    import machup.geometry as G
    p = G.Airplane("p")
    pos, span, chord, mix = [1., 0., .5], (.2, .9), [.2, .3], {"elevator": 1., "flap": .5}
    pitch, ch, motor = {"type": "ratio", "value": .6}, {"type": "linear", "root": .1, "tip": .05}, gen.motor_spec(r)
    ppos, orient = [1., .2, 0.], [2., 3.]
    b = frozen([pos, chord, mix, pitch, ch, motor, ppos, orient])
    w = p.add_wing("w", position=pos, grid=6)
    w.control_surface(percent_span=span, percent_chord=chord, mix=mix)
    p.add_prop("q", position=ppos, orientation=orient, pitch_info=pitch, chord_info=ch, electric_motor=motor, diameter=1.5)
    with quiet():
        m = MU.MachUp(inputAirplane=p)
        m.solve({"V_mag": 10., "rho": 1.}, {"elevator": 3.}, {"J": .5})
    ctx.check_that(frozen([pos, chord, mix, pitch, ch, motor, ppos, orient]) == b, "building a model changed the description it was given")
    ctx.count("descriptions")
    ctx.nontrivial = True


class Reused:
    """containers of the caller: one object per role, rewritten for every use"""

    def __init__(self, r):
        self.r, self.own, self.uses = r, {}, 0

    def __call__(self, role, v):
        if v is None or isinstance(v, (str, int, float)):
            return v
        kind = "d" if isinstance(v, dict) else "l"
        if kind == "l" and len(v) and role != "span":
            kind = self.own.setdefault(("kind", role), gen.pick(self.r, "l", "a"))
        o = self.own.setdefault((role, kind, len(v) if kind == "a" else 0), {} if kind == "d" else ([] if kind == "l" else np.zeros(len(v))))
        self.uses += 1
        if kind == "a":
            o[:] = v
        elif kind == "l":
            o[:] = list(v)
        else:
            o.clear()
            o.update(v)
        return o

    def spoil(self):
        for k, o in self.own.items():
            if k[0] != "kind":
                if isinstance(o, np.ndarray):
                    o[:] = 7.7
                elif isinstance(o, list):
                    o[:] = [3.3 for _ in o]
                else:
                    for q in list(o):
                        o[q] = .123 if not isinstance(o[q], str) else "spoiled"


def reused(ctx):
    """the caller reuses its lists, arrays and dictionaries for the next component and for the next call"""
    r = ctx.r
    s = spec(r, nprops=int(r.choice([0, 1, 2, 2, 3])))
    s["units"] = None
    ctx.note(spec=s)
    c = Reused(r)
    import machup.geometry as G
    from .. import build as B
    p = G.Airplane(s.get("name", "plane"), position=s.get("position"))
    p.cg_location(*s["cg"])
    if s.get("lat_ref") is not None or s.get("long_ref") is not None:
        p.set_reference_lengths(lateral=s.get("lat_ref"), longitudinal=s.get("long_ref"))
    for w in s["wings"]:
        kw = {B.WKEY.get(n, n): c(n, w[n]) for n in ("pos", "yoffset", "span", "sweep", "dihedral", "mount", "washout", "root_chord", "tip_chord",
                                                        "grid", "is_main", "side") if w.get(n) is not None}
        if w.get("connect"):
            kw["connect_to"] = (w["connect"], "tip")
        x = p.add_wing(w["name"], **kw)
        for end, a in (w.get("airfoils") or {}).items():
            x.airfoil(a["name"], end, **c("airfoil", B._afp(a)))
        k = w.get("control")
        if k:
            kw = dict(percent_span=c("span", k["span"]), percent_chord=c("chord", k["chord"]), mix=c("mix", k["mix"]))
            if "sealed" in k:
                kw["sealed"] = k["sealed"]
            x.control_surface(**kw)
    for q in s["props"]:
        kw = {B.PKEY.get(n, n): c("p" + n, q[n]) for n in ("pos", "orient", "nodes", "d", "hd", "k", "rot", "motor") if q.get(n) is not None}
        for n in ("pitch", "chord"):
            if q.get(n) is not None:
                kw[B.PKEY[n]] = c("p" + n, B._info(q[n]))
        x = p.add_prop(q["name"], **kw)
        for a in q.get("airfoils", []):
            x.airfoil(a["name"], span_position=a.get("pos"), **c("airfoil", B._afp(a)))
    when = gen.pick(r, "before", "after", "both")
    if when != "after":
        c.spoil()
    with quiet():
        m = MU.MachUp(inputAirplane=p)
    if when != "before":
        c.spoil()
    for i in range(int(r.integers(1, 4))):
        n, args, kw = call(r, s, files=0., invalid=.05)
        ctx.note(call=[n, args, kw])
        mine = {k: c(k, v) if k in ("aero_state", "control_state", "prop_state") and (k != "prop_state" or not any(isinstance(x, dict) for x in (v or {}).values())) else copy.deepcopy(v)
                for k, v in kw.items()}
        with quiet():
            got = run_call(m, n, list(args), mine)
            want = execute(mu(s), (n, args, kw))
        agree(ctx, got, want, "%s with reused containers (spoiled %s the model was built)" % (n, when))
        if r.random() < .5:
            c.spoil()
        ctx.count("calls")
    ctx.count("container uses", c.uses)
    ctx.nontrivial = c.uses > 1


SCENARIOS = {"arguments": (arguments, 120, 2500), "edits": (edits, 100, 2000), "lifting_line": (lifting_line, 150, 3000),
             "propellers": (propellers, 150, 3000), "description": (description, 80, 1500), "reused": (reused, 120, 2500)}
