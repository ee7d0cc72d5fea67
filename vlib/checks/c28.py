"""C28 a number means the same whatever type or container carries it"""
import collections
from ..calls import *
from .. import build
from .c10 import spec as any_spec

ID = "C28"
RULE = ("random airplanes and states with many integral values, given once as plain floats and lists and once as a random mixture of int, float and numpy "
        "scalars, tuples and (integer) arrays, ordered dictionaries and JSON integers; non-trivial: at least five values changed their type")


def integral(r, s):
    """many values become integers"""
    def some(d, k, lo=None, p=.6):
        if k in d and isinstance(d[k], (int, float)) and not isinstance(d[k], bool) and r.random() < p:
            v = float(np.round(d[k]))
            d[k] = v if lo is None else max(lo, v)

    for w in s["wings"]:
        for k in ("sweep", "dihedral", "mount", "washout"):
            some(w, k)
        for k in ("span", "root_chord", "tip_chord"):
            some(w, k, 1.)
        some(w, "yoffset", 1., .4)
        for i in range(3):
            if r.random() < .6:
                w["pos"][i] = float(np.round(w["pos"][i]))
        for a in (w.get("airfoils") or {}).values():
            some(a, "CL_alpha", 4.)
            some(a, "CL_max", 1.)
            for k in ("alpha_L0", "Cm_L0", "Cm_alpha"):
                some(a, k, p=.3)
        c = w.get("control")
        if c and r.random() < .5:
            c["span"] = (0., 1.)
        if c:
            for k in c["mix"]:
                some(c["mix"], k)
    for i in range(3):
        if r.random() < .5:
            s["cg"][i] = float(np.round(s["cg"][i]))
    for k in ("lat_ref", "long_ref"):
        some(s, k, 1.)
    for q in s["props"]:
        some(q, "d", 1.)
        if "hd" in q:
            q["hd"] = min(q["hd"], .3*q.get("d", 1.))
        for i in range(3):
            if r.random() < .6:
                q["pos"][i] = float(np.round(q["pos"][i]))
        if "orient" in q:
            q["orient"] = [float(np.round(x)) if r.random() < .6 else x for x in q["orient"]]
        if q.get("pitch", {}).get("type") == "ratio" and r.random() < .5:
            q["pitch"]["value"] = 1.
        if "pitch" in q:
            some(q["pitch"], "pitch_increment")
    return s


class Types:
    def __init__(self, r):
        self.r, self.changed = r, 0

    def number(self, v):
        r = self.r
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            t = [int, np.int64]
            x = t[int(r.integers(2))](v)
        else:
            t = [float, np.float64]
            if float(v) == int(v) and abs(v) < 2**20:
                t += [int, int, np.int64]
            x = t[int(r.integers(len(t)))](v)
        self.changed += type(x) is not type(v)
        return x

    def seq(self, v, arrays=True):
        r = self.r
        if not all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
            return v
        k = r.random()
        self.changed += 1
        if arrays and k < .35:
            if all(float(x) == int(x) for x in v):
                return np.array([int(x) for x in v])
            return np.array(v, dtype=float)
        x = [self.number(y) for y in v]
        return tuple(x) if k < .7 else x

    def mapping(self, d):
        x = {k: self.number(v) if isinstance(v, (int, float)) else v for k, v in d.items()}
        k = self.r.random()
        if k < .25:
            return collections.OrderedDict(x)
        if k < .4:
            return collections.defaultdict(lambda: 12345., x)
        return x


def typed(s, T):
    t = copy.deepcopy(s)
    for w in t["wings"]:
        for k in ("span", "sweep", "dihedral", "mount", "washout", "root_chord", "tip_chord", "yoffset", "grid"):
            if w.get(k) is not None:
                w[k] = T.number(w[k])
        w["pos"] = T.seq(w["pos"])
        for e, a in (w.get("airfoils") or {}).items():
            for k in build._afp(a):
                a[k] = T.number(a[k])
        c = w.get("control")
        if c:
            c["span"] = T.seq(c["span"])
            c["chord"] = T.number(c["chord"]) if np.isscalar(c["chord"]) else T.seq(c["chord"])
            c["mix"] = {k: T.number(v) for k, v in c["mix"].items()}
    t["cg"] = [T.number(v) for v in t["cg"]]
    if t.get("position") is not None:
        t["position"] = T.seq(t["position"])
    for k in ("lat_ref", "long_ref"):
        if t.get(k) is not None:
            t[k] = T.number(t[k])
    for q in t["props"]:
        for k in ("d", "hd", "nodes", "k"):
            if q.get(k) is not None:
                q[k] = T.number(q[k]) if k not in ("nodes", "k") else T.number(int(q[k]))
        for k in ("pos", "orient"):
            if q.get(k) is not None:
                q[k] = T.seq(q[k])
        for k in ("pitch", "chord"):
            if q.get(k) is not None:
                q[k] = {n: T.number(v) if isinstance(v, (int, float)) else v for n, v in q[k].items()}
        if q.get("motor"):
            q["motor"] = {n: T.number(v) if n != "has_motor" else v for n, v in q["motor"].items()}
        for a in q.get("airfoils", []):
            for k in build._afp(a):
                a[k] = T.number(a[k])
            if isinstance(a.get("pos"), (int, float)):
                a["pos"] = T.number(a["pos"])
    return t


def sane(s):
    if any(not good_blade(rp.Blade(q)) for q in s["props"]):
        raise Skip("degenerate blade")
    if s["wings"]:
        for a in (0., 4.):
            if not usable(rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": a}, {})[1]):
                raise Skip("nearly singular")


def types_call(T, cl):
    n, args, kw = copy.deepcopy(cl)
    args = [T.number(x) for x in args]
    for k in ("aero_state", "control_state"):
        if kw.get(k):
            kw[k] = T.mapping(kw[k])
    st = kw.get("prop_state")
    if st:
        kw["prop_state"] = T.mapping(st) if not any(isinstance(v, dict) for v in st.values()) else {k: T.mapping(v) for k, v in st.items()}
    return n, args, kw


def round_call(r, cl):
    n, args, kw = copy.deepcopy(cl)
    for k in ("aero_state", "control_state"):
        d = kw.get(k)
        if d:
            for q in d:
                if r.random() < .6 and abs(d[q]) >= 1:
                    d[q] = float(np.round(d[q]))
                elif q in ("rho",) and r.random() < .4:
                    d[q] = 1.
    return n, args, kw


def python(ctx):
    """the Python interface"""
    r = ctx.r
    s = any_spec(r, nprops=int(r.choice([0, 0, 1, 2])))
    s["units"] = None
    s = integral(r, s)
    sane(s)
    T = Types(r)
    t = typed(s, T)
    ctx.note(spec=s, typed=repr(t))
    cl = round_call(r, call(r, s, invalid=0., files=0., heavy=r.random() < .4))
    if cl[0] == "create_stl":
        cl = ("distributions", [], {})
    tc = types_call(T, cl)
    ctx.note(call=cl, typed_call=repr(tc))
    with quiet():
        pa, pb = plane(s), build.raw_planes(t, 1)[0]
        # single coordinates of the centre of gravity move by any amount afterwards
        moved = r.random()
        def move(pa, pb):
            kw = {"%s_coord" % k: float(s["cg"][i] + gen.pick(r, .37, -.5, 1., .001)) for i, k in enumerate("xyz") if r.random() < .5}
            ctx.note(moved=kw)
            pa.cg_location(**kw)
            pb.cg_location(**{k: T.number(v) for k, v in kw.items()})
        if moved < .35:
            move(pa, pb)
        a, b = MU.MachUp(inputAirplane=pa), MU.MachUp(inputAirplane=pb)
        if moved > .75:
            move(pa, pb)
        first = ("distributions", [], {})
        for c0, c1 in ((first, first), (cl, tc), (cl, cl)):
            try:
                with budget():
                    want = ("ok", copy.deepcopy(getattr(a, c0[0])(*c0[1], **copy.deepcopy(c0[2]))), None)
            except (RuntimeError, np.linalg.LinAlgError) as e:
                want = ("error", "x", None)
            try:
                with budget():
                    got = ("ok", copy.deepcopy(getattr(b, c1[0])(*copy.deepcopy(c1[1]), **copy.deepcopy(c1[2]))), None)
            except (RuntimeError, np.linalg.LinAlgError) as e:
                got = ("error", "x", None)
            agree(ctx, got, want, "%s of an airplane given with other numeric types" % c0[0], 1e-8)
            ctx.count(c0[0])
    ctx.count("values of another type", T.changed)
    ctx.nontrivial = T.changed >= 5


def json_ints(x, r):
    if isinstance(x, dict):
        return {k: json_ints(v, r) for k, v in x.items()}
    if isinstance(x, list):
        return [json_ints(v, r) for v in x]
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def files(ctx):
    """integers in an input file"""
    r = ctx.r
    for _ in range(20):
        s = any_spec(r, nprops=int(r.choice([0, 0, 1, 2])))
        if json_ok(s):
            break
    else:
        raise Skip()
    s = integral(r, s)
    sane(s)
    d = build.jsondict(s)
    d2 = json_ints(d, r)
    n = sum(type(v) is int for v in flat(d2)) - sum(type(v) is int for v in flat(d))
    ctx.note(spec=s)
    models = []
    for i, x in enumerate((d, d2)):
        f = file_path(ctx)
        with open(f, "w") as h:
            json.dump(x, h, **({} if i == 0 else {"indent": 2, "sort_keys": False}))
        with quiet():
            models.append(MU.MachUp(f))
        os.remove(f)
    cl = round_call(r, call(r, s, invalid=0., files=0., heavy=r.random() < .3))
    if cl[0] == "create_stl":
        cl = ("distributions", [], {})
    with quiet():
        got = [execute(m, cl, "j") for m in models]
    agree(ctx, got[1], got[0], "%s of an airplane given with integers in the input file" % cl[0], 1e-8)
    ctx.count("integers in files", n)
    ctx.nontrivial = n >= 5


def flat(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from flat(v)
    elif isinstance(x, list):
        for v in x:
            yield from flat(v)
    else:
        yield x


SCENARIOS = {"python": (python, 500, 5000), "files": (files, 240, 2500)}
