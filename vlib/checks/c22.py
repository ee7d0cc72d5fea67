"""C22 an input file and the equivalent Python construction are the same airplane"""
import json, os
from ..calls import *
from ..build import jsondict, _info, _afp
from .c10 import spec

ID = "C22"
RULE = ("random airplanes built through add_wing/add_prop in several equivalent ways and read from several equivalent input files (defaults omitted, "
        "entries reordered, other identifiers); all public getters and the results of random calls compared; non-trivial: at least one wing or "
        "propeller with an omitted entry, and one successful solution compared")


def shuffled(r, d):
    """the same JSON object with the entries in another order (order is significant for wings, propellers and airfoils only)"""
    if not isinstance(d, dict):
        return d
    ks = list(d)
    r.shuffle(ks)
    return {k: (shuffled(r, d[k]) if k not in ("wings", "propellers", "airfoils") else {x: shuffled(r, y) for x, y in d[k].items()}) for k in ks}


def wing_file(r, s):
    """jsondict in an equivalent spelling"""
    d = jsondict(s)
    for w, wd in zip(s["wings"], d.get("wings", {}).values()):
        if "is_main" not in w:
            del wd["is_main"]
        if r.random() < .3:
            wd["comment"] = "not an entry"
        if not wd["control"] and r.random() < .5:
            wd["control"] = None
        if len(wd["airfoils"]) == 2 and wd.get("control") and r.random() < .2:
            wd["control"]["comment"] = 1
    if d.get("wings"):                  # any identifiers will do
        ids = {0: 0}
        new = [int(x) for x in r.permutation(np.arange(1, 40))[:len(d["wings"])]]
        for wd, k in zip(d["wings"].values(), new):
            ids[wd["ID"]] = k
        if r.random() < .6:
            for wd in d["wings"].values():
                wd["ID"] = ids[wd["ID"]]
                wd["connect"]["ID"] = ids[wd["connect"]["ID"]]
    if not d["condition"]["units"] and r.random() < .5:
        d["condition"] = {}
    if r.random() < .2:
        d["condition"].update(alpha=3., density=1.)     # entries of the original Fortran input
    return shuffled(r, d) if r.random() < .7 else d


def as_seq(r, v):
    return gen.pick(r, list, tuple, np.array)([float(x) for x in v])


def python_plane(r, s):
    """Airplane built in an equivalent way"""
    p = geometry.Airplane(s.get("name", "plane"))
    if r.random() < .5:
        p.cg_location(*s["cg"])
    else:
        for i, k in enumerate(("x_coord", "y_coord", "z_coord")):
            p.cg_location(**{k: s["cg"][i]})
    if s.get("lat_ref") is not None or s.get("long_ref") is not None:
        p.set_reference_lengths(s.get("lat_ref"), s.get("long_ref"))
    made = []
    for w in s["wings"]:
        f = rw.full_wing(w)
        kw = dict(position=as_seq(r, f["pos"]), yoffset=f["yoffset"], semispan=f["span"], sweep=f["sweep"], dihedral=f["dihedral"],
                  mount_angle=f["mount"], washout=f["washout"], root_chord=f["root_chord"], tip_chord=f["tip_chord"], grid=f["grid"],
                  is_main=f["is_main"])
        names = dict(pos="position", mount="mount_angle", span="semispan")
        for k in ("yoffset", "sweep", "dihedral", "mount", "washout", "tip_chord", "is_main", "pos", "span", "root_chord", "grid"):
            if k not in w and r.random() < .8:
                del kw[names.get(k, k)]
        if w.get("connect"):
            kw["connect_to"] = gen.pick(r, (w["connect"], "tip"), [w["connect"], "tip"])
        if f["side"] != "both" or r.random() < .5:
            kw["side"] = f["side"]
        made.append((p.add_wing(w["name"], **kw), w, f))
        if r.random() < .5:
            finish(r, *made.pop())
    for t in made:                      # airfoils and control surfaces may follow later
        finish(r, *t)
    for q in s["props"]:
        f = rp.full_prop(q)
        kw = dict(position=as_seq(r, f["pos"]), orientation=as_seq(r, f["orient"]), nodes=f["nodes"], diameter=f["d"], hub_diameter=f["hd"],
                  num_of_blades=f["k"], rot_dir=f["rot"], pitch_info=_info(f["pitch"]), chord_info=_info(f["chord"]))
        names = dict(pos="position", orient="orientation", d="diameter", hd="hub_diameter", k="num_of_blades", rot="rot_dir", pitch="pitch_info",
                     chord="chord_info")
        for k in ("pos", "orient", "nodes", "d", "hd", "k", "rot", "pitch", "chord"):
            if k not in q and r.random() < .8:
                del kw[names.get(k, k)]
        if f["motor"]:
            kw["electric_motor"] = dict(f["motor"])
        b = p.add_prop(q["name"], **kw)
        afs = list(q.get("airfoils", []))
        if len(afs) == 2 and r.random() < .5:
            afs.reverse()
        for a in afs:
            if a.get("pos") is None and r.random() < .5:
                b.airfoil(a["name"], **_afp(a))
            else:
                b.airfoil(a["name"], span_position=a.get("pos"), **_afp(a))
    return p


def finish(r, wing, w, f):
    af = w.get("airfoils") or {}
    if "both" in af and r.random() < .5:
        a = af["both"]
        gen.pick(r, lambda: wing.airfoil(a["name"], **_afp(a)), lambda: [wing.airfoil(a["name"], e, **_afp(a)) for e in ("tip", "root")])()
    elif af:
        for e in (list(af) if r.random() < .5 else list(af)[::-1]):
            wing.airfoil(af[e]["name"], end=e, **_afp(af[e]))
    c = w.get("control")
    if c:
        ch = c["chord"]
        if np.isscalar(ch):
            ch = gen.pick(r, ch, (ch, ch), [ch, ch])
        kw = dict(percent_span=gen.pick(r, tuple, list)(c["span"]), percent_chord=ch, mix=dict(c["mix"]))
        if "sealed" in c or r.random() < .3:
            kw["sealed"] = c.get("sealed", 1)
        wing.control_surface(**kw)


def public(x):
    """values of all getters without arguments"""
    out = {}
    for k in dir(type(x)):
        if not k.startswith("get_") and not k.startswith("is_"):
            continue
        try:
            v = getattr(x, k)()
        except (TypeError, AttributeError):      # takes arguments, or needs a solution
            continue
        out[k] = plain(v)
    return out


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(u) for u in v]
    if isinstance(v, dict):
        return {str(k): plain(u) for k, u in v.items()}
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (str, int, float, bool, np.floating, np.integer)) or v is None:
        return v
    if isinstance(v, geometry.Airfoil):
        return public(v)
    return type(v).__name__


def description(m):
    d = {"cg": plain(m.myairplane.get_cg_location()), "name": m.myairplane.name, "sections": m.myairplane.get_num_sections()}
    if m.myairplane.get_wingsegments():
        d["segments"] = [dict(public(g), name=g.name, left=plain(g.get_position("left_tip")), right=plain(g.get_position("right_tip")))
                         for g in m.myairplane.get_wingsegments()]
        d["grid"] = [public(x) for x in vars(m.myllmodel).values() if isinstance(x, LLGrid)]
        d["refs"] = [m.Sw, m.lat_ref, m.long_ref]
    d["props"] = []
    if m.myairplane.get_props():
        d["props"] = [public(p) for p in m.myprops.get_prop_models()]
        for i, q in enumerate(m.myairplane.get_props()):
            g = public(q)
            g.pop("get_motor_info", None)
            af = g.pop("get_airfoils", {})
            d["props"][i] = {"model": d["props"][i], "description": g, "airfoils": sorted(af) or ["NACA2412"]}      # none stands for the default one
    return d


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: entries %s and %s" % (path, sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        for k in a:
            d = difference(a[k], b[k], path + "/" + k)
            if d:
                return d
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d and %d elements" % (path, len(a), len(b))
        for i in range(len(a)):
            d = difference(a[i], b[i], "%s[%d]" % (path, i))
            if d:
                return d
    elif isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if a != b:
            return "%s: %r and %r" % (path, a, b)
    elif not (a == b or (a != a and b != b) or abs(a - b) <= 1e-12*max(abs(a), abs(b)) + 1e-13):
        return "%s: %r and %r" % (path, a, b)


def count(d):
    return sum(1 for _ in numbers(d))


def interfaces(ctx):
    r = ctx.r
    for _ in range(12):
        s = spec(r)
        if s.get("position") is not None:
            p = np.array(s.pop("position"))
            for q in s["props"]:
                q["pos"] = list(np.array(q["pos"]) - p) if q.get("pos") is not None else [0., 0., 0.]
        if json_ok(s) and (s["wings"] or s["props"]):
            break
    else:
        raise Skip()
    units = gen.pick(r, None, None, "English", "english", "SI", "si", "Si")
    ctx.note(spec=s, units=units)
    models = []
    with quiet(), budget():
        f = file_path(ctx, "json")
        for k in range(2):
            d = wing_file(r, s) if k else jsondict(s)
            if units:
                d.setdefault("condition", {})["units"] = units
            with open(f, "w") as o:
                json.dump(d, o)
            if not k:
                text = json.dumps(d)
            models.append(MU.MachUp(f) if r.random() < .7 else MU.MachUp(inputAirplane=geometry.Airplane(inputfile=f)))
            os.remove(f)
        models.append(MU.MachUp(inputAirplane=plane(s)))
        models.append(MU.MachUp(inputAirplane=python_plane(r, s)))
    names = ["file", "file in another spelling", "Python construction", "Python construction in another order"]
    ds = [description(m) for m in models]
    for n, d in zip(names[1:], ds[1:]):
        x = difference(ds[0], d)
        ctx.check_that(not x, "%s and %s differ: %s" % (names[0], n, x))
        ctx.evals += count(d)
    ctx.count("getter values compared", count(ds[0]))
    ok = 0
    for i in range(2):
        cl = call(r, s, heavy=r.random() < .12, invalid=.1, files=0.)
        if cl[0] == "create_stl" or "electric_throttle" in repr(cl[2].get("prop_state")):
            continue
        ctx.note(call=cl)
        with quiet():
            res = [execute(m, cl, "d") for m in models]
        for n, x in zip(names[1:], res[1:]):
            agree(ctx, x, res[0], "%s: %s" % (cl[0], n), 1e-11)
        ok += res[0][0] == "ok"
        ctx.count("calls compared")
    omitted = any(len(w) < 14 for w in s["wings"]) or any(len(q) < 9 for q in s["props"])
    ctx.nontrivial = bool(omitted and ok)


def defaults(ctx):
    """wings and propellers with (almost) nothing given are those with the documented defaults written out"""
    r = ctx.r
    s = dict(name="plane", cg=[0., 0., 0.], scale=4., wings=[], props=[])
    for n in "abc"[:int(r.integers(0, 4))]:
        w = gen.wing(r, n, 4., 1., grid=int(r.integers(2, 10)))
        w["pos"] = [float(r.normal())*4, 0., float(r.normal())*2]
        for k in list(w):
            if k not in ("name", "grid") and r.random() < .7:
                del w[k]
        if r.random() < .1:
            w.pop("grid", None)
        s["wings"].append(w)
    if s["wings"] and not any(w.get("is_main", 1) for w in s["wings"]):
        s["wings"][0].pop("is_main", None)
    for n in "xy"[:int(r.integers(0, 3))]:
        q = gen.prop(r, n, s)
        for k in list(q):
            if k != "name" and r.random() < .7:
                del q[k]
        if not json_ok(dict(s, props=[q])):
            q.pop("airfoils", None)
        B = rp.Blade(q)
        if good_blade(B):
            s["props"].append(q)
    if not s["wings"] and not s["props"]:
        raise Skip()
    if not json_ok(s):
        for w in s["wings"]:
            w.pop("airfoils", None)
    if s["wings"] and not usable(rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": 3.}, {})[1]):
        raise Skip()
    ctx.note(spec=s)
    f = file_path(ctx, "json")
    with quiet(), budget():
        with open(f, "w") as o:
            json.dump(jsondict(s), o)
        a = MU.MachUp(f)
        os.remove(f)
        b = MU.MachUp(inputAirplane=plane(s))
    da, db = description(a), description(b)
    x = difference(da, db)
    ctx.check_that(not x, "defaults written out and omitted differ: %s" % x)
    ctx.evals += count(da)
    ctx.count("getter values compared", count(da))
    with quiet():
        cl = call(r, s, heavy=False, invalid=0., files=0.)
        ga, gb = execute(a, cl, "a"), execute(b, cl, "b")
    agree(ctx, gb, ga, "%s: omitted defaults" % cl[0], 1e-11)
    ctx.nontrivial = ga[0] == "ok"


def spelling(ctx):
    """the spellings of one unit system are one unit system"""
    r = ctx.r
    s = spec(r)
    s["props"] = s["props"][:1]
    if not s["props"]:
        s["props"].append(gen.prop(r, "x", s))
    for q in s["props"]:
        q["motor"] = gen.motor_spec(r)
    if not json_ok(s) or s.get("position") is not None or any(not good_blade(rp.Blade(q)) for q in s["props"]):
        raise Skip()
    a = gen.aero(r, s=s)
    a["V_mag"] = gen.U(r, 3, 30)
    c = gen.controls(r)
    if s["wings"] and not usable(rw.solve(s, a, c)[1]):
        raise Skip("nearly singular geometry")
    st = {"electric_throttle": gen.U(r, .3, 1.)}
    ctx.note(spec=s, aero=a, prop_state=st)
    f = file_path(ctx, "json")
    out = {}
    for units in ("English", "english", "SI", "si", "Si"):
        d = jsondict(s)
        d["condition"]["units"] = units
        with open(f, "w") as o:
            json.dump(d, o)
        with quiet(), budget():
            m = MU.MachUp(f)
            os.remove(f)
            out[units] = [execute(m, ("solve", [], dict(aero_state=a, control_state=c, prop_state=st)), "u"),
                          execute(m, ("distributions", [], dict(aero_state=a, control_state=c, prop_state=st)), "u")]
    for base, others in (("English", ("english",)), ("SI", ("si", "Si"))):
        for k in others:
            for x, y in zip(out[k], out[base]):
                agree(ctx, x, y, "units %r and %r" % (k, base), 1e-11)
                ctx.count("spellings compared")
    both = [out[k][0] for k in ("English", "SI")]
    ctx.count("solutions", sum(x[0] == "ok" for x in both))
    ctx.nontrivial = both[0][0] == "ok" or both[1][0] == "ok"


SCENARIOS = {"spelling": (spelling, 120, 1500), "interfaces": (interfaces, 360, 5000), "defaults": (defaults, 800, 8000)}
