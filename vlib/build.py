"""Turn a specification into objects of the code under test (programmatically or through JSON)."""
import os, sys, json, tempfile, contextlib, io
from . import refwing, refprop

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import machup.MU as MU
import machup.geometry as geometry
from machup import LLModel, LLGrid, PropsSolver, PropModel  # noqa

WKEY = dict(pos="position", mount="mount_angle", span="semispan")
PKEY = dict(pos="position", orient="orientation", d="diameter", hd="hub_diameter", k="num_of_blades", rot="rot_dir",
            pitch="pitch_info", chord="chord_info", motor="electric_motor")


def scratch():
    d = os.environ.get("VLIB_SCRATCH")
    if not d:
        d = tempfile.mkdtemp(prefix="vlib_")
        os.environ["VLIB_SCRATCH"] = d
    return d


def table_file(tab):
    import hashlib
    name = os.path.join(scratch(), "t_%s.txt" % hashlib.md5(repr(tab).encode()).hexdigest()[:16])
    if not os.path.exists(name):
        tmp = "%s.%d" % (name, os.getpid())
        with open(tmp, "w") as f:
            f.write("# r/R value\n")
            for row in tab:
                f.write("%r %r\n" % (float(row[0]), float(row[1])))
        os.replace(tmp, name)
    return name


def _info(d):
    d = dict(d)
    if "table" in d:
        d["filename"] = table_file(d.pop("table"))
    return d


def _afp(a):
    return {k: a[k] for k in ("alpha_L0", "CL_alpha", "CL_max", "Cm_L0", "Cm_alpha", "CD0", "CD0_L", "CD0_L2")}


def plane(spec):
    """Airplane built through the Python interface, passing only what the spec mentions"""
    for p in plane_steps(spec):
        pass
    return p


def plane_steps(spec):
    """the calls that build the airplane, one at a time"""
    p = geometry.Airplane(spec.get("name", "plane"), position=spec.get("position"))
    yield p
    p.cg_location(*spec["cg"])
    if spec.get("lat_ref") is not None or spec.get("long_ref") is not None:
        p.set_reference_lengths(lateral=spec.get("lat_ref"), longitudinal=spec.get("long_ref"))
    for w in spec.get("wings", []):
        kw = {}
        for k in ("pos", "yoffset", "span", "sweep", "dihedral", "mount", "washout", "root_chord", "tip_chord", "grid", "is_main"):
            if k in w and w[k] is not None:
                v = w[k]
                kw[WKEY.get(k, k)] = list(v) if isinstance(v, (list, tuple)) else v
        if w.get("side", "both") != "both" or "side" in w:
            kw["side"] = w.get("side", "both")
        if w.get("connect"):
            kw["connect_to"] = (w["connect"], "tip")
        wing = p.add_wing(w["name"], **kw)
        yield p
        for end, a in (w.get("airfoils") or {}).items():
            wing.airfoil(a["name"], end, **_afp(a))
            yield p
        if w.get("control"):
            c = w["control"]
            kw = dict(percent_span=tuple(c["span"]), percent_chord=c["chord"] if np.isscalar(c["chord"]) else tuple(c["chord"]),
                      mix=dict(c["mix"]))
            if "sealed" in c:
                kw["sealed"] = c["sealed"]
            wing.control_surface(**kw)
            yield p
    for q in spec.get("props", []):
        kw = {}
        for k in ("pos", "orient", "nodes", "d", "hd", "k", "rot", "pitch", "chord", "motor"):
            if k in q and q[k] is not None:
                v = q[k]
                if k in ("pitch", "chord"):
                    v = _info(v)
                elif isinstance(v, dict):
                    v = dict(v)
                elif isinstance(v, (list, tuple)):
                    v = list(v)
                kw[PKEY.get(k, k)] = v
        prop = p.add_prop(q["name"], **kw)
        yield p
        for a in q.get("airfoils", []):
            prop.airfoil(a["name"], span_position=a.get("pos"), **_afp(a))
            yield p
    yield p


def raw_planes(s, k):
    """k airplanes built in parallel from the very same argument objects, passed on as they are"""
    ps = [geometry.Airplane(s.get("name", "plane"), position=s.get("position")) for _ in range(k)]
    for p in ps:
        p.cg_location(*s["cg"])
        if s.get("lat_ref") is not None or s.get("long_ref") is not None:
            p.set_reference_lengths(lateral=s.get("lat_ref"), longitudinal=s.get("long_ref"))
    afp = {id(a): _afp(a) for w in s["wings"] for a in (w.get("airfoils") or {}).values()}
    for w in s["wings"]:
        kw = {WKEY.get(n, n): w[n] for n in ("pos", "yoffset", "span", "sweep", "dihedral", "mount", "washout", "root_chord", "tip_chord",
                                                  "grid", "is_main", "side") if w.get(n) is not None}
        if w.get("connect"):
            kw["connect_to"] = (w["connect"], "tip")
        ws = [p.add_wing(w["name"], **kw) for p in ps]
        for end, a in (w.get("airfoils") or {}).items():
            for x in ws:
                x.airfoil(a["name"], end, **afp[id(a)])
        c = w.get("control")
        if c:
            kw = dict(percent_span=c["span"], percent_chord=c["chord"], mix=c["mix"])
            if "sealed" in c:
                kw["sealed"] = c["sealed"]
            for x in ws:
                x.control_surface(**kw)
    for q in s["props"]:
        kw = {PKEY.get(n, n): q[n] for n in ("pos", "orient", "nodes", "d", "hd", "k", "rot", "motor") if q.get(n) is not None}
        for n in ("pitch", "chord"):
            if q.get(n) is not None:
                kw[PKEY[n]] = _info(q[n])
        xs = [p.add_prop(q["name"], **kw) for p in ps]
        for a in q.get("airfoils", []):
            for x in xs:
                x.airfoil(a["name"], span_position=a.get("pos"), **_afp(a))
    return ps


def jsondict(spec):
    """Input file contents with every default written out"""
    d = {"plane": {"name": spec.get("name", "plane"), "CGx": spec["cg"][0], "CGy": spec["cg"][1], "CGz": spec["cg"][2]},
         "reference": {"longitudinal_length": spec.get("long_ref"), "lateral_length": spec.get("lat_ref")},
         "condition": {"units": spec.get("units")}}
    ids = {}
    if spec.get("wings"):
        d["wings"] = {}
    for i, wd in enumerate(spec.get("wings", [])):
        w = refwing.full_wing(wd)
        ids[w["name"]] = i + 1
        af = {}
        if w["airfoils"] and "both" not in w["airfoils"]:
            for e in ("root", "tip"):
                a = w[e + "_af"]
                af[a["name"]] = {"properties": _afp(a)}
        else:
            a = w["root_af"]
            af[a["name"]] = {"properties": _afp(a)}
        c = w["control"]
        cd = {}
        if c:
            ch = c["chord"] if not np.isscalar(c["chord"]) else (c["chord"],)*2
            cd = {"span_root": c["span"][0], "span_tip": c["span"][1], "chord_root": ch[0], "chord_tip": ch[1],
                  "is_sealed": c.get("sealed", 1), "mix": dict(c["mix"])}
        d["wings"][w["name"]] = {
            "name": w["name"], "ID": i + 1, "side": w["side"], "is_main": w["is_main"],
            "connect": {"ID": ids[w["connect"]] if w["connect"] else 0, "location": "tip", "dx": w["pos"][0], "dy": w["pos"][1],
                        "dz": w["pos"][2], "yoffset": w["yoffset"]},
            "span": w["span"], "sweep": w["sweep"], "dihedral": w["dihedral"], "mounting_angle": w["mount"],
            "washout": w["washout"], "root_chord": w["root_chord"], "tip_chord": w["tip_chord"], "grid": w["grid"],
            "airfoils": af, "control": cd}
    if spec.get("props"):
        d["propellers"] = {}
    for pd in spec.get("props", []):
        p = refprop.full_prop(pd)
        afs = p["airfoils"] or [dict(refwing.AF_DEFAULT)]
        d["propellers"][p["name"]] = {
            "position": dict(zip(("dx", "dy", "dz"), p["pos"])),
            "orientation": {"elevation_angle": p["orient"][0], "heading_angle": p["orient"][1]},
            "radial_nodes": p["nodes"], "diameter": p["d"], "hub_diameter": p["hd"], "num_of_blades": p["k"],
            "rotation_direction": p["rot"], "pitch": _info(p["pitch"]), "chord": _info(p["chord"]),
            "airfoils": {a["name"]: {"properties": _afp(a)} for a in afs}}
        if p["motor"]:
            d["propellers"][p["name"]]["electric_motor"] = dict(p["motor"])
    return d


def json_ok(spec):
    """True if the input file can express the spec"""
    if spec.get("position") is not None:
        return False
    for w in spec.get("wings", []):
        a = w.get("airfoils")
        if a and "both" not in a and refwing.full_wing(w)["root_af"]["name"] == refwing.full_wing(w)["tip_af"]["name"]:
            return False
    for p in spec.get("props", []):
        afs = p.get("airfoils", [])
        if len(afs) > 2 or (len(afs) == 2 and [str(a["pos"]).lower() for a in afs] != ["root", "tip"]):
            return False
    return True


def mu_json(spec, path=None):
    path = path or os.path.join(scratch(), "in_%d.json" % os.getpid())
    with open(path, "w") as f:
        json.dump(jsondict(spec), f)
    return MU.MachUp(path)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def mu(spec):
    """MachUp model; the Python interface cannot set units, so specs with units go through a file"""
    with quiet():
        if spec.get("units"):
            return mu_json(spec)
        return MU.MachUp(inputAirplane=plane(spec))
