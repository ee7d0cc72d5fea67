"""Transformations of specifications, and random usable full cases"""
import copy
import numpy as np
from .common import *


def full_case(ctx, nprops=None, kinds=("J", "rps", "default"), rates=.35, maxgrid=14, wings=None, tries=8, needwet=False, **kw):
    """airplane with wings and propellers, solved once; away from discontinuities (slipstream edge, polar jumps) and
    singular geometry. Returns spec, aero, controls, prop state, model, wing reference (with slipstream), propeller refs"""
    r = ctx.r
    for _ in range(tries):
        s = gen.plane(r, nprops=nprops, maxgrid=maxgrid, wings=wings, **kw)
        if needwet and s["wings"] and s["props"]:
            immerse(r, s)
        if not all(good_blade(rp.Blade(q)) for q in s["props"]):
            continue
        a, c = gen.aero(r, s=s, rates=rates), gen.controls(r)
        st = gen.prop_state(r, s, a, kinds)
        S = rw.sections(s) if s["wings"] else None
        ctx.note(spec=s, aero=a, controls=c, prop_state=st)
        if S is not None and not s["props"]:
            S, R = rw.solve(s, a, c, S=S)
            if usable(R):
                return s, a, c, st, mu(s), S, R, []
            continue
        if S is not None:
            _, R = rw.solve(s, a, c, S=S)
            if not usable(R):
                continue
        m = mu(s)
        with budget():
            m.solve(a, c, st)
        P = ref_props(s, a, st, prop_data(m))
        if any(not smooth(L) for L in P):
            continue
        R = None
        if S is not None:
            ex, margin, wet = slipstreams(s, a, P, S.rc)
            if margin < 1e-6:
                continue
            _, R = rw.solve(s, a, c, extra=ex, S=S)
            R["wet"] = int(wet.sum())
            if not usable(R):
                continue
        return s, a, c, st, m, S, R, P
    raise Skip("no usable case")


def smooth(L):
    B, al = L["B"], L["alpha"]
    return (np.isfinite(L["fscale"]) and np.isfinite(L["mscale"]) and L["kink"] > KINK and L["res"] < 1e-7 and
            B.kinks(al + 1e-3).min() > KINK and B.kinks(al - 1e-3).min() > KINK)


def immerse(r, s):
    """move the propellers in front of the wings"""
    w = rw.full_wing(s["wings"][int(r.integers(len(s["wings"])))])
    for q in s["props"]:
        side = "right" if w["side"] == "both" and r.random() < .5 else ("left" if w["side"] == "both" else w["side"])
        root, tip = rw.root_tip(s, w, side)
        d = rp.full_prop(q)["d"]
        f = gen.U(r, 0, 1)
        q["pos"] = [float(x) for x in root + f*(tip - root) + np.array([gen.U(r, .05, 1.)*d, gen.U(r, -.3, .3)*d, gen.U(r, -.25, .25)*d])]


def scales(R, P):
    fs = (R["fscale"] if R else 0.) + sum(L["fscale"] for L in P)
    ms = (R["mscale"] if R else 0.) + sum(L["mscale"] for L in P)
    return fs, ms


def lever(s, S, P):
    x = [0.]
    if S is not None:
        x.append(float(np.sqrt(((S.rc - np.array(s["cg"]))**2).sum(1)).max()))
    x += [float(np.linalg.norm(L["B"].pos - np.array(s["cg"]))) for L in P]
    return max(x)


# ------------------------------------------------------------------ symmetry, translation, scaling, order
def mirror(s):
    m = copy.deepcopy(s)
    m["cg"][1] *= -1
    if m.get("position"):
        m["position"][1] *= -1
    for w in m["wings"]:
        if w.get("side", "both") != "both":
            w["side"] = {"left": "right", "right": "left"}[w["side"]]
        if "pos" in w and w["pos"]:
            w["pos"][1] *= -1
    for q in m["props"]:
        if "pos" in q:
            q["pos"][1] *= -1
        if "orient" in q:
            q["orient"] = [q["orient"][0], -q["orient"][1]]
        q["rot"] = "CW" if rp.rot_sign(q.get("rot", 1)) > 0 else "CCW"
    return m


def mirror_state(a, c):
    a = dict(a)
    for k in ("beta", "roll_rate", "yaw_rate"):
        if k in a:
            a[k] = -a[k]
    c = dict(c)
    for k in ("aileron", "rudder"):
        if k in c:
            c[k] = -c[k]
    return a, c


ODD = ("FS", "FY", "MX", "MZ")


def translate(s, t):
    m = copy.deepcopy(s)
    t = [float(x) for x in t]
    m["cg"] = [m["cg"][i] + t[i] for i in range(3)]
    for w in m["wings"]:
        if not w.get("connect"):
            p = w.get("pos") or [0., 0., 0.]
            w["pos"] = [p[i] + t[i] for i in range(3)]
    for q in m["props"]:
        p = q.get("pos") or [0., 0., 0.]
        q["pos"] = [p[i] + t[i] for i in range(3)]
    return m


def scale(s, k):
    m = copy.deepcopy(s)
    mul = lambda v: [x*k for x in v]
    m["cg"] = mul(m["cg"])
    if m.get("position"):
        m["position"] = mul(m["position"])
    for key in ("lat_ref", "long_ref"):
        if m.get(key) is not None:
            m[key] *= k
    for w in m["wings"]:
        f = rw.full_wing(w)
        w["pos"] = mul(f["pos"])
        for key in ("span", "root_chord", "tip_chord", "yoffset"):
            w[key] = f[key]*k
    for q in m["props"]:
        f = rp.full_prop(q)
        q["pos"] = mul(f["pos"])
        q["d"], q["hd"] = f["d"]*k, f["hd"]*k
        if q.get("pitch", {}).get("type") == "value":
            q["pitch"]["value"] *= k
        for key in ("root", "tip"):
            if key in q.get("chord", {}):
                q["chord"][key] *= k
    return m


def reorder(r, s, names=True, split=True):
    """equivalent description: both-sided wings split into a left and a right one, parents keep preceding their children,
    components shuffled and renamed. Returns spec and the renaming of the propellers"""
    m = copy.deepcopy(s)
    wings = []
    for w in m["wings"]:
        if split and w.get("side", "both") == "both" and (r.random() < .6 or w.get("connect")):
            for side in ("left", "right"):
                x = copy.deepcopy(w)
                x["side"] = side
                x["name"] = w["name"] + "_" + side[0].upper()
                x["_of"] = (w["name"], side)
                wings.append(x)
        else:
            w["_of"] = (w["name"], w.get("side", "both"))
            wings.append(w)
    # parents: a split child needs the half of its parent or the both-sided parent
    byname = {}
    for w in wings:
        byname.setdefault(w["_of"][0], []).append(w)
    for w in wings:
        if w.get("connect"):
            cands = byname[w["connect"]]
            side = w["_of"][1]
            ok = [x for x in cands if x["_of"][1] in (side, "both")]
            if not ok or (side == "both" and ok[0]["_of"][1] != "both"):
                return None, None
            w["connect"] = ok[0]["name"]
    order = list(r.permutation(len(wings)))
    wings = [wings[i] for i in order]
    done, out = set(), []
    while wings:
        for w in wings:
            if not w.get("connect") or w["connect"] in done:
                out.append(w)
                done.add(w["name"])
                wings.remove(w)
                break
    ren = {}
    if names:
        for i, w in enumerate(out):
            new = "%s%d" % (["q", "surface number ", "Z_", "left_"][int(r.integers(4))], i)
            for x in out:
                if x.get("connect") == w["name"]:
                    x["connect"] = new
            w["name"] = new
    for w in out:
        w.pop("_of")
    m["wings"] = out
    props = [m["props"][i] for i in r.permutation(len(m["props"]))] if m["props"] else []
    pren = {}
    if names:
        for i, q in enumerate(props):
            pren[q["name"]] = "x%d_%s" % (9 - i, q["name"])
            q["name"] = pren[q["name"]]
    m["props"] = props
    return m, pren


def rename_state(st, pren):
    if not st or not pren:
        return st
    return {pren.get(k, k): v for k, v in st.items()}


def close_fm(ctx, got, want, fs, ms, rel, msg, odd=()):
    for k in FM:
        w = -want[k] if k in odd else want[k]
        ctx.close(got[k], w, rel*(fs if k[0] == "F" else ms), "%s: %s" % (msg, k))
