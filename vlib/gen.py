"""Random specifications and operating states: ordinary, boundary and hostile values."""
import numpy as np


def U(r, a, b):
    return float(r.uniform(a, b))


def pick(r, *opts, p=None):
    return opts[int(r.choice(len(opts), p=p))]


def airfoil(r, name=None):
    name = name or pick(r, "NACA2412", "NACA0012", "NACA4415", "naca0008", "NACA23012", "S1223", "foil", "NACA24", "NACA2012", "NACA-M12", "NACA0412")
    sym = r.random() < 0.2
    return dict(name=name, alpha_L0=0. if sym else U(r, -0.09, 0.03), CL_alpha=U(r, 4.5, 7.), CL_max=U(r, 0.9, 2.),
                Cm_L0=0. if sym else U(r, -0.12, 0.05), Cm_alpha=U(r, -0.25, 0.12), CD0=U(r, 0.003, 0.02),
                CD0_L=U(r, -0.01, 0.01), CD0_L2=U(r, 0., 0.02))


def control(r, kinds=None):
    a = pick(r, 0., U(r, 0., 0.7), 0.5)
    b = pick(r, 1., U(r, a + 0.1, 1.))
    c = U(r, 0.05, 0.6)
    chord = pick(r, c, (c, c), (c, U(r, 0.05, 0.6)), (1., 1.), (0., 0.3), p=[.2, .2, .5, .05, .05])
    kinds = kinds or ("aileron", "elevator", "rudder", "flap")
    mix = {}
    for k in kinds:
        if r.random() < 0.5:
            mix[k] = pick(r, 1., -1., 0.5, U(r, -1.5, 1.5), 1, U(r, -4, 4), 0., p=[.2, .19, .19, .19, .19, .03, .01])
    if not mix:
        mix[kinds[int(r.integers(len(kinds)))]] = 1.
    c = dict(span=(a, b), chord=chord, mix=mix)
    if r.random() < 0.7:
        c["sealed"] = pick(r, 0, 1, True, False)
    return c


def wing(r, name, scale=4., chord=1., grid=None, side=None, ctrl=None, full=False):
    """one wing; with full=False some entries are omitted so that the defaults apply"""
    w = dict(name=name)
    w["side"] = side or pick(r, "both", "left", "right", p=[.76, .12, .12])
    w["span"] = U(r, 0.5, 1.3)*scale
    w["root_chord"] = U(r, 0.5, 1.3)*chord
    if r.random() < 0.7:
        w["tip_chord"] = w["root_chord"]*pick(r, 1., U(r, 0.2, 1.3))
    if r.random() < 0.6:
        w["sweep"] = pick(r, U(r, -25, 45), 0., U(r, 0, 60), U(r, -60, 75), p=[.33, .33, .3, .04])
    if r.random() < 0.6:
        w["dihedral"] = pick(r, U(r, -15, 15), 0., U(r, -60, 60), 90., U(r, -180, 180), -90., p=[.57, .1, .19, .1, .03, .01])
    if r.random() < 0.5:
        w["mount"] = pick(r, U(r, -6, 8), U(r, -40, 40), p=[.96, .04])
    if r.random() < 0.5:
        w["washout"] = pick(r, U(r, -8, 8), U(r, -40, 40), p=[.96, .04])
    if r.random() < 0.35:
        w["yoffset"] = pick(r, U(r, 0.05, 0.6), 0., -U(r, .05, .4), U(r, .6, 3.), p=[.85, .05, .05, .05])*chord
    w["pos"] = [U(r, -0.2, 0.2)*scale, pick(r, 0., U(r, -.1, .1)*scale), U(r, -0.1, 0.1)*scale]
    w["grid"] = grid or int(pick(r, r.integers(2, 26), r.integers(1, 6), 40, r.integers(50, 150), p=[.845, .12, .03, .005]))
    u = r.random()
    if u < 0.4:
        w["airfoils"] = {"both": airfoil(r)}
    elif u < 0.85:
        w["airfoils"] = {"root": airfoil(r), "tip": airfoil(r)}
    if r.random() < (0.75 if ctrl is None else ctrl):
        w["control"] = control(r)
    if r.random() < 0.4:
        w["is_main"] = int(r.integers(0, 2))
    return w


def plane(r, nprops=None, wings=None, maxgrid=None, refs=None, connect=True):
    """whole airplane; wings: None random, 0 none"""
    s = dict(name=pick(r, "plane", "P", "a plane"), cg=[0., 0., 0.])
    if r.random() < 0.7:
        s["cg"] = [pick(r, U(r, -1, 1), 0.), pick(r, U(r, -.3, .3), 0.), pick(r, U(r, -.5, .5), 0.)]
    if r.random() < 0.15:
        s["position"] = [U(r, -5, 5), U(r, -5, 5), U(r, -5, 5)]
    scale = float(np.exp(U(r, np.log(0.5), np.log(25.))))
    s["scale"] = scale
    for i in range(3):
        s["cg"][i] *= 0.4*scale
    ch = U(r, 0.1, 0.45)*scale
    s["wings"] = []
    n = wings if wings is not None else int(r.choice([1, 2, 3, 4, 6, 11], p=[.35, .34, .2, .09, .015, .005]))
    # names are free; some of them look like sides, positions or parts of other names
    names = [pick(r, "wing", "main", "mainwing_number_one", "Wing_1", "upright", "left_right", "left", "\u043a\u0440\u044b\u043b\u043e 1"),
             pick(r, "h_tail", "tail", "b", "rightmost", "wing_2", "leftover", "right"),
             pick(r, "v_stab", "fin", "c", "bright_left", "wing_12", "tip"), pick(r, "d4", "wingright", "left_tip", "root")]
    names += ["w%d" % i for i in range(4, n)]
    for i in range(n):
        if i == 0:
            w = wing(r, names[i], scale, ch)
            if r.random() < .85:
                w["is_main"] = 1
                w["side"] = pick(r, "both", w["side"])
        else:
            par = s["wings"][int(r.integers(0, i))]
            if connect and r.random() < 0.35 and not any(x.get("connect") == par["name"] for x in s["wings"]):
                w = wing(r, names[i], scale*U(r, .2, .7), ch*.8, side=par.get("side", "both"))
                w["connect"] = par["name"]
                w["pos"] = pick(r, [0., 0., 0.], [U(r, -.2, .2)*ch, 0., U(r, -.2, .2)*ch])
                w.pop("yoffset", None)
                if r.random() < .6 and "airfoils" in par:
                    w["airfoils"] = par["airfoils"]
            else:
                w = wing(r, names[i], scale*U(r, .2, .6), ch*U(r, .4, .9))
                w["pos"] = [-scale*U(r, .5, 1.2)*pick(r, 1, 1, -1), w["pos"][1], scale*U(r, .03, .3)*pick(r, 1, -1)]
                if w["side"] != "both" and r.random() < .5:
                    w["dihedral"] = 90.
                    w["pos"][1] = 0.
        s["wings"].append(w)
    if maxgrid:
        for w in s["wings"]:
            w["grid"] = min(w.get("grid", 40), maxgrid)
    if not any(w.get("is_main", 1) for w in s["wings"]) and s["wings"]:
        s["wings"][0]["is_main"] = 1
    if refs is None:
        refs = pick(r, "both", "lat", "long", "none", p=[.55, .15, .15, .15])
    if refs in ("both", "lat"):
        s["lat_ref"] = U(r, 1., 2.)*scale
    if refs in ("both", "long"):
        s["long_ref"] = U(r, .1, .5)*scale
    np_ = nprops if nprops is not None else int(r.choice([0, 1, 2, 3, 5], p=[.5, .25, .18, .06, .01]))
    s["props"] = [prop(r, "prop%d" % i if r.random() < .7 else pick(r, "a", "port_prop", "zz", "left_", "right", "", "wing", "\u00fcber", "\u043f\u0442")[:9] + str(i), s) for i in range(np_)]
    for xs in (s["wings"], s["props"]):
        if len(xs) > 1 and r.random() < .12:
            alike(r, s, xs)
    return s


def alike(r, s, xs):
    """a component whose name differs from another one's in case, blanks or by some letters only"""
    i, j = (int(k) for k in r.permutation(len(xs))[:2])
    n, old = xs[i]["name"], xs[j]["name"]
    new = pick(r, n.swapcase(), n.upper(), n.lower(), n.title(), n + " ", " " + n, n + "_", n + n[-1], n[:-1] or "q")
    if new.strip() and all(x["name"] != new for x in s["wings"] + s["props"]):
        xs[j]["name"] = new
        for w in s["wings"]:
            if xs is s["wings"] and w.get("connect") == old:
                w["connect"] = new


def table(r, lo, hi, n=None):
    n = n or int(r.integers(5, 12))
    x = np.linspace(U(r, 0.05, 0.12), U(r, 0.95, 1.0), n)
    y = np.linspace(lo, hi, n)*(1 + 0.05*np.sin(U(r, 0, 6) + 3*x))
    return [[float(a), float(b)] for a, b in zip(x, y)]


def prop(r, name, s, motor=None):
    """a propeller; spec s gives the length scale and the wings to immerse"""
    sc = s["scale"]
    d = sc*U(r, 0.15, 0.8)
    q = dict(name=name)
    if r.random() < 0.93:
        q["d"] = d
    else:
        d = 1.
    if r.random() < 0.8:
        q["hd"] = d*U(r, 0.06, 0.28)
    if r.random() < 0.85:
        q["nodes"] = int(pick(r, r.integers(8, 60), r.integers(60, 121), r.integers(4, 10), r.integers(121, 260), p=[.69, .2, .1, .01]))
    q["pos"] = [sc*U(r, 0.05, .6)*pick(r, 1, 1, -1), pick(r, 0., sc*U(r, -1, 1)), pick(r, 0., sc*U(r, -.12, .12))]
    if s.get("position") is not None:
        for i in range(3):
            q["pos"][i] += s["position"][i]
    if r.random() < 0.7:
        q["orient"] = pick(r, [U(r, -10, 10), U(r, -10, 10)], [0., U(r, -15, 15)], [U(r, -15, 15), 0.], [U(r, -40, 40), U(r, -40, 40)],
                           [pick(r, 90., -90., 180., U(r, -180, 180)), U(r, -10, 10)], [0., pick(r, 90., -90., 180., U(r, -180, 180))], p=[.5, .2, .19, .07, .02, .02])
    if r.random() < 0.85:
        q["k"] = int(r.integers(1, 7))
    if r.random() < 0.85:
        q["rot"] = pick(r, "CW", "CCW", "cw", "ccw", 1, 0, -1, 1., -1.)
    t = pick(r, "default", "ratio", "value", "from_file")
    if r.random() < 0.85:
        p = {"type": t}
        kc = U(r, 0.35, 1.3)
        if t == "ratio":
            p["value"] = kc
        elif t == "value":
            p["value"] = kc*d
        elif t == "from_file":
            p["table"] = table(r, U(r, 40, 60), U(r, 10, 20))
        if r.random() < 0.4:
            p["pitch_increment"] = pick(r, U(r, -4, 8), 0.)
        q["pitch"] = p
    t = pick(r, "default", "linear", "elliptical", "from_file")
    if r.random() < 0.85:
        c = {"type": t}
        if t in ("linear", "elliptical"):
            c["root"] = U(r, 0.03, 0.11)*d
        if t == "linear" and r.random() < .7:
            c["tip"] = U(r, 0.02, 0.08)*d
        if t == "from_file":
            c["table"] = table(r, U(r, .1, .2), U(r, .05, .12))
        q["chord"] = c
    u = r.random()
    mk = lambda pos, nm=None: dict(prop_airfoil(r, nm), pos=pos)
    if u < 0.6:
        q["airfoils"] = [mk(None)]
    elif u < 0.78:
        names = blade_names(r, 2)
        q["airfoils"] = [mk(pick(r, "root", "Root", "ROOT"), names[0]), mk(pick(r, "tip", "Tip", "TIP"), names[1])]
    elif u < 0.92:
        pos = sorted(U(r, .1, .95) for _ in range(int(r.integers(2, 5))))
        if min(np.diff(pos)) < .02:
            pos = [.2, .6, .9]
        names = blade_names(r, len(pos))
        afs = [mk(x, names[i]) for i, x in enumerate(pos)]
        r.shuffle(afs)
        q["airfoils"] = afs
    if motor:
        q["motor"] = motor_spec(r)
    return q


def blade_names(r, n):
    """distinct names: four-digit sections and others"""
    out = []
    while len(out) < n:
        x = pick(r, "NACA%d%d%02d" % (r.integers(0, 8), r.integers(1, 8), r.integers(6, 22)), "naca%d%d%02d" % (r.integers(0, 8), r.integers(1, 8), r.integers(6, 22)),
                 "NACA00%02d" % r.integers(6, 22), "foil %d" % r.integers(9), "S1223", "NACA-M12", "NACA 2412", "NACA23012", p=[.4, .2, .1, .1, .05, .05, .05, .05])
        if x not in out:
            out.append(x)
    return out


def prop_airfoil(r, name=None):
    a = airfoil(r, name)
    a.update(alpha_L0=U(r, -.06, .0), CL_alpha=U(r, 5, 6.5), CL_max=U(r, 1., 1.6), CD0_L=U(r, -.005, .005))
    return a


def motor_spec(r):
    return dict(has_motor=pick(r, 1, True), motor_kv=U(r, 150, 1500), motor_resistance=U(r, .01, .3), motor_no_load_current=U(r, .1, 2.5),
                gear_reduction=pick(r, 1., U(r, 1, 5)), battery_resistance=U(r, .005, .1), battery_voltage=U(r, 7, 40),
                speed_control_resistance=U(r, .001, .05))


def aero(r, rates=0.35, s=None, big=False):
    a = dict(V_mag=pick(r, U(r, 2, 60), U(r, 60, 300), 10, 10., 10**U(r, -2, 3.5), p=[.25, .25, .24, .24, .02]),
             rho=pick(r, U(r, .0005, .003), U(r, .3, 1.4), 0.0023769, 1., 10**U(r, -5, 3), p=[.25, .25, .24, .24, .02]))
    u = r.random()
    m = 25. if not big else 80.
    if u < .85:
        a["alpha"] = pick(r, U(r, -10, 15), U(r, -m, m), 0., 5, U(r, -80, 80), U(r, -180, 180), 180., p=[.59, .24, .1, .05, .013, .006, .001])
    if r.random() < .6:
        a["beta"] = pick(r, U(r, -12, 12), U(r, -m, m), 0., 3, U(r, -80, 80), U(r, -180, 180), p=[.59, .24, .1, .05, .015, .005])
    if r.random() < rates:
        sc = (s or {}).get("scale", 4.)
        for k in ("roll_rate", "pitch_rate", "yaw_rate"):
            if r.random() < .65:
                a[k] = pick(r, U(r, -.15, .15)*a["V_mag"]/sc, 0.)
    return a


def controls(r, small=False):
    c = {}
    for k in ("aileron", "elevator", "rudder", "flap"):
        if r.random() < .65:
            c[k] = pick(r, U(r, -11, 11), U(r, -25, 25), U(r, -60, 60), 0., 11., -11, 5, U(r, -130, 130), p=[.4, .3, .09, .05, .05, .05, .05, .01])
    return c


def prop_state(r, spec, aero_, kinds=("J", "rps", "default")):
    """a prop state in the normal working range of the propellers of the spec"""
    from .refprop import full_prop
    if not spec["props"]:
        return pick(r, None, {"J": .4})
    per = len(spec["props"]) > 0 and r.random() < .4

    def one(p):
        k = pick(r, *kinds)
        d = full_prop(p)["d"]
        J = U(r, .1, .9)
        if k == "J":
            return {"J": J}
        if k == "rps":
            return {"rot_per_sec": aero_["V_mag"]/(J*d)}
        if k == "static":
            return {"J": 0., "rot_per_sec": U(r, 10, 100)}
        return None
    if not per:
        return one(spec["props"][0])
    st = {}
    for p in spec["props"]:
        o = one(p)
        st[p["name"]] = o or pick(r, {"J": .5}, {"J": .5}, {})       # an empty state is the default one
    return st
