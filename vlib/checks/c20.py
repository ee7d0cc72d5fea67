"""C20 exported STL geometry"""
import os
from ..common import *
from .c12 import blades

ID = "C20"
RULE = ("random airplanes with wings and propellers exported and read back; every facet compared with the section outlines of the description; "
        "non-trivial: a left wing, a propeller or sections of different airfoils")


def naca(name):
    """upper and lower surface of a four digit section (camber line and thickness distribution), trailing edge to trailing edge,
    as (distance behind the quarter chord, height) per unit chord"""
    d = name[4:] if name[:4] in ("NACA", "naca") and len(name) == 8 and name[4:].isdigit() else "2412"
    m, p, t = int(d[0])/100., int(d[1])/10., int(d[2:])/100.
    th = np.linspace(-np.pi, np.pi, 50)
    x = .5*(1 - np.cos(th))
    h = 5*t*(.2969*np.sqrt(x) - .126*x - .3516*x**2 + .2843*x**3 - .1015*x**4)
    if m == 0 or p == 0:
        y, dy = 0*x, 0*x
    else:
        y = np.where(x < p, m/p**2*(2*p*x - x*x), m/(1 - p)**2*(1 - 2*p + 2*p*x - x*x))
        dy = np.where(x < p, 2*m/p**2*(p - x), 2*m/(1 - p)**2*(p - x))
    return x, y, dy, h, th


def outline(name):
    x, y, dy, h, th = naca(name)
    sg = np.sign(th)
    a = np.arctan(dy)
    return np.stack([x - h*np.sin(a)*sg - .25, y + h*np.cos(a)*sg], 1)


def wing_rings(s):
    S = rw.sections(s)
    rings = []
    start = 0
    for g in range(S.nseg):
        idx = np.where(S.seg == g)[0]
        ring = []
        for i in idx:
            A, B, f = S.raf[i], S.taf[i], S.f[i]
            P = outline(A["name"])*(1 - f) + outline(B["name"])*f
            ring.append(S.rc[i] + S.c[i]*(P[:, :1]*S.ua[i] + P[:, 1:]*S.un[i]))
        rings.append(np.array(ring))
    return rings


def blade_rings(q):
    B = rp.Blade(q)
    p = B.p
    afs = p["airfoils"] or [dict(rw.AF_DEFAULT, pos=None)]
    if len(afs) == 1:
        shape = np.repeat(outline(afs[0]["name"])[None], B.n, 0)
    else:
        place = {"root": B.z[0], "tip": B.z[-1]}
        rows = sorted([(place.get(str(f["pos"]).lower(), f["pos"]), f["name"]) for f in afs], key=lambda t: t[0])
        O = np.array([outline(x[1]) for x in rows])
        xs = [x[0] for x in rows]
        shape = np.stack([[[np.interp(z, xs, O[:, j, k]) for k in (0, 1)] for j in range(50)] for z in B.z])
    # frame of the propeller: forward, and two directions in the disk; first blade along the negative local z axis
    th, ga = np.radians(p["orient"])
    X = B.fwd
    Y = np.array([-np.sin(ga), np.cos(ga), 0.])
    Z = np.cross(X, Y)
    chordline = B.beta + B.aL0                    # pitch angle of the chord line
    out = []
    for k in range(B.k):
        ps = 2*np.pi*k/B.k
        rad = -np.cos(ps)*Z + np.sin(ps)*Y        # blade direction, right hand rotation about the forward axis
        tan = np.cross(X, rad)*B.rot              # direction of motion of the blade
        ring = []
        for i in range(B.n):
            ch = np.cos(chordline[i])*tan + np.sin(chordline[i])*X        # towards the leading edge
            up = np.cos(chordline[i])*X - np.sin(chordline[i])*tan        # suction side
            ring.append(B.pos + B.r[i]*rad + B.c[i]*(-shape[i][:, :1]*ch + shape[i][:, 1:]*up))
        out.append(np.array(ring))
    return out, B


def triangles(ring, flip):
    a, b = ring[:-1, :-1], ring[:-1, 1:]
    c, d = ring[1:, :-1], ring[1:, 1:]
    t1, t2 = np.stack([a, b, c], 2), np.stack([b, d, c], 2)
    t = np.concatenate([t1.reshape(-1, 3, 3), t2.reshape(-1, 3, 3)])
    return t[:, ::-1] if flip else t


def export(ctx):
    from stl import mesh
    from scipy.spatial import cKDTree
    r = ctx.r
    for _ in range(8):
        s = gen.plane(r, nprops=int(gen.pick(r, 0, 0, 1, 2)), wings=int(gen.pick(r, 0, 1, 2, 3, p=[.15, .35, .3, .2])), maxgrid=9)
        for q in s["props"]:
            q["nodes"] = int(min(q.get("nodes", 100), r.integers(3, 12)))
            q["k"] = int(r.integers(1, 5))
        for w in s["wings"]:
            if r.random() < .1:
                w["grid"] = 1
        if (s["wings"] or s["props"]) and all(np.isfinite(rp.Blade(q).beta).all() for q in s["props"]):
            try:
                m = mu(s)
                with quiet(), budget():
                    m.solve()
            except Exception:
                continue
            break
    else:
        raise Skip()
    ctx.note(spec=s)
    f = file_path(ctx, "stl")
    with quiet(), budget(20_000_000):
        m.create_stl(f)
    got = mesh.Mesh.from_file(f).vectors.astype(float)
    os.remove(f)
    want = [triangles(x, False) for x in wing_rings(s)]
    for q in s["props"]:
        rings, B = blade_rings(q)
        want += [triangles(x, B.rot < 0) for x in rings]
    want = np.concatenate(want)
    ctx.check_that(len(got) == len(want), "%d facets instead of %d" % (len(got), len(want)))
    if not len(want):
        return
    ctx.check_that(np.isfinite(got).all(), "vertices not finite")
    size = np.abs(want).max()
    tol = 4e-6*size
    # each facet has a partner with the same vertices (any first vertex, same orientation)
    allrot = np.concatenate([np.roll(want, k, 1).reshape(-1, 9) for k in range(3)])
    n = len(want)
    dist, idx = cKDTree(allrot).query(got.reshape(-1, 9))
    i = int(dist.argmax())
    ctx.check_that(dist[i] < 3*tol, "a facet is not on the described surface: off by %.3g at %s" % (dist[i], np.round(got[i, 0], 4)))
    ctx.evals += n
    d2, _ = cKDTree(np.concatenate([np.roll(got, k, 1).reshape(-1, 9) for k in range(3)])).query(want.reshape(-1, 9))
    ctx.check_that(d2.max() < 3*tol, "a part of the described surface is missing: off by %.3g" % d2.max())
    # exactly one facet per described facet, wherever the facets are distinguishable
    cnt = np.bincount(idx % n, minlength=n)
    dd, di = cKDTree(allrot).query(want.reshape(-1, 9), k=min(6, 3*n))
    other = np.where(di % n == np.arange(n)[:, None], np.inf, dd).min(1)      # nearest other facet
    distinct = other > 20*tol
    ctx.count("distinguishable", distinct.sum())
    ctx.check_that((cnt[distinct] == 1).all(), "a facet occurs several times")
    ctx.count("facets", n)
    ctx.count("blades", sum(rp.full_prop(q)["k"] for q in s["props"]))
    ctx.count("clockwise", sum(rp.rot_sign(rp.full_prop(q)["rot"]) < 0 for q in s["props"]))
    ctx.maxi("vertex error/size", dist.max()/size)
    ctx.nontrivial = bool(s["props"]) or any(w.get("side", "both") != "right" for w in s["wings"])


SCENARIOS = {"export": (export, 2000, 20000)}
