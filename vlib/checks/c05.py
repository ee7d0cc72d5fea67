"""C05 mirror symmetry"""
from ..transform import *

ID = "C05"
RULE = ("random airplanes and their mirror image (sides, positions, headings, rotation directions, beta, roll/yaw rates, aileron, rudder mirrored), and "
        "symmetric airplanes in symmetric states; non-trivial: lateral loads above 1e-6 of the load scale, or a symmetric plane with controls")


def mirrored(ctx):
    s, a, c, st, m, S, R, P = full_case(ctx)
    t = m.solve(a, c, st)
    s2 = mirror(s)
    a2, c2 = mirror_state(a, c)
    t2 = mu(s2).solve(a2, c2, st)
    fs, ms = scales(R, P)
    close_fm(ctx, t2, t, fs, ms, 1e-8, "mirror image", ODD)
    ctx.count("pairs")
    ctx.count("with propellers", bool(P))
    ctx.nontrivial = abs(t["FY"]) > 1e-6*fs


def local(ctx):
    """section loads of the mirror image are mirrored"""
    s, a, c, S, R = wing_state(ctx)
    d, _ = mu(s).distributions(a, c)
    s2 = mirror(s)
    a2, c2 = mirror_state(a, c)
    d2, _ = mu(s2).distributions(a2, c2)
    S2 = rw.sections(s2)
    # match the sections: same wing, other side, reversed order
    idx = {}
    for j, (n, f) in enumerate(zip(S2.name, S2.f)):
        idx[(n, round(float(f), 9))] = j
    other = lambda n: ("right" + n[4:]) if n.startswith("left") else ("left" + n[5:])
    k = [idx[(other(n), round(float(f), 9))] for n, f in zip(S.name, S.f)]
    F, F2 = np.asarray(d["forces_xyz"]), np.asarray(d2["forces_xyz"])[k]
    e = relerr(R)*R["fscale"]
    for i, sg in enumerate((1, -1, 1)):
        ctx.close(F2[:, i], sg*F[:, i], e, "mirrored section force %s" % "xyz"[i])
    for key in ("alpha", "section_CL", "section_Cm", "section_CD_parasitic"):
        ctx.close(np.asarray(d2[key])[k], d[key], relerr(R)*1000, "mirrored " + key)
    ctx.count("sections", S.N)
    ctx.nontrivial = True


def symmetric(ctx):
    r = ctx.r
    for _ in range(8):
        s = gen.plane(r, nprops=0)
        s["cg"][1] = 0.
        if s.get("position"):
            s["position"][1] = 0.
        for w in s["wings"]:
            w["side"] = "both"
            if w.get("pos"):
                w["pos"][1] = 0.
            if abs(w.get("dihedral", 0)) > 60:
                w["dihedral"] = 30.
            if r.random() < .4:
                w["grid"] = int(pick_odd(r))
        a = gen.aero(r, s=s)
        for k in ("beta", "roll_rate", "yaw_rate"):
            a.pop(k, None)
        c = gen.controls(r)
        c.pop("aileron", None)
        c.pop("rudder", None)
        ctx.note(spec=s, aero=a, controls=c)
        S, R = rw.solve(s, a, c)
        if usable(R):
            break
    else:
        raise Skip()
    t = mu(s).solve(a, c)
    for k in ODD:
        ctx.close(t[k], 0., relerr(R)*(R["fscale"] if k[0] == "F" else R["mscale"]), "symmetric airplane in symmetric flow: " + k)
    ctx.count("symmetric states")
    ctx.nontrivial = any(c.values())


def pick_odd(r):
    return r.choice([1, 3, 5, 7, 9, 11])


SCENARIOS = {"mirrored": (mirrored, 2000, 10000), "local": (local, 1000, 5000), "symmetric": (symmetric, 1600, 8000)}
