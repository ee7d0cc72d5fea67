"""C06 the origin of the coordinates does not matter; moments follow the center of gravity"""
from ..transform import *

ID = "C06"
RULE = "random airplanes translated as a whole, or with a moved center of gravity (also after the model was built); non-trivial: shift above 1e-3 of the size"


def vec(r, L):
    return [gen.U(r, -3, 3)*L if r.random() < .85 else 0. for _ in range(3)]


def translated(ctx):
    s, a, c, st, m, S, R, P = full_case(ctx)
    t = m.solve(a, c, st)
    sh = vec(ctx.r, s["scale"])
    ctx.note(shift=sh)
    s2 = translate(s, sh)
    t2 = mu(s2).solve(a, c, st)
    fs, ms = scales(R, P)
    close_fm(ctx, t2, t, fs, ms + 1e-2*fs*lever(s, S, P), 1e-7, "translated airplane")
    ctx.count("pairs")
    ctx.nontrivial = any(sh)


def cg(ctx):
    """forces do not depend on the center of gravity without rotation, moments shift by r x F"""
    s, a, c, st, m, S, R, P = full_case(ctx, rates=0)
    t = m.solve(a, c, st)
    new = vec(ctx.r, s["scale"]*.5)
    ctx.note(new_cg=new)
    s2 = dict(s, cg=new)
    live = ctx.r.random() < .5 and not s.get("units")
    if live:
        m.myairplane.cg_location(*new)
        t2 = m.solve(a, c, st)
    else:
        t2 = mu(s2).solve(a, c, st)
    F = np.array([t["FX"], t["FY"], t["FZ"]])
    dM = np.cross(np.array(s["cg"]) - np.array(new), F)
    fs, ms = scales(R, P)
    L = max(lever(s, S, P), lever(s2, S, P))
    for k in ("FX", "FY", "FZ", "FL", "FD", "FS"):
        ctx.close(t2[k], t[k], 1e-9*fs, "force after moving the center of gravity: " + k)
    for i, k in enumerate(("MX", "MY", "MZ")):
        ctx.close(t2[k], t[k] + dM[i], 1e-9*(ms + fs*L), "moment after moving the center of gravity: " + k)
    ctx.count("moved on a live model", live)
    ctx.nontrivial = True


def partial(ctx):
    """cg_location changes only the given coordinates; rotation is about the current center of gravity"""
    s, a, c, S, R = wing_state(ctx)
    p = plane(s)
    m = LLModel(p)
    m.solve("linear", a, c)
    new = [gen.U(ctx.r, -1, 1)*s["scale"] if ctx.r.random() < .5 else None for _ in range(3)]
    if ctx.r.random() < .3:
        new[int(ctx.r.integers(3))] = 0
    ctx.note(new_cg=new)
    p.cg_location(*new)
    cgn = [s["cg"][i] if new[i] is None else float(new[i]) for i in range(3)]
    ctx.close(p.get_cg_location(), cgn, 0, "center of gravity")
    s2 = dict(s, cg=cgn)
    S2, R2 = rw.solve(s2, a, c)
    if not usable(R2):
        raise Skip()
    compare_fm(ctx, m.solve("linear", a, c)["total"], R2["total"], R2["fscale"], R2["mscale"], relerr(R2), "after cg_location")
    ctx.nontrivial = cgn != s["cg"]
    ctx.count("rotating", any(k.endswith("rate") for k in a))


SCENARIOS = {"translated": (translated, 1600, 8000), "cg": (cg, 1600, 8000), "partial": (partial, 1200, 6000)}
