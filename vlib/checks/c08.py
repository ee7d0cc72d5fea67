"""C08 the description's order and names are immaterial"""
from ..transform import *

ID = "C08"
RULE = ("random airplanes described again with wings and propellers in another order, renamed, and two-sided wings split in a left and a right one; "
        "non-trivial: at least two components or a split wing")


def described(ctx):
    r = ctx.r
    s, a, c, st, m, S, R, P = full_case(ctx, nprops=int(r.choice([0, 1, 2, 3])))
    s2, ren = None, None
    for _ in range(10):
        s2, ren = reorder(r, s)
        if s2:
            break
    if not s2:
        raise Skip()
    ctx.note(spec2=s2)
    t = m.solve(a, c, st)
    m2 = mu(s2)
    t2 = m2.solve(a, c, rename_state(st, ren))
    fs, ms = scales(R, P)
    close_fm(ctx, t2, t, fs, ms, 1e-8, "same airplane described differently")
    if s["wings"]:
        ctx.close(m2.Sw, m.Sw, 1e-10*m.Sw, "reference area")
        ctx.close(m2.lat_ref, m.lat_ref, 1e-10*m.lat_ref, "lateral length")
        ctx.close(m2.long_ref, m.long_ref, 1e-10*m.long_ref, "longitudinal length")
    ctx.count("pairs")
    ctx.count("propellers", len(s["props"]))
    ctx.nontrivial = len(s["wings"]) + len(s["props"]) > 1 or len(s2["wings"]) > len(s["wings"])


def sections(ctx):
    """the loads of each section do not depend on the order either"""
    r = ctx.r
    s, a, c, S, R = wing_state(ctx)
    s2 = None
    for _ in range(10):
        s2, _x = reorder(r, s)
        if s2:
            break
    if not s2:
        raise Skip()
    ctx.note(spec2=s2)
    d, _ = mu(s).distributions(a, c)
    d2, _ = mu(s2).distributions(a, c)
    A = np.column_stack([d["control_points"], d["forces_xyz"]/R["fscale"]*s["scale"]])
    B = np.column_stack([d2["control_points"], d2["forces_xyz"]/R["fscale"]*s["scale"]])
    ctx.check_that(len(A) == len(B), "number of sections")
    used = np.zeros(len(B), bool)
    for row in A:
        dist = np.abs(B - row).max(1)
        dist[used] = np.inf
        j = int(dist.argmin())
        used[j] = True
        ctx.close(dist[j], 0., 1e-7*s["scale"], "section of the other description with the same place and load")
    ctx.count("sections", S.N)
    ctx.nontrivial = True


SCENARIOS = {"described": (described, 2000, 10000), "sections": (sections, 600, 3000)}
