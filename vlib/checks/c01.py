"""C01 discretisation of the lifting surfaces"""
import numpy as np
from .. import gen, refwing as rw
from ..build import plane, mu, LLGrid, quiet
from ..core import Skip

ID = "C01"
RULE = ("random airplanes (1-4 wings, all sides, connected wings, sweep/dihedral/yoffset/taper, omitted entries, cosine and linear spacing); "
        "non-trivial: at least one swept, tapered, twisted or connected segment")


def tol(S):
    return 1e-11*max(1e-3, np.abs(S.rc).max(), np.abs(S.r1).max(), np.abs(S.r2).max())


def grid(ctx):
    r = ctx.r
    s = gen.plane(r, nprops=0)
    ctx.note(spec=s)
    cosine = bool(r.random() < .7)
    if r.random() < .3:     # many small grids
        for w in s["wings"]:
            w["grid"] = int(r.integers(1, 8))
    p = plane(s)
    S = rw.sections(s, cosine)
    if not np.isfinite(S.rc).all() or S.N == 0:
        raise Skip()
    g = LLGrid(p, cosine)
    t = tol(S)
    L = max(np.abs(S.c).max(), 1e-9)
    c1, c2 = g.get_corner_point_pos()
    ctx.check_that(p.get_num_sections() == S.N, "number of sections")
    ctx.check_that([str(x) for x in g.get_wing_names()] == S.name, "names of the sections", got=list(g.get_wing_names()), want=S.name)
    ctx.close(g.get_control_point_pos(), S.rc, t, "control points")
    ctx.close(c1, S.r1, t, "first corner points")
    ctx.close(c2, S.r2, t, "second corner points")
    ctx.close(g.get_cp_spacing(), S.s, 1e-12, "control point spacing")
    ctx.close(g.get_chord_length(), S.c, 1e-12*L, "chord")
    q1, q2 = g.get_chord_lengths()
    ctx.check_that(len(q1) == S.N, "corner chords")
    ctx.close(g.get_section_areas(), S.dS, 1e-11*np.abs(S.dS).max(), "section areas")
    ctx.close(g.get_reference_area(), S.Sw, 1e-10*np.abs(S.dS).sum(), "reference area (main wings only)")
    ctx.close(g.get_integral_chord2(), S.intc2, 1e-10*np.abs(S.intc2).max(), "integral of the squared chord")
    ctx.close(g.get_dihedral(), S.dih, 1e-12*90, "dihedral")
    ctx.close(g.get_sweep(), S.swp, 1e-12*90, "sweep")
    ctx.close(g.get_unit_normal_vectors(), S.un, 1e-12, "unit normals")
    ctx.close(g.get_unit_axial_vectors(), S.ua, 1e-12, "unit axials")
    ctx.close(g.get_unit_spanwise_vectors(), S.us, 1e-12, "unit spanwise vectors")
    ctx.count("sections", S.N)
    ctx.count("segments", S.nseg)
    ctx.count("cosine" if cosine else "linear")
    ctx.nontrivial = any(w.get("sweep") or w.get("washout") or w.get("connect") or w.get("tip_chord", 0) != w.get("root_chord") for w in s["wings"])


def model(ctx):
    """areas, twist and reference lengths as the MachUp model reports them"""
    r = ctx.r
    s = gen.plane(r, nprops=0, maxgrid=20)
    ctx.note(spec=s)
    S = rw.sections(s)
    if not np.isfinite(S.rc).all():
        raise Skip()
    m = mu(s)
    lat, lon = rw.reference_lengths(s, S.Sw)
    ctx.close(m.Sw, S.Sw, 1e-10*S.dS.sum(), "Sw")
    ctx.close(m.lat_ref, lat, 1e-10*lat, "lateral reference length")
    ctx.close(m.long_ref, lon, 1e-10*lon, "longitudinal reference length")
    st, R = rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": 2.}, {}, S=S)
    if R["sing"] < 1e-9:
        raise Skip("singular")
    wd, pd = m.distributions({"V_mag": 10., "rho": 1., "alpha": 2.})
    ctx.check_that(len(pd) == 0, "no propeller distributions without propellers")
    ctx.check_that([str(x) for x in wd["name"]] == S.name, "distribution names")
    ctx.close(wd["control_points"], S.rc, tol(S), "distribution control points")
    ctx.close(wd["chord"], S.c, 1e-11*np.abs(S.c).max(), "distribution chord")
    ctx.close(wd["twist"], S.mount - S.wash, 1e-10*30, "distribution twist (mounting angle minus washout)")
    ctx.close(wd["dihedral"], S.dih, 1e-10, "distribution dihedral")
    ctx.close(wd["sweep"], S.swp, 1e-10, "distribution sweep")
    ctx.close(wd["area"], S.dS, 1e-11*np.abs(S.dS).max(), "distribution area")
    ctx.count("models")
    ctx.nontrivial = len(s["wings"]) > 1 or "lat_ref" not in s or "long_ref" not in s


SCENARIOS = {"grid": (grid, 6000, 30000), "model": (model, 1200, 5000)}
