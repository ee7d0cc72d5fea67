"""C04 accounting of forces and moments"""
import numpy as np
import json
from ..transform import *

ID = "C04"
RULE = ("random airplanes with wings and propellers; totals are rebuilt from the reported sections and components and from the other axes; "
        "non-trivial: beta, several components or propellers")


def axes(ctx):
    s, a, c, st, m, S, R, P = full_case(ctx)
    t = m.solve(a, c, st)
    fs, ms = scales(R, P)
    F = np.array([t["FX"], t["FY"], t["FZ"]])
    L, D, Y = rw.wind_axes(F, rw.freestream(a))
    # an exactly spanwise wind has no lift direction
    e = 1e-10*fs/max(1e-3, np.cos(np.radians(a.get("beta", 0.))))
    ctx.close(t["FL"], L, e, "lift is the force normal to the wind in the symmetry plane")
    ctx.close(t["FD"], D, e, "drag is the force along the wind")
    ctx.close(t["FS"], Y, e, "side force completes the wind axes")
    ctx.close(t["FL"]**2 + t["FD"]**2 + t["FS"]**2, (F*F).sum(), 1e-9*fs*fs, "rotation keeps the magnitude")
    ctx.check_that(set(FM) <= set(t), "keys of the totals")
    ctx.count("solutions")
    ctx.nontrivial = bool(a.get("beta") and a.get("alpha"))


def components(ctx):
    """totals = wings + propellers; wings = inviscid + viscous"""
    s, a, c, st, m, S, R, P = full_case(ctx, wings=int(ctx.r.integers(0, 3)), nprops=int(ctx.r.integers(1, 4)))
    f = file_path(ctx)
    t = m.solve(a, c, st, filename=f)
    j = json.load(open(f))
    fs, ms = scales(R, P)
    zero = {k: 0. for k in FM}
    w = j["wing_results"].get("total", zero) if s["wings"] else zero
    p = j["prop_results"].get("total", zero)
    for k in FM:
        ctx.close(t[k], w[k] + p[k], 1e-11*(fs if k[0] == "F" else ms), "total = wings + propellers: " + k)
        if s["wings"]:
            ctx.close(w[k], j["wing_results"]["inviscid"][k] + j["wing_results"]["viscous"][k], 1e-11*(fs if k[0] == "F" else ms),
                      "wings = inviscid + viscous: " + k)
        ctx.close(j["total_results"][k], t[k], 0., "file total: " + k)
    if s["wings"]:
        for part in ("inviscid", "viscous", "total"):
            x = j["wing_results"][part]
            L, D, Y = rw.wind_axes(np.array([x["FX"], x["FY"], x["FZ"]]), rw.freestream(a))
            for k, v in (("FL", L), ("FD", D), ("FS", Y)):
                ctx.close(x[k], v, 1e-9*fs, "wind axes of the %s wing loads: %s" % (part, k))
    # every propeller acts independently of the others and of the wings
    tot = {k: 0. for k in FM}
    for q in s["props"]:
        one = mu(dict(s, wings=[], props=[q])).solve(a, None, local_state(st, q["name"]))
        for k in FM:
            tot[k] += one[k]
    for k in FM:
        ctx.close(p[k], tot[k], 1e-9*(fs if k[0] == "F" else ms), "propellers = sum of single propellers: " + k)
    ctx.count("components", len(s["wings"]) + len(s["props"]))
    ctx.nontrivial = len(s["props"]) > 1 or bool(s["wings"])


def _pack(F, M, a):
    L, D, Y = rw.wind_axes(F, rw.freestream(a))
    return dict(FL=L, FD=D, FS=Y, FX=F[0], FY=F[1], FZ=F[2], MX=M[0], MY=M[1], MZ=M[2])


def reference(ctx):
    """both contributions are those of the reference lifting line and the reference propeller, moments about the center of gravity"""
    s, a, c, st, m, S, R, P = full_case(ctx, wings=int(ctx.r.integers(0, 4)), nprops=int(ctx.r.integers(0, 3)))
    if not s["wings"] and not s["props"]:
        raise Skip("nothing")
    f = file_path(ctx)
    t = m.solve(a, c, st, filename=f)
    j = json.load(open(f))
    fs, ms = scales(R, P)
    wind = max(1e-3, np.cos(np.radians(a.get("beta", 0.))))
    F, M = np.zeros(3), np.zeros(3)
    if s["wings"]:
        e = 10*relerr(R)/wind
        for part in ("inviscid", "viscous", "total"):
            compare_fm(ctx, j["wing_results"][part], R[part], R["fscale"], R["mscale"], e, "wing contribution: " + part)
        F = np.array([R["total"][k] for k in ("FX", "FY", "FZ")])
        M = np.array([R["total"][k] for k in ("MX", "MY", "MZ")])
    if s["props"]:
        Fp, Mp = sum(L["F"] for L in P), sum(L["M"] for L in P)
        compare_fm(ctx, j["prop_results"]["total"], _pack(Fp, Mp, a), sum(L["fscale"] for L in P), sum(L["mscale"] for L in P), 1e-7/wind, "propeller contribution")
        F, M = F + Fp, M + Mp
    compare_fm(ctx, t, _pack(F, M, a), fs, ms, max(1e-7, 10*relerr(R) if R else 0.)/wind, "total")
    ctx.count("components", len(s["wings"]) + len(s["props"]))
    ctx.nontrivial = len(s["props"]) + len(s["wings"]) > 1


def sections(ctx):
    """the total is the sum over the reported sections"""
    s, a, c, st, m, S, R, P = full_case(ctx, wings=int(ctx.r.integers(1, 4)))
    f = file_path(ctx)
    m.solve(a, c, st, filename=f)
    j = json.load(open(f))["wing_results"]
    d, _ = m.distributions(a, c, st)
    F = np.asarray(d["forces_xyz"], float)
    rc = np.asarray(d["control_points"], float)
    for i, k in enumerate(("FX", "FY", "FZ")):
        ctx.close(j["inviscid"][k], F[:, i].sum(), 1e-11*R["fscale"], "sum of the section forces: " + k)
    u = S.us
    ex = slipstreams(s, a, P, S.rc)[0] if P else None
    v, rho, _ = rw.onset(S, s, a, ex)
    q = .5*rho*(v*v).sum(1)
    M = np.cross(rc - np.array(s["cg"]), F) - (q*np.asarray(d["section_Cm"], float)*S.intc2)[:, None]*u
    for i, k in enumerate(("MX", "MY", "MZ")):
        ctx.close(j["inviscid"][k], M[:, i].sum(), 1e-8*R["mscale"], "sum of the section moments: " + k)
    ctx.check_that(np.array_equal(np.asarray(d["name"], str), np.array(S.name)), "names of the sections")
    ctx.nontrivial = True
    ctx.count("sections", S.N)


SCENARIOS = {"axes": (axes, 2000, 10000), "components": (components, 1200, 6000), "reference": (reference, 1200, 8000), "sections": (sections, 1200, 6000)}
