"""shared pieces of the checks"""
import copy
import numpy as np
from . import gen, refwing as rw, refprop as rp
from .build import plane, mu, mu_json, json_ok, LLGrid, LLModel, PropsSolver, PropModel, MU, geometry, quiet, scratch
from .core import Skip, Violation, compare_fm, budget, frozen, numbers, FM, Poison

REL = 1e-9
SING = 1e-6


def usable(R, cmax=1e7):
    return R["sing"] > SING and R["cond"] < cmax and np.isfinite(R["fscale"])


def wing_state(ctx, nprops=0, tries=6, **kw):
    """a random wing-only airplane, aero and control state away from singular geometries"""
    r = ctx.r
    for _ in range(tries):
        s = gen.plane(r, nprops=nprops, **kw)
        a, c = gen.aero(r, s=s), gen.controls(r)
        S, R = rw.solve(s, a, c)
        if usable(R):
            ctx.note(spec=s, aero=a, controls=c)
            return s, a, c, S, R
    raise Skip("nearly singular geometry")


def relerr(R):
    """tolerance relative to the summed magnitudes, widened by the conditioning"""
    return REL*max(1., R["cond"]/1e4)


def file_path(ctx, ext="json"):
    import os
    return os.path.join(scratch(), "f_%d_%s_%s_%d.%s" % (os.getpid(), ctx.check, ctx.scenario, ctx.index, ext))


def same(x, y):
    """bitwise equality of nested results"""
    return frozen(x) == frozen(y)


def allfinite(ctx, x, msg, skip=()):
    bad = [(p, v) for p, v in numbers(x) if not np.isfinite(v) and not any(k in p for k in skip)]
    ctx.check_that(not bad, "%s: not finite: %s" % (msg, bad[:3]))


# ------------------------------------------------------------------ propellers
KINK = 1e-6          # rad, distance from branch points of the section polar


def prop_only(r, n=1, motor=False, units=None):
    s = gen.plane(r, nprops=0, wings=0)
    s["props"] = [gen.prop(r, "prop%d" % i if r.random() < .6 else "p_%s" % "abc"[i], s, motor) for i in range(n)]
    s["units"] = units
    return s


def prop_data(m):
    """public state of every propeller of a solved model, by name"""
    out = {}
    for p in (m.myprops.get_prop_models() if m.myairplane.get_props() else []):
        out[p.get_name()] = dict(
            r=np.array(p.get_radial_position(), float), c=np.array(p.get_chord(), float), beta=np.array(p.get_aero_pitch_angle(), float),
            einf=np.array(p.get_advance_angle(), float), ei=np.array(p.get_induced_angle(), float), alpha=np.array(p.get_alpha(), float),
            CL=np.array(p.get_section_CL(), float), CD=np.array(p.get_section_CD(), float), Vi=np.array(p.get_Vi(), float),
            Vx=np.array(p.get_axial_Vi(), float), Vt=np.array(p.get_tangential_Vi(), float))
    return out


def local_state(state, name):
    if state and name in state:
        return state[name]
    return state


def advance(spec_prop, state, V):
    """(J, rps) of a propeller for an explicit state"""
    p = rp.full_prop(spec_prop)
    st = local_state(state, p["name"])
    if not st:
        J = .5
        return J, V/(p["d"]*J)
    if "J" in st:
        J = st["J"]
        if J == 0. or V == 0.:
            return J, st["rot_per_sec"]
        return J, V/(p["d"]*J)
    n = st["rot_per_sec"]
    return V/(n*p["d"]), n


def good_blade(B):
    return bool(np.isfinite(B.beta).all() and np.isfinite(B.dA).all() and (B.c > 0).all() and np.sin(B.beta[-1]) > 1e-3 and
                (np.abs(B.beta) < 1.5).all() and np.isfinite(B.astn).all() and (B.astn > .02).all())


def usable_blade(B, J):
    """the tabulated or built blade describes a propeller, not a degenerate object"""
    return good_blade(B)


def ref_props(s, a, state, data):
    """loads and slipstreams of all propellers by the reference, from the solved induced angles;
    returns list of dicts and the smallest distance from a branch point"""
    out = []
    for q in s["props"]:
        B = rp.Blade(q)
        J, n = advance(q, state, a["V_mag"])
        d = data[q["name"]]
        ei = d["ei"]
        L = B.loads(a, n, J, ei, s["cg"])
        L.update(B=B, J=J, rps=n, ei=ei, kink=float(B.kinks(L["alpha"]).min())*(L["ang"] < np.pi - 1e-4), res=float(np.abs(B.residual(J, ei)).max()))
        out.append(L)
    return out


def slipstreams(s, a, P, rc):
    ex = np.zeros_like(rc)
    margin, wet = 1., np.zeros(len(rc), bool)
    for L in P:
        Vi, Vx, Vt = L["B"].induced(L["rps"], L["J"], L["ei"])
        # the freestream speed (not its axial component) convects the streamtube
        v, inside, mg = L["B"].slipstream(rc, a["V_mag"], Vx, Vt)
        ex += v
        wet |= (np.abs(v).sum(1) > 0)
        if len(mg):
            margin = min(margin, float(mg.min()))
    return ex, margin, wet
