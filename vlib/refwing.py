"""Independent reference model of the lifting surfaces.

Written from the documentation, Phillips' text and the input description only:
it consumes the *specification* of an airplane (see gen.py), never an object of
the code under test.
"""
import numpy as np

WING_DEFAULTS = dict(side="both", connect=None, pos=[0., 0., 0.], yoffset=0., span=4.,
                     sweep=0., dihedral=0., mount=0., washout=0., root_chord=1.,
                     tip_chord=None, grid=40, is_main=1, airfoils=None, control=None)
AF_DEFAULT = dict(name="NACA2412", alpha_L0=-0.0369, CL_alpha=6.2832, CL_max=1.4,
                  Cm_L0=-0.0527, Cm_alpha=-0.08, CD0=0.0055, CD0_L=-0.0045, CD0_L2=0.01)


def full_wing(w):
    d = dict(WING_DEFAULTS)
    d.update(w)
    if d["tip_chord"] is None:
        d["tip_chord"] = d["root_chord"]
    af = d["airfoils"] or {}
    d["root_af"] = af.get("root") or af.get("both") or AF_DEFAULT
    d["tip_af"] = af.get("tip") or af.get("both") or AF_DEFAULT
    return d


def root_tip(spec, w, side):
    """Position of the root and the tip of one half of a wing."""
    sg = 1. if side == "right" else -1.
    par = np.zeros(3)
    if w["connect"]:
        pw = [full_wing(x) for x in spec["wings"] if x["name"] == w["connect"]][0]
        par = root_tip(spec, pw, side)[1]
    elif spec.get("position") is not None:
        par = np.array(spec["position"], dtype=float)
    root = par + np.array(w["pos"], dtype=float) + np.array([0., sg*w["yoffset"], 0.])
    L, G = np.radians(w["sweep"]), np.radians(w["dihedral"])
    b = w["span"]
    return root, root + np.array([-b*np.tan(L), sg*b*np.cos(G), -b*np.sin(G)])


class Sections:
    pass


def _flap(cf, sealed):
    th = np.arccos(2.*cf - 1.)
    eps = 1. - (th - np.sin(th))/np.pi
    eta = 3.9598*np.arctan((cf + 0.006527)*89.2574 + 4.898015) - 5.18786
    if not sealed:
        eta = 0.8*eta
    return eta*eps, (np.sin(2*th) - 2*np.sin(th))/4.


def sections(spec, cosine=True):
    out = {k: [] for k in ("name side f s rc r1 r2 c dS dih swp mount wash ua un us CLa aL0 Cma CmL0 CD0 CD1 CD2 "
                           "CLmax CLaL CLaR aL0L aL0R eff cmd ma me mr mf intc2 seg raf taf").split()}
    Sw = 0.
    iseg = 0
    for wd in spec["wings"]:
        w = full_wing(wd)
        sides = ["left", "right"] if w["side"] == "both" else [w["side"]]
        for side in sides:
            sg = 1. if side == "right" else -1.
            root, tip = root_tip(spec, w, side)
            N = w["grid"]
            i = np.arange(1, N + 1)
            if cosine:
                scp = 0.5*(1 - np.cos(np.pi*(i - 0.5)/N))
                sc = 0.5*(1 - np.cos(np.pi*np.arange(N + 1)/N))
            else:
                scp = (i - 0.5)/N
                sc = np.arange(N + 1)/N
            fcp = scp if sg > 0 else 1 - scp
            fc = sc if sg > 0 else 1 - sc
            P = lambda f: root + f[:, None]*(tip - root)
            ch = lambda f: w["root_chord"] + f*(w["tip_chord"] - w["root_chord"])
            r1, r2 = P(fc[:-1]), P(fc[1:])
            c1, c2 = ch(fc[:-1]), ch(fc[1:])
            length = np.sqrt(((tip - root)**2).sum())
            dl = np.abs(fc[1:] - fc[:-1])*length
            dS = dl*np.cos(np.radians(w["sweep"]))*(c1 + c2)/2
            if w["is_main"]:
                Sw += dS.sum()
            tw = np.radians(w["mount"] - fcp*w["washout"])
            G = np.radians(w["dihedral"])
            # start from a flat untwisted section (axial -x, normal -z), pitch it nose up by the
            # twist and roll it by the dihedral
            ct, st, cG, sG = np.cos(tw), np.sin(tw), np.cos(G), np.sin(G)
            o = np.ones(N)
            ua = np.stack([-ct, sg*sG*st, cG*st], 1)
            un = np.stack([-st, -sg*sG*ct, -cG*ct], 1)
            us = np.cross(ua, un)     # Phillips: axial x normal; a nose-up moment is -cm along it
            A, B = w["root_af"], w["tip_af"]
            lin = lambda k: A[k] + fcp*(B[k] - A[k])
            z = np.zeros(N)
            eff, cmd = z.copy(), z.copy()
            m = {k: z.copy() for k in ("aileron", "elevator", "rudder", "flap")}
            cs = w["control"]
            if cs:
                a, b = cs["span"]
                ca, cb = cs["chord"] if not np.isscalar(cs["chord"]) else (cs["chord"],)*2
                inside = (fcp - a > 1e-10) & (b - fcp > 1e-10)     # a point at the edge is not covered
                cf = ca + (fcp - a)*(cb - ca)/(b - a)
                e, cm = _flap(np.where(inside, cf, 0.2), cs.get("sealed", 1))
                eff, cmd = np.where(inside, e, 0), np.where(inside, cm, 0)
                for k in m:
                    v = cs["mix"].get(k, 0.)
                    if side == "left" and k in ("aileron", "rudder"):
                        v = -v
                    m[k] = np.where(inside, v, 0.)
            L, R = (A, B) if sg > 0 else (B, A)
            vals = dict(name=[side + "_" + w["name"]]*N, side=[side]*N, f=fcp, s=scp, rc=P(fcp), r1=r1, r2=r2, c=ch(fcp), dS=dS,
                        dih=o*w["dihedral"], swp=o*w["sweep"], mount=o*w["mount"], wash=fcp*w["washout"], ua=ua, un=un, us=us,
                        CLa=lin("CL_alpha"), aL0=lin("alpha_L0"), Cma=lin("Cm_alpha"), CmL0=lin("Cm_L0"), CD0=lin("CD0"),
                        CD1=lin("CD0_L"), CD2=lin("CD0_L2"), CLmax=lin("CL_max"), CLaL=o*L["CL_alpha"], CLaR=o*R["CL_alpha"],
                        aL0L=o*L["alpha_L0"], aL0R=o*R["alpha_L0"], eff=eff, cmd=cmd, ma=m["aileron"], me=m["elevator"],
                        mr=m["rudder"], mf=m["flap"], intc2=None, seg=[iseg]*N, raf=[A]*N, taf=[B]*N)
            vals["intc2"] = np.abs(((r2 - r1)*us).sum(1))*(c1*c1 + c1*c2 + c2*c2)/3
            for k in out:
                out[k].extend(list(vals[k]))
            iseg += 1
    S = Sections()
    for k, v in out.items():
        setattr(S, k, v if k in ("name", "side", "raf", "taf") else np.array(v))
    S.Sw = Sw
    S.nseg = iseg
    S.N = len(out["name"])
    return S


def freestream(aero):
    """Unit freestream velocity: alpha and beta as angles of the body axes."""
    a, b = np.radians(aero.get("alpha", 0.)), np.radians(aero.get("beta", 0.))
    d = np.array([-np.cos(a)*np.cos(b), -np.cos(a)*np.sin(b), -np.sin(a)*np.cos(b)])
    return d/np.sqrt((d*d).sum())


def wind_axes(F, u):
    """Drag along the wind, lift normal to the wind in the plane of symmetry direction, side the rest."""
    L = np.cross(u, [0., 1., 0.])
    L = L/np.sqrt((L*L).sum())
    S = np.cross(L, u)
    S = S/np.sqrt((S*S).sum())
    return F@L, F@u, F@S


def airloads(S, spec, v, rho, u, controls):
    """Numerical lifting line for onset velocities v (N,3), densities rho (N), wake direction u.

    returns dict with totals, sections and a 'sing' measure (small: nearly singular configuration)"""
    controls = controls or {}
    delta = np.radians(controls.get("aileron", 0.)*S.ma + controls.get("elevator", 0.)*S.me +
                       controls.get("rudder", 0.)*S.mr + controls.get("flap", 0.)*S.mf)
    dd = np.abs(np.degrees(delta))
    deff = np.where(dd > 11., -8.71794871794872e-3*dd + 1.09589743589744, 1.)
    dal = S.eff*deff*delta
    N = S.N
    dl = S.r2 - S.r1
    V = np.sqrt((v*v).sum(1))
    # velocity induced at i by the horseshoe j
    a = S.rc[:, None, :] - S.r1[None]
    b = S.rc[:, None, :] - S.r2[None]
    na, nb = np.sqrt((a*a).sum(2)), np.sqrt((b*b).sum(2))
    da, db = na*(na - a@u), nb*(nb - b@u)
    dot = (a*b).sum(2)
    dbound = na*nb*(na*nb + dot)
    off = ~np.eye(N, dtype=bool)
    sing = min((da/na**2).min(), (db/nb**2).min())
    if N > 1:
        sing = min(sing, (dbound/(na*nb)**2)[off].min())
    with np.errstate(all="ignore"):
        w = np.cross(u, b)/db[..., None] - np.cross(u, a)/da[..., None]
        wb = np.cross(a, b)*((na + nb)/dbound)[..., None]
    wb[~off] = 0.
    w = (w + wb)/(4*np.pi)
    un, ua = S.un, S.ua
    al = np.arctan((v*un).sum(1)/(v*ua).sum(1))
    cl = S.CLaL*(al + dal - S.aL0L)*(1 - S.s) + S.CLaR*(al + dal - S.aL0R)*S.s
    M = -(V*S.dS*S.CLa)[:, None]*np.einsum('ik,ijk->ij', un, w)
    M[np.diag_indices(N)] += 2*np.sqrt((np.cross(v, dl)**2).sum(1))
    rhs = V*V*S.dS*cl
    R = {}
    try:
        gam = np.linalg.solve(M, rhs)
        R["cond"] = np.linalg.cond(M)
    except np.linalg.LinAlgError:
        gam = np.full(N, np.nan)
        R["cond"] = np.inf
    vi = v + np.einsum('j,ijk->ik', gam, w)
    alpha = np.arctan2((vi*un).sum(1), (vi*ua).sum(1))
    F = (rho*gam)[:, None]*np.cross(vi, dl)
    clp = S.CLaL*(alpha - S.aL0L)*(1 - S.s) + S.CLaR*(alpha - S.aL0R)*S.s
    pol = S.CD0 + S.CD1*clp + S.CD2*clp*clp
    cd = pol + 0.002*dd
    q = 0.5*rho*V*V
    vim = np.sqrt((vi*vi).sum(1))
    D = (q*cd*S.dS/vim)[:, None]*vi
    cm = np.zeros(N)
    for i in range(N):
        # section moment of the root and the tip airfoil blended linearly over the span
        A, B, f = S.raf[i], S.taf[i], S.f[i]
        cm[i] = (A["Cm_L0"] + A["Cm_alpha"]*(alpha[i] - A["alpha_L0"]))*(1 - f) + \
                (B["Cm_L0"] + B["Cm_alpha"]*(alpha[i] - B["alpha_L0"]))*f + delta[i]*S.cmd[i]
    arm = S.rc - np.array(spec["cg"], dtype=float)
    Mi = np.cross(arm, F) - (q*cm*S.intc2)[:, None]*S.us
    Mv = np.cross(arm, D)

    def pack(f, m):
        L_, D_, S_ = wind_axes(f, u)
        return dict(FL=L_, FD=D_, FS=S_, FX=f[0], FY=f[1], FZ=f[2], MX=m[0], MY=m[1], MZ=m[2])
    R["inviscid"] = pack(F.sum(0), Mi.sum(0))
    R["viscous"] = pack(D.sum(0), Mv.sum(0))
    R["total"] = {k: R["inviscid"][k] + R["viscous"][k] for k in R["inviscid"]}
    R.update(gamma=gam, alpha=alpha, forces=F, cl=clp, cd=cd, cm=cm, sing=sing, delta=delta, vi=vi)
    # magnitude of the terms that were summed, for tolerances
    R["fscale"] = np.abs(F).sum() + np.abs(D).sum() + 1e-300
    R["mscale"] = np.abs(np.cross(arm, F)).sum() + np.abs(Mv).sum() + np.abs(q*cm*S.intc2).sum() + \
        R["fscale"]*1e-3*np.sqrt((arm*arm).sum(1)).max() + 1e-300
    R["q"] = q
    return R


def onset(S, spec, aero, extra=None):
    """Onset velocity and density of every section for an aero state (extra: slipstream velocities)."""
    u = freestream(aero)
    v = np.tile(aero["V_mag"]*u, (S.N, 1))
    rho = np.full(S.N, float(aero["rho"]))
    if extra is not None:
        v = v + extra
    om = np.array([aero.get("roll_rate", 0.), aero.get("pitch_rate", 0.), aero.get("yaw_rate", 0.)], dtype=float)
    v = v - np.cross(om, S.rc - np.array(spec["cg"], dtype=float))
    return v, rho, u


def solve(spec, aero, controls, cosine=True, extra=None, S=None):
    S = S or sections(spec, cosine)
    v, rho, u = onset(S, spec, aero, extra)
    return S, airloads(S, spec, v, rho, u, controls)


def reference_lengths(spec, Sw):
    lat, lon = spec.get("lat_ref"), spec.get("long_ref")
    if lat is None and lon is None:
        lat = max(2*full_wing(w)["span"] for w in spec["wings"])
        lon = Sw/lat
    elif lon is None:
        lon = Sw/lat
    elif lat is None:
        lat = Sw/lon
    return lat, lon
