"""C15 slipstreams seen by the wings"""
from ..common import *
from ..transform import full_case, immerse, smooth, scales, close_fm

ID = "C15"
RULE = ("random airplanes with propellers in front of, behind and beside their wings; non-trivial: at least one control point is immersed in a slipstream")


def field(ctx):
    """velocity field handed to the wings at arbitrary points"""
    r = ctx.r
    for _ in range(6):
        s = gen.plane(r, nprops=int(gen.pick(r, 1, 2, 3)), wings=0)
        if all(good_blade(rp.Blade(q)) for q in s["props"]):
            break
    else:
        raise Skip()
    a = gen.aero(r, rates=0)
    st = gen.prop_state(r, s, a, ("J", "rps", "default"))
    B = [rp.Blade(q) for q in s["props"]]
    pts = []
    for b in B:
        R = b.d/2
        e1 = np.cross(b.fwd, [0., 0., 1.])
        e1 /= np.linalg.norm(e1)
        e2 = np.cross(b.fwd, e1)
        for _ in range(40):
            x = gen.pick(r, gen.U(r, .01, 1.), gen.U(r, 0, 12), gen.U(r, -1.5, 0))*R
            rad = gen.pick(r, gen.U(r, 0, 1.), gen.U(r, 0, 1.3), gen.U(r, 0, .1))*R
            ph = gen.U(r, 0, 2*np.pi)
            pts.append(b.pos - x*b.fwd + rad*(np.cos(ph)*e1 + np.sin(ph)*e2))
    pts = np.array(pts)
    ctx.note(spec=s, aero=a, prop_state=st)
    m = mu(s)
    ps = PropsSolver(m.myairplane, pts.copy())
    with budget():
        _, v = ps.solve(a, st)
        m.solve(a, None, st)
    data = prop_data(m)
    P = ref_props(s, a, st, data)
    u = rw.freestream(a)
    want = np.tile(a["V_mag"]*u, (len(pts), 1))
    ok = np.ones(len(pts), bool)
    sw = np.zeros(len(pts))
    for L in P:
        Vi, Vx, Vt = L["B"].induced(L["rps"], L["J"], L["ei"])
        for i in range(len(pts)):
            w, ins, mg = L["B"].slipstream(pts[i:i + 1], a["V_mag"], Vx, Vt)
            ok[i] &= mg[0] > 1e-6
            want[i] += w[0]
            sw[i] += np.abs(w[0]).sum()
    ctx.check_that(v.shape == (len(pts), 4), "shape of the velocity field")
    ctx.close(v[:, 0], np.full(len(pts), a["rho"]), 1e-15*a["rho"], "density")
    sc = a["V_mag"] + sum(2*np.pi*L["rps"]*L["B"].r[-1] for L in P)
    ctx.close(v[ok][:, 1:], want[ok], 1e-8*sc, "velocity at the wing points")
    # every point outside of all streamtubes feels the freestream exactly
    dry = ok & (sw == 0)
    ctx.close(v[dry][:, 1:], np.tile(a["V_mag"]*u, (dry.sum(), 1)), 1e-14*a["V_mag"], "freestream outside of the slipstreams")
    ctx.count("points", ok.sum())
    ctx.count("immersed points", (ok & (sw > 0)).sum())
    ctx.nontrivial = (ok & (sw > 0)).any()


def wings(ctx):
    """loads and distributions of the wings in the slipstream"""
    r = ctx.r
    s, a, c, st, m, S, R, P = full_case(ctx, nprops=int(gen.pick(r, 1, 2)), wings=int(gen.pick(r, 1, 2, 2)), needwet=True)
    with budget():
        t = m.solve(a, c, st)
        wd, pd = m.distributions(a, c, st)
    rel = relerr(R)
    fs, ms = scales(R, P)
    pf, pm = sum(L["F"] for L in P), sum(L["M"] for L in P)
    for i, k in enumerate(("FX", "FY", "FZ")):
        ctx.close(t[k], R["total"][k] + pf[i], 10*rel*fs + 1e-7*sum(L["fscale"] for L in P), "airplane with slipstreams: " + k)
    for i, k in enumerate(("MX", "MY", "MZ")):
        ctx.close(t[k], R["total"][k] + pm[i], 10*rel*ms + 1e-7*sum(L["mscale"] for L in P), "airplane with slipstreams: " + k)
    al = np.asarray(wd["alpha"], float)
    ctx.close(np.angle(np.exp(1j*(al - R["alpha"]))), np.zeros(S.N), 1e-7*max(1, R["cond"]/1e4), "section angle of attack in the slipstream")
    F = np.asarray(wd["forces_xyz"], float)
    ctx.close(F, R["forces"], 10*rel*R["fscale"], "section forces in the slipstream")
    ctx.count("immersed sections", R["wet"])
    ctx.count("dry sections", S.N - R["wet"])
    ctx.nontrivial = R["wet"] > 0


def apart(ctx):
    """a wing outside of every slipstream is unaffected: total is the sum of wing and propellers alone"""
    r = ctx.r
    for _ in range(6):
        s = gen.plane(r, nprops=int(gen.pick(r, 1, 2)), wings=int(gen.pick(r, 1, 2)), maxgrid=12)
        if all(good_blade(rp.Blade(q)) for q in s["props"]):
            break
    else:
        raise Skip()
    S = rw.sections(s)
    mode = gen.pick(r, "behind", "beside")
    for q in s["props"]:
        B = rp.Blade(q)
        if mode == "behind":
            # move the propeller backwards along its axis until every control point is in front of it
            sx = -((S.rc - B.pos)@B.fwd).max()
            sx = (S.rc - B.pos)@B.fwd
            q["pos"] = [float(x) for x in B.pos + (sx.min() - gen.U(r, .01, 1.)*B.d)*B.fwd]
        else:
            side = np.cross(B.fwd, [0., 0., 1.])
            side /= np.linalg.norm(side)
            y = (S.rc - B.pos)@side
            q["pos"] = [float(x) for x in B.pos + (y.min() - gen.U(r, .51, 1.5)*B.d)*side]
    a, c = gen.aero(r, s=s), gen.controls(r)
    st = gen.prop_state(r, s, a)
    S, R = rw.solve(s, a, c)
    ctx.note(spec=s, aero=a, controls=c, prop_state=st)
    if not usable(R):
        raise Skip()
    dry = dict(s, props=[])
    wet = dict(s, wings=[])
    with budget():
        m = mu(s)
        t = m.solve(a, c, st)
        d1 = m.distributions(a, c, st)[0]
        md = mu(dry)
        t1 = md.solve(a, c)
        d2 = md.distributions(a, c)[0]
        t2 = mu(wet).solve(a, None, st)
    P = ref_props(s, a, st, prop_data(m))
    fs, ms = scales(R, P)
    if not np.isfinite(fs + ms):
        raise Skip()
    for k in FM:
        ctx.close(t[k], t1[k] + t2[k], 1e-9*(fs if k[0] == "F" else ms), "wing outside of the slipstreams: " + k)
    ctx.close(d1["section_CL"], d2["section_CL"], 1e-9*(1 + np.abs(d2["section_CL"])), "sections outside of the slipstreams")
    ctx.count("propellers " + mode, len(P))
    ctx.nontrivial = True


def superpose(ctx):
    """the slipstreams of several propellers add up"""
    r = ctx.r
    for _ in range(6):
        s = gen.plane(r, nprops=int(gen.pick(r, 2, 3)), wings=0)
        if all(good_blade(rp.Blade(q)) for q in s["props"]):
            break
    else:
        raise Skip()
    # all propellers blow at the same region
    B0 = rp.Blade(s["props"][0])
    for q in s["props"][1:]:
        q["pos"] = [float(x) for x in B0.pos + r.normal(size=3)*.2*B0.d]
        q["orient"] = s["props"][0].get("orient", [0., 0.])
    a = gen.aero(r, rates=0)
    st = gen.prop_state(r, s, a, ("J", "rps", "default", "static"))
    pts = B0.pos - r.uniform(.3, 5, (60, 1))*B0.d*B0.fwd + r.normal(size=(60, 3))*.3*B0.d
    ctx.note(spec=s, aero=a, prop_state=st)
    fld = lambda sp, stt: PropsSolver(mu(sp).myairplane, pts.copy()).solve(a, stt)[1][:, 1:] - a["V_mag"]*rw.freestream(a)
    with budget():
        al = fld(s, st)
        parts = [fld(dict(s, props=[q]), local_state(st, q["name"])) for q in s["props"]]
    if not np.isfinite(al).all():
        raise Skip("folded streamtube")
    sc = a["V_mag"] + np.abs(al).max()
    ctx.close(al, sum(parts), 1e-10*sc, "sum of slipstreams")
    both = (np.abs(np.array(parts)).sum(2) > 0).sum(0) > 1
    ctx.count("points in several slipstreams", both.sum())
    ctx.nontrivial = both.any()


SCENARIOS = {"field": (field, 800, 4000), "wings": (wings, 1000, 5000), "apart": (apart, 600, 3000), "superpose": (superpose, 480, 2500)}
