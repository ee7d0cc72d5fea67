"""C25 the blade is the one described"""
import json, os
from ..calls import *
from ..build import jsondict, table_file

ID = "C25"
RULE = ("random propeller descriptions (every pitch and chord type, tables in several layouts, 0-5 airfoils in any order, both interfaces); getters "
        "compared with an independent construction of the blade, section polars over all angles with the documented polar; non-trivial: a table, "
        "several airfoils or a pitch increment")


def layouts(r, q):
    """write the tables of a propeller as files of different layout"""
    for k in ("pitch", "chord"):
        tab = (q.get(k) or {}).get("table")
        if tab is None or r.random() < .4:
            continue
        rows = [list(x) for x in tab]
        if r.random() < .5:
            rows = [rows[i] for i in r.permutation(len(rows))]
        more = r.random() < .3
        fmt = gen.pick(r, "%r %r", "%r\t%r", "  %.17g   %.17e")
        lines = [fmt % (a, b) + (" 7.5" if more else "") for a, b in rows]
        if r.random() < .5:
            lines.insert(int(r.integers(0, len(lines))), "# comment")
        if r.random() < .3:
            lines.append("")
        f = os.path.join(scratch(), "b_%d_%d.txt" % (os.getpid(), int(r.integers(1 << 30))))
        with open(f, "w") as o:
            o.write("\n".join(lines) + gen.pick(r, "", "\n"))
        yield k, f


def make(ctx):
    r = ctx.r
    for _ in range(10):
        s = prop_only(r, int(gen.pick(r, 1, 1, 2, 3)), motor=gen.pick(r, False, True))
        for q in s["props"]:
            if r.random() < .06:
                q["nodes"] = int(r.integers(2, 5))
        if all(np.isfinite(rp.Blade(q).beta).all() for q in s["props"]):
            break
    else:
        raise Skip()
    ctx.note(spec=s)
    use_file = json_ok(s) and r.random() < .4
    infos = {}
    for q in s["props"]:
        infos[q["name"]] = dict(layouts(r, q))
    with quiet(), budget():
        if use_file:
            d = jsondict(s)
            for n, i in infos.items():
                for k, f in i.items():
                    d["propellers"][n][k]["filename"] = f
            f = file_path(ctx)
            with open(f, "w") as o:
                json.dump(d, o)
            m = MU.MachUp(f)
            os.remove(f)
        else:
            b = copy.deepcopy(s)
            for q in b["props"]:
                for k, f in infos[q["name"]].items():
                    del q[k]["table"]
                    q[k]["filename"] = f
            m = MU.MachUp(inputAirplane=plane(b))
    for i in infos.values():
        for f in i.values():
            os.remove(f)
    ctx.count("tables in other layouts", sum(len(i) for i in infos.values()))
    return s, m


def compare(ctx, s, m):
    got = {p.get_name(): p for p in m.myprops.get_prop_models()}
    ctx.check_that([p.get_name() for p in m.myprops.get_prop_models()] == [q["name"] for q in s["props"]], "names or order of the propellers")
    for q in s["props"]:
        B, p = rp.Blade(q), got[q["name"]]
        f = B.p
        ctx.check_that(int(p.get_num_nodes()) == f["nodes"], "nodes")
        ctx.check_that(p.get_num_blades() == f["k"], "number of blades")
        ctx.check_that(float(p.get_rotation_direction()) == B.rot, "rotation direction %r" % (f["rot"],))
        ctx.close(p.get_position(), B.pos, 0., "position")
        ctx.close(p.get_orientation(), np.radians(f["orient"]), 1e-14, "orientation")
        ctx.close(p.get_radial_position(), B.r, 1e-14*B.d, "radial positions")
        ctx.close(p.get_chord(), B.c, 1e-11*np.abs(B.c).max(), "chord")
        ctx.close(p.get_zero_lift_alpha(), B.aL0, 1e-13, "zero lift angle")
        # pitch angles are equivalent modulo half a turn of the pitch line
        ctx.close(p.get_aero_pitch_angle(), B.beta, 1e-11, "aerodynamic pitch angle")
        ctx.count("sections", B.n)
        ctx.count("pitch " + f["pitch"]["type"])
        ctx.count("chord " + f["chord"]["type"])
        ctx.count("airfoils %d" % len(f["airfoils"]))


def blade(ctx):
    s, m = make(ctx)
    for q in s["props"]:
        B = rp.Blade(q)
        if not (np.abs(B.beta) < 1.55).all():
            raise Skip("pitch beyond a quarter turn")
    compare(ctx, s, m)
    # and still after operation
    a = gen.aero(ctx.r, rates=0)
    with quiet(), budget():
        try:
            m.solve(a, None, {"J": gen.U(ctx.r, .1, 1.)})
        except Exception:
            pass
    compare(ctx, s, m)
    ctx.nontrivial = any("table" in (q.get(k) or {}) or len(q.get("airfoils", [])) > 1 or (q.get("pitch") or {}).get("pitch_increment")
                         for q in s["props"] for k in ("pitch", "chord"))


def polar(ctx):
    """section lift, lift slope and drag for every angle of attack"""
    r = ctx.r
    s, m = make(ctx)
    q = s["props"][0]
    B = rp.Blade(q)
    if not good_blade(B):
        raise Skip()
    pm = m.myprops.get_prop_models()[0]
    n = 0
    for k in range(8):
        al = gen.pick(r, r.uniform(-1.5, 1.5, B.n), r.uniform(-.3, .4, B.n), np.full(B.n, gen.U(r, -.5, .5)), np.linspace(-1.2, 1.4, B.n))
        with quiet():
            CL, sl, CD = [np.array(x, float) for x in pm.get_coefficients_alpha(np.array(al))]
        ok = (B.kinks(al) > 1e-9) & (np.abs(np.abs(al) - B.dA) > 1e-3)
        w = B.CL(al)
        sc = 1 + np.abs(w)
        ctx.close(CL[ok], w[ok], 1e-11*sc[ok], "section lift")
        ctx.close(CD[ok], B.CD(al, w)[ok], 1e-11*(1 + np.abs(B.CD(al, w)[ok])), "section drag")
        ok &= (B.kinks(al) > 3e-3)
        h = 1e-5
        dw = (B.CL(al + h) - B.CL(al - h))/(2*h)
        curv = np.abs(B.CL(al + 2e-3) - 2*B.CL(al + 1e-3) + 2*B.CL(al - 1e-3) - B.CL(al - 2e-3))/1e-3
        ctx.close(sl[ok], dw[ok], 1e-4*sc[ok] + 2*curv[ok], "section lift slope")
        # attached flow: the lift curve of the airfoil
        att = (np.abs(al) < .03) & (np.abs(al) < B.dA)
        ctx.close(CL[att], (B.CLa*al)[att], 1e-12, "attached lift")
        n += ok.sum()
    ctx.count("angles", n)
    ctx.nontrivial = n > 0


SCENARIOS = {"blade": (blade, 6000, 30000), "polar": (polar, 2400, 12000)}
