"""C21 files hold exactly what the call returns"""
import os, json
from ..calls import *
from .c10 import spec

ID = "C21"
RULE = ("every analysis with and without a file name on the same model; the file is parsed and compared number by number with the returned value; "
        "non-trivial: a file with at least four numbers was read back")

WING = ("control_points", "chord", "twist", "dihedral", "sweep", "area", "alpha", "forces_xyz", "section_CL", "section_Cm", "section_CD_parasitic",
        "section_alpha_L0", "section_CL_ref")
WHEAD = ("Name ControlPoint(x) ControlPoint(y) ControlPoint(z) Chord Twist(deg) Dihedral(deg) Sweep(deg) Area Alpha(deg) Force(x) Force(y) Force(z) "
         "SectionCL SectionCm SectionCDParasitic SectionAlpha_L0 SectionCL_ref").split()
PROP = ("radial_position", "chord", "pitch", "advance_angle", "induced_angle", "alpha", "section_CL", "section_CD", "Vi", "Vi_x", "Vi_t")
PHEAD = ("Name RadialPosition Chord Pitch(deg) AdvangeAngle(deg) InducedAngle(deg) Alpha(deg) SectionCL SectionCD InducedVelocity,Vi Vi(Axial) "
         "Vi(Tangential)").split()


def same_numbers(ctx, got, want, msg):
    """exact, numbers written as text included"""
    g, w = list(numbers(got)), list(numbers(want))
    ctx.check_that([k for k, _ in g] == [k for k, _ in w], "%s: entries %s instead of %s" % (msg, [k for k, _ in g][:30], [k for k, _ in w][:30]))
    for (k, x), (_, y) in zip(g, w):
        ctx.check_that(x == y or (x != x and y != y), "%s: %s is %r instead of %r" % (msg, k, x, y))
    ctx.check_that(texts(got) == texts(want), "%s: texts %r instead of %r" % (msg, texts(got), texts(want)))
    ctx.count("numbers read", len(g))
    return len(g)


def blocks(ctx, text):
    """tables of a distributions file: {title: (columns, rows)}"""
    out, title, cols, rows = {}, None, None, None
    for line in text.split("\n"):
        if line.startswith("#"):
            t = line[1:].strip()
            if not t:
                continue
            if t.endswith("Distributions"):
                ctx.check_that(t not in out, "table %s occurs twice" % t)
                title, cols = t, None
            else:
                cols = t.split()
                rows = []
                ctx.check_that(title is not None and title not in out, "column names without title")
                out[title] = (cols, rows)
        elif line.strip():
            ctx.check_that(rows is not None, "data before the header: %r" % line[:60])
            rows.append(line)
    return out


def table(ctx, out, title, head, d, keys, radians=()):
    ctx.check_that(title in out, "no table %s" % title)
    cols, rows = out[title]
    ctx.check_that(cols == head, "%s: columns %s" % (title, cols))
    n = len(d["name"])
    ctx.check_that(len(rows) == n, "%s: %d rows instead of %d" % (title, len(rows), n))
    want = []
    for k in keys:
        v = np.asarray(d[k], float)
        v = np.degrees(v) if k in radians else v
        want.append(v if v.ndim == 2 else v[:, None])
    want = np.concatenate(want, 1)
    for i, row in enumerate(rows):
        f = row.split()
        x = np.array([float(t) for t in f[-want.shape[1]:]])
        name = row[:18].strip()
        ctx.check_that(name == str(d["name"][i])[:18].strip(), "%s: row %d is named %r instead of %r" % (title, i, name, d["name"][i]))
        ok = (np.abs(x - want[i]) <= 1e-12*np.abs(want[i])) | (x == want[i])
        ctx.check_that(ok.all(), "%s: row %d: %s is %r instead of %r" % (
            title, i, head[1:][int(np.argmin(ok))], float(x[np.argmin(ok)]), float(want[i][np.argmin(ok)])))
        ctx.evals += len(x)
    ctx.count("numbers read", want.size)
    return want.size


def light(ctx):
    files(ctx, False)


def files(ctx, heavy=True):
    r = ctx.r
    s = spec(r)
    m = mu(s)
    f = file_path(ctx, "json")
    t = file_path(ctx, "txt")
    total = 0
    for i in range(int(r.integers(2, 6))):
        n, args, kw = call(r, s, heavy=heavy, files=0., invalid=0.)
        if n in ("create_stl", "stability_derivatives", "damping_derivatives", "control_derivatives"):
            n, args, kw = gen.pick(r, "solve", "derivatives", "distributions"), [], {}
            if not s["wings"] and n == "derivatives":
                n = "solve"
        path = t if n == "distributions" and r.random() < .7 else f
        ctx.note(spec=s, call=[n, args, kw, path[-4:]])
        with quiet():
            plain = run_call(m, n, args, dict(kw), "a")
            if plain[0] != "ok":
                continue
            if r.random() < .4:         # an older file is replaced, not extended
                with open(path, "w") as o:
                    o.write("{\"older\": 1}\n"*int(r.integers(1, 4000)))
            elif r.random() < .3 and os.path.exists(path):
                os.remove(path)
            with budget(4_000_000):
                got = getattr(m, n)(*copy.deepcopy(args), filename=path, **copy.deepcopy(kw))
        agree(ctx, ("ok", got, None), ("ok", plain[1], None), "%s with a file name" % n, 1e-9)
        ctx.check_that(os.path.exists(path), "%s: no file" % n)
        body = open(path).read()
        if path == f:
            try:
                d = json.loads(body)
            except ValueError as e:
                raise Violation("%s: the file is not JSON: %s" % (n, e))
        if n == "solve":
            ctx.check_that(set(d) == {"wing_results", "prop_results", "total_results"}, "solve: entries %s" % sorted(d))
            total += same_numbers(ctx, d["total_results"], got, "solve: total_results")
            parts(ctx, s, d)
        elif n == "find_aero_center":
            total += same_numbers(ctx, {"x": d["x_ac"], "z": d["z_ac"]}, {"x": float(got[0]), "z": float(got[2])}, n)
            ctx.check_that(set(d) == {"x_ac", "z_ac"}, "%s: entries %s" % (n, sorted(d)))
        elif n == "distributions":
            if path == f:
                ctx.check_that(set(d) == {"data"}, "distributions: entries %s" % sorted(d))
                body = d["data"].replace("newline", "\n")
            out = blocks(ctx, body)
            w, p = got
            ctx.check_that(set(out) == set((["WingDistributions"] if s["wings"] else []) + (["PropellerDistributions"] if s["props"] else [])),
                           "distributions: tables %s" % sorted(out))
            if s["wings"]:
                total += table(ctx, out, "WingDistributions", WHEAD, w, WING, ("alpha",))
            if s["props"]:
                total += table(ctx, out, "PropellerDistributions", PHEAD, p, PROP)
        else:
            total += same_numbers(ctx, d, got, n)
        ctx.count("files")
        ctx.count(n)
    for x in (f, t):
        if os.path.exists(x):
            os.remove(x)
    ctx.nontrivial = total >= 4


def parts(ctx, s, d):
    """the parts of the saved solution add up to its total"""
    w, p, t = d["wing_results"], d["prop_results"], d["total_results"]
    ctx.check_that(bool(w) == bool(s["wings"]) and bool(p) == bool(s["props"]), "solve: parts in the file")
    for k in FM:
        v = [x["total"][k] for x in (w, p) if x]
        ctx.close(t[k], sum(v), 1e-12*sum(map(abs, v)), "solve file: total %s" % k)
        if w:
            u = [w["inviscid"][k], w["viscous"][k]]
            ctx.close(w["total"][k], sum(u), 1e-9*sum(map(abs, u)), "solve file: wing total %s" % k)
    for name, x in (("wing", w.get("total", {})), ("total", t)):
        # ratios are those of the numbers beside them
        if "L/D" in x and abs(x["FD"]) > 1e-9*abs(x["FL"]):
            ctx.close(x["L/D"]*x["FD"], x["FL"], 1e-9*abs(x["FL"]), "solve file: lift to drag ratio of the %s" % name)
            ctx.count("ratios")


SCENARIOS = {"files": (files, 90, 1100), "light": (light, 400, 8000)}
