"""C27 models are independent of each other"""
import pickle, struct, threading
from ..calls import *
from .. import build
from .c10 import spec as any_spec

ID = "C27"
RULE = ("2-4 models of random airplanes (or of one airplane) built and called in random interleavings, or from one thread each with a switch interval "
        "of a microsecond and forced switches at function entries of the code under test; each history is compared with the same history executed alone "
        "in its own process; non-trivial: calls of at least two models alternate")


# ------------------------------------------------------------------ isolated executions
# A server process is forked before the first case of this worker; it forks one process per request, so that nothing that any
# other model left behind in the interpreter can be seen by the isolated history.
_zygote = None


def _read(fd):
    n = b""
    while len(n) < 8:
        x = os.read(fd, 8 - len(n))
        if not x:
            return None
        n += x
    n = struct.unpack("<q", n)[0]
    out = []
    while n > 0:
        x = os.read(fd, min(n, 1 << 20))
        if not x:
            return None
        out.append(x)
        n -= len(x)
    return pickle.loads(b"".join(out))


def _write(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _serve(rd, wr):
    import signal
    signal.alarm(0)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    while True:
        req = _read(rd)
        if req is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            signal.alarm(140)
            try:
                with quiet():
                    res = ("ok", [history(h, "z%d_%d" % (os.getpid(), i)) for i, h in enumerate(req)])
            except BaseException as e:
                res = ("died", repr(e))
            try:
                _write(wr, res)
            finally:
                os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            _write(wr, ("died", "status %d" % st))


def alone(*histories):
    """outcomes of each history executed in a process of its own"""
    global _zygote
    if _zygote is None or _zygote[2] != os.getpid():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if os.fork() == 0:
            os.close(w1)
            os.close(r2)
            _serve(r1, w2)
        os.close(r1)
        os.close(w2)
        _zygote = (w1, r2, os.getpid())
    out = []
    for h in histories:
        _write(_zygote[0], [h])
        res = _read(_zygote[1])
        if res is None or res[0] != "ok":
            raise Skip("isolated history: %s" % (res,))
        out.append(res[1][0])
    return out


def history(h, tag):
    """h = (spec, calls); everything from building to the last call"""
    s, calls = h
    m = mu(s)
    return [outcome(m, cl, "%s_%d" % (tag, i)) for i, cl in enumerate(calls)]


def outcome(m, cl, tag):
    with budget(4_000_000):
        return bare(m, cl, tag)


def bare(m, cl, tag):
    n, args, kw = cl
    args, kw = copy.deepcopy(args), copy.deepcopy(kw)
    f = None
    if "filename" in kw:
        f = kw["filename"] = os.path.join(scratch(), "t_%d_%s_%s" % (os.getpid(), tag, kw["filename"]))
    try:
        res = getattr(m, n)(*args, **kw)
    except Exception as e:
        return ("error", type(e).__name__ if type(e) is RuntimeError else "exception", None)
    body = None
    if f is not None and os.path.exists(f):
        body = open(f, "rb").read()
        if n == "create_stl":
            body = body[80:]
        os.remove(f)
    return ("ok", copy.deepcopy(res), body)


def compare(ctx, got, want, msg):
    agree(ctx, got, want, msg, 1e-8)
    if got[0] == "ok" and got[2] is not None:
        if frozen(got[1]) == frozen(want[1]):
            ctx.check_that(got[2] == want[2], msg + ": the file differs from the one of the isolated history")


# ------------------------------------------------------------------ histories
def specs(ctx, n, small=True):
    r = ctx.r
    out = []
    for i in range(n):
        if out and r.random() < .35:
            # variants of one airplane: same names, other values
            s = copy.deepcopy(out[int(r.integers(len(out)))])
            for w in s["wings"]:
                if r.random() < .6:
                    w["washout"] = gen.U(r, -3, 3)
                if r.random() < .4:
                    w["mount"] = gen.U(r, -3, 3)
                if r.random() < .4:
                    w["grid"] = int(r.integers(2, 7))
            for q in s["props"]:
                if r.random() < .5:
                    q["k"] = int(r.integers(2, 5))
                if r.random() < .5:
                    q["rot"] = "CW" if q.get("rot", "CCW") == "CCW" else "CCW"
            if r.random() < .5:
                s["cg"] = [c + .1*s["scale"]*gen.U(r, -1, 1) for c in s["cg"]]
            for _ in range(3):
                if not s["wings"] or usable(rw.solve(s, {"V_mag": 10., "rho": 1., "alpha": 3.}, {})[1]):
                    break
            else:
                s = any_spec(r)
        else:
            s = any_spec(r)
        out.append(s)
    return out


def some_calls(r, s, n, heavy):
    out = []
    while len(out) < n:
        if out and r.random() < .2:
            out.append(copy.deepcopy(out[int(r.integers(len(out)))]))
            continue
        cl = call(r, s, heavy=heavy, invalid=.08, files=.15)
        out.append(cl)
    return out


def interleaved(ctx):
    r = ctx.r
    ss = specs(ctx, int(r.integers(2, 5)))
    hs = [(s, some_calls(r, s, int(r.integers(1, 5)), r.random() < .6)) for s in ss]
    ctx.note(histories=hs)
    want = alone(*hs)
    todo = [[None] + list(range(len(h[1]))) for h in hs]
    models = [None]*len(hs)
    building = [None]*len(hs)
    order, got = [], [[None]*len(h[1]) for h in hs]
    while any(todo):
        i = [k for k in range(len(hs)) if todo[k]][int(r.integers(sum(1 for t in todo if t)))]
        with quiet():
            if models[i] is None:
                # airplanes are assembled piece by piece, in between the other models' calls
                if hs[i][0].get("units"):
                    models[i] = mu(hs[i][0])
                else:
                    if building[i] is None:
                        building[i] = [build.plane_steps(hs[i][0]), None]
                    done = False
                    for _ in range(int(r.integers(1, 6))):
                        try:
                            building[i][1] = next(building[i][0])
                        except StopIteration:
                            done = True
                            break
                    if not done:
                        continue
                    models[i] = MU.MachUp(inputAirplane=building[i][1])
                todo[i].pop(0)
                order.append("build %d" % i)
            else:
                j = todo[i].pop(0)
                got[i][j] = outcome(models[i], hs[i][1][j], "i%d_%d" % (i, j))
                order.append("%d.%d %s" % (i, j, hs[i][1][j][0]))
    ctx.note(order=order)
    for i, h in enumerate(hs):
        for j, cl in enumerate(h[1]):
            compare(ctx, got[i][j], want[i][j], "model %d, call %d (%s) among the calls of %d other models" % (i, j, cl[0], len(hs) - 1))
            ctx.count("calls")
    ctx.count("models", len(hs))
    ctx.sig = repr(order)
    ctx.nontrivial = sum(a.split(".")[0] != b.split(".")[0] for a, b in zip(order, order[1:])) >= 2


TOOL = 5


class Switches:
    """records at every function entry of the code under test which thread runs, and forces switches there"""

    def __init__(self, seed):
        self.log, self.ids, self.x = [], {}, seed*2654435761 % 2**32 or 1

    def __enter__(self):
        import sys, time
        from ..core import MACHUP
        self.old = sys.getswitchinterval()
        m = sys.monitoring
        m.use_tool_id(TOOL, "vlib-threads")
        ids, log = self.ids, self.log

        def start(code, off):
            if not code.co_filename.startswith(MACHUP):
                return m.DISABLE
            k = ids.get(threading.get_ident())
            if k is None:
                return
            log.append(k)
            self.x = (self.x*1103515245 + 12345) % 2**31
            if self.x % 7 == 0:
                time.sleep(0)
        m.register_callback(TOOL, m.events.PY_START, start)
        m.set_events(TOOL, m.events.PY_START)
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        import sys
        sys.setswitchinterval(self.old)
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.PY_START, None)
        m.free_tool_id(TOOL)
        m.restart_events()

    def changes(self):
        return sum(a != b for a, b in zip(self.log, self.log[1:]))


def work():
    """processor time of the process in its threads, in ticks of 10 ms: advances as long as any of them executes"""
    with open("/proc/self/stat") as f:
        x = f.read().rsplit(")", 1)[1].split()
    return (int(x[11]) + int(x[12]))//5


def threads(ctx):
    r = ctx.r
    ss = specs(ctx, int(r.integers(2, 5)))
    hs = [(s, some_calls(r, s, int(r.integers(1, 4)), r.random() < .4)) for s in ss]
    ctx.note(histories=hs)
    want = alone(*hs)
    early = r.random() < .5         # built before the threads start, or inside of them
    models = []
    with quiet():
        models = [mu(s) if early or s.get("units") else None for s, _ in hs]
    got = [None]*len(hs)
    gate = threading.Barrier(len(hs))
    errs = []
    sw = Switches(int(r.integers(1, 2**31)))

    def run(i):
        try:
            sw.ids[threading.get_ident()] = i
            gate.wait(60)
            m = models[i] or MU.MachUp(inputAirplane=plane(hs[i][0]))
            got[i] = [bare(m, cl, "t%d_%d" % (i, j)) for j, cl in enumerate(hs[i][1])]
        except BaseException as e:
            errs.append((i, e))
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(hs))]
    with budget(20_000_000), quiet(), sw:
        for t in ts:
            t.start()
        for t in ts:
            # threads that wait for each other do not execute anything; threads that are just slow are not waited for
            for _ in range(4):
                before = work()
                t.join(30)
                if not t.is_alive() or errs:
                    break
                ctx.check_that(work() != before, "the threads wait for each other")
            if t.is_alive() and not errs:
                raise Skip("slow threads")
    for i, e in errs:
        if isinstance(e, Skip) or isinstance(e, StepBudget) and not e.endless:
            raise Skip("a lot of work")
        raise Violation("model %d in its own thread: unexpected %s: %s" % (i, type(e).__name__, e))
    for i, h in enumerate(hs):
        for j, cl in enumerate(h[1]):
            compare(ctx, got[i][j], want[i][j], "model %d, call %d (%s) next to %d other threads" % (i, j, cl[0], len(hs) - 1))
            ctx.count("calls")
    n = sw.changes()
    ctx.count("thread switches inside the code under test", n)
    ctx.maxi("thread switches in one case", n)
    ctx.count("threads", len(hs))
    ctx.sig = repr(sw.log)
    ctx.nontrivial = n >= 2


def shared(ctx):
    """several models of one airplane object, and airplanes made from the same argument objects"""
    r = ctx.r
    s = any_spec(r)
    s["units"] = None
    k = int(r.integers(2, 4))
    hs = [(s, some_calls(r, s, int(r.integers(1, 4)), r.random() < .5)) for _ in range(k)]
    ctx.note(histories=hs)
    want = alone(*hs)
    kind = gen.pick(r, "one airplane", "copied airplane", "copied model", "shared arguments")
    with quiet():
        if kind == "one airplane":
            p = plane(s)
            models = [MU.MachUp(inputAirplane=p) for _ in range(k)]
            if s["wings"] and r.random() < .5:
                extra = LLModel(p)
                extra.solve("linear", aero_state=gen.aero(r, s=s), control_state=gen.controls(r))
        elif kind == "copied airplane":
            p = plane(s)
            m0 = MU.MachUp(inputAirplane=p)
            outcome(m0, hs[0][1][0], "x")
            models = [m0] + [MU.MachUp(inputAirplane=copy.deepcopy(p)) for _ in range(k - 1)]
        elif kind == "copied model":
            m0 = mu(s)
            outcome(m0, hs[0][1][0], "x")
            models = [m0] + [copy.deepcopy(m0) for _ in range(k - 1)]
        else:
            models = [MU.MachUp(inputAirplane=q) for q in build.raw_planes(s, k)]
    order = [i for i in range(k) for _ in hs[i][1]]
    order = [order[i] for i in r.permutation(len(order))]
    pos = [0]*k
    for i in order:
        j = pos[i]
        pos[i] += 1
        with quiet():
            g = outcome(models[i], hs[i][1][j], "s%d_%d" % (i, j))
        compare(ctx, g, want[i][j], "%s: model %d, call %d (%s)" % (kind, i, j, hs[i][1][j][0]))
        ctx.count("calls")
    ctx.count(kind)
    ctx.note(order=order)
    ctx.nontrivial = len(set(order)) > 1


def files(ctx):
    """input and table files rewritten between two models"""
    r = ctx.r
    ss = []
    while len(ss) < 2:
        s = any_spec(r, nprops=int(r.choice([0, 1, 1])))
        if not json_ok(s):
            continue
        ss.append(s)
    hs = [(s, some_calls(r, s, 2, False)) for s in ss]
    ctx.note(histories=hs)
    want = alone(*hs)
    old = build.table_file
    names = {}

    def one_file(tab):
        # all tables of one role live in the same file, which is rewritten for every model
        k = names.setdefault(id(tab), len(names))
        f = os.path.join(scratch(), "table_%d_%d.txt" % (os.getpid(), k))
        with open(f, "w") as h:
            h.write("# r/R value\n")
            for row in tab:
                h.write("%r %r\n" % (float(row[0]), float(row[1])))
        return f
    path = os.path.join(scratch(), "plane_%d.json" % os.getpid())
    models = []
    try:
        build.table_file = one_file
        for s in ss:
            names.clear()
            with quiet():
                models.append(build.mu_json(s, path))
    finally:
        build.table_file = old
        os.remove(path)
    for i in (1, 0, 1, 0):
        for j, cl in enumerate(hs[i][1]):
            with quiet():
                g = outcome(models[i], cl, "f%d_%d" % (i, j))
            compare(ctx, g, want[i][j], "file read for model %d: call %d (%s)" % (i, j, cl[0]))
            ctx.count("calls")
    ctx.count("rewritten tables", sum("table" in (q.get(n) or {}) for s in ss for q in s["props"] for n in ("pitch", "chord")))
    ctx.nontrivial = True


def unfinished(ctx):
    """models built (and used) while the airplane is being assembled do not influence the model of the finished airplane"""
    r = ctx.r
    s = any_spec(r, nprops=int(r.choice([0, 1, 1, 2])))
    s["units"] = None
    if s["props"] and r.random() < .5:
        gen.pick(r, *s["props"])["airfoils"] = [dict(gen.prop_airfoil(r), pos=None)]
    hs = [(s, some_calls(r, s, int(r.integers(1, 4)), r.random() < .4))]
    ctx.note(histories=hs)
    want = alone(*hs)[0]
    early = []
    with quiet():
        for p in build.plane_steps(s):
            if r.random() < .6:
                try:
                    m = MU.MachUp(inputAirplane=p)
                    ctx.count("models of unfinished airplanes")
                except Exception:
                    ctx.count("unfinished airplanes refused")
                    continue
                for _ in range(int(r.integers(0, 3))):
                    # solutions and whatever else the unfinished airplane allows
                    bare(m, call(r, s, heavy=False, invalid=0.), "u")
                early.append(m)
    with quiet():
        m = MU.MachUp(inputAirplane=p)
        for j, cl in enumerate(hs[0][1]):
            if early and r.random() < .5:
                bare(gen.pick(r, *early), call(r, s, heavy=False, invalid=0.), "e")
            compare(ctx, outcome(m, cl, "u%d" % j), want[j], "model of an airplane of which unfinished models existed: call %d (%s)" % (j, cl[0]))
            ctx.count("calls")
    ctx.nontrivial = len(early) > 0


SCENARIOS = {"interleaved": (interleaved, 100, 1500), "threads": (threads, 60, 900), "shared": (shared, 90, 1500), "files": (files, 60, 1000),
             "unfinished": (unfinished, 60, 1000)}
