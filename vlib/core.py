"""Case context, verdicts and runtime monitors."""
import sys, os, io, json, hashlib, traceback, contextlib, copy, threading
import numpy as np
from .build import REPO

MACHUP = os.path.join(REPO, "machup") + os.sep


class Violation(Exception):
    def __init__(self, msg, data=None):
        Exception.__init__(self, msg)
        self.data = data or {}


class Skip(BaseException):
    """the generated case is outside the property's quantifier (degenerate geometry ...), or no verdict was reached"""


class StepBudget(BaseException):
    """the code under test was stopped; endless: one single loop went round too often, so that it is not just a lot of work"""

    def __init__(self, endless=False):
        BaseException.__init__(self, "endless loop" if endless else "much work")
        self.endless = endless


class CaseTimeout(BaseException):
    pass


# ------------------------------------------------------------------ step budget (logical clock)
# The clock counts the jumps executed by the code under test. Their number alone says little (the same work written with
# more loops counts more), so that a call is only called endless if one activation of one loop goes round more often than any search
# of this library has steps, and the whole budget is spent in it. Without such a loop the call may go on up to HARD times the budget, then
# there is no verdict.
_TOOL = 4
HARD = 10
ROUNDS = 3000
_steps = [0, 0, 0]     # used, budget, maximum seen in one monitored call
_rounds = [ROUNDS, False]
_frames = {}           # frame -> {target of a backward jump: [times, clock at the first]}


def _on_jump(code, off, dst):
    if not code.co_filename.startswith(MACHUP):
        return sys.monitoring.DISABLE
    _steps[0] += 1
    if _steps[1] and _steps[0] > _steps[1]//3:
        _watch(off, dst)


def _watch(off, dst):
    n, lim = _steps[0], _steps[1]
    if dst < off:
        f = sys._getframe(2)
        loops = _frames.get(f)
        if loops is None:
            if len(_frames) > 500:          # forget the calls that have returned
                alive, g = set(), f
                while g is not None:
                    alive.add(g)
                    g = g.f_back
                if threading.active_count() == 1:
                    for g in [g for g in _frames if g not in alive]:
                        del _frames[g]
                else:
                    _frames.clear()
            loops = _frames[f] = {}
        for d in [d for d in loops if dst < d < off]:       # the loops inside of this one start again
            del loops[d]
        k = loops.setdefault(dst, [0, n])
        k[0] += 1
        if k[0] > _rounds[0] and n - k[1] > lim:
            _rounds[1] = True
    if _rounds[1] or n > HARD*lim:
        e = StepBudget(_rounds[1])
        _steps[1] = 0
        _frames.clear()
        raise e


def install_monitor():
    m = sys.monitoring
    if m.get_tool(_TOOL) is None:
        m.use_tool_id(_TOOL, "vlib-steps")
        m.register_callback(_TOOL, m.events.JUMP, _on_jump)
        m.set_events(_TOOL, m.events.JUMP)


@contextlib.contextmanager
def budget(n=3_000_000, rounds=ROUNDS):
    """count the loop iterations executed by the code under test; an endless loop is a violation, too much work to wait for is no verdict"""
    install_monitor()
    old = _steps[0], _steps[1], _rounds[0], _rounds[1]
    _steps[0], _steps[1], _rounds[0], _rounds[1] = 0, n, rounds, False
    _frames.clear()
    try:
        yield
    except StepBudget as e:
        if not e.endless:
            raise Skip("a lot of work: more than %d loop iterations in one call" % (HARD*n)) from None
        raise Violation("does not terminate: more than %d loop iterations in one call, more than %d of them in one loop" % (n, rounds)) from None
    finally:
        _frames.clear()
        _steps[2] = max(_steps[2], _steps[0])
        _steps[0], _steps[1], _rounds[0], _rounds[1] = old


# ------------------------------------------------------------------ uninitialised memory
class Poison:
    """numpy.empty/empty_like handing out memory with a chosen content"""

    def __init__(self, fill):
        self.fill = fill
        self.hits = 0

    def __enter__(self):
        self.old = np.empty, np.empty_like
        fill, me = self.fill, self

        def wrap(orig):
            def f(*a, **k):
                x = orig(*a, **k)
                if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
                    x.fill(fill)
                    me.hits += 1
                return x
            return f
        np.empty, np.empty_like = wrap(np.empty), wrap(np.empty_like)
        return self

    def __exit__(self, *a):
        np.empty, np.empty_like = self.old


# ------------------------------------------------------------------ helpers
def frozen(x):
    """deep, comparable snapshot of user data (type and value exact)"""
    if isinstance(x, dict):
        return ("d",) + tuple((repr(k), frozen(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(frozen(v) for v in x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("a",) + tuple(frozen(v) for v in x.ravel())
        return ("a", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (float, np.floating)):
        return ("f", float(x).hex())
    return (type(x).__name__, repr(x))


def numbers(x, path=""):
    """all numbers in nested results as (path, value)"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from numbers(v, path + "/" + str(k))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from numbers(v, path + "/%d" % i)
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "fiu":
            for i, v in enumerate(x.ravel()):
                yield path + "[%d]" % i, float(v)
    elif isinstance(x, (int, float, np.floating, np.integer)):
        yield path, float(x)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size < 200 else "array%s" % (x.shape,)
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, check, scenario, seed, index, tier):
        self.check, self.scenario, self.seed, self.index, self.tier = check, scenario, seed, index, tier
        h = int(hashlib.md5(("%s/%s" % (check, scenario)).encode()).hexdigest()[:8], 16)
        self.r = np.random.default_rng([seed, h, index])
        self.counts = {}
        self.maxes = {}
        self.evals = 0
        self.nontrivial = False
        self.data = {}
        self.sig = ""

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + int(n)

    def maxi(self, key, v):
        self.maxes[key] = max(self.maxes.get(key, 0.), float(v))

    def note(self, **kw):
        self.data.update(kw)

    def check_that(self, cond, msg, **data):
        self.evals += 1
        if not cond:
            raise Violation(msg, data)

    def close(self, got, want, tol, msg, **data):
        """|got-want| <= tol elementwise; NaN fails"""
        self.evals += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape and g.size != w.size:
            raise Violation(msg + ": shape %s instead of %s" % (g.shape, w.shape), data)
        err = np.abs(g.reshape(w.shape) - w)
        ok = (err <= tol) | (g.reshape(w.shape) == w)
        t = np.broadcast_to(np.asarray(tol, dtype=float), err.shape)
        with np.errstate(all="ignore"):
            rel = np.where(t > 0, err/t, 0.)
        if err.size and np.isfinite(rel).all():
            self.maxi("max error/tolerance: " + msg.split(":")[0][:60], rel.max())
        if not ok.all():
            i = np.unravel_index(np.argmin(ok), err.shape) if err.shape else ()
            raise Violation("%s: got %r, expected %r (tolerance %.3g)%s" % (
                msg, float(g.reshape(w.shape)[i]), float(w[i]), float(t[i]), " at %s" % (i,) if i else ""), data)


FM = ("FL", "FD", "FS", "FX", "FY", "FZ", "MX", "MY", "MZ")


def compare_fm(ctx, got, want, fs, ms, rel, msg, **data):
    for k in FM:
        ctx.check_that(k in got, "%s: %s missing" % (msg, k), **data)
        ctx.close(got[k], want[k], rel*(fs if k[0] == "F" else ms), "%s: %s" % (msg, k), **data)


def run_case(mod, scenario, seed, index, tier):
    """execute one case; returns a plain dict"""
    ctx = Ctx(mod.ID, scenario, seed, index, tier)
    res = dict(scenario=scenario, index=index, status="ok")
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            with budget(20_000_000):
                mod.SCENARIOS[scenario][0](ctx)
    except Skip as e:
        res["status"] = "skip"
        res["msg"] = str(e)
    except Violation as e:
        res.update(status="violation", msg=str(e), data=jsonable(e.data))
    except CaseTimeout:
        res.update(status="timeout", msg="wall clock")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
        if isinstance(e, (MemoryError, ImportError, OSError)) and not any(f.filename.startswith(MACHUP) for f in tb):
            res.update(status="error", msg=txt)
        elif any(f.filename.startswith(MACHUP) for f in tb):
            res.update(status="violation", msg="unexpected %s: %s" % (type(e).__name__, str(e)[:200]), data={"traceback": txt})
        else:
            # the monitor reads documented names only: what it was given is not a result
            res.update(status="violation", msg="malformed result, the monitor failed with %s: %s" % (type(e).__name__, str(e)[:200]),
                       data={"traceback": txt})
    res.update(counts=ctx.counts, maxes=ctx.maxes, evals=ctx.evals, nontrivial=ctx.nontrivial, steps=_steps[2])
    sig = ctx.sig or repr(jsonable(ctx.data))
    res["sig"] = hashlib.md5(sig.encode()).hexdigest()[:12]
    if res["status"] in ("violation", "error", "timeout") or index < 2:
        res["input"] = jsonable(ctx.data)
    return res
