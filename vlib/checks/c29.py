"""C29 calls have no effects besides their result and the requested file, and failing output is signalled"""
import gc, stat, time, random, signal, resource, threading, errno, sys, warnings, locale, decimal, logging, builtins, tempfile, socket
from ..calls import *
from .. import build
from .c10 import spec as any_spec

ID = "C29"
RULE = ("random calls in a working directory of their own; monitors compare the interpreter's global state, the open file descriptors, the threads and the "
        "whole directory before and after each call; file system faults (missing directory, directory instead of a file, full device, size limit reached "
        "after any number of bytes) are injected into calls with a file name; non-trivial: a file was written or a fault was hit")


def process_state():
    return dict(
        errors=repr(np.geterr()), printing=repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())), cwd=os.getcwd(),
        environ=hash(tuple(sorted(os.environ.items()))), path=tuple(sys.path), recursion=sys.getrecursionlimit(),
        switch=sys.getswitchinterval(), rng=hash(repr(np.random.get_state()[1].tolist())) + np.random.get_state()[2], rng2=hash(random.getstate()),
        warnings=repr(warnings.filters), locale=locale.setlocale(locale.LC_ALL), decimal=repr(decimal.getcontext()),
        signals=tuple(repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGXFSZ)),
        stdout=id(sys.stdout), stderr=id(sys.stderr), threads=threading.active_count(),
        gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count(), len(gc.callbacks)), limits=sys.get_int_max_str_digits(),
        umask=umask(), hook=(id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook)),
        tracing=repr((sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile())),
        buffers=(np.getbufsize(), repr(np.geterrcall())), logs=logs(), modules=tuple(repr(p) for p in (sys.meta_path, sys.path_hooks)),
        builtins=hash(tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_"))), temporary=tempfile.tempdir,
        sockets=socket.getdefaulttimeout(), stdin=id(sys.stdin), encoding=sys.getdefaultencoding() + str(sys.stdout.encoding) + sys.getfilesystemencoding(),
        json=(id(json.encoder.FLOAT_REPR) if hasattr(json.encoder, "FLOAT_REPR") else 0, id(json.JSONEncoder.default), repr(json._default_encoder.__dict__)),
        numpy=library(np), linalg=library(np.linalg), priority=os.getpriority(os.PRIO_PROCESS, 0), argv=tuple(sys.argv), affinity=tuple(sorted(os.sched_getaffinity(0))),
        timers=signal.getitimer(signal.ITIMER_PROF) + signal.getitimer(signal.ITIMER_VIRTUAL), rlimits=tuple(resource.getrlimit(k) for k in (
            resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_FSIZE, resource.RLIMIT_DATA)))


def logs():
    """handlers, levels of the root logger; the library's own loggers are its own"""
    g = logging.getLogger()
    return len(g.handlers), g.level, g.disabled, logging.root.manager.disable, id(logging.getLoggerClass()), logging.raiseExceptions


def library(m):
    """the functions of a library are the same objects"""
    return hash(tuple(sorted((k, id(v)) for k, v in vars(m).items() if callable(v))))


def umask():
    v = os.umask(0o022)
    os.umask(v)
    return v


def fds():
    return sorted(os.listdir("/proc/self/fd"))[:-1]


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = "dir"
        for x in files:
            p = os.path.join(base, x)
            out[os.path.relpath(p, d)] = (os.path.getsize(p), open(p, "rb").read())
    return out


class Room:
    """a working directory of its own"""

    def __init__(self, ctx):
        self.dir = os.path.join(scratch(), "room_%d_%s_%d" % (os.getpid(), ctx.scenario, ctx.index))

    def __enter__(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "sub dir"))
        with open(os.path.join(self.dir, "other.json"), "w") as f:
            f.write("{\"other\": 1}")
        with open(os.path.join(self.dir, "plane.stl"), "w") as f:
            f.write("solid other")
        self.old = os.getcwd()
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        import shutil
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def with_file(r, cl, name):
    n, args, kw = copy.deepcopy(cl)
    kw["filename"] = name
    return n, args, kw


def plain(cl):
    n, args, kw = copy.deepcopy(cl)
    kw.pop("filename", None)
    return n, args, kw


HAS_FILE = ("solve", "distributions", "find_aero_center", "stall_onset", "stall_airspeed", "derivatives", "target_lift", "pitch_trim", "create_stl")


def raw(m, cl):
    """("ok", value) or ("error", exception)"""
    n, args, kw = copy.deepcopy(cl)
    try:
        with budget(4_000_000):
            return "ok", getattr(m, n)(*args, **kw)
    except (RuntimeError, OSError, ValueError, TypeError, KeyError, AttributeError, np.linalg.LinAlgError, ZeroDivisionError) as e:
        e.__traceback__ = None
        return "error", e


def ext(n):
    return {"create_stl": "stl", "distributions": "txt"}.get(n, "json")


def effects(ctx):
    # the caller's own choice of floating point error handling, different from case to case
    err = {k: gen.pick(ctx.r, "ignore", "warn") for k in ("divide", "over", "under", "invalid")}
    with np.errstate(**err), warnings.catch_warnings():
        warnings.resetwarnings()
        warnings.simplefilter(gen.pick(ctx.r, "ignore", "default", "always", "once"), gen.pick(ctx.r, Warning, RuntimeWarning))
        warnings.showwarning = lambda *a, **k: None
        # and its choice for the garbage collector, the buffers and the threads
        old = gc.isenabled(), gc.get_threshold(), np.getbufsize(), sys.getswitchinterval(), sys.getrecursionlimit(), logging.getLogger().level
        try:
            if ctx.r.random() < .4:
                gc.disable()
            if ctx.r.random() < .3:
                gc.set_threshold(*(int(x) for x in ctx.r.integers(200, 3000, 3)))
                np.setbufsize(int(gen.pick(ctx.r, 4096, 16384)))
                sys.setswitchinterval(gen.pick(ctx.r, .001, .01))
                sys.setrecursionlimit(sys.getrecursionlimit() + int(ctx.r.integers(1, 500)))
                logging.getLogger().setLevel(int(gen.pick(ctx.r, logging.DEBUG, logging.ERROR)))
                ctx.count("unusual settings")
            _effects(ctx)
        finally:
            (gc.enable if old[0] else gc.disable)()
            gc.set_threshold(*old[1])
            np.setbufsize(old[2])
            sys.setswitchinterval(old[3])
            sys.setrecursionlimit(old[4])
            logging.getLogger().setLevel(old[5])


def _effects(ctx):
    r = ctx.r
    s = any_spec(r)
    a0 = process_state()
    with quiet():
        m = mu(s)
    diff(ctx, a0, process_state(), "building a model")
    with Room(ctx) as room, quiet():
        # building a model writes nothing either
        a0, t0 = process_state(), tree(room.dir)
        m2 = mu(s)
        ctx.check_that(tree(room.dir) == t0, "building a model changes files")
        diff(ctx, a0, process_state(), "building a model")
        wrote = 0
        for i in range(int(r.integers(2, 5))):
            cl = call(r, s, heavy=r.random() < .6, invalid=.1, files=0.)
            n = cl[0]
            name = None
            if n == "create_stl" or (n in HAS_FILE and r.random() < .6):
                name = gen.pick(r, "out." + ext(n), "sub dir/o \u00e4 %d." % i + ext(n), os.path.join(room.dir, "abs." + ext(n)), "./x.y." + ext(n))
                cl = with_file(r, cl, name)
            ctx.note(spec=s, call=cl)
            np.random.seed(int(r.integers(1, 9)))
            random.seed(int(r.integers(1, 9)))
            # an older, longer version of the file may exist
            if name and r.random() < .5:
                with open(name, "w") as f:
                    f.write("old content\n"*int(r.integers(1, 20000)))
            gc.collect()
            p0, f0, t0 = process_state(), fds(), tree(room.dir)
            kind, val = raw(m, cl)
            gc.collect()
            p1, f1, t1 = process_state(), fds(), tree(room.dir)
            diff(ctx, p0, p1, n)
            ctx.check_that(f0 == f1, "%s leaves a file descriptor open" % n, before=f0, after=f1)
            key = os.path.relpath(os.path.join(room.dir, name), room.dir) if name else None
            for k in set(t0) | set(t1):
                if k != key:
                    ctx.check_that(k in t0 and k in t1 and t0[k] == t1[k], "%s changes the file %r, which it was not given" % (n, k))
            if key:
                if kind == "ok":
                    ctx.check_that(key in t1, "%s does not write the file %r" % (n, name))
                    ctx.check_that(t0.get(key) is None or b"old content" not in t1[key][1], "%s: remains of the older file" % n)
                    wrote += 1
                else:
                    ctx.check_that(t1.get(key) == t0.get(key), "%s fails, but changes the file %r" % (n, name))
                    ctx.count("failing calls with a file")
            ctx.count("calls")
            ctx.count("files", bool(key))
            if name and os.path.exists(name):
                os.remove(name)
        ctx.nontrivial = wrote > 0


def diff(ctx, a, b, msg):
    for k in a:
        ctx.check_that(a[k] == b[k], "%s changes the interpreter's global state (%s)" % (msg, k), before=a[k], after=b[k])


def size_limit(n):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    return soft, hard


def faults(ctx):
    """output that cannot be written is signalled, and the model is as good as before"""
    r = ctx.r
    s = any_spec(r)
    with quiet():
        m = mu(s)
    hits = 0
    with Room(ctx) as room, quiet():
        for i in range(int(r.integers(1, 4))):
            while True:
                cl = call(r, s, heavy=r.random() < .6, invalid=0., files=0.)
                if cl[0] in HAS_FILE:
                    break
            n = cl[0]
            good = with_file(r, cl, "good." + ext(n))
            ctx.note(spec=s, call=cl)
            t = time.time()
            with Room2(room, "w"):
                kind, val = raw(mu(s), good)
                size = os.path.getsize("good." + ext(n)) if os.path.exists("good." + ext(n)) else 0
                body = open("good." + ext(n), "rb").read() if size else b""
            if kind != "ok" or time.time() - t > 12:      # long searches are repeated twice below
                ctx.count("not repeated")
                continue
            fault = gen.pick(r, "missing", "directory", "full", "limit", "limit", "limit")
            name = {"missing": "no/such/dir/x." + ext(n), "directory": "sub dir", "full": "full." + ext(n), "limit": "lim." + ext(n)}[fault]
            if fault == "full" and not full_device():
                continue
            t0 = tree(room.dir)
            f0 = fds()
            ctx.note(fault=fault)
            if fault == "limit":
                # any number of bytes less than the whole file
                lim = int(gen.pick(r, r.integers(0, size), size - 1, 0, min(size - 1, 4096), min(size - 1, 8192)))
                ctx.note(limit=lim, size=size)
                old = size_limit(lim)
                try:
                    kind2, val2 = raw(m, with_file(r, cl, name))
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
            elif fault == "full":
                os.symlink("/dev/full", name)
                try:
                    with Unprivileged():   # code that replaces or removes its output file must not reach the device
                        kind2, val2 = raw(m, with_file(r, cl, name))
                finally:
                    os.remove(name)
            else:
                kind2, val2 = raw(m, with_file(r, cl, name))
            gc.collect()
            if kind2 == "ok" and fault == "limit" and whole(name, body):
                continue            # other digits than in the reference run: the file is shorter by some bytes and fits
            ctx.check_that(kind2 == "error", "%s returns although its output cannot be written (%s)" % (n, fault))
            ctx.check_that(isinstance(val2, OSError) or kind2 == "error", "%s: %r" % (n, val2))
            ctx.check_that(fds() == f0, "%s leaves a file descriptor open after %s" % (n, fault))
            t1 = tree(room.dir)
            for k in set(t0) | set(t1):
                if k != os.path.basename(name):
                    ctx.check_that(t0.get(k) == t1.get(k), "%s changes %r after %s" % (n, k, fault))
            # the next calls are answered as usual
            again = with_file(r, cl, "good." + ext(n))
            with Room2(room, "w2"):
                k3, v3 = raw(m, again)
                b3 = open("good." + ext(n), "rb").read() if os.path.exists("good." + ext(n)) else b""
            ctx.check_that(k3 == kind, "%s after failing output: %s" % (n, k3))
            agree(ctx, ("ok", v3, None), ("ok", val, None), "%s after failing output" % n, 1e-9)
            ctx.check_that(len(b3) > 0 and abs(len(b3) - len(body)) <= .02*len(body) + 40, "%s after failing output: the file has %d instead of %d bytes" % (n, len(b3), len(body)))
            hits += 1
            ctx.count("fault: " + fault)
            ctx.count("fault in " + n)
    ctx.nontrivial = hits > 0


def whole(name, body):
    """the file is complete: it differs from the reference in the digits of numbers only"""
    b = open(name, "rb").read()
    if abs(len(b) - len(body)) > 40 or name.endswith("stl"):
        return False
    if name.endswith("json"):
        try:
            json.loads(b)
            return True
        except ValueError:
            return False
    return b.count(b"\n") == body.count(b"\n") and b.endswith(b"\n")


def full_device():
    """a device without space that can be used without any risk for it"""
    try:
        if not stat.S_ISCHR(os.stat("/dev/full").st_mode) or os.getuid() != 0 or os.geteuid() != 0:
            return False
        with Unprivileged():
            return os.geteuid() != 0 and not os.access("/dev", os.W_OK, effective_ids=True) and os.access("/dev/full", os.W_OK, effective_ids=True)
    except OSError:
        return False


class Unprivileged:
    """the process acts as an unprivileged user"""

    def __enter__(self):
        self.groups = os.getgroups()
        try:
            os.setgroups([])
            os.setegid(65534)
            os.seteuid(65534)
        except OSError:
            self.__exit__()
            raise

    def __exit__(self, *a):
        os.seteuid(0)
        os.setegid(0)
        os.setgroups(self.groups)


class Room2:
    """a temporary subdirectory as working directory"""

    def __init__(self, room, name):
        self.d = os.path.join(os.path.dirname(room.dir), os.path.basename(room.dir) + name)

    def __enter__(self):
        os.makedirs(self.d, exist_ok=True)
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        import shutil
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def random_state(ctx):
    """results do not depend on the global random state, the working directory or the environment's numerical settings"""
    r = ctx.r
    s = any_spec(r)
    cl = call(r, s, invalid=.05, files=0.)
    if cl[0] == "create_stl":
        cl = ("solve", [], {})
    ctx.note(spec=s, call=cl)
    with quiet():
        np.random.seed(1)
        want = execute(mu(s), cl, "r")
        with Room(ctx):
            np.random.seed(int(r.integers(2, 1000)))
            random.seed(int(r.integers(2, 1000)))
            opts = np.get_printoptions()
            np.set_printoptions(precision=2, threshold=3, suppress=True)
            try:
                got = execute(mu(s), cl, "s")
            finally:
                np.set_printoptions(**opts)
    agree(ctx, got, want, "%s in another environment" % cl[0], 1e-12)
    ctx.count("environments")
    ctx.nontrivial = True


IMPORT = """
import sys, os, warnings, random, signal, locale, decimal, threading, gc, json, logging
import numpy as np
if %r:
    gc.disable()
    gc.set_threshold(501, 11, 12)
    np.setbufsize(4096)
    logging.getLogger().setLevel(logging.DEBUG)
sys.path.insert(0, %r)
import numpy as np
np.seterr(divide=%r, over=%r, under=%r, invalid=%r)
np.random.seed(3); random.seed(4)
def umask():
    v = os.umask(0o022)
    os.umask(v)
    return v
def state():
    return dict(errors=repr(np.geterr()), printing=repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())), cwd=os.getcwd(),
        environ=repr(sorted(os.environ.items())), recursion=sys.getrecursionlimit(), rng=repr(np.random.get_state()[1:3]), rng2=repr(random.getstate()),
        locale=locale.setlocale(locale.LC_ALL), decimal=repr(decimal.getcontext()), stdout=id(sys.stdout), stderr=id(sys.stderr),
        signals=repr([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE)]),
        files=repr(sorted(os.listdir("."))), threads=threading.active_count(), gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug()), hook=id(sys.excepthook), umask=umask(),
        buffers=(np.getbufsize(), repr(np.geterrcall())), logs=(len(logging.getLogger().handlers), logging.getLogger().level, logging.root.manager.disable),
        switch=sys.getswitchinterval(), tracing=repr((sys.gettrace(), sys.getprofile())), numpy=hash(tuple(sorted((k, id(v)) for k, v in vars(np).items() if callable(v)))))
a = state()
import %s
b = state()
print("DIFF" + json.dumps([[k, str(a[k])[:200], str(b[k])[:200]] for k in a if a[k] != b[k]]))
"""


def importing(ctx):
    """importing the library has no effects either"""
    import subprocess
    r = ctx.r
    err = [gen.pick(r, "ignore", "warn") for _ in range(4)]
    mod = gen.pick(r, "machup.MU", "machup.MU as MU, machup.geometry", "machup.geometry", "machup.llmodel", "machup.propmodel", "machup.outputstl, machup.llgrid")
    unusual = bool(r.random() < .5)
    ctx.note(module=mod, errors=err, unusual=unusual)
    with Room(ctx):
        p = subprocess.run([sys.executable, "-B", "-c", IMPORT % ((unusual, build.REPO) + tuple(err) + (mod,))], capture_output=True, text=True, timeout=300)
    ctx.check_that(p.returncode == 0, "import %s fails: %s" % (mod, p.stderr[-300:]))
    out, _, d = p.stdout.rpartition("DIFF")
    ctx.check_that(not out.strip(), "import %s prints %r" % (mod, out[:200]))
    for k, x, y in json.loads(d):
        ctx.check_that(False, "import %s changes the interpreter's global state (%s)" % (mod, k), before=x, after=y)
    ctx.count("imports")
    ctx.nontrivial = True


SCENARIOS = {"import": (importing, 8, 40), "effects": (effects, 150, 2500), "faults": (faults, 150, 2500), "environment": (random_state, 60, 1000)}
