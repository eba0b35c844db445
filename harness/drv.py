"""Base of all drivers: they run the real code of /repo and record what it does."""
import ctypes, hashlib, io, json, os, random, resource, signal, struct, sys, threading, time, zlib
from contextlib import contextmanager

import gen


class Hang(BaseException):
    def __init__(self):
        HANGS[0] += 1


class Enough(Exception):
    """the code under test has hung often enough; what is recorded so far is to be judged"""


HANGS = [0]


@contextmanager
def limit(seconds):
    """Bounds one use of the code under test; a hang is an observation like any other."""
    if threading.current_thread() is not threading.main_thread():
        yield                                           # bounded by the thread that waits for this one
        return

    def on(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on)
    left = signal.setitimer(signal.ITIMER_REAL, seconds)[0]
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, left)      # 0 unless one use interrupts another
        signal.signal(signal.SIGALRM, old)


class Preempt:
    """Runs one use of the code under test and, when that has executed its k-th step (line or
    byte code instruction) inside of the library, another use to its end, as if another thread had run."""

    def __init__(self, src):
        self.src = src
        self.count = 0

    def run(self, fn, other, k, fine):
        left = [k]
        done = [False]

        def local(frame, event, arg):
            if not done[0] and event == ("opcode" if fine else "line"):
                left[0] -= 1
                if left[0] <= 0:
                    done[0] = True
                    self.count += 1
                    sys.settrace(None)
                    other()
            return None if done[0] else local

        def begin(frame, event, arg):
            if done[0] or not frame.f_code.co_filename.startswith(self.src):
                return None
            frame.f_trace_opcodes = fine
            return local
        sys.settrace(begin)
        try:
            r = fn()
        finally:
            sys.settrace(None)
        self.hit = done[0]
        if not done[0]:
            other()
        return r


def elsewhere(fn, a, k):
    """one use in a thread of its own, while this one waits: instances may be handed from thread to thread"""
    out = []

    def body():
        try:
            out.append((True, fn(*a, **k)))
        except BaseException as e:                      # noqa: BLE001
            out.append((False, e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    try:
        t.join()
    except Hang:
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(SystemExit))
        raise
    ok, v = out[0]
    if not ok:
        raise v
    return v


HAND = random.Random(1)
HANDED = [.01]


def call(fn, *a, seconds=10, **k):
    """-> ("ok", result) | ("err", exception) | ("hang", None)"""
    try:
        with limit(seconds):
            if HAND.random() < HANDED[0] and sys.gettrace() is None and threading.current_thread() is threading.main_thread():
                return "ok", elsewhere(fn, a, k)
            return "ok", fn(*a, **k)
    except Hang:
        return "hang", None
    except Exception as e:                      # noqa: BLE001
        return "err", e


BOOMS = [lambda: OSError(28, "no space left"), lambda: InterruptedError(4, "interrupted"), lambda: OSError(5, "input/output error"),
         lambda: BlockingIOError(11, "try again", 0), lambda: BrokenPipeError(32, "broken pipe"), lambda: TimeoutError(110, "timed out"),
         lambda: PermissionError(13, "permission denied"), lambda: ConnectionResetError(104, "reset"), lambda: io.UnsupportedOperation("access"),
         lambda: RuntimeError("storage gone"), lambda: OSError("failed"), lambda: MemoryError()]
BOOMED = [0]


SBOOMS = BOOMS + [lambda: EOFError("compressed file ended"), lambda: zlib.error("Error -3"), lambda: ValueError("I/O operation on closed file"),
                  lambda: struct.error("unpack requires a buffer"), lambda: IndexError("source"), lambda: AttributeError("source"),
                  lambda: UnicodeDecodeError("cp1252", b"x", 0, 1, "source"), lambda: LookupError("source")]


def boom(source=False):
    """failures of a file, of many kinds; those of a source include what decompressing files raise"""
    BOOMED[0] += 1
    kinds = SBOOMS if source else BOOMS
    return kinds[BOOMED[0] % len(kinds)]()


class Duck:
    """a file-like object that is no io object and has no file descriptor"""

    def __init__(self, f):
        self._f = f

    def __getattr__(self, name):
        if name in ("_f", "fileno", "getbuffer", "getvalue", "detach"):
            raise AttributeError(name)
        return getattr(self._f, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


def real_classes():
    import vblf
    from vblf import can, constants, ethernet, flexray, general, lin, tp_diag
    d = {}
    for m in (general, can, lin, ethernet, flexray, tp_diag):
        for n, v in vars(m).items():
            if isinstance(v, type):
                d.setdefault(n, v)
    d["constants"] = constants
    return d


class Driver:
    def __init__(self):
        job = json.load(open(sys.argv[1]))
        self.job, self.mode, self.tier = job, job["mode"], job["tier"]
        self.quick = self.tier == "quick"
        self.data, self.opts = job.get("data"), job.get("opts") or {}
        self.scratch = job["scratch"]
        self.rng = random.Random(f"{job['seed']}/{self.mode}")
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        import vblf
        src = os.path.realpath(vblf.__file__)
        if not src.startswith(os.path.realpath(job["repo"]) + "/src/"):
            raise RuntimeError(src)
        self.preempt = Preempt(os.path.dirname(vblf.__file__) + "/")
        self.lay = gen.Layouts(job["layout"])
        self.gen = gen.Gen(self.lay, self.rng)
        self.real = real_classes()
        self.builder = gen.Builder(self.lay, self.real)
        self.out = open(job["trace"], "w")
        self.n = 0
        self.ids = {}
        self.meta = {}

    def emit(self, rec):
        self.out.write(json.dumps(rec, separators=(",", ":")) + "\n")
        self.n += 1
        if HANGS[0] >= 3:
            raise Enough()

    def fast(self, o):
        """identity of an object of any size: class, every field, encoding"""
        getpath, tv = gen.getpath, gen.tv
        cls = type(o).__name__

        def norm(v, kind):
            if isinstance(v, (bytes, bytearray)):
                return "b" + hashlib.sha256(bytes(v)).hexdigest()
            if isinstance(v, str):
                return "s" + hashlib.sha256(v.encode("utf-8", "surrogatepass")).hexdigest()
            return json.dumps(tv(v, kind))
        vals = []
        for path, kind, *_ in self.lay.fields(cls) if cls in self.lay.cls else []:
            try:
                vals.append(norm(getpath(o, path), kind))
            except AttributeError:
                vals.append("missing")
        if hasattr(o, "pack"):
            r, b = call(o.pack)
        else:                                      # structures inside of objects
            b = bytearray(200)
            r, _ = call(lambda: o.pack_into(b, 0))
        vals.append("p" + hashlib.sha256(bytes(b)).hexdigest() if r == "ok" else r)
        return self.ids.setdefault((cls, tuple(vals)), len(self.ids) + 1), len(b) if r == "ok" else 0

    def finish(self, **meta):
        self.out.close()
        json.dump(dict(records=self.n, **self.meta, **meta), open(self.job["meta"], "w"))

    def main(self):
        try:
            getattr(self, "mode_" + self.mode.replace("-", "_"))()
        except Enough:
            pass
        self.finish()
