"""R09: every kind of source and sink."""
import io, os, pathlib, tempfile
from drv import Duck, call
import blf
from drv_sessions import Sessions
from drv_writer import EXCEPTIONS


class Stream(io.BytesIO):
    """an in-memory stream that keeps its content when closed"""
    final = None

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
        super().close()


class P:
    """a path object of the user's own"""

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Str(str):
    pass


class Kinds(Sessions):
    PATHS = ["str", "bytes", "Path", "PurePath", "fspath", "fspathb", "strsub", "relative", "relpath", "relbytes", "dot"]
    SOURCES = PATHS + ["rb", "raw", "r+b", "w+b", "named", "temp", "spooled", "BytesIO", "stream", "fd", "duck"]
    SINKS = PATHS + ["wb", "raw", "w+b", "r+b", "xb", "named", "temp", "spooled", "BytesIO", "stream", "fd", "duck"]
    NAMES = [b"f.blf", b"with space", b"\xc3\xa9.blf", b"no\xffutf8", b"LOGG", b"5", b"a.b.c", b".hidden", b"x" * 200,
             b"~", b"~root", b"~.blf", b"$HOME", b"${HOME}.blf", b" f.blf", b"f.blf ", b"f.blf\n", b"f.", b"%41", b"file:f", b"C:\\f", b"-", b"*",
             b"F.BLF", b"f.blf.gz", b"f.zip", b"\xe2\x82\xac\xcc\x81", b"\xff", b"'f'", b"\\"]

    def path(self, kind, p):
        """p: bytes"""
        s = os.fsdecode(p)
        return {"str": s, "bytes": p, "Path": pathlib.Path(s), "PurePath": pathlib.PurePath(s), "fspath": P(s), "fspathb": P(p),
                "strsub": Str(s), "relative": os.path.relpath(s), "relbytes": os.path.relpath(p), "relpath": pathlib.Path(os.path.relpath(s)),
                "dot": os.path.join(os.path.dirname(s), ".", os.path.basename(s))}[kind]

    def source(self, kind, p, data):
        if kind in self.PATHS:
            return self.path(kind, p)
        if kind == "BytesIO":
            return io.BytesIO(data)
        if kind in ("stream", "duck"):
            return Duck(Stream(data)) if kind == "duck" else Stream(data)
        if kind == "rb":
            return open(p, "rb")
        if kind == "raw":
            return open(p, "rb", buffering=0)
        if kind == "r+b":
            return open(p, "r+b")
        if kind == "fd":
            return open(os.open(p, os.O_RDONLY), "rb")
        f = {"w+b": lambda: open(p + b"~", "w+b"), "named": tempfile.NamedTemporaryFile, "temp": tempfile.TemporaryFile,
             "spooled": lambda: tempfile.SpooledTemporaryFile(max_size=self.rng.choice([0, 200]))}[kind]()
        f.write(data)
        f.seek(0)
        return f

    def is_open(self, src, path, kind):
        if kind not in self.PATHS:
            return not src.closed
        for fd in os.listdir("/proc/self/fd"):
            try:
                if os.readlink(b"/proc/self/fd/" + fd.encode()) == path:
                    return True
            except OSError:
                pass
        return False

    def read(self, kind, path, data, leave, exc=None):
        """everything a user sees of one reading"""
        out = {"kind": kind, "open": "", "stats": [], "obs": [], "left": "", "closed": False}
        src = self.source(kind, path, data)
        r, rd = call(self.BlfReader, src)
        out["open"] = r if r != "err" else type(rd).__name__
        if r == "ok":
            out["stats"] = self.lay.project("FileStatistics", getattr(rd, "file_statistics", None))

            def use():
                n = 0
                with rd as x:
                    while True:
                        res, o = call(x.read_object)
                        if res != "ok" or o is None:
                            out["obs"].append(0 if res == "ok" else -1)
                            break
                        out["obs"].append(self.id(self.key(o)))
                        n += 1
                        if n == leave:
                            break
                    if exc:
                        raise exc("left")

            def use_():
                try:
                    use()
                except BaseException as x:          # noqa: BLE001
                    if exc is None or type(x) is not exc:
                        raise
                    return exc.__name__
                return ""
            res, x = call(use_)
            if res == "ok" and x:
                res, x = "err", exc()
            out["left"] = res if res != "err" else type(x).__name__
            out["closed"] = not self.is_open(src, path, kind)
        if kind not in self.PATHS and not src.closed:
            src.close()
        return out

    def mode_read(self):
        r = self.rng
        for n in range(60 if self.quick else 1200):
            k = r.randrange(1, 10)
            data, _ = self.makefile(k)
            if r.random() < .3:
                z = blf.Realizer(self, r.choice([0, 6]), r.choice([0, 4]))
                for _ in range(r.choice([20, 150, 400])):
                    z.obj(self.some(r.choice(["sup", "big"])))
                    if r.random() < .05:
                        z.cut(r.choice("sz"))
                z.flush()
                data = bytes(z.file)
            if r.random() < .1:
                data = data[:r.randrange(140, len(data) + 1)]
            p = os.fsencode(os.path.realpath(self.scratch)) + b"/" + r.choice(self.NAMES)
            leave = r.choice([0, 0, 0, 1, 2])
            exc = r.choice(EXCEPTIONS) if r.random() < .35 else None
            ref = self.read("BytesIO", p, data, leave, exc)
            for kind in self.SOURCES:
                with open(p, "wb") as f:
                    f.write(data)
                got = self.read(kind, p, data, leave, exc)
                self.emit({"op": "src", "ref": ref, "got": got, "same": open(p, "rb").read() == data})
            os.unlink(p)

    # ------------------------------------------------------------------ sinks
    def sink(self, kind, p):
        if kind in self.PATHS:
            return self.path(kind, p)
        if kind in ("BytesIO", "stream", "duck"):
            return Duck(Stream()) if kind == "duck" else Stream()
        if kind == "fd":
            return open(os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC), "w+b")
        if kind == "r+b":
            open(p, "wb").close()
            return open(p, "r+b")
        if kind == "xb":
            os.unlink(p)
            return open(p, "xb")
        if kind == "raw":
            return open(p, "wb", buffering=0)
        if kind in ("wb", "w+b"):
            return open(p, kind, buffering=self.rng.choice([-1, -1, 2, 64]))
        q = os.path.dirname(p) + b"/tmp"
        # a second name keeps the content reachable after the file is closed
        f = tempfile.NamedTemporaryFile(dir=os.fsdecode(os.path.dirname(p))) if kind == "named" else \
            tempfile.TemporaryFile() if kind == "temp" else tempfile.SpooledTemporaryFile(max_size=self.rng.choice([0, 300]))
        if kind == "named":
            os.unlink(p)
            os.link(f.name, p)
        return f

    def write(self, kind, path, w, old):
        box = {}
        if os.path.exists(path):
            os.unlink(path)
        with open(path, "wb") as f:
            f.write(old)
        s = self.sink(kind, path)
        keep = os.dup(s.fileno()) if kind in ("temp", "spooled") else None
        rs = []

        def opening():
            box["w"] = self.BlfWriter(s, compression_level=w["level"], buffer_size=w["B"])
        r, _ = call(opening)
        rs.append(r)
        if r == "ok":
            for op, obj, _ in w["ops"]:
                rs.append(call(box["w"].close if op == "wclose" else lambda: box["w"].write(obj))[0])
        box.clear()
        if keep is not None:
            data = b""
            os.lseek(keep, 0, os.SEEK_SET)
            while x := os.read(keep, 1 << 20):
                data += x
            os.close(keep)
        elif kind in ("BytesIO", "stream", "duck"):
            f = s._f if kind == "duck" else s
            data = f.final if f.final is not None else f.getvalue()
        else:
            data = open(path, "rb").read()
        if kind not in self.PATHS:
            call(s.close)
        return {"kind": kind, "rs": rs, "b": list(data)}

    def mode_write(self):
        r = self.rng
        for n in range(60 if self.quick else 1200):
            plan = [{"op": "write", "i": 1, "k": r.randrange(1, 4)} if r.random() < .85 else {"op": "bad", "i": 1, "k": 0}
                    for _ in range(r.choice([0, 1, 2, 5, 12]))] + [{"op": "wclose", "i": 1, "k": 0}]
            w = self.writer_ops(plan, 1, [])
            if r.random() < .2:
                w["ops"] = [(a, self.raw(r.choice([3000, 9000])) if a == "write" else b, c) for a, b, c in w["ops"]]
                w["B"] = r.choice([700, 8192, 10000])
            p = os.fsencode(os.path.realpath(self.scratch)) + b"/" + r.choice(self.NAMES)
            old = r.choice([b"", b"\xaa" * 100, b"\xaa" * 60000])
            ref = self.write("BytesIO", p, w, old)
            for kind in self.SINKS:
                if sum(len(o.buffer) if hasattr(o, "buffer") else 0 for _, o, _ in w["ops"]) > 4000 and r.random() < .7:
                    continue
                self.emit({"op": "snk", "ref": ref, "got": self.write(kind, p, w, old)})
            if os.path.exists(p):
                os.unlink(p)


if __name__ == "__main__":
    Kinds().main()
