"""Writer driver: performs sessions on the real writer and records every access to the sink."""
import bisect, hashlib, io, json, os, re, struct, zlib
from drv import Driver, Duck, boom, call, limit, Hang
import blf


class Leave(Exception):
    """raised by the body of a with statement"""


class Sink(io.BytesIO):
    """An in-memory file that records every access and fails where told to."""
    LIMIT = 20000

    def __init__(self):
        super().__init__()
        self.log, self.count, self.fail, self.fired, self.final, self.total = [], 0, 0, False, None, 0

    def begin(self, fail=0):
        self.log, self.count, self.fail, self.fired = [], 0, fail, False

    def write(self, b):
        b = bytes(b)
        self.count += 1
        self.total += 1
        if self.total > self.LIMIT:
            raise Hang()
        pos = self.tell()
        if self.fail and self.count == self.fail:
            self.fired = True
            self.part(pos, b)
            raise boom()
        n = super().write(b)
        self.log.append([pos, list(b)])
        return n

    def part(self, pos, b):
        """what is stored of an access that fails: nothing, or a part of it"""
        if not b:
            return
        x = zlib.crc32(b"%d %d %d" % (self.total, pos, len(b)))
        k = [0, len(b) // 2, 0, 1, len(b) - 1, 0, min(len(b) - 1, 31 + x % 5), (x >> 8) % len(b)][x >> 5 & 7]
        if 8 < k < 12:
            k = 8            # a size half old and half new is not followed
        if k > 0:
            io.BytesIO.write(self, b[:k])
            self.log.append([pos, self.kept(b[:k])])

    kept = staticmethod(list)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
        super().close()

    def content(self):
        return self.final if self.final is not None else self.getvalue()


class Disk(io.RawIOBase):
    """What is under a buffered file: it takes a part, then refuses the rest, as a full disk does."""
    def __init__(self, size):
        super().__init__()
        self.data, self.at = bytearray(), 0
        self.log, self.count, self.fail, self.fired, self.rest, self.total = [], 0, 0, False, False, 0
        self.face = io.BufferedRandom(self, size) if size % 2 else io.BufferedWriter(self, size)

    def begin(self, fail=0):
        self.log, self.count, self.fail, self.fired, self.rest = [], 0, fail, False, False

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        n = min(len(b), max(0, len(self.data) - self.at))
        b[:n] = self.data[self.at:self.at + n]
        self.at += n
        return n

    def write(self, b):
        b = bytes(b)
        self.count += 1
        self.total += 1
        if self.total > Sink.LIMIT:
            raise Hang()
        if self.rest:
            self.rest, self.fired = False, True
            raise OSError(28, "disk full")
        if self.fail and self.count == self.fail:
            k = [0, len(b) // 2, 1, len(b) - 1][(self.total + len(b)) % 4]
            if k == 0:
                self.fired = True
                raise OSError(28, "disk full")
            self.rest = True
            b = b[:k]
        self.log.append([self.at, list(b)])
        if self.at > len(self.data):
            self.data += bytes(self.at - len(self.data))
        self.data[self.at:self.at + len(b)] = b
        self.at += len(b)
        return len(b)

    def seek(self, n, how=0):
        self.at = n if how == 0 else self.at + n if how == 1 else len(self.data) + n
        return self.at

    def tell(self):
        return self.at

    def content(self):
        return bytes(self.data)


EXCEPTIONS = [Leave, Leave, ValueError, TypeError, OSError, KeyError, RuntimeError, StopIteration, AssertionError, struct.error, zlib.error,
              OverflowError, EOFError, MemoryError, BrokenPipeError, UnicodeError, AttributeError, NotImplementedError,
              KeyboardInterrupt, SystemExit, GeneratorExit]
BUFS = [1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 56, 64, 100, 128]


class Writer(Driver):
    def __init__(self):
        super().__init__()
        from vblf.writer import BlfWriter
        from vblf.reader import BlfReader
        self.BlfWriter, self.BlfReader = BlfWriter, BlfReader
        self.serial = 0
        self.ids = {}

    # --------------------------------------------------------------- objects
    def raw(self, n, mutable=False):
        """an unsupported object of any size >= 16"""
        self.serial += 1
        R = self.real
        code = 1000 + self.serial
        payload = self.gen.data(n - 16) if self.rng.random() < .6 else bytes(n - 16)
        buf = blf.base(n, code, 16) + payload
        hb = R["ObjectHeaderBase"](b"LOBJ", 16, 1, n, R["constants"].ObjType.UNKNOWN)
        return R["NotImplementedObject"](R["HeaderWithBase"](hb), bytearray(buf) if mutable else buf)

    def supported(self, cls, parts=None, **kw):
        self.serial += 1
        fs = [f[0] for f in self.lay.fields(cls)]
        sp = {"header.object_time_stamp": self.serial} if "header.object_time_stamp" in fs else {}
        vals, b = self.gen.make(cls, "rand", special=sp, parts=parts, **kw)
        return self.real[cls].unpack(b)

    def sized(self, n, mutable=False):
        r = self.rng
        x = r.random()
        if mutable and x < .5:
            return self.raw(n, True)
        if n >= 48 and x < .4:
            return self.supported("AppText", parts=["a" * (n - 48)], fill=0)
        if n >= 64 and x < .6:
            return self.supported("EthernetFrameEx", parts=[self.gen.data(n - 64)], fill=0)
        if n in (40, 48, 56, 64) and x < .8:
            return self.supported({40: "CanErrorFrame", 48: "CanMessage", 56: "CanMessage2", 64: "CanErrorFrameExt"}[n])
        return self.raw(n)

    def size(self, kind, B):
        r = self.rng
        cap = 40 if B < 8 else 90 if B < 24 else 600
        n = {"min": 16, "s": r.randrange(16, 41), "odd": r.choice([17, 19, 21, 23, 29, 31, 37]), "eq": B, "m1": B - 1, "p1": B + 1,
             "half": B // 2, "dbl": 2 * B, "tri": 3 * B + 5, "big": 10 * B + 3, "al": 8 * r.randrange(2, 9)}[kind]
        return min(max(16, n), cap)

    def badobj(self, kind):
        R, r = self.real, self.rng
        if kind in ("plus", "minus", "zero", "plus8"):
            o = self.raw(r.choice([16, 24, 29, 48]))
            o.header.base.object_size = {"plus": o.header.base.object_size + 1, "minus": o.header.base.object_size - 1,
                                         "zero": 0, "plus8": o.header.base.object_size + 8}[kind]
            return o
        if kind == "range":
            o = self.supported("CanMessage")
            o.channel = r.choice([65536, -1, 1 << 40])
            return o
        if kind == "text":
            o = self.supported("AppText", parts=["abc"])
            o.text = "\u4e2d"
            return o
        if kind == "type":
            return r.choice([None, 5, "x", b"LOBJ" + bytes(44)])
        if kind == "raise":
            class Bad(R["NotImplementedObject"]):
                def pack(self):
                    raise RuntimeError("cannot be encoded")
            o = self.raw(40)
            return Bad(o.header, o.buffer)
        if kind == "short":
            o = self.raw(48)
            o.buffer = o.buffer[:r.choice([0, 0, r.randrange(8, 48)])] if r.random() < .6 else o.buffer + b"\0\0\0\0xy"[r.randrange(6):]
            return o
        raise KeyError(kind)

    def mutate(self, o, kind):
        """changes the object, never its being encodable"""
        if isinstance(o, self.real["NotImplementedObject"]):
            if isinstance(o.buffer, bytearray):
                o.buffer[16:] = bytes(b ^ 0x5A for b in o.buffer[16:])
            else:
                o.buffer = o.buffer[:16] + bytes(b ^ 0x5A for b in o.buffer[16:])
            return
        fields = self.lay.fields(type(o).__name__)
        if kind == "one":
            fields = self.rng.sample(fields, 1)
        for f in fields:
            path, fk, off, w, sym = f
            if kind == "texts" and fk == "u":
                continue
            if fk == "u" and not sym and not re.search("size|length|count|bytes|offset", path) and not path.startswith("header.base"):
                *pre, last = path.split(".")
                t = o
                for a in pre:
                    t = getattr(t, a)
                setattr(t, last, (getattr(t, last) + 1) % (1 << 8 * w))
            elif fk in "bB" and "." not in path:
                setattr(o, path, bytes(b ^ 0xFF for b in getattr(o, path)))
            elif isinstance(getattr(o, path, None), str):     # other characters of the same length
                setattr(o, path, "".join(chr(ord(c) ^ 1) if c.isascii() and c.isalnum() else c for c in getattr(o, path)))
        if kind == "grow":
            L = self.lay.cls[type(o).__name__]
            if L["tail"] in ("parts", "concat", "text") and o.header.base.object_size < 1 << 20:
                name, at, enc = self.rng.choice(L["parts"])
                size = next(f[0] for f in self.lay.fields(type(o).__name__)[:L["nfixed"]] if f[2] == at)
                more = b"\x01\x00" if enc == "b" else "\x01y"
                if len(getattr(o, name)) == getattr(o, size):
                    setattr(o, name, getattr(o, name) + more)
                    setattr(o, size, getattr(o, size) + 2)
                    o.header.base.object_size += 2

    def ident(self, o):
        cls = type(o).__name__
        vals = self.lay.project(cls, o) if cls in self.lay.cls else []
        return self.ids.setdefault(json.dumps([cls, vals]), len(self.ids) + 1)

    # ------------------------------------------------------------- recording
    def table(self, data):
        """what the compressed bytes found in a file inflate to (zlib is trusted)"""
        out, seen = [], set()
        p = data.find(b"LOBJ")
        while p >= 0:
            if len(data) - p >= 32:
                n, = struct.unpack_from("<I", data, p + 8)
                if data[p + 12] == 10 and 32 <= n <= len(data) - p and data[p + 16] != 0:
                    c = data[p + 32:p + n]
                    if c not in seen:
                        seen.add(c)
                        d = zlib.decompressobj()
                        try:
                            u = d.decompress(c)
                            ok = d.eof and not d.unused_data
                        except zlib.error:
                            u, ok = b"", False
                        out.append({"c": list(c), "ok": ok, "u": list(u) if ok else []})
            p = data.find(b"LOBJ", p + 1)
        return out

    def pack(self, o):
        r, b = call(o.pack)
        return bytes(b) if r == "ok" and isinstance(b, (bytes, bytearray)) else b""

    def session(self, plan, level, B, seconds=10, fresh=False, skipbad=False, on=None, clock=None, sink=None, crashes=False, openfail=False, timed=False):
        """performs a plan; returns (events, sink, contents over time)
        fresh: every object is written from an own copy (reference for W10)
        skipbad: refused writes are left out (reference for W06)
        timed: the clock advances from operation to operation"""
        ev, s = [], sink or Sink()
        datas = []                       # every content of the sink, for the inflate table
        hung = False

        def event(kind, fn, fail=0, **kw):
            nonlocal hung
            if hung:
                return None
            before = s.content()
            s.begin(fail)
            r, res = call(fn, seconds=seconds)
            e = {"e": kind, "r": r, "sw": s.log, "flt": s.fired, "closed": s.closed, **kw}
            if r == "err":
                e["x"] = repr(res)[:120]
            if r == "hang":
                hung = True
                e["sw"] = []
            if crashes and not hung:
                self.crash(e, before)
            ev.append(e)
            if kind != "write" or s.log:
                datas.append(s.content())
            return r, res
        box = {}

        def opening():
            duck = self.rng.random() < .3
            box["w"] = self.BlfWriter(getattr(s, "face", None) or (Duck(s) if duck else s), compression_level=level, buffer_size=B)
        if clock and timed:
            clock.set(1700000000, 250000)
        elif clock:
            clock.start()
        event("open", opening, 1 if openfail else 0)
        w = box.get("w")
        if w is None:
            return ev, s, datas
        last = None
        t_open = clock.now if clock else None
        t_last = t_open
        self.known = {}

        def write(o, bad=False, fail=0):
            nonlocal t_last
            b = b"" if bad else self.pack(o)
            i1 = self.ident(o)
            x = event("write", lambda: w.write(o), fail, b=list(b), bad=bad)
            if x:
                ev[-1].update(i1=i1, i2=self.ident(o))
            if x and not bad:
                ev[-1].update(b2=list(self.pack(o)))
                if x[0] == "ok":
                    t_last = clock.now if clock else None
            return x
        for n, o in enumerate(plan):
            op, k, f = o["op"], o["kind"], o["f"]
            if timed:
                clock.set(1700000000 + 86399 * (n + 1), 1000 * n + 123000)
            if op == "w":
                last = self.sized(self.size(k, B), mutable=any(p["op"] == "mut" for p in plan))
                self.learn(last)
                write(self.clone(last) if fresh else last, fail=f)
            elif op == "dup":
                write(self.clone(last) if fresh else last)
            elif op == "mut":
                self.mutate(last, k)
            elif op == "bad":
                if not skipbad:
                    write(self.badobj(k), bad=True)
            elif op == "tick":
                clock.move(k)
            elif op in ("close", "again"):
                event("close", w.close, f, **self.clk(t_open, t_last, clock))
            elif op == "exit":
                event("exit", lambda: w.__exit__(None, None, None), f, **self.clk(t_open, t_last, clock))
            elif op == "exc":
                exc = self.rng.choice(EXCEPTIONS)()
                bad = self.badobj(self.rng.choice(["plus", "minus", "zero", "range", "text", "raise", "short"])) if self.rng.random() < .2 and not f else None

                def body():
                    try:
                        with w as inner:
                            if bad is not None and inner is w:
                                w.write(bad)
                            raise exc
                    except BaseException as x:          # noqa: BLE001
                        if x is not exc and (bad is None or isinstance(x, Hang)):
                            raise
                        return True
                    return False
                x = event("exc", body, f, **self.clk(t_open, t_last, clock))
                if x:
                    ev[-1]["prop"] = bool(x[0] == "ok" and x[1])
            elif op == "late":
                write(self.raw(24))
        return ev, s, datas

    def clk(self, a, b, clock):
        return {"clk": [clock.split(a), clock.split(b)]} if clock else {}

    def clone(self, o):
        import copy
        return copy.deepcopy(o)

    def learn(self, o):
        pass

    # ---------------------------------------------------------------- crashes
    def crash(self, e, before):
        """reads the file as it would be if the session had died inside this call"""
        out = []
        disk = bytearray(before)
        for s, (pos, data) in enumerate(e["sw"], 1):
            data = bytes(data)
            prev = None
            for k in range(0 if s == 1 else 1, len(data) + 1):
                d = bytearray(disk)
                d[pos:pos + k] = data[:k]
                if len(d) < 144:
                    continue
                got = self.recover(bytes(d))
                if prev and prev["ids"] == got[0] and prev["k"] == got[1]:
                    prev["hi"] = k
                else:
                    prev = {"s": s, "lo": k, "hi": k, "ids": got[0], "k": got[1]}
                    out.append(prev)
            disk[pos:pos + len(data)] = data
        e["cr"] = out

    def recover(self, data):
        ids = []
        try:
            with limit(5):
                try:
                    for o in self.BlfReader(io.BytesIO(data)):
                        ids.append(self.ident(o))
                        if len(ids) > 500:
                            return ids, "hang"
                except Exception as x:              # noqa: BLE001
                    return ids, "err"
        except Hang:
            return ids, "hang"
        return ids, "end"

    def number(self, ev):
        """identities of recovered objects -> positions in the log of this session"""
        pos, order = {}, 0
        for e in ev:
            if e["e"] == "write" and not e["bad"] and (e["r"] == "ok" or e["flt"]):
                order += 1
                pos.setdefault(self.back.get(tuple(e["b"])), order)
        for e in ev:
            for c in e.get("cr", []):
                c["ids"] = [pos.get(i, 0) for i in c["ids"]]

    def record(self, ev, level, B, datas, **kw):
        seen, z = set(), []
        for d in datas:
            for t in self.table(d):
                if (k := bytes(t["c"])) not in seen:
                    seen.add(k)
                    z.append(t)
        for e in ev:
            e.setdefault("prop", False)
        self.emit({"lvl": level, "buf": B, "z": z, "twin": "", "tprop": "", "tfile": [], "tz": [], "ev": ev, **kw})

    def choose(self, plan):
        r = self.rng
        return r.choice([0, 0, 1, 6, 9]), r.choice(BUFS)

    # ------------------------------------------------------------------ modes
    def mode_plans(self):
        """sessions without a twin"""
        for plan in self.data:
            level, B = self.choose(plan)
            ev, s, datas = self.session(plan, level, B)
            self.record(ev, level, B, datas)

    def mode_W05(self):
        """non-positive buffer sizes, by kind of target; then the plans"""
        import pathlib
        for n, B in enumerate([0, -1, -8, -131072, -(1 << 40)] * 6):
            path = os.path.join(self.scratch, f"t{n}")
            s = Sink()
            old = b"precious"
            exists = n % 2 == 0
            if exists:
                with open(path, "wb") as f:
                    f.write(old)
            target = [s, path, path.encode(), pathlib.Path(path)][n % 4 if n < 24 else 0]
            r, _ = call(self.BlfWriter, target, compression_level=self.rng.choice([0, 6]), buffer_size=B)
            touched = (open(path, "rb").read() != old) if exists and os.path.exists(path) else os.path.exists(path) != exists
            self.record([{"e": "open", "r": r, "sw": s.log, "flt": False, "closed": s.closed, "touched": touched}], 0,
                        max(B, -(1 << 30)), [])
        self.mode_plans()

    def mode_W09(self):
        for plan in self.data:
            level, B = self.choose(plan)
            ev, s, datas = self.session(plan, level, B, openfail=self.rng.random() < .03)
            self.record(ev, level, B, datas)
        # on top of buffered files, as the writer opens them itself
        for plan in self.data:
            if self.rng.random() < .5:
                level, B = self.choose(plan)
                ev, s, datas = self.session(plan, level, B, sink=Disk(self.rng.choice([1, 2, 7, 16, 40, 64, 100, 300, 1000, 8192])))
                self.record(ev, level, B, datas)

    def twin(self, plan, prop, kind, **ref):
        level, B = self.choose(plan)
        st, serial = self.rng.getstate(), self.serial
        ev, s, datas = self.session(plan, level, B)
        end, eserial = self.rng.getstate(), self.serial
        self.rng.setstate(st)
        self.serial = serial
        _, s2, datas2 = self.session(plan, level, B, **ref)
        self.rng.setstate(end)
        self.serial = eserial
        f2 = s2.content()
        self.record(ev, level, B, datas, twin=kind, tprop=prop, tfile=list(f2), tz=self.table(f2))

    def mode_W06(self):
        clock = Clock(self.rng)
        for plan in self.data:
            # the objects refused must not influence the random choices of the others
            self.prepared(plan, "W06", "fill", dict(clock=clock, timed=True), dict(skipbad=True, clock=clock, timed=True))
        clock.release()

    def mode_W10(self):
        keep = self.sized
        for plan in self.data:
            bad = any(o["op"] == "bad" for o in plan)
            if self.rng.random() < .3:
                self.sized = lambda n, mutable=False: self.anyobj()
            if bad:
                level, B = self.choose(plan)
                ev, s, datas = self.session(plan, level, B)
                self.record(ev, level, B, datas)
            else:
                self.twin(plan, "W10", "exact", fresh=True)
            self.sized = keep

    def mode_pure(self):
        """W10: encoding any object, well-formed or not, leaves it as it is"""
        r, g = self.rng, self.gen
        for cls in self.lay.objects + self.lay.structs:
            if cls == "NotImplementedObject":
                continue
            for k in range(60 if self.quick else 1500):
                vals, b = g.make(cls)
                vals = list(vals)
                fs = self.lay.fields(cls)
                for i in r.sample(range(len(fs)), min(len(fs), r.choice([0, 1, 1, 2, 5]))):
                    f = fs[i]
                    if f[1] in "us":
                        vals[i] = r.choice([0, 1, 8, 64, 65, (1 << 8 * f[3]) - 1 if f[1] == "u" else -1, g.intval(f, "rand")])
                        if re.search("size|length|count|bytes|offset", f[0]) and f[3] > 1:
                            vals[i] = r.choice([0, 1, 7, 8, 64, r.randrange(300)])
                        if f[4] in self.lay.closed or f[4] == "AppId":
                            vals[i] = g.intval(f, "rand")
                    elif f[1] == "b":
                        vals[i] = r.choice([b"", b"\1", vals[i][:-1], vals[i] + b"\2\3"])
                    elif f[1] == "S":
                        vals[i] = r.choice(["", "x", vals[i] + "\0", vals[i] + "yz"])
                    elif f[1] == "B":
                        vals[i] = r.choice([b"", b"\1", bytes(vals[i])[:-1], bytes(vals[i]) + b"\2\3"])
                try:
                    obj = self.real[cls].unpack(b) if k % 5 == 0 and hasattr(self.real[cls], "unpack") else self.builder.build(cls, vals, symbolic=r.random() < .7)
                except Exception:           # noqa: BLE001
                    continue                # the class refuses such values
                res, snap = [], []
                for _ in range(3):
                    snap.append(self.lay.project(cls, obj))
                    if hasattr(obj, "pack"):
                        rr, out = call(obj.pack)
                    else:
                        out = bytearray(self.lay.cls[cls]["end"])
                        rr, _ = call(obj.pack_into, out, 0)
                    res.append([rr, list(out) if rr == "ok" and isinstance(out, (bytes, bytearray)) else []])
                snap.append(self.lay.project(cls, obj))
                self.emit({"op": "pure", "cls": cls, "snaps": snap, "res": res})

    def prepared(self, plan, prop, kind, first, ref):
        level, B = self.choose(plan)
        objs = [self.sized(self.size(o["kind"], B)) if o["op"] == "w" else None for o in plan]
        keep = self.sized
        try:
            res = []
            for extra in (first, ref):
                it = iter([o for o in objs if o is not None])
                self.sized = lambda n, mutable=False: next(it)
                res.append(self.session(plan, level, B, **extra))
        finally:
            self.sized = keep
        (ev, s, datas), (_, s2, _) = res
        f2 = s2.content()
        self.record(ev, level, B, datas, twin=kind, tprop=prop, tfile=list(f2), tz=self.table(f2))

    def mode_W04(self):
        for plan in self.data:
            level, B = self.choose(plan)
            self.back = {}
            self.learn = lambda o: self.back.__setitem__(tuple(self.pack(o)), self.canonical(o))
            ev, s, datas = self.session(plan, level, B, crashes=True)
            self.number(ev)
            self.record(ev, level, B, datas)

    def canonical(self, o):
        """identity of the object as it is read on its own"""
        b = self.pack(o)
        cls = type(o)
        r, x = call(cls.unpack, b)
        return self.ident(x) if r == "ok" else 0


    # ------------------------------------------------------------ W01, W02 --
    def bigsession(self, objs, level, B, step=1000, sink=None, path=None, seconds=120, orig=None, leave="with"):
        """writes the objects, reads them back; orig: the (ids, sizes, data) of the session this one is a copy of
        -> (ids, sizes, data)"""
        s = sink or Sink()
        s.write = lambda b: io.BytesIO.write(s, b)        # no access log
        wr, sizes, rd = [], [], []
        kw = {} if B is None else {"buffer_size": B}
        okay, rend = "ok", "end"

        def fill(w):
            for o in objs:
                i, n = self.fast(o)
                w.write(o)
                wr.append(i)
                sizes.append(n)
        try:
            with limit(seconds):
                try:
                    w = self.BlfWriter(path or s, compression_level=level, **kw)
                    if leave == "close":
                        fill(w)
                        w.close()
                    else:
                        with w:
                            fill(w)
                            if leave == "exc":
                                raise Leave
                        okay = "ok" if leave == "with" else "the exception does not propagate"
                except Leave:
                    pass
                except Exception as x:      # noqa: BLE001
                    okay = type(x).__name__
                data = (open(path, "rb").read() if path else s.content())
                try:
                    r = self.BlfReader(io.BytesIO(data))
                    while (o := r.read_object()) is not None:
                        rd.append(self.fast(o)[0])
                        if len(rd) > len(wr) + 1000:
                            break
                except Exception as x:      # noqa: BLE001
                    rend = "error"
        except Hang:
            okay = rend = "hang"
            data = s.content()
        extra = {}
        if orig:
            wr, sizes, twin = orig
            if twin:
                extra["twin"] = [[list(x[:144]), [hashlib.sha256(x[k:k + 65536]).hexdigest()[:16] for k in range(144, len(x), 65536)]]
                                 for x in (data, twin)]
        n = max(1, -(-len(wr) // step))
        b = [{"w": wr[k * step:(k + 1) * step], "s": sizes[k * step:(k + 1) * step],
              "d": rd[k * step:(k + 1) * step] if k < n - 1 else rd[k * step:]} for k in range(n)]
        self.emit({"b": b, "ok": okay, "rend": rend, "hdr": list(data[:144]), "flen": len(data), "lvl": level,
                   "buf": B or 131072, **extra})
        return wr, sizes, data

    def counts(self, ns):
        """any number of objects"""
        r = self.rng
        sizes = [16 + r.randrange(40) for _ in range(97)]
        many = [self.raw(n) for n in sizes]
        for n in ns:
            a = r.randrange(1, 97)
            self.bigsession((many[(k * a) % 97] for k in range(n)), r.choice([0, 1, 6]), r.choice([None, None, 4096, 10007]),
                            leave=r.choice(["with", "close", "exc"]))

    def mode_counts(self):
        for k in (8, 9, 10, 12, 13, 14, 15, 16) if self.quick else range(2, 19):
            self.counts([(1 << k) - 1, 1 << k, (1 << k) + 1])
        self.counts([0, 1, 2, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001])

    def anyobj(self):
        """an object of any class, decoded or built from values"""
        r = self.rng
        if r.random() < .15:
            return self.raw(r.choice([16, 17, 23, 40, 100]))
        cls = r.choice([c for c in self.lay.objects if c not in ("LogContainer", "NotImplementedObject")])
        vals, b = self.gen.make(cls)
        if r.random() < .5:
            return self.real[cls].unpack(b)
        return self.builder.build(cls, vals, symbolic=r.random() < .7)

    def edges(self):
        """-> (class, encoding): contents that could be taken for padding, terminators or numbers"""
        r = self.rng
        for cls in self.lay.objects:
            L = self.lay.cls[cls]
            if cls in ("LogContainer", "NotImplementedObject"):
                continue
            encs = [p[2] for p in L["parts"]] if L["tail"] in ("parts", "concat", "text") else ["b"] if L["tail"] in ("avail", "rest") else []
            for code in L["codes"]:
                yield cls, self.gen.make(cls, r.choice(["zero", "ones", "high", "mark"]), code=code)[1]
                for k in range(len(encs)):
                    for e in ("\0\0", "ab\0\0", "ab\0\0\0\0\0\0\0", "\0\0ab", "a\0b\0", "ab \n", " \t ab\r\n", "\n", " ", "0", "-1", "ab" * 8, "a" * 7 + "\0"):
                        if "\0" in e and L["tail"] == "text":
                            e = e.rstrip("\0")
                        parts = [self.gen.data(r.randrange(3)) if x == "b" else self.gen.text(x, r.randrange(3)) for x in encs]
                        parts[k] = e.encode() if encs[k] == "b" else e
                        yield cls, self.gen.make(cls, "rand", code=code, parts=parts, fill=0 if L["tail"] == "concat" else None)[1]

    def mode_W01(self):
        r = self.rng

        def noise(n):           # incompressible
            return b"".join(hashlib.sha256(b"%d/%d" % (self.serial, k)).digest() for k in range(n // 32 + 1))[:n]

        def blob(n, random=False):
            o = self.raw(16 + n % 7 if n < 64 else n)
            if random:
                o.buffer = o.buffer[:16] + noise(len(o.buffer) - 16)
            return o
        # every class through every level
        for level in range(10):
            for B in r.sample([1, 2, 3, 5, 7, 8, 13, 16, 17, 24, 48, 64, 100, 256, 1000, 4096, 65536, 131072], 6 if self.quick else 18):
                self.bigsession([self.anyobj() for _ in range(r.choice([1, 3, 25]))], level, B)
        for cls in self.lay.objects:
            if cls in ("LogContainer", "NotImplementedObject"):
                continue
            for B in r.sample([1, 7, 8, 40, 300, None], 2 if self.quick else 6):
                objs = []
                for _ in range(12):
                    vals, b = self.gen.make(cls)
                    objs.append(self.real[cls].unpack(b) if r.random() < .5 else self.builder.build(cls, vals))
                self.bigsession(objs, r.randrange(10), B)
        edges = [self.real[cls].unpack(b) for cls, b in self.edges()]
        for k in range(0, len(edges), 200):
            self.bigsession(edges[k:k + 200], r.randrange(10), r.choice([40, 1000, None]))
        # sizes around the buffer size and its multiples
        for B in (64, 100, 1000, 1024, 4096, 32768, 65535, 65536, 131072):
            objs = [blob(max(16, k * B // 2 + d), r.random() < .5) for k in (1, 2, 3, 4, 7, 8) for d in (-9, -8, -7, -1, 0, 1, 7, 8, 9)
                    if k * B < 300000]
            r.shuffle(objs)
            for level in (0, r.choice(range(1, 10))):
                self.bigsession(objs[:20 if self.quick else 54], level, B)
        self.bigsession([], 0, None), self.bigsession([], 9, 8)
        # much larger than the buffer, compressible or not
        for n in (65519, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 1 << 20, (5 << 20) + 3):
            for level in (0, 1, 6, 9) if not self.quick or n < 300000 else (0, 6):
                self.bigsession([blob(n, r.random() < .5), self.anyobj(), blob(n - 1, True)], level, r.choice([None, None, 65536, 1 << 16, 10007]))
        self.bigsession([self.supported("AppText", parts=["t" * 300000]), self.supported("EthernetFrameEx", parts=[noise(60000)])], 6, 4096)
        # containers of every size order, of all kinds of content
        for B in (200000, 400000, 700000, 1 << 20, (1 << 20) + 1, 2000003, 1 << 22, 1 << 24) if self.quick else \
                (200000, 300000, 400000, 500000, 600000, 700001, 800000, 900000, 1 << 20, (1 << 20) + 1, 1500000, 2000003, 1 << 22, 1 << 23, 1 << 24, 1 << 26):
            for kind in ("noise", "zero", "mixed"):
                n = min(B + B // 8, 5 << 20)
                step = r.choice([n // 3, 70000, 20000])
                objs = []
                for k in range(n // step + 1):
                    o = self.raw(step + k)
                    o.buffer = o.buffer[:16] + (bytes(step + k - 16) if kind == "zero" or kind == "mixed" and k % 2 else noise(step + k - 16))
                    objs.append(o)
                for level in r.sample([0, 1, 3, 6, 9], 2 if self.quick else 5):
                    self.bigsession(objs, level, B)
        # very many objects, very many containers
        many = [self.raw(16 + k % 29) for k in range(500)]
        for n, level, B in ((70000, 0, None), (70000, 6, 8192)) + (() if self.quick else ((200000, 1, None), (140000, 9, 100000))):
            self.bigsession((many[(k * k + k // 7) % 500] for k in range(n)), level, B)
        for n, level, B in ((3000, 0, 1), (2000, 6, 8)) + (() if self.quick else ((70000, 0, 16), (70000, 1, 24))):
            self.bigsession((many[(k * 7 + k // 11) % 500] for k in range(n)), level, B, seconds=200)
        self.counts([255, 256, 257, 1000, 1024, 4096, 10000, 32767, 32768, 65535, 65536, 65537] if self.quick else
                    [(1 << k) + d for k in range(2, 18) for d in (-1, 0, 1)])
        # to real files
        for k in range(6):
            self.bigsession([self.anyobj() for _ in range(40)], r.choice([0, 6, 9]), r.choice([None, 8, 100]), path=os.path.join(self.scratch, f"x{k}"))
        for _ in range(40 if self.quick else 1500):
            self.bigsession([self.anyobj() for _ in range(r.choice([1, 2, 5, 30]))], r.randrange(10), r.choice(BUFS + [200, 500, 1000, 5000]))

    # ---------------------------------------------------------- large sessions
    def big(self, n):
        """an object of about n bytes with a content of its own"""
        r = self.rng
        x = r.random()
        if n >= 64 and x < .15:
            return self.supported("AppText", parts=["t" * (n - 48)], fill=0)
        if 64 <= n < 60000 and x < .3:
            return self.supported("EthernetFrameEx", parts=[self.gen.data(n - 64)], fill=0)
        if n <= 64 and x < .5:
            return self.anyobj()
        n = max(24, n)
        kind = r.randrange(6)
        self.serial += 1
        pay = n - 24
        if kind <= 1:
            k = r.randrange(1 << 20)
            body = self.noise[k:k + pay]
            while len(body) < pay:
                body += self.noise[:pay - len(body)]
        elif kind == 2:
            body = bytes(pay)
        elif kind == 3:
            body = (b"LOBJ" * (pay // 4 + 1))[:pay]
        elif kind == 4:
            body = (blf.container(b"x" * 16, 0, 16) * (pay // 48 + 1))[:pay]
        else:
            body = (self.noise[:4000] * (pay // 4000 + 1))[:pay]
        R = self.real
        buf = blf.base(n, 1000 + self.serial % 60000, 16) + struct.pack("<II", self.serial, 0x41414141) + body
        hb = R["ObjectHeaderBase"](b"LOBJ", 16, 1, n, R["constants"].ObjType.UNKNOWN)
        return R["NotImplementedObject"](R["HeaderWithBase"](hb), bytearray(buf) if r.random() < .5 else buf)

    def scale(self, kind, B):
        """objects to write for one step of a plan"""
        r = self.rng
        cap = max(3 << 20, B + 16)
        few = {"few": 5, "many": r.choice([40, 150, 400])}.get(kind)
        if few:
            return [self.big(r.choice([16, 24, 29, 40, 48, 64, 100, r.randrange(16, 300)])) for _ in range(few)]
        n = {"min": 16, "frac": B // r.randrange(3, 40), "half": B // 2 + r.randrange(-9, 10), "m1": B - r.randrange(1, 10), "eq": B,
             "p1": B + r.randrange(1, 10), "dbl": 2 * B + r.randrange(-9, 10), "tri": 3 * B + 5, "big": r.choice([10 * B + 3, 70000, 140000, 300001]),
             "any": r.choice([r.randrange(16, 1 << r.randrange(5, 18)), 65535, 65536, 131072, 1 << 19])}[kind]
        return [self.big(min(max(16, n), cap))]

    LARGEBUFS = [100, 512, 1000, 1024, 4096, 5000, 10007, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 131071, 200000, 262144, 500001, 1 << 20]

    def mode_scaled(self):
        """sessions far beyond the reach of the byte-level machine"""
        import hashlib
        self.noise = b"".join(hashlib.sha256(b"noise%d" % k).digest() for k in range(1 << 16))
        crashes = self.opts["focus"] == "W04"
        if self.opts["focus"] in ("W03", "W05", "W07", "W09", "W10"):
            # positions in the file that need more than 24 bits
            for level, B in [(0, (1 << 20) + 3)] if self.quick else [(0, (1 << 20) + 3), (0, 70001), (1, 3000017)]:
                kinds = ["eq", "m1", "p1", "min", "tri"] + ["dbl", "half", "eq", "any"] * 5 if B > 100000 else ["big", "tri", "eq"] * 40
                plan = [{"op": "w", "kind": k, "f": 0} for k in kinds]
                self.largesession(plan + [{"op": "close", "kind": "", "f": 0}], level, B, False, 70 << 20)
        for plan in self.data:
            if not crashes and self.rng.random() < .03:
                self.largesession(plan, self.rng.choice([0, 1]), self.rng.choice([1500001, (2 << 20) + 1, 3 << 20, 1 << 22, 1 << 23]), crashes)
                continue
            self.largesession(plan, self.rng.choice([0, 0, 1, 2, 3, 5, 6, 7, 8, 9]), self.rng.choice(self.LARGEBUFS), crashes)

    def largesession(self, plan, level, B, crashes, total=6 << 20):
        r = self.rng
        s = Extent()
        rec = Follower(s)
        ev, left, points, canon, hung = [], [total], [60], {}, [False]

        def event(kind, fn, fail=0, obj=None, bad=False, seconds=30):
            if hung[0]:
                return None
            n = i = 0
            if obj is not None and not bad:
                b = self.pack(obj)
                n, i = len(b), rec.name(b)
                if crashes and i not in canon.values():
                    rr, x = call(type(obj).unpack, b)
                    if rr == "ok":
                        canon[self.fast(x)[0]] = i
            f1 = self.fast(obj)[0] if obj is not None else 0
            start = s.extent()
            keep = s.getvalue() if crashes and points[0] > 0 and not s.closed else None
            s.begin(fail)
            res, val = call(fn, seconds=seconds)
            e = {"e": kind, "r": res, "flt": s.fired, "closed": s.closed, "bad": bad, "id": i, "n": n, "prop": False, "wrote": bool(s.log),
                 "same": True, "again": True}
            if res == "err":
                e["x"] = repr(val)[:100]
            if kind == "exc":
                e["prop"] = res == "ok" and bool(val)
            if obj is not None:
                e["same"] = f1 == self.fast(obj)[0]
                e["again"] = bad or self.pack(obj) == b
            if res == "hang":
                hung[0] = True
                more, last = [], rec.nothing()
            else:
                more, last = rec.look()
                last["cr"] = self.points(s, keep, canon, points) if keep is not None else []
            first = True
            for cs, runs in more or [([], [])]:
                x = e if first else {"e": "data"}
                x.update(cs=cs, runs=runs, last=False)
                ev.append(x)
                first = False
            ev[-1].update(last=True, **last)
            return res, val

        box = {}

        def opening():
            kw = {} if B == 131072 and r.random() < .7 else {"buffer_size": B}
            box["w"] = self.BlfWriter(Duck(s) if r.random() < .3 else s, compression_level=level, **kw)
        event("open", opening)
        w = box.get("w")
        last = None
        failed = False
        done = w is None
        for o in plan:
            op, k, f = o["op"], o["kind"], o["f"]
            if done or hung[0]:
                break
            if op == "w":
                for last in self.scale(k, B):
                    if left[0] < 0 and last is not None and len(ev) > 3:
                        continue
                    left[0] -= last.header.base.object_size
                    obj = last
                    event("write", lambda: w.write(obj), f, obj=obj)
                    failed = failed or s.fired
                    f = 0
                    if r.random() < .1:
                        self.mutate(last, "all")
            elif op == "dup" and last is not None and not failed:
                event("write", lambda: w.write(last), 0, obj=last)
            elif op == "mut" and last is not None:
                self.mutate(last, k)
            elif op == "bad":
                bad = self.badobj(k)
                event("write", lambda: w.write(bad), 0, obj=bad, bad=True)
            elif op in ("close", "again"):
                event("close", w.close, f)
            elif op == "exit":
                event("exit", lambda: w.__exit__(None, None, None), f)
            elif op == "exc":
                exc = r.choice(EXCEPTIONS)()

                def body():
                    try:
                        with w:
                            raise exc
                    except BaseException as x:          # noqa: BLE001
                        if x is not exc:
                            raise
                        return True
                    return False
                event("exc", body, f)
            elif op == "late":
                late = self.raw(24)
                event("write", lambda: w.write(late), 0, obj=late)
        self.emit({"buf": B, "lvl": level, "ev": ev})

    def points(self, s, before, canon, left):
        """what a reader finds if the session died at some places inside this call"""
        out, r = [], self.rng
        disk = bytearray(before)
        for pos, data in s.log:
            if left[0] <= 0:
                break
            ks = {0, 1, len(data) - 1, len(data), len(data) // 2, min(len(data), r.choice([16, 31, 32, 33, 40]))} if len(data) > 4 else {len(data)}
            for k in r.sample(sorted(ks), min(len(ks), 3)):
                d = bytearray(disk)
                d[pos:pos + k] = data[:k]
                if len(d) < 144:
                    continue
                left[0] -= 1
                ids, end = [], "end"
                try:
                    with limit(30):
                        try:
                            for o in self.BlfReader(io.BytesIO(bytes(d))):
                                ids.append(canon.get(self.fast(o)[0], 0))
                                if len(ids) > 20000:
                                    raise Hang()
                        except Exception:           # noqa: BLE001
                            end = "err"
                except Hang:
                    end = "hang"
                out.append({"len": len(d), "ids": ids, "k": end})
            disk[pos:pos + len(data)] = data
        return out

    # -------------------------------------------------------- more than 4 GiB
    def mode_huge(self):
        """sessions of more than 4 GiB, whose few different contents are kept once"""
        r, M = self.rng, 1 << 20
        R = self.real

        class Kept(io.RawIOBase):
            """what was written, and read again"""
            def __init__(self):
                self.parts, self.at, self.top, self.pos, self.known = [], [], 0, 0, {}

            def writable(self):
                return True
            readable = seekable = writable

            def write(self, b):
                b = memoryview(b).cast("B")
                n = b.nbytes
                if self.pos < self.top:             # the file header, in place
                    if self.pos + n > 144:
                        raise OSError("written behind")
                    h = bytearray(self.parts[0])
                    h[self.pos:self.pos + n] = b
                    self.parts[0] = bytes(h)
                else:
                    k = hashlib.sha1(b).digest()
                    self.at.append(self.top)
                    self.parts.append(self.known.setdefault(k, bytes(b)) if k in self.known or len(self.known) < 12 else bytes(b))
                    self.top += n
                self.pos += n
                return n

            def tell(self):
                return self.pos

            def seek(self, n, how=0):
                self.pos = n + (0 if how == 0 else self.pos if how == 1 else self.top)
                return self.pos

            def read(self, n=-1):
                out = []
                n = self.top - self.pos if n is None or n < 0 else min(n, self.top - self.pos)
                k = bisect.bisect_right(self.at, self.pos) - 1
                while n > 0:
                    p = self.parts[k]
                    o = self.pos - self.at[k]
                    m = min(n, len(p) - o)
                    out.append(p[o:o + m] if m < len(p) else p)
                    self.pos += m
                    n -= m
                    k += 1
                return out[0] if len(out) == 1 else b"".join(out)

            def close(self):
                pass
            closed = False

        def obj(n, code, fill):
            hb = R["ObjectHeaderBase"](b"LOBJ", 16, 1, n, R["constants"].ObjType.UNKNOWN)
            return R["NotImplementedObject"](R["HeaderWithBase"](hb), blf.base(n, code, 16) + fill * (n - 16))

        def name(o):
            b = o.buffer if isinstance(o, R["NotImplementedObject"]) else b""
            k = (len(b), zlib.crc32(b), type(o).__name__)
            return self.ids.setdefault(k, len(self.ids) + 1)
        # (level, buffer, sizes)
        B = 64 * M
        plans = [(0, B, [B] * 66), (1, B, [B] * 65 + [24, 4000])]
        if not self.quick:
            plans += [(0, 16 * M, [16 * M] * 3 + [24] + [16 * M - 24] + [16 * M] * 260), (6, 3 * M, [96 * M] * 46 + [40]), (0, 100 * M, [100 * M + 16] * 45)]
        for level, B, sizes in plans:
            pool, w, n, d = {}, [], [], []
            res, rend, s, rd = "ok", "end", Kept(), None
            try:
                with limit(350):
                    try:
                        wr = self.BlfWriter(s, compression_level=level, buffer_size=B)
                        for k, size in enumerate(sizes):
                            key = (size, r.randrange(3))
                            if key not in pool:
                                o = obj(size, 1000 + len(pool), bytes([key[1]]))
                                pool[key] = (o, name(o))
                            o, i = pool[key]
                            wr.write(o)
                            w.append(i)
                            n.append([size // M, size % M])
                        wr.close()
                    except Exception as x:          # noqa: BLE001
                        res = type(x).__name__
                    try:
                        s.pos = 0
                        rd = self.BlfReader(s)
                        while (o := rd.read_object()) is not None and len(d) <= len(w):
                            d.append(name(o))
                    except Exception:               # noqa: BLE001
                        rend = "error"
            except Hang:
                res = rend = "hang"
            wr = o = rd = None
            self.emit({"w": w, "n": n, "d": d, "ok": res, "rend": rend, "lvl": level, "hdr": list(s.parts[0][:144]) if s.parts else [],
                       "flen": [s.top // M, s.top % M]})

    # ------------------------------------------------------------------- W11
    def mode_W11(self):
        """long sessions into a target that keeps nothing"""
        import hashlib, tracemalloc
        r = self.rng
        noise = b"".join(hashlib.sha256(b"noise%d" % k).digest() for k in range(1 << 15))
        K = 1 << 10
        R = self.real

        class Nowhere(io.RawIOBase):
            pos = top = got = 0

            def writable(self):
                return True

            def seekable(self):
                return True

            def write(self, b):
                n = memoryview(b).nbytes
                self.pos += n
                self.got += n
                self.top = max(self.top, self.pos)
                return n

            def seek(self, n, how=0):
                self.pos = n + (0 if how == 0 else self.pos if how == 1 else self.top)
                return self.pos

            def tell(self):
                return self.pos

        def obj(n, what):
            body = {"zero": bytes(n - 16), "noise": (noise * (n // len(noise) + 1))[:n - 16]}[what]
            hb = R["ObjectHeaderBase"](b"LOBJ", 16, 1, n, R["constants"].ObjType.UNKNOWN)
            return R["NotImplementedObject"](R["HeaderWithBase"](hb), blf.base(n, 1000, 16) + body)

        def wrong(n):
            o = obj(n, "zero")
            o.header.base.object_size += 1
            return o
        # (buffer, level, steps): (size, count, contents or "bad")
        M = K * K
        plans = [(131072, 0, [(M, 60, "noise"), (48, 64000, "zero")]), (131072, 6, [(M, 60, "zero"), (48, 64000, "noise"), (M, 30, "noise")]),
                 (1024, 0, [(64 * K, 600, "noise"), (M, 10, "noise")]), (M, 1, [(100 * K, 400, "noise"), (5 * M, 12, "zero")]),
                 (3 * M, 0, [(M, 60, "noise"), (K, 20000, "noise")]), (131072, r.choice([0, 9]), [(48, 64000, "zero"), (M, 40, "bad"), (48, 6400, "noise")]),
                 (1024, 0, [(48, 320000, "zero")]), (7777 * 8, 0, [(K * r.randrange(1, 500), 150, "noise") for _ in range(3)])]
        for _ in range(0 if self.quick else 20):
            plans.append((r.choice([1024, 65536, 131072, 500000, M, 2 * M]), r.choice([0, 0, 1, 6]),
                          [(K * r.choice([1, 2, 10, 100, 1024, 3000]), 0, r.choice(["zero", "noise", "noise", "bad"])) for _ in range(6)]))
        for B, level, steps in plans:
            steps = [(n, c or max(1, min(20000, 40 * M // n)), w) for n, c, w in steps]
            objs = [wrong(n) if w == "bad" else obj(n, w) for n, c, w in steps]
            s, ev = Nowhere(), []
            tracemalloc.start()
            base = tracemalloc.get_traced_memory()[0]
            res, w = call(lambda: self.BlfWriter(s, compression_level=level, buffer_size=B))
            for (n, cnt, what), o in zip(steps, objs):
                ok = 0
                try:
                    with limit(150):
                        for k in range(cnt if res == "ok" else 0):
                            if n >= 24 and k % 2:              # a new object of its own
                                o = R["NotImplementedObject"](o.header, o.buffer[:16] + struct.pack("<Q", k) + o.buffer[24:])
                            try:
                                w.write(o)
                                ok += 1
                            except Exception:           # noqa: BLE001
                                pass
                except Hang:
                    pass
                now, peak = tracemalloc.get_traced_memory()
                ev.append({"n": n, "cnt": cnt, "kib": n * cnt >> 10, "bad": what == "bad", "ok": ok, "got": s.got >> 10,
                           "peak": (peak - base) >> 10, "now": (now - base) >> 10})
            call(w.close) if res == "ok" else None
            w = None
            ev.append({"n": 0, "cnt": 0, "kib": 0, "bad": False, "ok": 0, "got": s.got >> 10,
                       "peak": (tracemalloc.get_traced_memory()[1] - base) >> 10, "now": (tracemalloc.get_traced_memory()[0] - base) >> 10})
            tracemalloc.stop()
            self.emit({"buf": (B >> 10) + 1, "largest": max(n for n, _, _ in steps) >> 10, "raw": level == 0, "ev": ev})

    mode_W02 = mode_W01

    # ------------------------------------------------------------------- W08
    def mode_W08(self):
        clock = Clock(self.rng)
        for plan in self.data:
            level, B = self.choose(plan)
            objs = [self.sized(self.size(o["kind"], B)) if o["op"] == "w" else None for o in plan]
            keep, res = self.sized, []
            try:
                for c in (clock, Still(clock)):
                    it = iter([o for o in objs if o is not None])
                    self.sized = lambda n, mutable=False: next(it)
                    st = self.rng.getstate()
                    res.append(self.session(plan, level, B, clock=c))
                    if c is clock:
                        self.rng.setstate(st)
            finally:
                self.sized = keep
            clock.release()
            (ev, s, datas), (_, s2, _) = res
            self.record(ev, level, B, datas, twin="exact", tprop="W08", tfile=list(s2.content()), tz=[])


class Extent(Sink):
    """a sink for large sessions: accesses keep their bytes, not as lists"""
    kept = staticmethod(bytes)

    def write(self, b):
        b = bytes(b)
        self.count += 1
        self.total += 1
        if self.total > 200000:
            raise Hang()
        pos = self.tell()
        if self.fail and self.count == self.fail:
            self.fired = True
            self.part(pos, b)
            raise boom()
        n = io.BytesIO.write(self, b)
        self.log.append((pos, b))
        return n

    def extent(self):
        return len(self.final) if self.final is not None else self.getbuffer().nbytes


class Follower:
    """Reports what is stored: containers, and which known encodings the stream consists of."""
    STEP = 150

    def __init__(self, sink):
        self.s, self.at, self.names, self.heads, self.bytes_ = sink, 144, {}, {}, [None]
        self.pend, self.hdr = bytearray(), b""
        self.prev, self.old = None, b""

    def name(self, b):
        if b not in self.names:
            self.names[b] = len(self.names) + 1
            self.bytes_.append(b)
            self.heads.setdefault(b[:24], []).append(self.names[b])
        return self.names[b]

    def nothing(self):
        return {"tz": 0, "tn": 0, "tc": [], "rest": 0, "moved": False, "flen": 0, "hdr": [], "cr": []}

    def look(self):
        if not self.s.log and self.prev:
            return [], {**self.prev, "moved": False, "hdr": [], "cr": []}
        d = self.s.content()
        moved = any(pos < self.at and pos + len(b) > 144 for pos, b in self.s.log) and d[144:self.at] != self.old[144:self.at]
        cs = []
        while True:
            p = self.at
            q = p + (-p % 8)
            if len(d) - q < 32:
                break
            n, = struct.unpack_from("<I", d, q + 8)
            sig = d[q:q + 4] == b"LOBJ" and d[q + 12:q + 16] == b"\x0a\0\0\0" and n >= 32
            if not sig:
                cs.append({"gap": q - p, "gz": not any(d[p:q]), "sig": False, "decl": 0, "m": 0, "du": 0, "u": 0, "e": q})
                break
            if n > len(d) - q:
                break
            m, = struct.unpack_from("<H", d, q + 16)
            du, = struct.unpack_from("<I", d, q + 24)
            body = d[q + 32:q + n]
            u = None
            if m == 0:
                u = body
            elif m == 2:
                z = zlib.decompressobj()
                try:
                    u = z.decompress(body)
                    if not z.eof or z.unused_data:
                        u = None
                except zlib.error:
                    pass
            cs.append({"gap": q - p, "gz": not any(d[p:q]), "sig": True, "decl": n, "m": m, "du": min(du, 1 << 30), "u": -1 if u is None else len(u), "e": q + n})
            self.pend += u or b""
            self.at = q + n
        self.old = d
        runs, tail = self.runs()
        h = bytes(d[:144])
        last = {**tail, "rest": len(d) - self.at, "moved": moved, "flen": len(d), "hdr": list(h) if h != self.hdr else [], "cr": []}
        self.hdr = h
        self.prev = last
        k = self.STEP
        more = [(cs[i:i + k], []) for i in range(0, len(cs), k)] + [([], runs[i:i + k]) for i in range(0, len(runs), k)]
        if len(more) == 2 and len(cs) <= k and len(runs) <= k:
            more = [(cs, runs)]
        return more, last

    def runs(self):
        p, b = 0, self.pend
        runs = []
        while p < len(b):
            if b[p] == 0:
                q = p
                while q < len(b) and b[q] == 0:
                    q += 1
                    if q - p >= 4096:
                        break
                if q == len(b):
                    break
                runs.append(["z", 0, q - p])
                p = q
                continue
            ids = self.heads.get(bytes(b[p:p + 24]), [])
            if len(b) - p < 24 or not ids:
                # a short encoding, or the beginning of one
                got = self.exact(b, p)
                if got:
                    runs.append(["o", got, len(self.bytes_[got])])
                    p += len(self.bytes_[got])
                    continue
                if len(b) - p < 24:
                    tc = [i for i in range(1, len(self.bytes_)) if self.bytes_[i].startswith(bytes(b[p:]))]
                    if tc:
                        del b[:p]
                        return runs, {"tz": 0, "tn": len(b), "tc": tc}
                runs.append(["x", 0, len(b) - p])
                p = len(b)
                break
            full = [i for i in ids if b.startswith(self.bytes_[i], p)]
            if full:
                i = max(full, key=lambda i: len(self.bytes_[i]))
                runs.append(["o", i, len(self.bytes_[i])])
                p += len(self.bytes_[i])
                continue
            tc = [i for i in ids if self.bytes_[i].startswith(bytes(b[p:]))] if len(b) - p < max(len(self.bytes_[i]) for i in ids) else []
            if tc:
                del b[:p]
                return runs, {"tz": 0, "tn": len(b), "tc": tc}
            runs.append(["x", 0, len(b) - p])
            p = len(b)
        del b[:p]
        return runs, {"tz": len(b), "tn": 0, "tc": []}

    def exact(self, b, p):
        """encodings shorter than 24 bytes"""
        for n in range(23, 15, -1):
            for i in self.heads.get(bytes(b[p:p + n]), []):
                if len(self.bytes_[i]) == n:
                    return i
        return 0


class Clock:
    """the wall clock as seen by the code under test (through harness/clockshim.c)"""
    ZONES = ["UTC", "UTC0", "EST5EDT", "<+14>-14", "<-12>12", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3"]
    NOTABLE = [0, 1, 86399, 86400, 951782399, 951868800, 1078012800, 1709164799, 1709251199, 1704067199, 1711846799, 1711846800,
               1729994399, 1729994400, 2147483647, 2147483648, 4102444799, 4107542400, 7258118399]

    def __init__(self, rng):
        import mmap, time
        self.rng, self.time = rng, time
        self.f = open(os.environ["VERIF_CLOCK"], "r+b")
        self.m = mmap.mmap(self.f.fileno(), 16)
        self.now = None
        self.set(10 ** 9, 123456)
        assert time.time_ns() == 10 ** 18 + 123456000, "the clock shim is not in effect"
        import datetime
        assert datetime.datetime.now(datetime.timezone.utc).year == 2001
        self.release()

    def set(self, sec, us):
        self.now = (sec, us)
        struct.pack_into("<qq", self.m, 0, sec, us * 1000)

    def release(self):
        struct.pack_into("<qq", self.m, 0, -(1 << 63), 0)
        os.environ["TZ"] = "UTC"
        self.time.tzset()

    def us(self):
        r = self.rng
        return r.choice([0, 1, 499, 500, 501, 999, 1000, 1499, 1500, 1501, 999499, 999500, 999501, 999999, r.randrange(10 ** 6)])

    def start(self):
        r = self.rng
        self.zone()
        self.set(r.choice([r.choice(self.NOTABLE), r.randrange(0, 1 << 31), r.randrange(10 ** 9, 2 * 10 ** 9)]), self.us())

    def zone(self):
        os.environ["TZ"] = self.rng.choice(self.ZONES)
        self.time.tzset()

    def move(self, kind):
        r = self.rng
        s, u = self.now
        d = {"ms": 0, "fwd": r.randrange(1, 5000), "back": -r.randrange(1, 5000), "day": 86400 * r.randrange(1, 40),
             "dayback": -86400 * r.randrange(1, 40), "year": 31556952 * r.randrange(-20, 40), "zone": 0}.get(kind)
        if kind == "zone":
            self.zone()
        if d is None:
            s = {"leap": 1709164800 + r.randrange(-2, 86402), "dst": 1711846800 + r.randrange(-2, 3),
                 "epoch": r.randrange(0, 3), "far": r.choice([4294967295, 7258118399, 9214646399])}[kind]
        else:
            s += d
        self.set(min(max(0, s), 9214646399), self.us())   # Python's clock ends in 2262

    def split(self, t):
        """<<days since the epoch, second of the day, microsecond>>"""
        return [719163 + t[0] // 86400, t[0] % 86400, t[1]]


class Still:
    """a reference session under the real clock"""
    now = (0, 0)

    def __init__(self, clock):
        self.clock = clock

    def start(self):
        self.clock.release()

    def move(self, kind):
        pass

    def split(self, t):
        return [719163, 0, 0]


if __name__ == "__main__":
    Writer().main()
