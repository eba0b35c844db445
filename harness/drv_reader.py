"""Reader driver: realises file plans and records what the real reader delivers."""
import hashlib, io, json, zlib
from array import array
from drv import Driver, Duck, boom, call, limit, Hang
import blf

READABLE_SMALL = ["CanMessage", "CanErrorFrame", "CanMessage2", "AppTrigger", "DriverOverrun", "LinMessage", "EventComment",
                  "AppText", "CanDriverError", "RealTimeClock", "SystemVariable", "GlobalMarker", "FunctionBus"]


class Faulty(io.BytesIO):
    """a source whose n-th access fails, and later ones too if it failed for good"""
    n = top = count = 0
    fired, good = False, True

    def fault(self):
        self.count += 1
        if self.n and (self.count == self.n or self.count > self.n and not self.good):
            self.fired = True
            raise boom(True)

    def read(self, *a):
        if a != (0,):                                   # asking for nothing is no access
            self.fault()
        b = super().read(*a)
        if not self.fired:
            self.top = max(self.top, self.tell())
        return b
    read1 = read

    def readinto(self, b):
        self.fault()
        n = super().readinto(b)
        if not self.fired:
            self.top = max(self.top, super().tell())
        return n

    def seek(self, *a):
        self.fault()
        return super().seek(*a)


class Reader(Driver):
    def __init__(self):
        super().__init__()
        from vblf.reader import BlfReader
        self.BlfReader = BlfReader

    # ------------------------------------------------------------ identities
    def dispatch(self, code):
        return self.lay.dispatch[code - 1] if 1 <= code <= len(self.lay.dispatch) else "NotImplementedObject"

    def ident(self, obj):
        cls = type(obj).__name__
        vals = self.lay.project(cls, obj) if cls in self.lay.cls else []
        return self.ids.setdefault(json.dumps([cls, vals]), len(self.ids) + 1)

    def reference(self, b):
        """identity of what the bytes of an object decode to on their own"""
        cls = self.dispatch(int.from_bytes(b[12:16], "little"))
        r, o = call(self.real[cls].unpack, bytes(b))
        return self.ident(o) if r == "ok" else 0

    def some(self, kind):
        r, g = self.rng, self.gen
        if kind == "sup":
            return g.make(r.choice(READABLE_SMALL))[1]
        if kind == "text":
            return g.make(r.choice(["AppText", "EventComment", "DiagRequestInterpretation"]))[1]
        if kind == "nosup":
            codes = [c for c in self.lay.cls["NotImplementedObject"]["codes"]]
            return g.make("NotImplementedObject", code=r.choice(codes), parts=[self.pay()])[1]
        if kind == "unk":
            return blf.base(16 + len(p := self.pay()), r.choice([129, 130, 255, 256, 266, 65535, 65546, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]),
                            r.choice([16, 32, 40]), r.choice([0, 1, 2])) + p
        if kind == "hdronly":
            return blf.base(16, r.choice([129, 0, 12, 4000]))
        if kind == "big":
            return blf.base(16 + len(p := self.pay() + self.pay() + bytes(r.randrange(256) for _ in range(r.randrange(100, 200)))), 300) + p
        raise KeyError(kind)

    def pay(self):
        """payloads that look like objects, signatures, filling"""
        r = self.rng
        return r.choice([b"", b"L", b"LOB", b"LOBJ", bytes(3), bytes(8), b"\xff" * 5, b"x" * 17,
                         blf.base(16, 1), blf.base(48, 1) + bytes(32), b"LOBJ" * 4, blf.container(b"abc", 0, 3)])

    # -------------------------------------------------------------- observing
    def observe(self, source, full=False, seconds=10):
        obs = []
        try:
            with limit(seconds):
                try:
                    rd = self.BlfReader(source)
                except Exception:                       # noqa: BLE001
                    return [{"k": "open failed"}]
                while True:
                    try:
                        o = rd.read_object()
                    except Exception:                   # noqa: BLE001
                        obs.append({"k": "err"})
                        break
                    if o is None:
                        obs.append({"k": "end"})
                        break
                    obs.append(self.seen(o) if full else {"k": "obj", "id": self.ident(o)})
                    if len(obs) > 20000:
                        obs.append({"k": "hang"})
                        break
        except Hang:
            obs.append({"k": "hang"})
        return obs

    def seen(self, o):
        cls = type(o).__name__
        d = {"k": "obj", "id": 0, "cls": cls, "vals": self.lay.project(cls, o) if cls in self.lay.cls else [],
             "pr": "none", "pk": [], "wr": "none"}
        if cls == "NotImplementedObject":
            r, b = call(o.pack)
            d["pr"] = r
            d["pk"] = list(b) if r == "ok" and isinstance(b, (bytes, bytearray)) else []
            d["wr"] = self.writeback(o)
        return d

    def writeback(self, o):
        """written into a file of its own, the object's bytes must be the container's content"""
        from vblf.writer import BlfWriter
        raw = getattr(o, "buffer", b"")

        class Sink(io.BytesIO):
            def close(self):
                self.final = self.getvalue()
                super().close()
        s = Sink()

        def go():
            with BlfWriter(s) as w:
                w.write(o)
        r, _ = call(go)
        return "ok" if r == "ok" and s.final[144 + 32:] == bytes(raw) else "bad"

    def full_run(self, z, mode="id"):
        self.emit(z.rec(mode, [{"n": len(z.file), "obs": self.observe(io.BytesIO(bytes(z.file)), mode == "full")}]))

    def realize(self, plan):
        zl = any(o["m"] == "z" or o["op"] == "x" for o in plan)
        z = blf.Realizer(self, self.rng.choice([1, 6, 9]) if zl else self.rng.choice([0, 0, 6]), self.rng.choice([0, 0, 4, 8]))
        return z.apply(plan)

    # ------------------------------------------------------------------ modes
    def mode_plans(self):
        """R01, R02, R07: TLC-generated plans"""
        for plan in self.data:
            self.full_run(self.realize(plan))

    def mode_R01(self):
        """one stream under every single division, and many multiple ones"""
        r = self.rng
        for rep in range(1 if self.quick else 6):
            objs = [self.gen.make("CanMessage")[1], self.some("text"), blf.base(21, 400) + b"LOBJ\0"]
            stream = b"".join(o + bytes(r.choice([0, 0, 3, 4])) for o in objs)
            n = len(stream)
            cuts = [[q] for q in range(n + 1)]
            cuts += [sorted(r.randrange(n + 1) for _ in range(r.choice([2, 2, 3, 4, 7]))) for _ in range(150 if self.quick else 600)]
            cuts += [list(range(1, n)), list(range(0, n, 2)), list(range(0, n, 3)), [q for q in range(n) for _ in (0, 1)]]
            for c in cuts:
                level = r.choice([0, 6])
                z = blf.Realizer(self, level, r.choice([0, 4]))
                for o in objs:
                    z.note(o)
                p = 0
                for q in c:
                    z.raw(stream[p:q])
                    z.cut(r.choice("sz") if level else "s")
                    p = q
                z.raw(stream[p:])
                z.flush()
                self.full_run(z)

    def mode_R02(self):
        """every short filling between objects, inside and outside containers"""
        r = self.rng
        sig = b"LOBJ"
        alph = [b"\0", b"L", b"O", b"B", b"J", b"\xff"]
        fills = [bytes(k) for k in range(0, 34)] + [b"\xff" * k for k in range(1, 18)]
        fills += [a + b + c for a in alph for b in alph for c in alph]
        fills += [sig[:k] * m for k in (1, 2, 3) for m in (1, 2, 3)]
        fills += [blf.base(s, t)[:k] for s in range(0, 16) for t in (1, 10) for k in (16, 15)]
        fills += [blf.base(s, 1) + sig[:k] for s in (0, 4, 8, 12, 15) for k in (1, 2, 3)]
        fills += [sig + sig[:k] for k in range(4)] + [sig * k + bytes(12) for k in (2, 3, 4, 5)]
        fills += [bytes(r.choice(b"LOBJ\0") for _ in range(r.randrange(1, 30))) for _ in range(60 if self.quick else 800)]
        for f in fills:
            for where in ("in", "out", "both"):
                if where == "both" and self.quick and r.random() < .7:
                    continue
                level = r.choice([0, 6])
                z = blf.Realizer(self, level)
                a, b = self.some("hdronly"), self.gen.make("CanErrorFrame")[1]
                if where != "out":
                    z.raw(f)
                    z.obj(a)
                    z.raw(f)
                    z.obj(b)
                    z.raw(f)
                    z.cut(r.choice("sz"))
                if where != "in":
                    z.fileraw(f)
                    z.fileobj(a)
                    z.fileraw(f)
                    z.obj(b)
                    z.cut("s")
                    z.fileraw(f)
                    z.fileobj(b)
                    z.fileraw(f)
                self.full_run(z)

    def mode_R03(self):
        """every cut of every planned file"""
        for plan in self.data:
            z = self.realize(plan)
            runs = [{"n": n, "obs": self.observe(io.BytesIO(bytes(z.file[:n])))} for n in range(144, len(z.file) + 1)]
            # one line per ~64 cuts keeps the trace checker's workers busy
            for k in range(0, len(runs), 64):
                self.emit(z.rec("id", runs[k:k + 64]))

    def mode_R11(self):
        """every access to the source fails once, or from then on"""
        for plan in self.data:
            z = self.realize(plan)
            data = bytes(z.file)
            src = Faulty(data)
            clean = self.observe(src)
            total = src.count
            runs = [{"n": len(data), "obs": clean}]
            seq = [o["id"] for o in clean if o["k"] == "obj"]
            at = range(1, total + 1)
            if total > 250 and self.quick:
                at = sorted(self.rng.sample(at, 250))
            for k in at:
                src = Faulty(data)
                src.n, src.good = k, self.rng.random() < .5
                runs.append(self.failing(src, self.rng.choice(["call", "iter", "for"]), self.rng.random() < .3))
            for k in range(0, len(runs), 64):
                self.emit({**z.rec("id", runs[k:k + 64]), "seq": seq})

    def failing(self, src, how, duck):
        obs, after = [], []
        box = {}

        def ask():
            if "rd" not in box:
                box["rd"] = self.BlfReader(Duck(src) if duck else src)
            if how == "call":
                return box["rd"].read_object()
            if how == "iter":
                return next(box.setdefault("it", iter(box["rd"])), None)
            for o in box["rd"]:
                return o
            return None
        while True:
            r, o = call(ask)
            if r != "ok" or o is None:
                obs.append({"k": "end" if r == "ok" else r})
                break
            obs.append({"k": "obj", "id": self.ident(o)})
        fail = src.fired
        for _ in range(40 if fail and "rd" in box else 0):
            r, o = call(ask)
            if r == "hang":
                obs[-1] = {"k": "hang"}
            if r == "err" and not src.good:
                continue
            if r != "ok" or o is None:
                break
            after.append(self.ident(o))
        return {"n": src.top if fail else len(src.getvalue()), "obs": obs, "fail": fail, "good": src.good, "after": after}

    def mode_R05(self):
        """every type code, in a container and directly in the file"""
        r = self.rng
        todo = []
        for rep in range(1 if self.quick else 8):
            for code in self.lay.types:
                if code == 10:
                    continue
                cls = self.dispatch(code)
                for mode in ("rand", "mark"):
                    todo.append(self.gen.make(cls, mode, code=code)[1] if cls != "NotImplementedObject"
                                else self.gen.make(cls, mode, code=code, parts=[self.pay()])[1])
            for code in [129, 130, 131, 200, 255, 256, 257, 266, 321, 1000, 4096, 65535, 65536, 65537, 65546, 1 << 24, (1 << 24) + 1,
                         (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1]:
                for n in (0, 1, 16, 33):
                    todo.append(blf.base(16 + n, code, r.choice([16, 32, 40, 0, 65535]), r.choice([0, 1, 2, 65535]))
                                + bytes(r.randrange(256) for _ in range(n)))
            for code in (1, 65, 86, 100):     # header sizes/versions of known but oddly versioned unsupported objects
                pass
        r.shuffle(todo)
        for k in range(0, len(todo), 12):
            z = blf.Realizer(self, r.choice([0, 6]), r.choice([0, 4, 8]))
            for o in todo[k:k + 12]:
                x = r.random()
                if x < .25:
                    z.fileobj(o)
                elif x < .4:
                    z.obj(o, "body", r.choice("sz"))
                else:
                    z.obj(o)
                z.raw(bytes(-len(o) % 4)) if x > .25 else z.fileraw(bytes(-len(o) % 4))
            z.flush()
            self.full_run(z, "full")

    def mode_R04(self):
        """opening: every kind of input"""
        import os, pathlib
        r = self.rng
        path = os.path.join(self.scratch, "f.blf")

        def one(src, b, kind="bytes"):
            res, rd = call(self.BlfReader, src)
            rec = {"op": "open", "kind": kind, "b": list(b[:160]), "res": "ok" if res == "ok" else
                   res if res != "err" else next((t.__name__ for t in (ValueError, TypeError) if isinstance(rd, t)), type(rd).__name__),
                   "vals": [], "vals2": [], "r2": "none", "out": []}
            if res == "ok":
                def reported():
                    return self.lay.project("FileStatistics", getattr(rd, "file_statistics", None))
                rec["vals"] = reported()
                k, o = call(lambda: rd.file_statistics.pack())
                rec["r2"], rec["out"] = k, list(o) if k == "ok" and isinstance(o, (bytes, bytearray)) else []
                call(lambda: [None for _ in rd])
                rec["vals2"] = reported()
                call(rd.__exit__, None, None, None)
            self.emit(rec)

        def both(b):
            one(io.BytesIO(b), b)
            with open(path, "wb") as f:
                f.write(b)
            one([path, path.encode(), pathlib.Path(path)][r.randrange(3)], b)
            f = open(path, "rb")
            one(f, b)
            f.close()

        def rnd(mode="rand"):
            return self.gen.make("FileStatistics", mode)[1]

        def logg(b):
            return b"LOGG" + b[4:]
        full = logg(rnd())
        for n in range(144):
            both(full[:n])
        for n in (0, 1, 4, 143, 144, 145, 300, 1000):
            both((bytes(n)))
            both((b"LOBJ" + bytes(n))[:n])
            both((b"LOGG" + b"\xff" * n)[:n])
        for k in range(4):
            for x in (0, ord("L"), ord("G"), ord("O"), 0x6C, 0xFF):
                b = bytearray(full)
                b[k] = x
                both(bytes(b))
        both(b"\0" + full), both(b"LOG" + full), both(full[1:] + b"xxx")
        for mode in ("zero", "ones", "mark", "high"):
            both(logg(rnd(mode)))
        for app in range(256):
            for lvl in ((app * 7) % 256,):
                b = bytearray(logg(rnd()))
                b[12], b[13] = app, lvl
                both(bytes(b))
        for lvl in range(256):
            b = bytearray(logg(rnd()))
            b[13] = lvl
            both(bytes(b))
        for _ in range(300 if self.quick else 6000):
            b = bytearray(logg(bytes(r.randrange(256) for _ in range(144))))
            if r.random() < .7:
                b[12] = r.choice(self.lay.apps)
            both(bytes(b) + r.choice([b"", b"\0" * 5, b"LOBJ", self.some("sup"), blf.container(self.some("sup"), 0, 48)]))
        # counters that are smaller than, as large as and larger than what the file holds
        for k in range(40 if self.quick else 400):
            n = r.choice([1, 2, 3, 10])
            u = b"".join(self.some("sup") for _ in range(n))
            f = bytearray(logg(rnd()))
            f[13] = 0
            f[16:24] = r.choice([0, 144, 144 + len(u), 1 << 40]).to_bytes(8, "little")
            f[24:32] = r.choice([0, 144, 144 + len(u), 1 << 40]).to_bytes(8, "little")
            f[32:36] = r.choice([0, n - 1, n, n + 1, (1 << 32) - 1]).to_bytes(4, "little")
            both(bytes(f) + r.choice([u, blf.container(u, 0, len(u)), blf.container(u[:-9], 0, len(u))]))
        for src in (None, 5, 3.5, [], {}, object(), True, (1, 2), Ellipsis, iter([])):
            one(src, b"", "unsupported")

    # ------------------------------------------------------------------ large
    def noise(self, n):
        return b"".join(hashlib.sha256(b"%d" % self.rng.getrandbits(60)).digest() for _ in range(n // 32 + 1))[:n]

    def lobj(self, n):
        """an object of about n bytes: bytes"""
        r = self.rng
        x = r.random()
        if n >= 64 and x < .3:
            return self.gen.make("AppText", parts=["t" * (n - 48)], fill=0)[1]
        if 64 <= n < 60000 and x < .5:
            return self.gen.make("EthernetFrameEx", parts=[self.noise(n - 64)], fill=0)[1]
        if n <= 64 and x < .7:
            return self.some("sup")
        pay = max(0, n - 16)
        body = r.choice([bytes, self.noise, self.noise, lambda k: (b"LOBJ" * (k // 4 + 1))[:k], lambda k: (blf.base(48, 1) * (k // 16 + 1))[:k]])(pay)
        return blf.base(16 + pay, r.choice([129, 300, 65546, 13]), r.choice([16, 32])) + body

    def lfill(self, n):
        r = self.rng
        kind = r.randrange(6)
        b = [bytes(n), b"\xff" * n, (b"LOB" * (n // 3 + 1))[:n], (b"L" * n), (b"LOBX\0" * (n // 5 + 1))[:n],
             (blf.base(r.randrange(16), r.choice([1, 10, 65])) * (n // 16 + 1))[:n // 16 * 16] + bytes(n % 16)][kind]
        return b

    def mode_large(self):
        """R01, R02, R03, R07: files far beyond the reach of the byte-level machine"""
        focus = self.opts["focus"]
        if focus == "R10":
            return self.incremental()
        for k in range(1 if self.quick else {"R01": 12, "R03": 12}.get(focus, 30)):
            for sc in blf.scenarios(self, focus, k):
                self.scaled(*sc)

    def incremental(self):
        """R10: how far the source is consumed, and how much memory is used"""
        import tracemalloc
        r = self.rng
        M = 1 << 20

        class Source(io.BytesIO):
            top = 0

            def read(self, *a):
                b = super().read(*a)
                self.top = max(self.top, self.tell())
                return b

            def readinto(self, b):
                n = super().readinto(b)
                self.top = max(self.top, self.tell())
                return n
            read1 = read
        for rep in range(1 if self.quick else 6):
            for name, level, blocks, csize, extras in blf.streams(self):
                f = blf.Scaled(self, level)
                f.build(blocks, csize, extras)
                data = bytes(f.file)
                big = max([len(b) for _, b in blocks] + [len(x[2]) for x in extras] + [0])
                for how in ("next", "iter"):
                    # what is recorded is allocated beforehand
                    size = len(f.items) + len(f.stream) + 12
                    ids, cons, n, end, o = array("q", bytes(8 * size)), array("q", bytes(8 * size)), 0, "end", None
                    known = {}
                    src = Source(data)
                    tracemalloc.start()
                    peak = 0
                    try:
                        with limit(100):
                            try:
                                rd = self.BlfReader(src)
                                it = iter(rd) if how == "iter" else None
                                while True:
                                    o = None
                                    tracemalloc.reset_peak()
                                    o = next(it, None) if it else rd.read_object()
                                    peak = max(peak, tracemalloc.get_traced_memory()[1])
                                    if o is None:
                                        break
                                    cons[n] = src.top
                                    k = (type(o), o.pack()) if o.header.base.object_size < 100 else None
                                    ids[n] = known.get(k) or self.fast(o)[0]
                                    if k and len(known) < 5:
                                        known[k] = ids[n]
                                    n += 1
                                    if n > len(f.items) + len(f.stream) + 10:
                                        break
                            except Exception:           # noqa: BLE001
                                end = "err"
                    except Hang:
                        end = "hang"
                    tracemalloc.stop()
                    rd = it = o = src = None
                    self.emit({"what": name + ", " + how, "items": f.items, "stream": f.stream, "biggest": big,
                               "runs": [{"cut": len(data), "ids": list(ids[:n]), "end": end, "cons": list(cons[:n]), "peak": peak >> 10}]})

    def deliveries(self, f, src, n):
        """identities of the objects of the first n bytes of a large file"""
        ids, end = [], "end"
        try:
            with limit(60):
                try:
                    rd = self.BlfReader(src)
                    while (o := rd.read_object()) is not None:
                        ids.append(self.fast(o)[0])
                        if len(ids) > len(f.items) + len(f.stream) + 10:
                            break
                except Exception:                       # noqa: BLE001
                    end = "err"
        except Hang:
            end = "hang"
        run = {"cut": n, "ids": ids, "end": end}
        if getattr(src, "fired", False):
            run.update(cut=src.top, fail=True)
        return run

    def scaled(self, name, level, blocks, csize, extras=(), cuts=0):
        """blocks: ("o" | "f" | "y", bytes); csize() -> size of the next container;
        extras: (probability, [(kind, bytes)...]) put between containers that share no object"""
        r = self.rng
        f = blf.Scaled(self, level)
        f.build(blocks, csize, extras)
        ends = [144] + [i["e"] for i in f.items]
        at = {len(f.file)}
        for _ in range(cuts):
            e = r.choice(ends)
            at |= {min(max(144, e + d), len(f.file)) for d in r.sample([-33, -17, -16, -2, -1, 0, 1, 2, 15, 16, 31, 32, 33], 2)}
            at.add(r.randrange(144, len(f.file) + 1))
        if self.opts["focus"] == "R11":
            src = Faulty(f.file)
            runs = [self.deliveries(f, src, len(f.file))]
            for k in sorted(r.sample(range(1, src.count + 1), min(src.count, 8))):
                src = Faulty(f.file)
                src.n, src.good = k, False
                runs.append(self.deliveries(f, src, len(f.file)))
        else:
            runs = [self.deliveries(f, io.BytesIO(bytes(f.file[:n])), n) for n in sorted(at)]
        self.emit({"what": name, "items": f.items, "stream": f.stream, "runs": runs})


if __name__ == "__main__":
    Reader().main()
