"""Objects driver (C11): makes objects in every way there is, changes fields of some, and reports
the identity (class, every field, encoding) of all of them after every step."""
import datetime, io, struct
import blf
from drv import Driver, call
from gen import getpath, tv


class Objects(Driver):
    KINDS = ("dec", "read", "other", "new", "stat", "time")

    # ---------------------------------------------------------------- sources
    def source(self, cls, mode=None):
        """-> how to make an object of this source, by kind"""
        g, r, R = self.gen, self.rng, self.real
        b = g.make(cls, mode or r.choice(["rand", "rand", "mark", "zero"]))[1]
        c = R[cls]
        dec = (lambda: c.unpack(b)) if hasattr(c, "unpack") else (lambda: c.unpack_from(b, 0))
        out = {"dec": dec, "read": dec, "other": dec}
        if cls in self.lay.objects and cls != "LogContainer":
            u = b"".join(b + bytes(-len(b) % 4) for _ in range(12))
            f = blf.header(0) + blf.container(u[:len(u) // 2 + 3], 0, len(u) // 2 + 3) + blf.container(u[len(u) // 2 + 3:], 0, 0)
            rd = R["BlfReader"](io.BytesIO(f))
            out["read"] = rd.read_object
            out["other"] = lambda: next(iter(R["BlfReader"](io.BytesIO(f))))
        return out

    def built(self):
        """a constructor with arguments that are plain values"""
        g, r, R = self.gen, self.rng, self.real
        K = R["constants"]
        kind = r.randrange(8)
        if kind == 0:
            kw = dict(channel=1, flags=2, dlc=8, frame_id=291, data=g.data(8), object_flags=K.ObjFlags(2), object_time_stamp=r.getrandbits(40))
            return lambda: R["CanMessage"].new(**kw)
        if kind == 1:
            kw = dict(channel=1, flags=2, dlc=8, frame_id=291, data=g.data(8), frame_length=5, bit_count=6, object_flags=K.ObjFlags(2),
                      object_time_stamp=r.getrandbits(40))
            return lambda: R["CanMessage2"].new(**kw)
        if kind == 2:
            kw = dict(channel=1, flags=2, dlc=8, frame_id=291, data=g.data(64), frame_length=5, arb_bit_count=6, canfd_flags=K.CanFdFlags(1),
                      object_flags=K.ObjFlags(2), object_time_stamp=r.getrandbits(40))
            return lambda: R["CanFdMessage"].new(**kw)
        if kind == 3:
            kw = dict(object_size=r.choice([16, 48, 64, 1000]), object_type=K.ObjType(r.choice(self.lay.types)), object_flags=K.ObjFlags(2), object_version=0, object_time_stamp=r.getrandbits(40))
            return lambda: R["ObjectHeader"].new(**kw)
        if kind == 4:
            d = g.data(40)
            return lambda: R["LogContainer"].new(data=d, time_stamp=40)
        if kind == 5:
            return lambda: R["FileStatistics"].new()
        cls = r.choice([c for c in self.lay.cls if c != "NotImplementedObject"])
        vals = g.make(cls)[0]
        return lambda: self.builder.build(cls, vals)

    def sources(self, classes, mode=None):
        r, R = self.rng, self.real
        out = [self.source(cls, mode) for cls in classes]
        fh = bytes(b"LOGG" + self.gen.make("FileStatistics")[1][4:])
        st = struct.pack("<8H", 2024, 2, 4, 29, r.randrange(24), 59, 58, 999)
        dt = datetime.datetime(2031, 5, 6, 7, 8, 9, r.randrange(10 ** 6), tzinfo=datetime.timezone.utc)
        stats = [lambda: R["FileStatistics"].unpack(fh), lambda: R["BlfReader"](io.BytesIO(fh)).file_statistics,
                 lambda: R["FileStatistics"].new()]
        times = [lambda: R["SystemTime"].unpack(st), lambda: R["SystemTime"].from_datetime(dt), lambda: R["SystemTime"].unpack_from(st, 0)]
        r.shuffle(stats)
        for s in range(len(out)):
            out[s].update(new=self.built(), stat=stats[s % 3], time=times[s % 3])
        return out

    # ---------------------------------------------------------------- changes
    def paths(self, o):
        cls = type(o).__name__
        return [] if cls not in self.lay.cls else [(i, f) for i, f in enumerate(self.lay.fields(cls))]

    def other(self, v, f):
        r = self.rng
        if isinstance(v, float):
            return v + 1.5 if v == v and abs(v) < 1e300 else 1.25
        if isinstance(v, int):
            return int(v) ^ (1 << r.randrange(8 * max(1, min(f[3], 8)) - (f[1] == "s")))
        if isinstance(v, (bytes, bytearray)):
            return bytes(b ^ 0xA5 for b in v) or b"\x01"
        if isinstance(v, str):
            return v[1:] + ("x" if v[:1] != "x" else "y")
        return None

    def change(self, o, ix=None):
        """changes one field; -> (index, projection of the new value) or None"""
        ps = self.paths(o)
        i, f = ps[ix] if ix is not None else self.rng.choice(ps)
        *pre, last = f[0].split(".")
        t = getpath(o, ".".join(pre)) if pre else o
        v = getattr(t, last)
        if isinstance(v, (list, tuple)):
            k = self.rng.randrange(len(v))
            new = list(v)
            new[k] = int(v[k]) ^ 1
            want = tv(new, f[1])
            if isinstance(v, list):
                v[k] = new[k]                    # in place
            else:
                setattr(t, last, tuple(new))
            return i + 1, want
        new = self.other(v, f)
        if isinstance(v, bytearray) and len(new) == len(v):
            v[:] = new
        else:
            setattr(t, last, new)
        return i + 1, tv(new, f[1])

    def encode(self, o):
        if self.rng.random() < .5:
            call(o.pack) if hasattr(o, "pack") else call(o.pack_into, bytearray(200), 0)
        else:
            call(lambda: self.real["BlfWriter"](io.BytesIO(), buffer_size=self.rng.choice([1, 64, 1000])).write(o))

    # ------------------------------------------------------------------- runs
    def history(self, plan, classes, ix=None, mode=None):
        src = self.sources(classes, mode)
        ref, keep = {}, []
        for k in self.KINDS:
            ref[k] = []
            for s in src:
                res, o = call(s[k])
                keep.append(o)
                ref[k].append(self.fast(o)[0] if res == "ok" else -1)
        live, ev = [], []
        for p in plan:
            op, k, n = p["op"], p["k"], p["n"]
            e = {"op": op, "k": k, "n": n, "ix": 0, "diff": [], "want": {}, "got": {}, "ids": []}
            if op == "make":
                res, o = call(src[n - 1][k])
                if res == "ok" and o is not None:
                    live.append(o)
            elif op == "mod" and n <= len(live):
                o = live[n - 1]
                cls = type(o).__name__
                before = self.lay.project(cls, o)
                res, x = call(self.change, o, ix)
                after = self.lay.project(cls, o)
                e["diff"] = [i + 1 for i, (a, b) in enumerate(zip(before, after)) if a != b]
                e["ix"], e["want"] = x if res == "ok" else (0, {"t": "failed", "v": []})
                e["got"] = after[e["ix"] - 1] if e["ix"] else {"t": "unchanged", "v": []}
            elif op == "enc" and n <= len(live):
                self.encode(live[n - 1])
            e["ids"] = [self.fast(o)[0] for o in live]
            ev.append(e)
        self.emit({"ref": ref, "ev": ev, "classes": classes})

    def mode_C11(self):
        import vblf.reader, vblf.writer
        self.real.update(BlfReader=vblf.reader.BlfReader, BlfWriter=vblf.writer.BlfWriter)
        from drv_writer import Clock
        clock = Clock(self.rng)
        clock.set(1700000000, 250000)                  # FileStatistics.new() notes the time
        r = self.rng
        every, rnd = self.data["every"], self.data["random"]
        # every field of every class is the one that is changed
        todo = [(c, i) for c in self.lay.cls for i in range(len(self.lay.fields(c)))]
        rounds = 2 if self.quick else 25
        for n in range(rounds):
            for c, i in todo:
                plan = [{**p, "k": r.choice(["dec", "read", "other"]), "n": 1} if p["op"] == "make" else p for p in r.choice(every)]
                self.history(plan, [c], i, "zero" if n == 0 else None)
        for plan in rnd:
            self.history(plan, [r.choice(list(self.lay.cls)) for _ in range(3)])
        clock.release()


if __name__ == "__main__":
    Objects().main()
