"""S01: logs copied, filtered, merged, split and edited through readers and writers."""
import io, os, zlib
import blf
from drv import Duck, call
from drv_sessions import COUNTS, Sessions
from drv_kinds import Stream


class Pipes(Sessions):
    def setting(self):
        return self.rng.choice([0, 0, 1, 6, 9]), self.rng.choice([1, 8, 17, 33, 64, 100, 300, 1000, None])

    def foreign(self, count):
        """a file by somebody else: (bytes, identities)"""
        data, objs = self.makefile(COUNTS.index(count) + 1)
        ids = []
        for b in objs:
            cls = self.dispatch(int.from_bytes(b[12:16], "little"))
            ids.append(self.fast(self.real[cls].unpack(b))[0])
        return data, ids

    def perform(self, plan, counts):
        r = self.rng
        src = [self.foreign(c) for c in counts]
        files = [d for d, _ in src]
        settings = {s: self.setting() for s in (1, 2, 3)}
        rds, wrs, hand, ev, paths = {}, {}, [], [], []
        how = {}

        def reader(f):
            if r.random() < .25:
                p = os.path.join(self.scratch, f"in{len(paths)}.blf")
                paths.append(p)
                with open(p, "wb") as x:
                    x.write(files[f - 1])
                return self.BlfReader(p)
            s = io.BytesIO(files[f - 1])
            return self.BlfReader(Duck(s) if r.random() < .3 else s)

        def writer(w, s):
            level, B = settings[s]
            sink = Stream()
            how[w] = sink
            kw = {} if B is None else {"buffer_size": B}
            if level or r.random() < .5:
                kw["compression_level"] = level
            if r.random() < .25:
                p = os.path.join(self.scratch, f"out{len(paths)}.blf")
                paths.append(p)
                how[w] = p
                return self.BlfWriter(p, **kw)
            return self.BlfWriter(Duck(sink) if r.random() < .3 else sink, **kw)

        def do(op, a, b):
            """-> False if nothing sensible can follow"""
            e = {"e": op, "a": a, "b": b, "r": "ok", "id": 0, "ids": [], "bytes": [], "h": []}
            if op == "open":
                e["r"], x = call(reader, b)
                if e["r"] == "ok":
                    if a in rds and r.random() < .5:
                        call(rds[a].__exit__, None, None, None)
                    rds[a] = x
            elif op == "read":
                e["r"], o = call(rds[a].read_object) if r.random() < .5 else call(lambda: next(iter(rds[a]), None))
                if e["r"] == "ok" and o is not None:
                    e["id"] = self.fast(o)[0]
                    hand.append(o)
            elif op == "edit":
                e["r"], _ = call(self.mutate, hand[a - 1], r.choice(["", "grow"]))
                e["id"] = self.fast(hand[a - 1])[0]
            elif op == "start":
                e["r"], wrs[a] = call(writer, a, b)
            elif op == "write":
                e["r"], _ = call(wrs[a].write, hand[b - 1])
            elif op == "copy":
                def loop():
                    for o in rds[a]:
                        e["ids"].append(self.fast(o)[0])
                        wrs[b].write(o)

                def ask():
                    while (o := rds[a].read_object()) is not None:
                        e["ids"].append(self.fast(o)[0])
                        wrs[b].write(o)

                def gather():
                    objs = list(rds[a])
                    e["ids"] += [self.fast(o)[0] for o in objs]
                    for o in objs:
                        wrs[b].write(o)
                e["r"], _ = call(r.choice([loop, ask, gather]))
            elif op == "close":
                e["r"], _ = call(wrs[a].close if r.random() < .5 else lambda: wrs[a].__exit__(None, None, None))
                s = how[a]
                data = open(s, "rb").read() if isinstance(s, str) else s.final or b""
                e["bytes"] = list(data)
                files.append(data)
                wrs.pop(a)
            e["h"] = [self.fast(o)[0] for o in hand]
            ev.append(e)
            return e["r"] == "ok"
        ok = all(do(o["op"], o["a"], o["b"]) for o in plan)
        # every file made once more, as a copy of itself with the same settings
        made = {}
        n = len(src)
        for o in ev:
            if o["e"] == "start":
                made[o["a"]] = o["b"]
            elif o["e"] == "close" and ok:
                n += 1
                w = 1 if 1 not in wrs else 2
                if w in wrs:
                    continue
                s = made[o["a"]]
                if not (do("open", 1, n) and do("start", w, s) and do("copy", 1, w) and do("close", w, 0)):
                    break
                if len(files) > 14:
                    break
        for p in paths:
            if os.path.exists(p):
                os.unlink(p)
        self.emit({"files": [ids for _, ids in src], "ev": ev})

    def mode_S01(self):
        for plan in self.data["every"]:
            self.perform(plan, [2, 1])
        for plan in self.data["random"]:
            self.perform(plan, [0, 1, 2, 3, 5, 8])

    def mode_bulk(self):
        """large files copied several times over"""
        r = self.rng

        def through(data):
            yield from self.BlfReader(io.BytesIO(data))
        # a log by somebody else, of all kinds of contents: the copies hold the same encodings
        every = list(self.edges())
        r.shuffle(every)
        for k in range(0, len(every), 150):
            u, ids, sizes = b"", [], []
            for cls, b in every[k:k + 150]:
                u += bytes(-len(u) % 4) + b
                res, o = call(self.real[cls].unpack, b)
                ids.append(self.fast(o)[0] if res == "ok" and call(o.pack) == ("ok", b) else 0)
                sizes.append(len(b))
            method = r.choice("sz")
            data = blf.header(6) + blf.container(u, 0, len(u)) if method == "s" else blf.header(6) + blf.container(zlib.compress(u), 2, len(u))
            for _ in range(2):
                _, _, data = self.bigsession(through(data), r.randrange(10), r.choice([None, 1000, 64]), orig=(ids, sizes, None))
        # the same, every object changed in all its numbers and texts, in its texts only, in one field only
        for how in ("", "texts", "texts", "one", "one", "one"):
            some = every if not self.quick else r.sample(every, len(every) // 3)
            some = some + [(c, self.gen.make(c)[1]) for c in self.lay.objects if c not in ("LogContainer", "NotImplementedObject") for _ in range(4)]
            for k in range(0, len(some), 150):
                u = b""
                for _, b in some[k:k + 150]:
                    u += bytes(-len(u) % 4) + b
                res, objs = call(lambda: list(through(blf.header(0) + blf.container(u, 0, len(u)))))
                for o in objs if res == "ok" else ():
                    # the fields of a section the object does not have are not stored
                    if how == "texts" or type(o).__name__ not in ("CanFdMessage64", "CanFdErrorFrame64", "LinMessage2"):
                        call(self.mutate, o, how)
                self.bigsession(objs if res == "ok" else [], r.randrange(10), r.choice([None, 1000, 64]))
        for k in range(12 if self.quick else 120):
            kind = k % 4
            level, B = r.choice([(0, None), (0, 1000), (6, None), (6, 4096), (1, 100), (9, 70000), (0, 9)])
            if kind == 0:
                objs = [self.anyobj() for _ in range(r.choice([30, 300]))]
            elif kind == 1:
                objs = [self.raw(16 + x % 29) for x in range(r.choice([1500, 6000] if B != 9 else [300]))]
            elif kind == 2:
                objs = [self.raw(r.choice([16, 50, 5000, 65535, 100003])) for _ in range(25)]
            else:
                pool = [self.anyobj() for _ in range(20)]
                objs = [r.choice(pool) for _ in range(r.choice([40, 1000]))]
            ids, sizes, first = self.bigsession(objs, level, B)
            data = first
            for gen in range(r.choice([1, 2, 3])):
                _, _, data = self.bigsession(through(data), r.randrange(10), r.choice([None, 1000, 64, 5]) if B != 9 else 333,
                                             orig=(ids, sizes, None))
            self.bigsession(through(data), level, B, orig=(ids, sizes, first))


if __name__ == "__main__":
    Pipes().main()
