"""Sessions driver: several readers and writers at the same time, and one reader asked in every way."""
import copy, gc, hashlib, io, json, os
import drv
from drv import call
import blf
from drv_reader import Reader
from drv_writer import Writer, Sink

WOPS = ("wopen", "write", "bad", "fail", "wclose", "wdrop")
COUNTS = [0, 1, 2, 3, 5, 8, 2, 3, 4]
FAULTS = ["zcorrupt", "ztrunc", "zempty", "zsum", "oshort", "oshort0", "oenum", "otext", "outf8", "cshort"]


def apart(fn):
    """the result of fn() computed in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    if os.waitpid(pid, 0)[1]:
        raise RuntimeError("reference process failed")
    return json.loads(out)


class Sessions(Writer, Reader):
    # ----------------------------------------------------------------- files
    def fresh(self, seen):
        while True:
            b = self.some(self.rng.choice(["sup", "sup", "text", "unk", "nosup", "big"]))
            if b not in seen:
                seen.add(b)
                return b

    def makefile(self, k, rich=False):
        """a file of the k-th kind: COUNTS[k-1] objects, the last three kinds damaged behind them
        rich: incomplete objects are left over at the end, at the damage, around file-level objects"""
        r = self.rng
        z = blf.Realizer(self, r.choice([0, 6]) if k < 7 else 6, r.choice([0, 4]))
        seen, objs = set(), []
        left = COUNTS[k - 1]
        while left:
            left -= 1
            if rich and left and r.random() < .3:
                left -= 1
                b, c = self.fresh(seen), self.fresh(seen)
                objs += [c, b]
                q = r.randrange(1, len(b))
                z.raw(b[:q])
                z.fileobj(c)
                z.raw(b[q:])
                continue
            if r.random() < .3:
                z.raw(bytes(r.choice([1, 3, 4, 7])))
            b = self.fresh(seen)
            objs.append(b)
            x = r.random()
            if x < .2:
                z.fileobj(b)
            else:
                z.obj(b, r.choice(["no", "no", "sig2", "h8", "h16", "body", "last", "multi"]), r.choice("sz"))
            if r.random() < .3:
                z.cut(r.choice("sz"))
        if k >= 7:
            fault = r.choice(FAULTS)
            if rich and (fault[0] == "z" or fault == "cshort") and r.random() < .7:
                b = self.fresh(seen)
                z.raw(b[:r.randrange(1, len(b))])
            z.fault(fault)
            z.obj(self.fresh(seen))
        if rich and r.random() < .5:
            b = self.fresh(seen)
            z.raw(b[:r.randrange(1, len(b))])
            z.flush()
            if r.random() < .4:
                z.fileraw(self.fresh(seen)[:-1])
        z.flush()
        return bytes(z.file), objs

    def key(self, o):
        cls = type(o).__name__
        return json.dumps([cls, self.lay.project(cls, o) if cls in self.lay.cls else []])

    def id(self, key):
        return self.ids.setdefault(key, len(self.ids) + 1)

    def built(self, k):
        """what a file delivers by its construction"""
        data, objs = self.makefile(k)
        ids = []
        for b in objs:
            cls = self.dispatch(int.from_bytes(b[12:16], "little"))
            ids.append(self.id(self.key(self.real[cls].unpack(b))))
        return dict(data=data, ids=ids, fails=k >= 7, open=True)

    def alone(self, k):
        """what a file delivers to a reader alone in a process of its own"""
        data, _ = self.makefile(k, True)

        def solo():
            keys = []
            r, rd = call(self.BlfReader, io.BytesIO(data))
            if r != "ok":
                return [keys, "unopened"]
            while True:
                r, o = call(rd.read_object)
                if r != "ok" or o is None:
                    return [keys, r]
                keys.append(self.key(o))
        keys, how = apart(solo)
        return dict(data=data, ids=[self.id(x) for x in keys], fails=how == "err", open=how != "unopened")

    # --------------------------------------------------------------- writers
    def writer_ops(self, plan, w, pool):
        """the operations of one writer with the objects they write"""
        B = self.rng.choice([1, 8, 17, 33, 40, 64, 100, 300])
        out = dict(B=B, level=self.rng.choice([0, 1, 6, 9]), ops=[])
        pend = False
        for o in plan:
            if o["i"] != w or o["op"] not in ("wopen", "write", "bad", "fail", "wclose", "wdrop"):
                continue
            op, obj, fault = o["op"], None, False
            if op == "write":
                if pool and self.rng.random() < .3:
                    obj = self.rng.choice(pool)          # the same object goes to several writers
                else:
                    obj = self.sized(self.size(["s", "half", "p1"][o["k"] - 1], B))
                    pool.append(obj)
                fault, pend = pend, False
            elif op == "bad":
                obj = self.badobj(self.rng.choice(["plus", "minus", "range", "text", "raise", "short", "type"]))
            elif op == "fail":
                pend = True                              # the next storage access fails
                continue
            elif op == "wclose":
                fault, pend = pend, False
            out["ops"].append((op, obj, fault))
        return out

    def writer_op(self, box, w, op, obj, fault):
        """performs one operation; the same code alone and among others"""
        s = box.setdefault("s", Sink())
        s.begin(1 if fault else 0)
        if op == "wopen":
            def go():
                box["w"] = self.BlfWriter(s, compression_level=w["level"], buffer_size=w["B"])
        elif op == "wclose":
            def go():
                box["w"].close()
        elif op == "wdrop":
            def go():
                box.pop("w", None)
                gc.collect()
        else:
            def go():
                box["w"].write(obj)
        r, _ = call(go)
        return {"r": r, "sw": [] if r == "hang" else [self.access(*a) for a in s.log]}

    @staticmethod
    def access(pos, data):
        """the identity of an access, the times in the file header (bytes 40..71) left out"""
        b = bytes(data)
        if pos < 72:
            b = bytes(0 if 40 <= pos + k <= 71 else x for k, x in enumerate(b))
        return [pos, len(b), b.hex() if len(b) <= 16 else hashlib.sha256(b).hexdigest()[:24]]

    def writer_alone(self, w):
        box = {}
        return [self.writer_op(box, w, *o) for o in w["ops"]]

    # ----------------------------------------------------------- interleaving
    def perform(self, plan, files, touch, ws=None, solo=None, cut=None):
        """one plan; files[k-1] as made above; cut: (number of the operation to be preempted by the next one, after how many steps, of which kind)"""
        r = self.rng
        pool = []
        if ws is None:
            ws = {i: self.writer_ops(plan, i, pool) for i in {o["i"] for o in plan if o["op"] == "wopen"}}
            solo = {i: apart(lambda: self.writer_alone(w)) for i, w in ws.items()}
        boxes, done = {i: {} for i in ws}, {i: 0 for i in ws}
        rds, its, ev, held, sources = {}, {}, [], [], {}
        paths = []

        def got(i, o):
            k = self.id(self.key(o))
            ev.append({"e": "got", "i": i, "id": k})
            if touch and not cut and r.random() < .3:
                call(self.mutate, o, "")                 # what its user does with it is his business
            else:
                held.append((i, k, o))

        def grow(i):
            """the source holds more once its end has been reported"""
            if not touch and ev[-1]["e"] == "none" and i in sources and not sources[i].closed and r.random() < .3:
                s, b = sources[i], self.some(r.choice(["sup", "text", "unk"]))
                p = s.tell()
                s.seek(0, 2)
                s.write(bytes(-s.tell() % r.choice([1, 4, 8])) + r.choice([b, blf.container(b, 0, len(b)), b[:r.randrange(4, len(b))]]))
                s.seek(p)

        def ask(i, fn, stop=None):
            try:
                return asking(i, fn, stop)
            finally:
                grow(i)

        def asking(i, fn, stop):
            res, o = call(fn)
            if res == "err" and stop and isinstance(o, stop):
                ev.append({"e": "none", "i": i})
            elif res != "ok":
                ev.append({"e": res, "i": i})
            elif o is None:
                ev.append({"e": "none", "i": i})
            else:
                got(i, o)
                return True
            return False

        def step(o):
            op, i, k = o["op"], o["i"], o["k"]
            if op == "open":
                src = io.BytesIO(files[k - 1]["data"])
                if r.random() < .4 and not cut:
                    p = os.path.join(self.scratch, f"{id(files)}-{k}.blf")
                    if p not in paths:
                        paths.append(p)
                        with open(p, "wb") as f:
                            f.write(files[k - 1]["data"])
                    src = p
                else:
                    sources[i] = src
                res, rd = call(self.BlfReader, src)
                ev.append({"e": "open", "i": i, "k": k, "r": res})
                if res != "ok":
                    broken.append(1)
                    return
                rds[i], its[i] = rd, []
            elif op == "read":
                ask(i, rds[i].read_object)
            elif op == "new":
                res, it = call(iter, rds[i])
                ev.append({"e": "new", "i": i, "r": res})
                if res != "ok":
                    broken.append(1)
                    return
                its[i].append(it)
            elif op == "next":
                ask(i, lambda: next(its[i][k - 1]), StopIteration)
            elif op == "for":
                n = 0

                def loop():
                    nonlocal n
                    for x in rds[i]:
                        n += 1
                        got(i, x)
                        if n == k:
                            break
                res, _ = call(loop)
                if res != "ok" or n < k:
                    ev.append({"e": "none" if res == "ok" else res, "i": i})
                    grow(i)
            elif op == "list":
                out = []
                res, _ = call(lambda: out.extend(rds[i]))
                for x in out:
                    got(i, x)
                ev.append({"e": "none" if res == "ok" else res, "i": i})
                grow(i)
            elif op == "close":
                res, _ = call(rds[i].__exit__, None, None, None)
                ev.append({"e": "leave", "i": i, "r": res})
            elif op == "drop":
                def drop():
                    rds.pop(i), its.pop(i)
                    gc.collect()
                res, _ = call(drop)
                ev.append({"e": "leave", "i": i, "r": res})
            elif op != "fail":
                n = done[i]
                done[i] += 1
                res = self.writer_op(boxes[i], ws[i], *ws[i]["ops"][n])
                ev.append({"e": {"wclose": "wleave", "wdrop": "wleave"}.get(op, op), "i": i, **res, "s": solo[i][n]})

        def who(o):
            return o["op"] in WOPS, o["i"]
        broken, n = [], 0
        while n < len(plan) and not broken:
            if cut and n == cut[0]:
                self.preempt.run(lambda: step(plan[n]), lambda: step(plan[n + 1]), *cut[1:])
                n += 2
            elif touch and not cut and n + 1 < len(plan) and who(plan[n]) != who(plan[n + 1]) and r.random() < .5:
                fine = r.random() < .4
                self.preempt.run(lambda: step(plan[n]), lambda: step(plan[n + 1]), int(r.expovariate(1 / (250 if fine else 40))) + 1, fine)
                n += 2
            else:
                step(plan[n])
                n += 1
        self.meta["preempted"] = self.preempt.count
        for i, k, o in held:
            ev.append({"e": "held", "i": i, "id": k, "now": self.id(self.key(o))})
        for p in paths:
            os.unlink(p)
        self.emit({"files": [{x: f[x] for x in ("ids", "fails", "open")} for f in files], "ev": ev})

    def run_plans(self, make, touch, sets):
        batch = [[make(k) for k in range(1, 10)] for _ in range(sets)]
        for n, plan in enumerate(self.data):
            self.perform(plan, batch[n % sets], touch)

    def pairs(self):
        """every operation preempted by every other, with objects of every class, after every number of steps"""
        r, g = self.rng, self.gen
        op = lambda what, i, k=1: {"op": what, "i": i, "k": k}

        def every(plan, at, files, ws, solo, share):
            for fine, kmax in ((False, 400), (True, 4000)):
                k = 1
                while k < kmax:
                    if r.random() < share / (8 if fine else 1):
                        self.perform(plan, files, True, ws, solo, (at, k, fine))
                        if not self.preempt.hit:
                            break
                    k += 1
        for cls in self.lay.objects:
            if cls == "LogContainer":
                continue
            objs, bins = [], []
            while len(objs) < 4:
                _, b = g.make(cls, "rand", fill=0)
                res, o = call(self.real[cls].unpack, b)
                if res == "ok" and call(o.pack)[0] == "ok" and len(o.pack()) == o.header.base.object_size and len(b) < 2000:
                    objs.append(o)
                    bins.append(b)
            level = r.choice([(0, 0), (6, 6), (0, 9)])
            ws = {i: dict(B=r.choice([1, 8, 33, 64, 1000]), level=level[i - 1],
                          ops=[("wopen", None, False), ("write", objs[i - 1], False), ("write", objs[i + 1], False), ("wclose", None, False)]) for i in (1, 2)}
            solo = {i: apart(lambda: self.writer_alone(w)) for i, w in ws.items()}
            files = []
            for i in (1, 2):
                z = blf.Realizer(self, level[i - 1], 4)
                for b in (bins[i - 1], bins[i + 1]):
                    z.obj(b, r.choice(["no", "body"]), "s" if not level[i - 1] else "z")
                z.flush()
                f = dict(data=bytes(z.file))

                def solo_reader(f=f):
                    rd = self.BlfReader(io.BytesIO(f["data"]))
                    return [self.key(o) for o in rd]
                f.update(ids=[self.id(x) for x in apart(solo_reader)], fails=False, open=True)
                files.append(f)
            share = .5 if self.quick else 1
            W = [op("wopen", 1), op("wopen", 2), op("write", 1), op("write", 2), op("write", 1), op("write", 2), op("wclose", 1), op("wclose", 2)]
            every(W, 2, files, ws, solo, share)
            every(W, r.choice([0, 4, 6]), files, ws, solo, share / 4)
            R = [op("open", 1, 1), op("open", 2, 2), op("read", 1), op("read", 2), op("list", 1), op("list", 2)]
            every(R, 2, files, {}, {}, share)
            every(R, r.choice([0, 4]), files, {}, {}, share / 4)
            M = [op("wopen", 1), op("open", 1, 1), op("write", 1), op("read", 1), op("write", 1), op("wclose", 1), op("list", 1)]
            every(M, r.choice([0, 2, 3, 5]), files, ws, solo, share / 2)

    def mode_R06(self):
        drv.HANDED[0] = .05
        self.run_plans(self.built, False, 40 if self.quick else 400)

    def mode_R08(self):
        drv.HANDED[0] = .15
        self.run_plans(self.alone, True, 15 if self.quick else 100)

    def mode_pairs(self):
        self.pairs()


if __name__ == "__main__":
    Sessions().main()
