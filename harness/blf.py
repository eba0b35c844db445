"""Realisation of file plans as BLF bytes (inputs; judged by the TLA+ specification)."""
import struct, zlib

SIG = b"LOBJ"


def header(level=0, app=0, objects=0, size=0, usize=0, fill=b""):
    """a 144-byte file header"""
    b = bytearray(144)
    b[0:4] = b"LOGG"
    struct.pack_into("<IIBBBBQQII", b, 4, 144, 0, app, level, 0, 0, size, usize, objects, 0)
    return bytes(b)


def anyheader(rng, level, apps):
    """a valid file header whose other fields say nothing about the contents, or something wrong"""
    b = bytearray(header(level))
    x = rng.random()
    if x < .3:
        return bytes(b)
    if x < .6:                                  # counters and sizes only
        struct.pack_into("<QQIII", b, 16, rng.choice([0, 1, 144, 145, 200, 1000, 1 << 20, 1 << 40]), rng.choice([0, 1, 144, 200, 1 << 33]),
                         rng.choice([0, 1, 2, 3, 5, 100, 1 << 31]), rng.choice([0, 0, 1, 2]), 0)
        struct.pack_into("<Q", b, 72, rng.choice([0, 0, 1, 144, 145, 160, 176, 200, 300, 1000]))
    else:
        b[16:] = bytes(rng.randrange(256) for _ in range(128)) if x < .8 else bytes([rng.choice([1, 255])]) * 128
        b[8:12] = rng.randbytes(4) if hasattr(rng, "randbytes") else bytes(4)
        b[14:16] = bytes(rng.choice([0, 1, 2, 255]) for _ in range(2))
    b[12] = rng.choice(apps)
    return bytes(b)


def base(size, code, hsize=32, hver=1):
    return SIG + struct.pack("<HHII", hsize, hver, size, code)


def deflate(rng, u):
    """u in any form a zlib stream can have"""
    if rng.random() < .4:
        return zlib.compress(u, rng.choice([1, 6, 9]))
    z = zlib.compressobj(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), zlib.DEFLATED, rng.choice([9, 10, 11, 12, 13, 14, 15, 15]), rng.choice([1, 4, 8, 9]),
                         rng.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED]))
    out, p = b"", 0
    if rng.random() < .3:                       # in pieces
        for q in sorted(rng.randrange(len(u) + 1) for _ in range(rng.choice([1, 2, 4]))):
            out += z.compress(u[p:q]) + z.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
            p = q
    return out + z.compress(u[p:]) + z.flush()


def container(data, method, usize, hsize=16, hver=1, res=(0, 0)):
    """hsize, hver and the reserved fields mean nothing to a reader"""
    return base(32 + len(data), 10, hsize, hver) + struct.pack("<IIII", method, res[0], usize, res[1]) + data


def odd_container(rng, data, method, usize):
    if rng.random() < .6:
        return container(data, method, usize)
    return container(data, method, usize, rng.choice([16, 32, 32, 40, 0, 24, 33, 64, 65535, len(data) % 65536]), rng.choice([1, 1, 0, 2, 65535]),
                     rng.choice([(0, 0), (1, 2), (2**32 - 1, 2**32 - 1), (rng.getrandbits(32), rng.getrandbits(32))]))


class Realizer:
    """Builds one file; keeps the tables the specification needs to judge it."""

    def __init__(self, drv, level, pad=0):
        self.d, self.rng, self.level, self.pad = drv, drv.rng, level, pad
        self.file = bytearray(anyheader(drv.rng, level, drv.lay.apps))
        self.cur, self.content = bytearray(), bytearray()
        self.z, self.objs, self.zseen, self.oseen = [], [], set(), set()
        self.pending = False

    # ------------------------------------------------------------- containers
    def table(self, blob):
        if blob in self.zseen:
            return
        self.zseen.add(blob)
        try:
            u, ok = zlib.decompress(blob), True
        except zlib.error:
            u, ok = b"", False
        self.z.append({"c": list(blob), "ok": ok, "u": list(u)})

    def cut(self, m="s"):
        """the container ends here"""
        u = bytes(self.cur)
        self.content += u
        self.cur.clear()
        self.pending = False
        if m == "z" and self.level:
            self.blob(deflate(self.rng, u), 2, len(u))
        else:
            self.blob(u, 0, len(u))

    def blob(self, data, method, usize):
        if method and self.level:
            self.table(data)
        self.file += odd_container(self.rng, data, method, usize)
        self.file += bytes(-len(self.file) % self.pad if self.pad else 0)

    def flush(self):
        if self.pending:
            self.cut(self.rng.choice("sz"))

    # ---------------------------------------------------------------- content
    def note(self, b):
        if b not in self.oseen:
            self.oseen.add(b)
            self.objs.append({"b": list(b), "id": self.d.reference(b)})

    def obj(self, b, cut="no", m="s"):
        self.note(b)
        n = len(b)
        at = {"no": [], "sig1": [1], "sig2": [2], "sig3": [3], "sig4": [4], "h8": [8], "h15": [15], "h16": [16],
              "h17": [17], "body": [self.rng.randrange(16, n) if n > 16 else 16], "last": [n - 1],
              "multi": sorted(self.rng.randrange(0, n + 1) for _ in range(self.rng.choice([2, 2, 3, 5])))}[cut]
        self.pending = True
        p = 0
        for q in at:
            self.cur += b[p:q]
            self.cut(m)
            self.pending = True
            p = q
        self.cur += b[p:]

    def raw(self, b):
        self.cur += b
        self.pending = True

    def fileobj(self, b):
        self.flush()
        self.note(b)
        self.file += b

    def fileraw(self, b):
        self.flush()
        self.file += b

    # ----------------------------------------------------------------- kinds
    def gap(self, kind):
        r = self.rng
        if kind[0] == "z":
            return bytes(int(kind[1:]))
        if kind == "ff":
            return b"\xff" * r.choice([1, 2, 5, 9])
        if kind == "rnd":
            return bytes(r.choice(b"LOBJLOBJlobj\x00\x01\xff") for _ in range(r.choice([1, 2, 3, 6, 11]))).replace(SIG, b"LOBL")
        if kind.startswith("partial"):
            return SIG[:int(kind[7:])]
        if kind.startswith("false"):
            size = int(kind[5:]) if kind[5:] else r.randrange(16)
            code = r.choice([1, 10, 65, 0, 500, 0x4A424F4C])
            b = base(size, code)
            return b[:r.choice([16, 16, 16, 15, 12, 14])] if r.random() < .3 else b
        if kind == "logg":
            return b"LOGG"
        raise KeyError(kind)

    def fault(self, kind):
        """a damaged container or object; False if it cannot be realised in this file"""
        r, d = self.rng, self.d
        if kind[0] == "z":
            self.flush()
            good = b"".join(d.gen.make("CanMessage")[1] for _ in range(2))
            c = zlib.compress(good, 6)
            if kind == "zcorrupt":
                for _ in range(100):
                    x = bytearray(c)
                    x[r.randrange(len(x))] ^= 1 << r.randrange(8)
                    try:
                        zlib.decompress(bytes(x))
                    except zlib.error:
                        break
                c = bytes(x)
            elif kind == "ztrunc":
                c = c[:r.randrange(1, len(c))]
            elif kind == "zempty":
                c = b""
            elif kind == "zsum":
                c = c[:-1] + bytes([c[-1] ^ 0xFF])
            self.blob(c, 2, len(good))
        elif kind == "cshort":
            self.flush()
            n = r.randrange(16, 32)
            self.file += (base(n, 10) + bytes(16))[:n]
        else:
            self.raw(self.badobj(kind))

    def badobj(self, kind):
        r, d = self.rng, self.d
        if kind in ("oshort", "oshort0"):
            cls = r.choice([c for c in d.lay.objects if d.lay.cls[c]["end"] > 16 and c != "LogContainer"])
            b = d.gen.make(cls)[1]
            n = 16 if kind == "oshort0" else r.randrange(16, d.lay.cls[cls]["end"])
            return base(n, int.from_bytes(b[12:16], "little")) + b[16:n]
        if kind == "oenum":
            cand = [(c, f) for c in d.lay.objects for f in d.lay.cls[c]["fields"][:d.lay.cls[c]["nfixed"]]
                    if f[4] in d.lay.closed]
            cls, f = r.choice(cand)
            b = bytearray(d.gen.make(cls)[1])
            ok = d.lay.closed[f[4]]
            top = 1 << 8 * f[3]
            far = [(x + (1 << k)) % top for x in ok for k in (7, 8, 9, 15, 16, 17, 24, 31)] + [top - 1, top - 2, top >> 1]
            bad = r.choice([x for x in r.choice([(200, 255, 77, 99), (max(ok) + 1, max(ok) + 2, max(ok) + 3), far]) if x not in ok and x < top] or [255])
            b[f[2]:f[2] + f[3]] = bad.to_bytes(f[3], "little")
            return bytes(b)
        if kind == "otext":
            cls = r.choice([c for c in d.lay.objects if any(p[2] == "w" for p in d.lay.cls[c]["parts"])])
            enc = [p[2] for p in d.lay.cls[cls]["parts"]]
            parts = [b"\1\2" if e == "b" else b"abc" for e in enc]
            k = r.choice([k for k, e in enumerate(enc) if e == "w"])
            parts[k] = r.choice([b"", b"abc"]) + bytes([r.choice([0x81, 0x8D, 0x8F, 0x90, 0x9D])]) + r.choice([b"", b"d"])
            return d.gen.make(cls, parts=parts)[1]
        if kind == "outf8":
            parts = [b"ecu", b"var", b"svc", b"\x01\x02"]
            n = len(d.lay.cls["DiagRequestInterpretation"]["parts"])
            parts = [b"abc"] * n
            parts[r.randrange(n)] = r.choice([b"\xff", b"a\x80", b"\xe2\x82", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80"])
            return d.gen.make("DiagRequestInterpretation", parts=parts)[1]
        raise KeyError(kind)

    def apply(self, plan):
        for o in plan:
            op, k, cut, m = o["op"], o["kind"], o["cut"], o["m"]
            if op == "o":
                self.obj(self.d.some(k), cut, m)
            elif op == "g":
                self.raw(self.gap(k))
            elif op == "c":
                self.cut(m)
            elif op == "fo":
                self.fileobj(self.d.some(k))
            elif op == "fg":
                self.fileraw(self.gap(k))
            elif op == "x":
                self.fault(k)
        self.flush()
        return self

    def accidental(self):
        """filling and what follows it can together make an object"""
        for b in (bytes(self.file[144:]), bytes(self.content)):
            p = b.find(SIG)
            while p >= 0:
                n = int.from_bytes(b[p + 8:p + 12], "little")
                if 16 <= n <= len(b) - p and b[p + 12:p + 16] != b"\x0a\0\0\0":
                    self.note(b[p:p + n])
                p = b.find(SIG, p + 1)

    def rec(self, mode="id", runs=()):
        if mode == "id":
            self.accidental()
        return {"file": list(self.file), "z": self.z, "objs": self.objs, "mode": mode, "runs": list(runs)}


class Scaled:
    """A file of any size, with the extents the block-level specification works on."""

    def __init__(self, drv, level):
        self.d, self.rng, self.level = drv, drv.rng, level
        self.file = bytearray(anyheader(drv.rng, level, drv.lay.apps))
        self.items, self.stream = [], []

    def ref(self, b):
        """identity of what an object's bytes decode to on their own"""
        cls = self.d.dispatch(int.from_bytes(b[12:16], "little"))
        return self.d.fast(self.d.real[cls].unpack(bytes(b)))[0]

    def add(self, kind, b, n=0):
        self.file += b
        self.items.append({"k": kind, "n": n, "e": len(self.file), "id": self.ref(b) if kind == "o" else 0})

    def container(self, u):
        if self.level and self.rng.random() < .6:
            self.add("c", odd_container(self.rng, deflate(self.rng, u), 2, len(u)), len(u))
        else:
            self.add("c", odd_container(self.rng, u, 0, len(u)), len(u))
        if self.rng.random() < .4 and len(self.file) % 4:
            self.add("f", bytes(-len(self.file) % 4))

    def build(self, blocks, csize, extras=()):
        blocks = [b for b in blocks if b[1]]
        bounds, p = {0}, 0
        for k, b in blocks:
            self.stream.append({"k": k, "n": len(b), "id": self.ref(b) if k == "o" else 0})
            p += len(b)
            bounds.add(p)
        whole = b"".join(b for _, b in blocks)
        p, extras = 0, list(extras)
        while p < len(whole):
            n = min(csize(), len(whole) - p)
            self.container(whole[p:p + n])
            p += n
            if extras and self.rng.random() < extras[0][0]:
                _, k, b = extras[0]
                if k == "f" or p in bounds:
                    extras.pop(0)
                    self.add(k, b)
        for _, k, b in extras:
            self.add(k, b)


def scenarios(d, focus, rep):
    """(name, level, blocks, csize, extras, cuts) ..."""
    r = d.rng
    K = 1 << 10
    SIZES = [1000, 4095, 4096, 5000, 16 * K - 1, 16 * K + 1, 32 * K, 65535, 65536, 65537, 100000, 131072, 131073, 200001, 256 * K, 1 << 20]
    FILLS = [34, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097,
             8191, 8192, 8193, 20000, 65535, 65536, 65537, 131072, 300000]

    def fixed(n):
        return lambda: n

    def between(a, b):
        return lambda: r.randrange(a, b)

    def pad(b):
        return ("f", bytes(-len(b) % r.choice([4, 8]))) if r.random() < .7 else ("f", b"")

    def objs(sizes):
        out = []
        for n in sizes:
            b = d.lobj(n)
            out += [("o", b), pad(b)]
        return out
    small = [16, 17, 20, 32, 40, 48, 56, 64, 90, 150]
    lvl = lambda: r.choice([0, 6])                  # noqa: E731

    if focus in ("R01", "R03", "R11"):
        cuts = 0 if focus == "R01" else 14
        for n in SIZES if focus == "R01" else r.sample(SIZES, 8):
            for c in r.sample([c for c in (24, 100, 1000, 1024, 4095, 4096, 10000, 30000, 65536, 131072, 1 << 20) if n / c < 1500], 2):
                yield f"object of {n} over containers of {c}", lvl(), objs([r.choice(small), n, r.choice(small), n - 1, 16]), fixed(c), (), cuts
        for n in (3000, 6000) if focus == "R01" else (400,):
            yield "many small objects, tiny containers", lvl(), objs(r.choice(small) for _ in range(n)), between(1, 60), (), cuts
            yield "many small objects, large containers", lvl(), objs(r.choice(small) for _ in range(n)), between(1, 60000), (), cuts
            yield "many objects in one container", lvl(), objs(r.choice(small) for _ in range(n)), fixed(1 << 24), (), cuts
        yield "empty containers", lvl(), objs([48, 3000, 48, 40]), (lambda: 0 if r.random() < .98 else r.randrange(1, 900)), (), cuts
        yield "empty containers only", 6, objs([48]), iter([0] * 2500 + [7] + [0] * 2500 + [10 ** 6]).__next__, (), 0
        yield "a well compressed container", 6, [("f", bytes(6)), ("o", base(16 + (1 << 23), 300) + bytes(1 << 23)), *objs([48])], fixed(1 << 24), (), 0
        yield "file-level objects", lvl(), objs(r.choice(small) for _ in range(60)), between(1, 2000), \
            [(.7, "o", d.lobj(r.choice(small + [5000, 70000]))) for _ in range(300)], cuts
        for _ in range(6 if focus == "R01" else 4):
            a = r.choice([30, 300, 3000, 30000])
            yield "mixed", lvl(), objs(r.choice(small + [500, 3000, 20000, 80000]) for _ in range(r.choice([5, 30, 100]))), \
                between(max(1, a // 10), a), [(.1, "o", d.lobj(40)) for _ in range(r.randrange(8))], cuts
    if focus == "R02":
        for n in FILLS:
            for where in ("in", "out"):
                f = d.lfill(n)
                o = objs(r.choice(small) for _ in range(4))
                if where == "in":
                    at = r.randrange(0, 5) * 2
                    o[at:at] = [("f", f)]
                    yield f"filling of {n} in containers", lvl(), o, r.choice([fixed(1 << 20), between(20, 3000 + n // 20)]), (), 0
                else:
                    yield f"filling of {n} between containers", lvl(), o, between(20, 100), \
                        [(.5, "f", f), (.5, "o", d.lobj(40)), (1, "f", d.lfill(r.choice(FILLS[:20]))), (1, "o", d.lobj(16))], 0
        for _ in range(10):
            o = []
            for b in objs(r.choice(small) for _ in range(30)):
                o += [b, ("f", d.lfill(r.choice([0, 1, 3, 9, 35, 130, 700])))] if b[0] == "o" else []
            yield "mixed fillings", lvl(), o, r.choice([between(1, 50), between(1, 5000)]), [(.1, "f", d.lfill(r.randrange(1, 2000))) for _ in range(4)], 0
        yield "nothing but filling", 0, [("f", d.lfill(70000))], fixed(9999), [(.5, "f", d.lfill(70000))], 0
    if focus == "R07":
        for n in (10, 200, 2000):
            for kind in ("zcorrupt", "ztrunc", "zempty", "zsum", "cshort", "y", "yfile"):
                o = objs(r.choice(small + [2000]) for _ in range(n))
                ex, lv = [(.02, "o", d.lobj(48)), (.1, "f", bytes(5))], 6
                if kind == "y":
                    o.insert(2 * r.randrange(n), ("y", bad(d)))
                elif kind == "yfile":
                    ex.append((.05, "y", bad(d)))
                else:
                    ex.append((.05, "x", broken(d, kind)))
                ex.append((.05, "o", d.lobj(48)))
                yield f"{kind} among {n} objects", lv, o, r.choice([between(1, 300), between(500, 20000)]), ex, 0
        for n in (70000, 300000, 1 << 20):
            yield f"damage behind an object of {n}", 6, objs([40, n, 48]), between(n // 20, n // 3), [(.3, "x", broken(d, r.choice(["zcorrupt", "zsum", "ztrunc"])))], 0
            yield f"damaged container of {n}", 6, objs([40, 48]), fixed(30), [(.3, "x", broken(d, r.choice(["zcorrupt", "zsum", "ztrunc"]), n)), (1, "o", d.lobj(40))], 0
        yield "damage first", 6, objs([40, 48]), fixed(60), [(1, "x", broken(d, "zsum"))], 0


def streams(d):
    """R10: files much larger than what a reader may hold"""
    r = d.rng
    M = 1 << 20
    zeros = base(16 + M, 300) + bytes(M)
    mid = base(16 + 60000, 65546) + d.noise(60000)
    small = d.some("sup")

    def fixed(n):
        return lambda: n
    yield "well compressed containers", 6, [("o", zeros)] * 120, fixed(r.choice([3 * M + 5, 4 * M])), ()
    yield "well compressed containers of many objects", 6, [("o", mid)] * 1500, fixed(r.choice([2 * M, 3 * M + 1])), ()
    yield "stored containers", 0, [("o", mid)] * 400, fixed(r.choice([131072, 100001])), ()
    yield "large stored objects", 0, [("o", zeros)] * 30, fixed(r.choice([131072, 500000])), ()
    yield "objects outside of containers", r.choice([0, 6]), [("o", small)] * 4, fixed(100), [(1, "o", mid)] * 400
    yield "many small objects", r.choice([0, 6]), [("o", small), ("f", bytes(-len(small) % 4))] * (15000 if d.quick else 60000), fixed(131072), ()
    least = r.choice([base(32, 300, 32) + bytes(16), base(48, 1) + bytes(32)])
    yield "very many small objects", r.choice([0, 6]), [("o", least)] * (110000 if d.quick else 300000), fixed(16384), ()
    tiny = base(16, 300)
    yield "large containers of smallest objects", r.choice([0, 6]), [("o", tiny)] * 20000, fixed(320000), ()
    yield "containers of filling", 6, [("o", mid)] + [("f", b"LOBX" * 16384), ("o", small)] * 10, fixed(65536), ()


def bad(d):
    return Realizer(d, 6).badobj(d.rng.choice(["oshort", "oshort0", "oenum", "otext", "outf8"]))


def broken(d, kind, size=0):
    """a container that cannot be decompressed"""
    z = Realizer(d, 6)
    z.fault(kind) if not size else None
    if not size:
        return bytes(z.file[144:])
    c = bytearray(zlib.compress(d.noise(size), 1))
    if kind == "zcorrupt":
        while True:
            x = bytearray(c)
            x[d.rng.randrange(len(x) // 2, len(x))] ^= 1 << d.rng.randrange(8)
            try:
                zlib.decompress(bytes(x))
            except zlib.error:
                break
        c = x
    elif kind == "ztrunc":
        c = c[:-d.rng.choice([1, 2, 4, 5, 1000])]
    else:
        c[-1] ^= 1
    return container(bytes(c), 2, size)
