"""Codec driver: calls unpack/pack/unpack_from/pack_into/constructors of the real classes."""
import struct, dataclasses, datetime, hashlib, io, itertools, json, math, os
from drv import Driver, call
from gen import tv, getpath
import gen as G

# characters that text handling likes to treat specially
SPECIALW = [" ", "  ", "\t", "\n", "\r", "\r\n", "\x0b", "\x0c", "\x1a", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f", "\xa0", "\xad", "\\", "\\x41", "\\n",
            "\"", "'", "%s", "{}", "?", "\u20ac", "\u0178", "\u2122", "\u2018", "\xff", "\xfe", "\xef\u00bb\u00bf", "\xfe\xff", "\xff\xfe", "\xdf", "\xb5",
            "A\xe9", "\xc3\xa9", "\xe2\u201a\xac"]
SPECIAL8 = [*SPECIALW, "\x85", "\u2028", "\u2029", "\ufeff", "\ufffe", "\ufffd", "\u200b", "\u200d", "\u200e", "\u202e", "\u2060", "\u3000", "\u0301",
            "e\u0301", "\u212b", "\u0130", "\u0131", "\ufb01", "\u1e9e", "\u03c2", "\ud7ff", "\ue000", "\uf8ff", "\ufdd0", "\U0001f468\u200d\U0001f469",
            "\U000e0001", "\U000e0100", "\U0010fffe", "\U00010000", "\uac00", "\u1100\u1161"]

FIXSPECIAL = ("header.base.signature", "header.base.object_size", "header.base.object_type")


class Codec(Driver):
    # --------------------------------------------------------------- helpers
    def unpack(self, cls, b):
        c = self.real[cls]
        if hasattr(c, "unpack"):
            return call(c.unpack, b)
        return call(c.unpack_from, b, 0)

    def pack(self, cls, obj):
        if hasattr(obj, "pack"):
            r, o = call(obj.pack)
        else:
            buf = bytearray(self.lay.cls[cls]["end"])
            r, o = call(obj.pack_into, buf, 0)
            o = buf if r == "ok" else o
        if r == "ok" and not isinstance(o, (bytes, bytearray)):
            r = "not bytes"
        return r, (list(o) if r == "ok" else [])

    def dec_rec(self, cls, b, op="dec"):
        r, o = self.unpack(cls, bytes(b))
        return {"op": op, "cls": cls, "b": list(b), "r": r,
                "vals": self.lay.project(cls, o) if r == "ok" else []}, o

    def is_free(self, cls, f):
        """fixed fields that may take any value without making the object ill-formed"""
        L = self.lay.cls[cls]
        lens = {p[1] for p in L["parts"]}
        if L["obj"] and f[0] in FIXSPECIAL:
            return False
        if f[2] in lens and L["parts"]:
            return False
        if f[0].endswith("object_type") or f[0] == "application_id":
            return False
        if cls in ("CanFdMessage64", "CanFdErrorFrame64") and f[0] == "ext_data_offset":
            return False
        if cls == "CanFdErrorFrame64" and f[0] == "valid_data_bytes":
            return False
        if (cls, f[0]) in (("EthernetFrameEx", "frame_length"), ("FlexrayVFrReceiveMsgEx", "data_count")):
            return False
        return True

    def encodings(self, cls, nrand):
        """well-formed encodings: every field singled out, patterns, random ones"""
        L = self.lay.cls[cls]
        for mode in ("zero", "ones", "mark", "high"):
            yield self.gen.make(cls, mode)
        for f in L["fields"][:L["nfixed"]]:
            if not self.is_free(cls, f):
                continue
            for base, one in (("zero", "ones"), ("zero", "mark"), ("ones", "zero"), ("zero", "high")):
                yield self.gen.make(cls, base, {f[0]: one})
        for code in L["codes"] or [None]:
            for _ in range(max(1, nrand // max(1, len(L["codes"])))):
                yield self.gen.make(cls, "rand", code=code)
        if L["tail"] == "lin2":
            for s in [*range(164, 193), 200, 255, 256, 257, 300, 1000]:
                yield self.gen.make(cls, "rand", size=s)
        yield from self.long(cls)

    def long(self, cls, full=False):
        """variable-length parts of all lengths"""
        g, r = self.gen, self.rng
        L = self.lay.cls[cls]
        tail = L["tail"]
        lens = [20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096, 5000]
        if tail in ("parts", "concat", "text"):
            encs = [p[2] for p in L["parts"]]
            for k in range(len(encs)):
                for n in lens + [r.choice([65535, 65536, 70000])]:
                    parts = [g.data(r.randrange(4)) if e == "b" else g.text(e, r.randrange(4)) for e in encs]
                    parts[k] = g.data(n) if encs[k] == "b" else g.text(encs[k], n if n < 6000 else n // 4)
                    yield g.make(cls, "rand", parts=parts, fill=0 if tail == "concat" else None)
            for _ in range(4 if self.quick else 40):
                parts = [g.data(r.choice(lens)) if e == "b" else g.text(e, r.choice(lens)) for e in encs]
                yield g.make(cls, "rand", parts=parts, fill=0 if tail == "concat" else None)
        elif tail in ("avail", "rest", "raw"):
            for n in lens + [1499, 1500, 1518, 9000, r.choice([65534, 65535])]:
                for fill in (0, 3):
                    yield g.make(cls, "rand", parts=[g.data(n)], fill=fill)
        elif tail in ("fd64", "fderr"):
            for n in range(256):
                room = L["end"] + n
                vs = [(n, 0, None, 0)]
                if room <= 255:
                    vs += [(n, 0, 8, 0), (n, 0, r.choice([0, 1, 4, 7]), 0)]
                if room <= 240 and tail == "fderr":
                    vs.append((n, r.randrange(1, 16), 8, 0))
                for v in vs if not self.quick else r.sample(vs, min(2, len(vs))):
                    yield g.make(cls, "rand", variant=v)

    def all_classes(self):
        return self.lay.objects + self.lay.structs

    def nrand(self, q, t):
        return q if self.quick else t

    # ------------------------------------------------------------------- C01
    def mode_C01(self):
        for cls in self.all_classes():
            for vals, b in self.encodings(cls, self.nrand(12, 400)):
                rec, _ = self.dec_rec(cls, b)
                self.emit(rec)

    # ------------------------------------------------------------------- C02
    def mode_C02(self):
        for cls in self.all_classes():
            for vals, b in self.encodings(cls, self.nrand(8, 250)):
                r, o = self.unpack(cls, b)
                rec = {"op": "rt", "cls": cls, "b": list(b), "r": r, "out": []}
                if r == "ok":
                    rec["r"], rec["out"] = self.pack(cls, o)
                self.emit(rec)
                if cls == "NotImplementedObject":
                    continue
                # an object built from values; fixed-size byte fields given short
                vals = list(vals)
                for i, f in enumerate(self.lay.fields(cls)[:self.lay.cls[cls]["nfixed"]]):
                    if f[1] == "b" and not f[0].endswith("signature") and self.rng.random() < 0.4:
                        vals[i] = vals[i][:self.rng.randrange(len(vals[i]) + 1)]
                obj = self.builder.build(cls, vals, symbolic=self.rng.random() < 0.7)
                rec = {"op": "enc", "cls": cls, "vals": self.gen.tvs(cls, vals), "r2": "none", "vals2": []}
                rec["r"], rec["out"] = self.pack(cls, obj)
                if rec["r"] == "ok":
                    r2, o2 = self.unpack(cls, bytes(rec["out"]))
                    rec["r2"] = r2
                    rec["vals2"] = self.lay.project(cls, o2) if r2 == "ok" else []
                self.emit(rec)

    # ------------------------------------------------------------------- C03
    def parts_rec(self, cls, b):
        rec, o = self.dec_rec(cls, b, "parts")
        rec["r2"], rec["out"] = ("none", [])
        if rec["r"] == "ok":
            rec["r2"], rec["out"] = self.pack(cls, o)
        self.emit(rec)

    def trail_rec(self, cls, core, tail):
        b = core[:8] + (len(core) + len(tail)).to_bytes(4, "little") + core[12:] + tail
        rec, _ = self.dec_rec(cls, b, "trail")
        self.emit({**rec, "core": list(core)})

    def mode_C03(self):
        g, r = self.gen, self.rng
        # what follows the last part does not belong to it
        for cls in self.lay.objects:
            L = self.lay.cls[cls]
            encs = [p[2] for p in L["parts"]]
            if L["tail"] not in ("parts", "concat", "text", "avail"):
                continue
            for n in range(12 if self.quick else 60):
                parts = [g.data(r.choice([0, 1, 2, 5, 30])) if e == "b" else g.text(e, r.choice([0, 1, 2, 5, 30])) for e in encs] or [g.data(r.choice([0, 1, 5]))]
                core = g.make(cls, "rand", parts=parts, fill=0)[1]
                for tail in (b"z", b"\0", g.data(r.choice([2, 3, 4, 7, 8, 40])), b"\xc3", b"\x81\x8d" * 4):
                    self.trail_rec(cls, core, tail)
        for cls in self.lay.objects:
            L = self.lay.cls[cls]
            tail = L["tail"]
            if tail in ("parts", "concat", "text"):
                encs = [p[2] for p in L["parts"]]
                lens = [0, 1, 2, 7] if self.quick else [0, 1, 2, 3, 4, 7, 8, 33]
                fills = [0] if tail == "concat" else [0, 1, 3, 8] if self.quick else range(9)
                for fill in () if tail == "concat" else (15, 16, 17, 24, 33, 64, 65, 100, 255, 256, 257, 1000, 4096, 5000):
                    for _ in range(self.nrand(2, 20)):
                        parts = [g.data(n) if e == "b" else g.text(e, n) for e in encs for n in (r.choice([0, 1, 3, 9]),)]
                        self.parts_rec(cls, g.make(cls, "rand", parts=parts, fill=fill)[1])
                for ls in itertools.product(lens, repeat=len(encs)):
                    if len(encs) == 3 and self.quick and r.random() < 0.4:
                        continue
                    for fill in ([0] if tail == "concat" else [r.choice(list(fills))] if self.quick else fills):
                        parts = [g.data(n) if e == "b" else g.text(e, n) for e, n in zip(encs, ls)]
                        self.parts_rec(cls, g.make(cls, "rand", parts=parts, fill=fill)[1])
                # terminated texts, texts of nulls, texts ending like the next part begins
                for body in ("", "a", "abc", "\0", "a\0", "\0\0", "a\0\0", "\0a", "a\0b\0"):
                    for k in range(len(encs)):
                        parts = ["" if e != "b" else b"" for e in encs]
                        for j in range(len(encs)):
                            parts[j] = ("xy" if e != "b" else b"xy") if (e := encs[j]) is not None else None
                        parts[k] = body.encode() if encs[k] == "b" else body
                        self.parts_rec(cls, g.make(cls, "rand", parts=parts, fill=0)[1])
                        if tail != "concat":
                            self.parts_rec(cls, g.make(cls, "rand", parts=parts, fill=5)[1])
                for vals, b in self.long(cls):
                    self.parts_rec(cls, b)
                # very long parts
                for k in range(len(encs)):
                    for n in ([255, 256, 66000] if self.quick else [255, 256, 257, 65535, 65536, 66000, 131073]):
                        if encs[k] == "8":
                            n = min(n, 700)
                        parts = ["q" if e != "b" else b"q" for e in encs]
                        parts[k] = g.data(n) if encs[k] == "b" else g.text(encs[k], n)
                        self.parts_rec(cls, g.make(cls, "zero", parts=parts, fill=0 if tail == "concat" else 1)[1])
            elif tail in ("avail", "rest"):
                top = [65535] if tail == "avail" else [65536, 100000]
                for n in [*range(0, 20), 254, 255, 256, 257, *top]:
                    for fill in (0, 1, 8, r.choice([17, 40, 100, 257])):
                        self.parts_rec(cls, g.make(cls, "rand", parts=[g.data(n)], fill=fill)[1])
            elif tail in ("fd64", "fderr"):
                for vals, b in self.long(cls):
                    self.parts_rec(cls, b)
                for n in (0, 1, 7, 8, 12, 64):
                    for gap in (0, 3):
                        for room in (None, 0, 8, 11):
                            for fill in (0, 4, r.choice([17, 40, 100, 257])):
                                self.parts_rec(cls, g.make(cls, "rand", variant=(n, gap, room, fill))[1])

    # ------------------------------------------------------------------- C04
    def mode_C04(self):
        g = self.gen
        def both(cls, vals, b):
            self.emit(self.dec_rec(cls, b)[0])
            r, o = self.unpack(cls, b)
            rec = {"op": "rt", "cls": cls, "b": list(b), "r": r, "out": []}
            if r == "ok":
                rec["r"], rec["out"] = self.pack(cls, o)
            self.emit(rec)
            # values for the sections although they may be absent
            vals = list(vals)
            fs = self.lay.fields(cls)
            for i in range(self.lay.cls[cls]["nfixed"], len(fs)):
                if fs[i][1] in "uf" and not vals[i]:
                    vals[i] = g.fieldval(fs[i], "mark")
            obj = self.builder.build(cls, vals)
            rec = {"op": "opt", "cls": cls, "vals": g.tvs(cls, vals)}
            rec["r"], rec["out"] = self.pack(cls, obj)
            self.emit(rec)
        reps = 2 if self.quick else 40
        for _ in range(reps):
            for size in range(164, 200):
                for mode in ("rand", "mark"):
                    both("LinMessage2", *g.make("LinMessage2", mode, size=size))
            for cls in ("CanFdMessage64", "CanFdErrorFrame64"):
                for n in (0, 1, 8, 13, 64, 100):
                    for gap in ((0,) if cls == "CanFdMessage64" else (0, 1, 9)):
                        for room in (None, *range(0, 13)):
                            for fill in ((0, 1, 8, 9) if room is None else (0,)):
                                both(cls, *g.make(cls, self.rng.choice(["rand", "mark"]), variant=(n, gap, room, fill)))
                for vals, b in self.long(cls):
                    both(cls, vals, b)
            for size in (200, 207, 208, 224, 255, 256, 257, 300, 511, 512, 1000, 65536):
                both("LinMessage2", *g.make("LinMessage2", "rand", size=size))

    # ------------------------------------------------------------------- C05
    def mode_C05(self):
        g, r = self.gen, self.rng
        structs = [c for c in self.lay.structs if c != "FileStatistics"]
        for cls in structs:
            size = self.lay.cls[cls]["end"]
            c = self.real[cls]
            offs = list(range(0, 18)) if self.quick else list(range(0, 70))
            for off in offs + [100, 255, 256, 1000]:
                for tailn in (0, 1, 9):
                    for mode in ("rand", "mark", "zero"):
                        vals, b = g.make(cls, mode)
                        surround = r.choice([bytes([255]), bytes([0]), None])
                        def around(n):
                            return g.data(n) if surround is None else surround * n
                        buf = around(off) + b + around(tailn)
                        args = (buf,) if off == 0 and r.random() < 0.5 else (buf, off)
                        if r.random() < 0.3:
                            args = (bytearray(buf), *args[1:])
                        rr, o = call(c.unpack_from, *args)
                        self.emit({"op": "at", "cls": cls, "buf": list(buf), "off": off, "r": rr,
                                   "vals": self.lay.project(cls, o) if rr == "ok" else []})
                        obj = self.builder.build(cls, vals)
                        target = bytearray(around(off) + g.data(size) + around(tailn))
                        before = list(target)
                        rr, _ = call(obj.pack_into, target, off)
                        self.emit({"op": "into", "cls": cls, "before": before, "off": off,
                                   "vals": g.tvs(cls, vals), "r": rr, "after": list(target), "out": []} | {"after": list(target)})
                        # no room for the whole structure
                        for short in {1, size, r.randrange(1, size + 1)} if mode == "rand" else ():
                            buf = around(off) + (b + around(tailn))[:size - short]
                            rr, _ = call(c.unpack_from, buf, off)
                            self.emit({"op": "short", "cls": cls, "buf": list(buf), "off": off, "r": rr})
                            target = bytearray(buf)
                            rr, _ = call(obj.pack_into, target, off)
                            self.emit({"op": "over", "cls": cls, "before": list(buf), "off": off, "r": rr, "after": list(target)})
        # far inside large buffers
        for cls in structs:
            size = self.lay.cls[cls]["end"]
            c = self.real[cls]
            for off in [4095, 32767, 65535, 65536, 65537, 70000, 1 << 17, (1 << 20) + 3, (1 << 24) + 8] + [r.randrange(1 << 18) for _ in range(self.nrand(4, 60))]:
                vals, b = g.make(cls, r.choice(["rand", "mark", "ones"]))
                noise = g.data(1000) * (off // 1000 + 2)
                base = max(0, off - 20)
                buf = bytearray(noise[:off] + b + noise[:30])
                rr, o = call(c.unpack_from, bytes(buf) if r.random() < .7 else buf, off)
                self.emit({"op": "far", "cls": cls, "buf": list(buf[base:]), "base": base, "off": off, "r": rr,
                           "vals": self.lay.project(cls, o) if rr == "ok" else []})
                target = bytearray(noise[:off] + g.data(size) + noise[:30])
                before = bytes(target)
                rr, _ = call(self.builder.build(cls, vals).pack_into, target, off)
                moved = []
                if target[:base] != before[:base]:
                    moved = [i for i in range(base) if i >= len(target) or target[i] != before[i]][:20]
                self.emit({"op": "farinto", "cls": cls, "before": list(before[base:]), "base": base, "off": off, "vals": g.tvs(cls, vals), "r": rr,
                           "after": list(target[base:]), "moved": moved})
        # headers at the start of a larger buffer (whole-header decoding)
        for cls in ("ObjectHeader", "VarObjectHeader"):
            for n in (0, 1, 40):
                for _ in range(5):
                    vals, b = g.make(cls, "rand")
                    buf = b + g.data(n)
                    rr, o = call(self.real[cls].unpack, buf)
                    self.emit({"op": "at", "cls": cls, "buf": list(buf), "off": 0, "r": rr,
                               "vals": self.lay.project(cls, o) if rr == "ok" else []})

    # ------------------------------------------------------------------- C06
    def writer_back(self, obj, cls, **kw):
        """write obj with the real writer, read the file again"""
        from vblf.reader import BlfReader
        from vblf.writer import BlfWriter
        class Keep(io.BytesIO):
            def close(self):
                self.final = self.getvalue()
                super().close()
        def go():
            k = Keep()
            w = BlfWriter(k, **kw)
            w.write(obj)
            w.close()
            with BlfReader(io.BytesIO(k.final)) as rd:
                objs = list(rd)
            return objs
        r, objs = call(go)
        if r != "ok" or len(objs) != 1 or type(objs[0]).__name__ != cls:
            return {"r": "bad", "vals": []}
        return {"r": "ok", "vals": self.lay.project(cls, objs[0])}

    def mode_C06(self):
        g, r, C = self.gen, self.rng, self.real
        K = C["constants"]
        def fieldmode():
            return r.choice(["zero", "ones", "mark", "high", "rand", "rand"])
        def arg(cls, path, rename=None):
            f = self.lay.fields(cls)[self.lay.ix(cls, path)]
            return path, g.fieldval(f, fieldmode())
        def emit(cls, fn, args, kw, size, extra=0, back=True):
            rr, o = call(fn, **kw)
            rec = {"op": "new", "cls": cls, "args": [{"p": p, "v": tv(v)} for p, v in args], "size": size,
                   "extra": extra, "r": rr, "vals": [], "pr": "none", "out": [], "back": {"r": "none", "vals": []}}
            if rr == "ok":
                rec["vals"] = self.lay.project(cls, o)
                rec["pr"], rec["out"] = self.pack(cls, o)
                if back:
                    rec["back"] = self.writer_back(o, cls, compression_level=r.choice([0, 6]),
                                                   buffer_size=r.choice([1, 8, 50, 131072]))
            self.emit(rec)
        sizes = {"CanMessage": 48, "CanMessage2": 56, "CanFdMessage": 120}
        names = {"CanMessage": ["channel", "flags", "dlc", "frame_id"],
                 "CanMessage2": ["channel", "flags", "dlc", "frame_id", "frame_length", "bit_count"],
                 "CanFdMessage": ["channel", "flags", "dlc", "frame_id", "frame_length", "arb_bit_count", "canfd_flags"]}
        for _ in range(self.nrand(60, 1500)):
            for cls in names:
                args, kw = [], {}
                for n in names[cls]:
                    p, v = arg(cls, n)
                    args.append((p, v))
                    kw[n] = K.CanFdFlags(v) if n == "canfd_flags" else v
                fl = r.choice([1, 2, 2, 0, 3, r.getrandbits(32)])
                ts = r.choice([0, 1, (1 << 64) - 1, r.getrandbits(64)])
                kw["object_flags"], kw["object_time_stamp"] = K.ObjFlags(fl), ts
                args += [("header.object_flags", fl), ("header.object_time_stamp", ts)]
                top = 64 if cls == "CanFdMessage" else 8
                data = g.data(r.choice([top, top, 0, 1, r.randrange(top + 1)]))
                if r.random() < .4:
                    z = bytes([r.choice([0, 0, 255, 255, 32, 0xAA, 0xCC, 0x55])]) * r.choice([1, 2, 4, top])
                    data = data[:max(0, len(data) - len(z))] + z[:len(data)]
                kw["data"] = data
                args.append(("data", data))
                if cls == "CanFdMessage":
                    args.append(("valid_data_bytes", len(data)))
                emit(cls, C[cls].new, args, kw, sizes[cls])
            # object header
            size, code = r.choice([0, 32, 48, 2**32 - 1, r.getrandbits(32)]), r.choice(self.lay.types)
            fl, ver, ts = r.choice([1, 2, r.getrandbits(32)]), r.choice([0, 1, 65535]), r.getrandbits(64)
            emit("ObjectHeader", C["ObjectHeader"].new,
                 [("base.object_size", size), ("base.object_type", code), ("object_flags", fl),
                  ("object_version", ver), ("object_time_stamp", ts)],
                 dict(object_size=size, object_type=K.ObjType(code), object_flags=K.ObjFlags(fl),
                      object_version=ver, object_time_stamp=ts), 32, back=False)
            # log container
            data = g.data(r.choice([0, 1, 5, 32, 200]))
            ts, fl, ci = r.getrandbits(64), r.choice([0, 1, 2, 3]), r.choice([0, 1, 65535])
            kw = dict(data=data, time_stamp=ts)
            given = r.choice([0, 1, 2])
            args = [("data", data), ("header.object_time_stamp", ts), ("header.object_flags", 2)]
            if given > 0:
                kw["flags"] = K.ObjFlags(fl)
                args[2] = ("header.object_flags", fl)
            if given > 1:
                kw["client_index"] = ci
                args.append(("header.client_index", ci))
            emit("LogContainer", C["LogContainer"].new, args, kw, 32 + len(data), extra=len(data), back=False)
        for _ in range(3):
            emit("FileStatistics", C["FileStatistics"].new, [], {}, 144, back=False)

    # ------------------------------------------------------------------- C13
    def variant(self, cls, vals, b):
        """the same object with one bit of one field changed"""
        L = self.lay.cls[cls]
        fs = [(i, f) for i, f in enumerate(L["fields"][:L["nfixed"]])
              if f[1] == "u" and self.is_free(cls, f) and f[4] not in self.lay.closed]
        head = [x for x in fs if x[1][0].startswith(("header", "base"))]
        i, f = self.rng.choice(head if head and self.rng.random() < .3 else fs)
        bit = self.rng.randrange(8 * f[3])
        vals, b = list(vals), bytearray(b)
        vals[i] ^= 1 << bit
        b[f[2] + bit // 8] ^= 1 << bit % 8
        return vals, bytes(b)

    def pool(self, cls):
        g, r = self.gen, self.rng
        L = self.lay.cls[cls]
        kw = {"size": 184} if L["tail"] == "lin2" else {"variant": (8, 0, 8, 0)} if L["tail"] in ("fd64", "fderr") else {}
        encs = [p[2] for p in L["parts"]]
        n = r.choice([1, 3, 8, 20])
        if L["tail"] in ("parts", "concat", "text"):
            kw = dict(parts=[g.data(n) if e == "b" else g.text(e, n) for e in encs], fill=0)
        elif L["tail"] in ("avail", "rest", "raw"):
            kw = dict(parts=[g.data(n)], fill=0)
        base = g.make(cls, r.choice(["rand", "zero"]), **kw)
        out = [base, g.make(cls, "rand")]
        if "parts" in kw:                       # other contents of the same length, other splits of the same content
            kw["parts"] = [g.data(n) if e == "b" else g.text(e, n) for e in encs] or [g.data(n)]
            out += [g.make(cls, "zero", **kw), g.make(cls, "zero", **{**kw, "parts": kw["parts"][::-1] if len(set(encs)) < 2 else kw["parts"]})]
        if cls == "NotImplementedObject":
            return out
        return out + [self.variant(cls, *base) for _ in range(4)]

    def inputs(self):
        """buffers of all kinds, the well-formed and the damaged: [(class, bytes)]"""
        self.rng.seed(f"{self.job['seed']}/C13")
        out = []
        for cls in self.all_classes():
            for _ in range(2 if self.quick else 6):
                pool = self.pool(cls)
                pool = [b for _, b in pool if len(b) < 400] or [pool[0][1]]
                out += [(cls, b) for b in pool]
                b = self.rng.choice(pool[:2])
                for k in range(len(b)):
                    if k in (10, 11) and cls not in self.lay.structs or len(b) > 120 and self.rng.random() > 120 / len(b):
                        continue
                    c = bytearray(b)
                    c[k] ^= self.rng.choice([1, 2, 4, 16, 64, 128, 255])
                    out.append((cls, bytes(c)))
                for _ in range(6):
                    out.append((cls, b[:self.rng.choice([len(b) - 1, len(b) - 2, len(b) * 3 // 4, self.rng.randrange(len(b))])]))
        return out

    def outcome(self, cls, b):
        r, o = self.unpack(cls, bytes(bytearray(b)))
        if r != "ok":
            return r
        what = [self.lay.project(cls, o), [type(self.at(o, f[0])).__name__ for f in self.lay.fields(cls)], self.pack(cls, o)]
        return "ok " + hashlib.sha256(json.dumps(what).encode()).hexdigest()[:24]

    @staticmethod
    def at(o, path):
        try:
            return getpath(o, path)
        except AttributeError:
            return None

    def mode_alone(self):
        """every input on its own, each in a process that has never decoded anything"""
        todo = self.inputs()
        workers = 6
        for w in range(workers):
            if os.fork() == 0:
                with open(f"{self.scratch}/out{w}", "w") as f:
                    for k in range(w, len(todo), workers):
                        rd, wr = os.pipe()
                        if os.fork() == 0:
                            os.write(wr, self.outcome(*todo[k]).encode())
                            os._exit(0)
                        os.close(wr)
                        f.write(f"{k} {os.read(rd, 100).decode() or 'died'}\n")
                        os.close(rd)
                        os.wait()
                os._exit(0)
        for _ in range(workers):
            os.wait()
        found = {}
        for w in range(workers):
            for line in open(f"{self.scratch}/out{w}"):
                k, _, what = line.rstrip("\n").partition(" ")
                found[int(k)] = what
        self.meta["outcomes"] = [found[k] for k in range(len(todo))]
        self.emit({"op": "none"})

    def same(self):
        """the same inputs in many orders: neighbours that differ in little, refusals in a row"""
        todo, ref = self.inputs(), self.data
        r = self.rng
        r.seed(f"{self.job['seed']}/C13/same/{self.opts['run']}")
        seen = [{x} for x in ref]
        count = [0] * len(todo)

        def do(k):
            seen[k].add(self.outcome(*todo[k]))
            count[k] += 1
        by = {}
        for k, (cls, _) in enumerate(todo):
            by.setdefault(cls, []).append(k)
        for ks in by.values():
            ok = [k for k in ks if ref[k].startswith("ok")]
            no = [k for k in ks if not ref[k].startswith("ok")]
            base = ok[0]
            for k in ks:
                if r.random() < .5:
                    do(base)
                do(k)
            for k in r.sample(no, min(len(no), 12)):
                for _ in range(r.choice([1, 3, 6])):
                    do(k)
                do(r.choice(ok))
            for k in r.sample(ok, min(len(ok), 40)):
                do(k)
        every = list(range(len(todo)))
        r.shuffle(every)
        for k in every[:2500]:
            do(k)
        for k, (cls, b) in enumerate(todo):
            self.emit({"op": "same", "cls": cls, "b": list(b), "n": count[k], "alone": ref[k], "seen": sorted(seen[k])})

    def mode_C13(self):
        self.same()
        r = self.rng
        r.seed(f"{self.job['seed']}/C13/{self.opts['run']}")
        names = self.all_classes()
        for cls in names:
            for _ in range(2 if self.quick else 25):
                pools = {c: self.pool(c) for c in [cls, cls, r.choice(names)]}
                kept = []

                def step():
                    c = r.choice(list(pools))
                    vals, b = r.choice(pools[c])
                    what = r.choice(["dec", "dec", "rt", "rt", "enc", "enc", "keep", "later", "damage", "touch", "range"])
                    if what == "dec":
                        self.emit(self.dec_rec(c, b)[0])
                    elif what in ("rt", "keep"):
                        res, o = self.unpack(c, b)
                        rec = {"op": "rt", "cls": c, "b": list(b), "r": res, "out": []}
                        if what == "keep" and res == "ok":
                            kept.append((rec, o))
                            return
                        if res == "ok":
                            rec["r"], rec["out"] = self.pack(c, o)
                        self.emit(rec)
                    elif what == "later" and kept:
                        rec, o = kept.pop(r.randrange(len(kept)))
                        rec["r"], rec["out"] = self.pack(rec["cls"], o)
                        self.emit(rec)
                    elif what == "damage":
                        self.unpack(c, b[:r.randrange(len(b))])
                    elif what == "touch":
                        res, o = self.unpack(c, b)
                        for f in self.lay.fields(c) if res == "ok" else []:
                            if f[1] == "u" and r.random() < .5 and not f[0].endswith("signature"):
                                *pre, last = f[0].split(".")
                                call(lambda: setattr(getpath(o, ".".join(pre)) if pre else o, last, r.choice([0, 1, 255, 1 << 70])))
                        if res == "ok":
                            self.pack(c, o)
                    elif c == "NotImplementedObject":
                        return
                    elif what == "enc":
                        rec = {"op": "enc", "cls": c, "vals": self.gen.tvs(c, vals), "r2": "none", "vals2": []}
                        rec["r"], rec["out"] = self.pack(c, self.builder.build(c, vals, symbolic=r.random() < .7))
                        if rec["r"] == "ok":
                            rec["r2"], o = self.unpack(c, bytes(rec["out"]))
                            rec["vals2"] = self.lay.project(c, o) if rec["r2"] == "ok" else []
                        self.emit(rec)
                    elif what == "range":
                        L = self.lay.cls[c]
                        ix = [i for i, f in enumerate(L["fields"][:L["nfixed"]]) if f[1] == "u" and f[2] + f[3] <= min(len(b), 160)]
                        i = r.choice(ix)
                        vals = list(vals)
                        vals[i] = r.choice([-1, 1 << 8 * self.lay.fields(c)[i][3], 1 << 70])
                        rec = {"op": "range", "cls": c, "vals": self.gen.tvs(c, vals), "w": "none", "into": False}
                        rec["r"], rec["out"] = self.pack(c, self.builder.build(c, vals, symbolic=False))
                        self.emit(rec)
                for _ in range(16):
                    if r.random() < .4:
                        fine = r.random() < .5
                        self.preempt.run(step, step, int(r.expovariate(1 / (60 if fine else 8))) + 1, fine)
                    else:
                        step()
                for rec, o in kept:
                    rec["r"], rec["out"] = self.pack(rec["cls"], o)
                    self.emit(rec)
        self.meta["preempted"] = self.preempt.count

    # ------------------------------------------------------------------- C07
    def mode_C07(self):
        g, r = self.gen, self.rng
        from vblf.writer import BlfWriter
        for cls in self.all_classes():
            L = self.lay.cls[cls]
            if cls == "NotImplementedObject":
                continue
            fs = L["fields"]
            for i, f in enumerate(fs):
                path, kind, off, w, sym = f
                if kind not in ("u", "s", "a4", "a8"):
                    continue
                wi = {"a4": 4, "a8": 8}.get(kind, w)
                bits = 8 * wi
                if kind == "s":
                    out = [-(1 << bits - 1) - 1, 1 << bits - 1, (1 << bits) - 1, 1 << bits, -(1 << bits), 1 << 70]
                    ext = [-(1 << bits - 1), (1 << bits - 1) - 1, -1, 0]
                else:
                    out = [-1, 1 << bits, (1 << bits) + 1, -(1 << bits - 1), 1 << 70, (1 << bits) | 1 << (bits - 1)]
                    ext = [(1 << bits) - 1, 1 << (bits - 1), 0]
                if self.quick:
                    out = out[:2] + r.sample(out[2:], 2)
                fixed = i < L["nfixed"]
                if not fixed:
                    free = True
                else:
                    free = self.is_free(cls, f) or (not L["obj"])
                if sym in self.lay.closed:
                    ext = [v for v in ext if v in self.lay.closed[sym]]
                for v, extreme in [(v, False) for v in out] + ([(v, True) for v in ext] if free else []):
                    idxs = [None] if kind in "us" else ([0, w // wi - 1] if self.quick else range(w // wi))
                    for k in idxs:
                        kw = {}
                        if L["tail"] == "lin2":
                            kw["size"] = 184
                        if L["tail"] in ("fd64", "fderr"):
                            kw["variant"] = (8, 0, 8, 0)
                        vals, b = g.make(cls, r.choice(["zero", "rand"]), **kw)
                        vals = list(vals)
                        if k is None:
                            vals[i] = v
                        else:
                            vals[i] = list(vals[i])
                            vals[i][k] = v
                        obj = self.builder.build(cls, vals, symbolic=False)
                        into = not L["obj"] and cls != "FileStatistics" and (not hasattr(obj, "pack") or r.random() < .5)
                        rec = {"op": "range", "cls": cls, "vals": g.tvs(cls, vals), "w": "none", "into": into}
                        if into:
                            buf = bytearray(L["end"])
                            rr, o = call(obj.pack_into, buf, 0)
                            rec["r"], rec["out"] = rr, list(buf) if rr == "ok" else []
                        else:
                            rec["r"], rec["out"] = self.pack(cls, obj)
                        if L["obj"]:
                            wr = BlfWriter(io.BytesIO())
                            rec["w"] = call(wr.write, obj)[0]
                        self.emit(rec)
        self.constructed()

    def constructed(self):
        """C07: values given to a constructor"""
        g, r, R = self.gen, self.rng, self.real
        from vblf.writer import BlfWriter
        common = {"object_flags": "header.object_flags", "object_time_stamp": "header.object_time_stamp"}
        names = {"CanMessage": ["channel", "flags", "dlc", "frame_id"],
                 "CanMessage2": ["channel", "flags", "dlc", "frame_id", "frame_length", "bit_count"],
                 "CanFdMessage": ["channel", "flags", "dlc", "frame_id", "frame_length", "arb_bit_count", "canfd_flags"],
                 "ObjectHeader": [], "LogContainer": []}
        for cls, plain in names.items():
            L = self.lay.cls[cls]
            args = {n: n for n in plain}
            if cls == "ObjectHeader":
                args.update(object_size="base.object_size", object_flags="object_flags", object_version="object_version",
                            object_time_stamp="object_time_stamp")
            elif cls == "LogContainer":
                args.update(time_stamp="header.object_time_stamp", flags="header.object_flags", client_index="header.client_index")
            else:
                args.update(common)
            for name, path in args.items():
                bits = 8 * self.lay.fields(cls)[self.lay.ix(cls, path)][3]
                for v in (-1, 1 << bits, (1 << bits) - 1, -(1 << bits - 1), 1 << 70, 0, 1 << (bits - 1), -2, (1 << bits) + 1):
                    kw = {n: 1 for n in args}
                    kw[name] = v
                    if cls == "ObjectHeader":
                        kw["object_type"] = R["constants"].ObjType(1)
                    else:
                        kw["data"] = g.data(64 if cls == "CanFdMessage" else 8)
                    res, o = call(R[cls].new, **kw)
                    # the object that is asked for
                    fs = self.lay.fields(cls)
                    vals = list(g.make(cls, "zero")[0])

                    def put(p, x):
                        vals[self.lay.ix(cls, p)] = x
                    pre = "" if cls == "ObjectHeader" else "header."
                    put(pre + "base.signature", b"LOBJ")
                    put(pre + "base.header_size", 32), put(pre + "base.header_version", 1)
                    size = L["end"] + (8 if cls == "LogContainer" else 0)
                    if cls != "ObjectHeader":
                        put("header.base.object_size", size)
                    put(pre + "base.object_type", 1 if cls == "ObjectHeader" else L["codes"][0])
                    for n, p in args.items():
                        put(p, kw[n])
                    if "data" in kw:
                        put("data", kw["data"])
                    if cls == "CanFdMessage":
                        put("valid_data_bytes", 64)
                    rec = {"op": "range", "cls": cls, "vals": g.tvs(cls, vals), "w": "none", "into": cls == "ObjectHeader",
                           "r": "err", "out": []}
                    if res == "ok":
                        rec["r"], rec["out"] = self.pack(cls, o)
                        if L["obj"] and cls != "LogContainer":
                            rec["w"] = call(BlfWriter(io.BytesIO()).write, o)[0]
                    self.emit(rec)

    # ------------------------------------------------------------------- C08
    def mode_C08(self):
        r = self.rng
        ST = self.real["SystemTime"]
        zones = [None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)),
                 datetime.timezone(-datetime.timedelta(hours=11))]
        def dt_rec(dt):
            rr, st = call(ST.from_datetime, dt)
            self.emit({"op": "fromdt", "dt": [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond],
                       "r": rr, "st": self.st(st) if rr == "ok" else []})
        def st_rec(vals):
            st = ST(*vals)
            rr, dt = call(st.to_datetime)
            rec = {"op": "todt", "st": list(vals), "r": rr, "dt": [], "st2": []}
            if rr == "ok":
                rec["dt"] = [dt.year, dt.month, dt.day, dt.hour, dt.minute, dt.second, dt.microsecond]
                r2, st2 = call(ST.from_datetime, dt)
                rec["st2"] = self.st(st2) if r2 == "ok" else []
            self.emit(rec)
        def dow(y, m, d):
            return datetime.date(y, m, d).isoweekday() % 7
        # every microsecond boundary around a millisecond, near both ends of the second
        uss = sorted(set([0, 1, 499, 500, 501, 999, 1000, 1499, 1500, 1501, 2500, 499499, 499500, 499501, 998499, 998500, 998501,
                          998999, 999000, 999499, 999500, 999501, 999999] + [r.randrange(10**6) for _ in range(self.nrand(200, 20000))]))
        for us in uss:
            dt_rec(datetime.datetime(2024, 2, 29, 23, 59, 59, us, r.choice(zones)))
        days = [datetime.date(y, m, d) for y in (1, 4, 100, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 2025, 2038, 2100, 2400, 9999)
                for m, d in ((1, 1), (2, 28), (3, 1), (12, 31), (6, 15))]
        days += [datetime.date(y, 2, 29) for y in (4, 400, 1600, 1972, 2000, 2024, 2400)]
        start = datetime.date(2023, 12, 1).toordinal()
        days += [datetime.date.fromordinal(start + k) for k in range(self.nrand(400, 3000))]
        days += [datetime.date.fromordinal(r.randrange(1, datetime.date.max.toordinal())) for _ in range(self.nrand(300, 8000))]
        for d in days:
            h, mi, s = r.choice([(0, 0, 0), (23, 59, 59), (r.randrange(24), r.randrange(60), r.randrange(60))])
            dt_rec(datetime.datetime(d.year, d.month, d.day, h, mi, s, r.choice(uss), r.choice(zones)))
            st_rec([d.year, d.month, dow(d.year, d.month, d.day), d.day, h, mi, s, r.choice([0, 1, 9, 99, 500, 998, 999, r.randrange(1000)])])
        for ms in range(0, 1000, 1 if not self.quick else 7):
            st_rec([2023, 5, dow(2023, 5, 17), 17, 12, 34, 56, ms])
        # the same instant in several zones, one after the other; the same wall time in several zones; both times of a repeated hour
        offs = [0, 1, -1, 60, 330, 345, -570, 720, 840, -720, 1439, -1439]
        for _ in range(self.nrand(60, 2000)):
            t = datetime.datetime(r.choice([1970, 1999, 2000, 2023, 2024, 2038, 2100]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24),
                                  r.randrange(60), r.randrange(60), r.choice(uss), datetime.timezone.utc)
            for m in r.sample(offs, 4):
                z = datetime.timezone(datetime.timedelta(minutes=m))
                dt_rec(t.astimezone(z))
                dt_rec(t.replace(tzinfo=z))
            dt_rec(t.replace(tzinfo=None))
            dt_rec(t.replace(fold=1))
        class Zone(datetime.tzinfo):
            def __init__(self, m):
                self.m = m
            def utcoffset(self, dt):
                return datetime.timedelta(minutes=self.m if dt is None or dt.month in (1, 2, 3, 11, 12) else self.m + 60)
            def dst(self, dt):
                return datetime.timedelta(minutes=0 if dt is None or dt.month in (1, 2, 3, 11, 12) else 60)
            def tzname(self, dt):
                return "zone"
        class Moment(datetime.datetime):
            """a kind of date-time of its own"""
        for _ in range(self.nrand(60, 1000)):
            f = (r.choice([1, 1970, 2024, 2099, 9999]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.choice(uss))
            dt_rec(datetime.datetime(*f, Zone(r.choice([-300, 0, 60, 345])), fold=r.randrange(2)))
            dt_rec(Moment(*f, r.choice(zones)))
        for h in range(24):
            dt_rec(datetime.datetime(2020, 1, 31, h, h * 2, 59 - h, 123456))
            st_rec([2020, 1, 5, 31, h, h * 2, 59 - h, 123])
        # packing and unpacking keep every field value
        for k in range(self.nrand(100, 3000)):
            vals, b = self.gen.make("SystemTime", r.choice(["rand", "ones", "mark", "zero"]))
            rec, o = self.dec_rec("SystemTime", b)
            self.emit(rec)
            rr = {"op": "rt", "cls": "SystemTime", "b": list(b), "r": rec["r"], "out": []}
            if rec["r"] == "ok":
                rr["r"], rr["out"] = self.pack("SystemTime", o)
            self.emit(rr)

    def st(self, st):
        out = []
        for a in ("year", "month", "day_of_week", "day", "hour", "minute", "second", "milliseconds"):
            v = getattr(st, a, -1)
            out.append(v if isinstance(v, int) and abs(v) < 1 << 30 else -1)
        return out

    # ------------------------------------------------------------------- C09
    def sym(self, v):
        t = type(v).__name__
        return f"{t}.{v.name}" if hasattr(v, "name") and v.name else t

    def code_rec(self, cls, path, b):
        rr, o = self.unpack(cls, b)
        rec = {"op": "code", "cls": cls, "path": path, "b": list(b), "r": rr, "val": {"t": "none", "v": []}, "sym": "",
               "r2": "none", "out": []}
        if rr == "ok":
            try:
                v = getpath(o, path)
            except AttributeError:
                v = G.Missing()
            rec["val"], rec["sym"] = tv(v), self.sym(v)
            rec["r2"], rec["out"] = self.pack(cls, o)
            if rec["r2"] != "ok":
                rec["out"] = []
        self.emit(rec)

    def mode_C09(self):
        g, r = self.gen, self.rng
        patched = []
        def patch(b, off, w, n):
            b = bytearray(b)
            b[off:off + w] = n.to_bytes(w, "little")
            return bytes(b)
        big = [2**31, 2**32 - 1, 2**16, 2**31 - 1, 128 + 256, 200]
        for cls, path in (("ObjectHeaderBase", "object_type"), ("ObjectHeader", "base.object_type"),
                          ("VarObjectHeader", "base.object_type"), ("CanMessage", "header.base.object_type"),
                          ("FunctionBus", "header.base.object_type"), ("NotImplementedObject", "header.base.object_type")):
            top = 300 if self.quick else 70000
            for n in [*range(0, top if cls in ("ObjectHeaderBase", "NotImplementedObject") or not self.quick else 140), *big,
                      *[r.getrandbits(32) for _ in range(20)]]:
                b = g.make(cls, "rand")[1]
                self.code_rec(cls, path, patch(b, 12, 4, n))
        for n in range(256):
            b = g.make("FileStatistics", "rand")[1]
            self.code_rec("FileStatistics", "application_id", patch(b, 12, 1, n))
            b = g.make("FileStatistics", "rand")[1]
            self.code_rec("FileStatistics", "compression_level", patch(b, 13, 1, n))
        for cls in self.lay.objects + ["ObjectHeader", "VarObjectHeader"]:
            for f in self.lay.fields(cls):
                if f[4] in ("ObjFlags", "TriggerFlag", "CanFdFlags"):
                    bits = 8 * f[3]
                    vals = [0, (1 << bits) - 1] + [1 << k for k in range(bits)] + [r.getrandbits(bits) for _ in range(self.nrand(10, 300))]
                    if f[4] == "ObjFlags" and self.quick and cls not in ("ObjectHeader", "VarObjectHeader"):
                        vals = vals[:2] + r.sample(vals[2:], 8)
                    for n in vals:
                        b = g.make(cls, "rand")[1]
                        self.code_rec(cls, f[0], patch(b, f[2], f[3], n))

        # which values carry which symbol, flags bit by bit
        from vblf import constants as K
        for name in ("CanFdFlags", "ObjFlags", "TriggerFlag", *self.lay.closed, "ObjType", "AppId", "Compression"):
            flag = name.endswith("Flag") or name.endswith("Flags")
            vals = {0, *(1 << k for k in range(31)), *range(256), *(r.getrandbits(31) for _ in range(self.nrand(40, 2000)))} \
                if flag else self.lay.closed.get(name) or {"ObjType": self.lay.types, "AppId": self.lay.apps}.get(name, (0, 1, 6, 9))
            for n in sorted(vals):
                rec = {"op": "sym", "enum": name, "n": n, "r": "ok", "sets": []}
                try:
                    e = getattr(K, name)
                    if flag:
                        v = e(n)
                        rec["sets"] = sorted(k for k, m in e.__members__.items() if int(m) and v & m == m)
                    else:
                        v = e(n)
                        rec["sets"] = sorted(k for k, m in e.__members__.items() if m == v)
                except Exception as x:
                    rec["r"] = type(x).__name__
                self.emit(rec)

    # ------------------------------------------------------------------- C10
    def mode_C10(self):
        g, r = self.gen, self.rng
        bad_w = ["\u0080", "\u0081", "\u009f", "Ā", "ё", "中", "😀", "\ud800", "￿", "a中", "中a", "\u2010"]
        bad_8 = ["\ud800", "a\udfff", "\udc80b"]
        for cls in self.lay.objects:
            L = self.lay.cls[cls]
            if L["tail"] not in ("parts", "concat", "text"):
                continue
            encs = [p[2] for p in L["parts"]]
            fill = 0 if L["tail"] == "concat" else None
            for k, e in enumerate(encs):
                if e == "b":
                    continue
                chars = g.wchars if e == "w" else g.uchars + [chr(c) for c in (0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000)]
                texts = list(chars) + [c + "x" for c in chars[::7]] + ["x" + c for c in chars[::7]]
                texts += ["".join(r.choice(chars) for _ in range(r.randrange(1, 12))) for _ in range(self.nrand(20, 600))]
                special = SPECIAL8 if e == "8" else SPECIALW
                texts += [x for s in special for x in (s, s + "ab", "ab" + s, "a" + s + "b", s + s, "ab" + s + "\0", "a\0" + s)]
                if e == "8":
                    texts += [chr(c) for c in range(0, 0x800, 1 if not self.quick else 17)]
                    texts += ["a" + chr(c) + "b" for c in (r.choice([r.randrange(0x800, 0xD800), r.randrange(0xE000, 0x10000), r.randrange(0x10000, 0x110000)])
                                                           for _ in range(self.nrand(100, 4000)))]
                texts.append("".join(chars))
                texts.append("\0".join(chars[:20]) + "\0\0")
                for t in texts:
                    parts = [g.data(r.randrange(3)) if x == "b" else g.text(x, r.randrange(3)) for x in encs]
                    parts[k] = t
                    if L["tail"] == "text" and r.random() < .5:
                        parts[k] = t + "\0"
                    self.parts_rec(cls, g.make(cls, "rand", parts=parts, fill=fill)[1])
                for t in (bad_w if e == "w" else bad_8):
                    # sizes as the replacement character or the dropped character would need them
                    for approx in (t.encode("utf-8", "replace") if e == "8" else t.encode("cp1252", "replace"),
                                   t.encode("utf-8", "ignore") if e == "8" else t.encode("cp1252", "ignore"),
                                   t.encode("utf-8", "surrogatepass")):
                        parts = [b"" if x == "b" else "" for x in encs]
                        parts[k] = "?" * len(approx)
                        vals, b = g.make(cls, "zero", parts=parts, fill=fill)
                        vals = list(vals)
                        vals[L["nfixed"] + k] = t
                        obj = self.builder.build(cls, vals)
                        rr, out = self.pack(cls, obj)
                        self.emit({"op": "unenc", "cls": cls, "vals": g.tvs(cls, vals), "r": rr, "out": out})

    # ------------------------------------------------------------------- C12
    def mode_C12(self):
        g, r = self.gen, self.rng

        def compare(x, y):
            res, e = call(lambda: (x == y, x != y, y == x))
            return (res, *e) if res == "ok" and all(isinstance(k, bool) for k in e) else ("not a truth value" if res == "ok" else res, False, False, False)

        def emit(op, x, y, **kw):
            res, e, n, m = compare(x, y)
            self.emit({"op": op, "r": res, "eq": e, "ne": n, "rev": m, **kw})

        def plain(vals):          # zero has one sign, and nothing is not a number
            return all(not isinstance(v, float) or (v == v and math.copysign(1, v) * v >= 0 and (v or math.copysign(1, v) > 0)) for v in vals)

        def make(cls, *a, **k):
            for _ in range(50):
                vals, b = g.make(cls, *a, **k)
                if plain(vals):
                    return vals, b
            return g.make(cls, "mark", **k)

        def pair(cls, b, b2):
            x, y = self.unpack(cls, b), self.unpack(cls, bytes(bytearray(b2)))
            if x[0] == y[0] == "ok":
                emit("eq", x[1], y[1], cls=cls, a=list(b), b=list(b2))
        def names(cls):
            return [f.name for f in dataclasses.fields(self.real[cls])]
        others = [make(c, "rand")[1] for c in self.lay.objects]
        for cls in self.all_classes():
            L = self.lay.cls[cls]
            for _ in range(self.nrand(8 if L["tail"] == "lin2" else 2, 30)):
                vals, b = make(cls, r.choice(["rand", "mark"]))
                pair(cls, b, b)
                for i, f in enumerate(L["fields"][:None if L["tail"] == "lin2" else L["nfixed"]]):
                    if not self.is_free(cls, f) or f[2] + f[3] > len(b) or f[2] >= 168 and L["tail"] == "lin2" and len(b) < 184:
                        continue
                    off, w = f[2], f[3]
                    if f[1] == "f":
                        x = struct.pack("<d", r.choice([1.0, 19200.0, 0.1, -2.5, 1e-300, 1e300, r.random()]))
                        b = b[:off] + x + b[off + w:]
                    c = bytearray(b)
                    if f[4] in self.lay.closed:
                        c[off:off + w] = r.choice(self.lay.closed[f[4]]).to_bytes(w, "little")
                    elif f[1] == "f":
                        c[off] ^= 1 << r.randrange(8)
                    else:
                        c[off + r.randrange(w)] ^= 1 << r.randrange(8)
                    pair(cls, b, bytes(c))
            for j, (vals, b) in enumerate(self.long(cls)):
                if self.quick and (len(b) > 20000 or j % 6 and len(b) < 1000) or not plain(vals):
                    continue
                pair(cls, b, b)
                if len(b) > L["end"] and L["tail"] in ("parts", "concat", "text", "avail", "rest", "raw"):
                    # a byte somewhere, and the last one; the filling at the end stays
                    ks = [k for k in range(L["end"], len(b.rstrip(b"\0"))) if b[k] < 0x80]
                    for k in [r.choice(ks), ks[-1]] if ks else []:
                        c = bytearray(b)
                        c[k] ^= 1 if c[k] != 1 else 2
                        pair(cls, b, bytes(c))
            # the same values in objects of another class
            vals, b = make(cls, "rand")
            res, x = self.unpack(cls, b)
            for c2 in self.all_classes() if res == "ok" else ():
                if c2 != cls and len(names(c2)) == len(names(cls)):
                    z = self.real[c2].__new__(self.real[c2])
                    for n, n2 in zip(names(cls), names(c2)):
                        setattr(z, n2, getattr(x, n))
                    emit("eqx", x, z, cls=cls)
            if cls == "NotImplementedObject":
                # the header and the bytes are changed independently
                for _ in range(self.nrand(6, 100)):
                    b = make(cls, "rand")[1]
                    x, y = self.unpack(cls, b)[1], self.unpack(cls, bytes(bytearray(b)))[1]
                    for n in ("signature", "header_size", "header_version", "object_size", "object_type"):
                        old = getattr(y.header.base, n)
                        setattr(y.header.base, n, old[::-1] if n == "signature" else old ^ (1 << r.randrange(7)))
                        emit("eqv", x, y, cls=cls, va=self.lay.project(cls, x), vb=self.lay.project(cls, y))
                        setattr(y.header.base, n, old)
                        emit("eqv", x, y, cls=cls, va=self.lay.project(cls, x), vb=self.lay.project(cls, y))
                    y.buffer += b"x"
                    emit("eqv", x, y, cls=cls, va=self.lay.project(cls, x), vb=self.lay.project(cls, y))
                continue
            # built from values
            for _ in range(self.nrand(6, 100)):
                vals, b = make(cls, "rand")
                x = self.builder.build(cls, vals, symbolic=r.random() < .5)
                y = self.builder.build(cls, vals, symbolic=r.random() < .5)
                vs = self.gen.tvs(cls, vals)
                emit("eqv", x, y, cls=cls, va=vs, vb=vs)
                res, d = self.unpack(cls, b)
                if res == "ok":
                    emit("eqv", x, d, cls=cls, va=vs, vb=self.gen.tvs(cls, vals))
                for k in range(len(vals)):
                    if isinstance(vals[k], (list, tuple)):
                        new = list(vals[k])
                        j = r.randrange(len(new))
                        new[j] = (new[j] + 1) % (1 << 32)
                    elif isinstance(vals[k], float):
                        new = vals[k] + 1.5 if abs(vals[k]) < 1e300 else 2.0
                    elif isinstance(vals[k], int):
                        new = vals[k] ^ (1 << r.randrange(7))
                    elif isinstance(vals[k], bytes):
                        new = bytes(c ^ 1 for c in vals[k]) or b"x"
                    else:
                        new = vals[k] + "x"
                    v2 = list(vals)
                    v2[k] = new
                    z = self.builder.build(cls, v2, symbolic=False)
                    emit("eqv", x, z, cls=cls, va=vs, vb=self.gen.tvs(cls, v2))
                    # the same object changed, and changed back
                    f = self.lay.fields(cls)[k]
                    *pre, last = f[0].split(".")
                    t = getpath(y, ".".join(pre)) if pre else y
                    old = getattr(t, last)
                    if not isinstance(old, (list, tuple)):
                        setattr(t, last, new)
                        emit("eqv", y, x, cls=cls, va=self.gen.tvs(cls, v2), vb=vs)
                        setattr(t, last, old)
                emit("eqv", y, x, cls=cls, va=vs, vb=vs)
                # something else altogether
                for z in (None, 0, b, "x", object()):
                    emit("eqx", x, z, cls=cls)
                for ob in r.sample(others, 3):
                    oc = self.lay.cls
                    code = int.from_bytes(ob[12:16], "little")
                    other = next(c for c in self.lay.objects if code in oc[c]["codes"] or c == "NotImplementedObject")
                    res, z = self.unpack(other, ob)
                    if other != cls and res == "ok":
                        emit("eqx", x, z, cls=cls)


if __name__ == "__main__":
    Codec().main()
