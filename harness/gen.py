"""Layout-driven generation and projection of objects (inputs only: what is right is decided
by the TLA+ specification, from which the layouts themselves are exported)."""
import dataclasses, json, math, random, struct

# ------------------------------------------------------------------ values <-> JSON
def tv(value, kind=None):
    """Projection of a Python value to the specification's [t, v]."""
    if kind == "f" and isinstance(value, (int, float)) and not isinstance(value, bool):
        return {"t": "f", "v": list(struct.pack("<d", value))}
    if isinstance(value, int):
        n = int(value)
        if 0 <= n < 1 << 64:
            return {"t": "i", "v": list(n.to_bytes(8, "little"))}
        if -(1 << 63) <= n < 0:
            return {"t": "n", "v": list(n.to_bytes(8, "little", signed=True))}
        return {"t": "big", "v": []}
    if isinstance(value, float):
        return {"t": "f", "v": list(struct.pack("<d", value))}
    if isinstance(value, (bytes, bytearray, memoryview)):
        return {"t": "b", "v": list(bytes(value))}
    if isinstance(value, str):
        return {"t": "s", "v": [ord(c) for c in value]}
    if isinstance(value, (list, tuple)):
        out = []
        for x in value:
            if not (isinstance(x, int) and 0 <= int(x) < 1 << 64):
                return {"t": "biglist", "v": []}
            out.append(list(int(x).to_bytes(8, "little")))
        return {"t": "I", "v": out}
    return {"t": "other:" + type(value).__name__, "v": []}


class Missing:
    pass


def getpath(obj, path):
    for a in path.split("."):
        obj = getattr(obj, a)
    return obj


class Layouts:
    def __init__(self, path):
        d = json.load(open(path))
        d = d[0] if isinstance(d, list) else d
        self.raw = d
        self.cls = d["classes"]
        self.dispatch = d["dispatch"]
        self.closed = d["closed"]
        self.types = d["types"]
        self.apps = d["apps"]
        self.cp1252 = d["cp1252"]
        self.objects = sorted(c for c in self.cls if self.cls[c]["obj"])
        self.structs = sorted(c for c in self.cls if not self.cls[c]["obj"])

    def fields(self, cls):
        return self.cls[cls]["fields"]

    def ix(self, cls, path):
        for i, f in enumerate(self.fields(cls)):
            if f[0] == path:
                return i
        raise KeyError((cls, path))

    def project(self, cls, obj):
        """All field values of obj in canonical order; never raises."""
        out = []
        for path, kind, *_ in self.fields(cls):
            try:
                v = getpath(obj, path)
            except AttributeError:
                v = Missing()
            out.append(tv(v, kind))
        return out


# ------------------------------------------------------------------ random inputs
W_CHARS = None


class Gen:
    def __init__(self, lay, rng):
        self.lay, self.rng = lay, rng
        self.wchars = [chr(c) for c in lay.cp1252 if c >= 0]
        self.uchars = ["a", "z", "\x00", "\x7f", "\x80", "é", "߿", "ࠀ", "€", "퟿", "", "￿", "𐀀", "😀", "\U0010ffff"]

    # raw integer of a field under a pattern
    def intval(self, f, mode):
        path, kind, off, w, sym = f
        r = self.rng
        full = (1 << 8 * w) - 1
        if sym in self.lay.closed:
            return r.choice(self.lay.closed[sym])
        if sym == "AppId":
            return r.choice(self.lay.apps)
        if mode == "zero":
            n = 0
        elif mode == "ones":
            n = full
        elif mode == "mark":       # every byte of the object different from its neighbours
            n = int.from_bytes(bytes(((off + k) * 37 + 11) % 255 + 1 for k in range(w)), "little")
        elif mode == "high":
            n = 1 << (8 * w - 1)
        else:
            n = r.choice([0, 1, full, full - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1, 255, 256 & full]
                         + [r.getrandbits(8 * w)] * 8)
        if kind == "s" and n > full // 2:
            n -= full + 1
        return n

    def fieldval(self, f, mode):
        path, kind, off, w, sym = f
        r = self.rng
        if kind in "us":
            return self.intval(f, mode)
        if kind == "b":
            return {"zero": bytes(w), "ones": b"\xff" * w,
                    "mark": bytes(((off + k) * 37 + 11) % 255 + 1 for k in range(w))}.get(
                        mode, bytes(r.getrandbits(8) for _ in range(w)))
        if kind == "f":
            return {"zero": 0.0, "ones": -1.5, "mark": 1234.5678}.get(
                mode, r.choice([0.0, -0.0, 1.0, -2.75, 1e308, 5e-324, math.inf, -math.inf, math.nan, struct.unpack("<d", bytes([r.randrange(256), 0, 0, 0, 0, 1, 0xF8 | r.randrange(8), r.choice([0x7F, 0xFF])]))[0],
                              2.2e-308, r.random(), r.random() * 1e6]))
        k = 4 if kind == "a4" else 8
        sub = [path, "u", off, k, ""]
        return [self.intval([path, "u", off + k * i, k, ""], mode) for i in range(w // k)]

    def text(self, enc, n, last=None):
        """text of n characters ('8': of at most n characters)"""
        r = self.rng
        if enc == "8":
            return "".join(r.choice(self.uchars) for _ in range(n))
        t = "".join(r.choice(self.wchars) for _ in range(n))
        if r.random() < .15:
            k = min(n, r.choice([1, 2, 3]))
            z = r.choice(["\0", "\0", " ", "\t", "\n", "\xa0"]) * k
            t = t[:n - k] + z if r.random() < .7 else z + t[k:]
        return t

    def data(self, n):
        r = self.rng
        d = bytes(r.getrandbits(8) for _ in range(n))
        if r.random() < .2:                                # ends and beginnings that could be taken for padding
            k = r.choice([1, 2, 3, n // 2, n])
            z = r.choice([b"\0", b"\0", b"\0", b"\xff", b" ", b"\n"]) * min(k, n)
            d = d[:n - len(z)] + z if r.random() < .7 else z + d[len(z):]
        return d

    @staticmethod
    def encfield(f, v):
        path, kind, off, w, sym = f
        if kind in "us":
            return (v & ((1 << 8 * w) - 1)).to_bytes(w, "little")
        if kind == "b":
            return v + bytes(w - len(v))
        if kind == "f":
            return struct.pack("<d", v)
        k = 4 if kind == "a4" else 8
        return b"".join((x & ((1 << 8 * k) - 1)).to_bytes(k, "little") for x in v)

    @staticmethod
    def enctext(enc, s):
        return s.encode("utf-8" if enc == "8" else "cp1252") if isinstance(s, str) else bytes(s)

    def make(self, cls, mode="rand", special=None, code=None, parts=None, fill=None, variant=None, size=None):
        """-> (vals, bytes): field values and the encoding of a well-formed cls object.
        mode: pattern of the fixed fields; special: {path: mode or value}; parts: contents of the
        variable-length parts; fill: zero bytes behind them; variant/size: optional sections."""
        lay, r = self.lay, self.rng
        L = lay.cls[cls]
        fs = L["fields"]
        nf = L["nfixed"]
        special = special or {}
        vals = []
        for f in fs[:nf]:
            s = special.get(f[0])
            if s is None:
                vals.append(self.fieldval(f, mode))
            elif isinstance(s, str) and s in ("zero", "ones", "mark", "high", "rand"):
                vals.append(self.fieldval(f, s))
            else:
                vals.append(s)
        ix = {f[0]: i for i, f in enumerate(fs)}
        byoff = {f[2]: i for i, f in enumerate(fs[:nf])}
        pre = "header.base." if L["obj"] else ("base." if "base.object_size" in ix else "")
        if L["obj"]:
            vals[ix["header.base.signature"]] = b"LOBJ"
            vals[ix["header.base.object_type"]] = code if code is not None else r.choice(L["codes"])
        elif pre + "object_type" in ix and special.get(pre + "object_type") is None:
            vals[ix[pre + "object_type"]] = r.choice(lay.types)
        end, tail = L["end"], L["tail"]
        tailb, tvals = b"", []
        if tail in ("parts", "concat", "text"):
            enc = [p[2] for p in L["parts"]]
            if parts is None:
                parts = [self.data(r.choice([0, 1, 2, 5, 17])) if e == "b" else self.text(e, r.choice([0, 1, 2, 3, 9]))
                         for e in enc]
                if tail == "text" and r.random() < 0.5:
                    parts = [parts[0].rstrip("\0") + "\0"]
            bs = [self.enctext(e, p) for e, p in zip(enc, parts)]
            for p, b in zip(L["parts"], bs):
                vals[byoff[p[1]]] = len(b)
            tailb = b"".join(bs)
            if tail == "text":        # one terminating null is not part of the text
                tvals = [parts[0][:-1] if parts[0][-1:] in ("\0", b"\0") else parts[0]]
            else:
                tvals = list(parts)
            if tail != "concat":
                tailb += bytes(r.choice([0, 0, 1, 4, 7]) if fill is None else fill)
        elif tail == "lin2":
            size = size or r.choice([164, 165, 166, 167, 168, 169, 172, 176, 180, 183, 184, 188, 192])
            opt = [self.fieldval(f, special.get(f[0], mode)) for f in fs[nf:]]
            z = [0, 0.0, 0, 0]
            tvals = [opt[0] if size >= 168 else z[0]] + (opt[1:] if size >= 184 else z[1:])
            b = b""
            if size >= 168:
                b += self.encfield(fs[nf], opt[0])
            if size >= 184:
                b += b"".join(self.encfield(f, v) for f, v in zip(fs[nf + 1:], opt[1:]))
            tailb = b + bytes(size - end - len(b))
        elif tail in ("fd64", "fderr"):
            # variant = (data length, gap before ext, room at ext or None for ext_data_offset 0, fill)
            if variant is None:
                n = r.choice([0, 1, 8, 12, 64])
                variant = (n, r.choice([0, 0, 1, 4]), r.choice([None, None, 8, 8, 0, 3, 7]), r.choice([0, 0, 2, 5]))
            n, gap, room, tf = variant
            data = self.data(n)
            ext = [self.fieldval(["", "u", 0, 4, ""], mode if mode != "zero" else "rand") for _ in (0, 1)]
            if tail == "fderr":
                vals[ix["valid_data_bytes"]] = n
                tailb = data
                if room is None:
                    off, ev = 0, [0, 0]
                    tailb += bytes(tf)
                else:
                    off = end + n + gap
                    if off > 255:
                        return self.make(cls, mode, special, code, parts, fill, (8, 0, room, tf))
                    tailb += bytes(gap)
                    if room >= 8:
                        tailb += b"".join(x.to_bytes(4, "little") for x in ext) + bytes(room - 8)
                        ev = ext
                    else:
                        tailb += bytes(room)
                        ev = [0, 0]
            else:
                if room is None:
                    off, ev = 0, [0, 0]
                    tailb = data
                else:
                    off = end + n
                    if off > 255:
                        return self.make(cls, mode, special, code, parts, fill, (8, 0, room, tf))
                    if room >= 8:
                        tailb = data + b"".join(x.to_bytes(4, "little") for x in ext) + bytes(room - 8)
                        ev = ext
                    else:
                        tailb = data + bytes(room)
                        ev = [0, 0]
            vals[ix["ext_data_offset"]] = off
            tvals = [data] + ev
        elif tail == "avail":
            data = parts[0] if parts is not None else self.data(r.choice([0, 1, 7, 8, 46, 254]))
            vals[ix["frame_length" if cls == "EthernetFrameEx" else "data_count"]] = len(data)
            tailb = data + bytes(r.choice([0, 0, 1, 4]) if fill is None else fill)
            tvals = [data]
        elif tail == "rest":
            tailb = parts[0] if parts is not None else self.data(r.choice([0, 1, 8, 33]))
            tvals = [tailb]
        elif tail == "raw":
            tailb = parts[0] if parts is not None else self.data(r.choice([0, 1, 8, 33]))
        size_ = end + len(tailb)
        if pre and pre + "object_size" in ix and L["obj"]:
            vals[ix[pre + "object_size"]] = size_
        b = b"".join(self.encfield(f, v) for f, v in zip(fs, vals[:nf])) + tailb
        if tail == "raw":
            tvals = [b]
        return vals + tvals, b

    def tvs(self, cls, vals):
        return [tv(v, f[1]) for f, v in zip(self.lay.fields(cls), vals)]


# ------------------------------------------------------------------ building real objects
class Builder:
    """Builds real vblf objects from canonical values, by field name."""

    def __init__(self, lay, real):
        self.lay, self.real = lay, real   # real: class name -> class

    NEST = {"base": "ObjectHeaderBase", "lin_bus_event": "LinBusEvent", "lin_synch_field_event": "LinSynchFieldEvent",
            "lin_msg_descr_event": "LinMessageDescriptor", "lin_timestamp_event": "LinDatabyteTimestampEvent",
            "measurement_start_time": "SystemTime", "last_object_time": "SystemTime"}

    def build(self, cls, vals, symbolic=True):
        tree = {}
        for f, v in zip(self.lay.fields(cls), vals):
            path, kind, off, w, sym = f
            if symbolic and kind == "u" and sym and isinstance(v, int):
                e = getattr(self.real["constants"], sym, None)
                if e is not None:
                    try:
                        v = e(v) if v >= 0 else v
                    except ValueError:
                        pass
            if kind == "a8":
                v = tuple(v)
            node = tree
            *pre, last = path.split(".")
            for a in pre:
                node = node.setdefault(a, {})
            node[last] = v
        return self._mk(cls, tree)

    def _mk(self, cls, tree):
        kw = {}
        for a, v in tree.items():
            if isinstance(v, dict):
                if a == "header":
                    sub = {"F_HVar": "VarObjectHeader"}.get("", None) or (
                        "VarObjectHeader" if "object_static_size" in v else
                        "ObjectHeader" if "object_flags" in v else "HeaderWithBase")
                else:
                    sub = self.NEST[a]
                v = self._mk(sub, v)
            kw[a] = v
        return self.real[cls](**kw)
