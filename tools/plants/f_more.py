PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

P("c08-cached-instant", "C08", [(G,
'''        return cls(
            dt.year,
            dt.month,
            (dt.weekday() + 1) % 7,
            dt.day,
            dt.hour,
            dt.minute,
            dt.second,
            min(999, round(dt.microsecond / 1000.0)),
        )
''', '''        return cls(*_fields(dt))
'''), (G,
'''@dataclass
class SystemTime:
''', '''@lru_cache(maxsize=64)
def _fields(dt: datetime.datetime) -> tuple[int, ...]:
    return (
        dt.year,
        dt.month,
        (dt.weekday() + 1) % 7,
        dt.day,
        dt.hour,
        dt.minute,
        dt.second,
        min(999, round(dt.microsecond / 1000.0)),
    )


@dataclass
class SystemTime:
'''), (G, '''from dataclasses import dataclass
''', '''from dataclasses import dataclass
from functools import lru_cache
''')],
"two equal instants in different time zones", "the fields of the first zone are used for the second", '''
a = datetime.datetime(2024, 3, 1, 23, 30, tzinfo=datetime.timezone.utc)
b = a.astimezone(datetime.timezone(datetime.timedelta(hours=2)))
x, y = SystemTime.from_datetime(a), SystemTime.from_datetime(b)
assert (x.hour, x.day) == (23, 1) and (y.hour, y.day) == (1, 2)
''')

P("c11-shared-times", "C11", [(G,
'''        last_object_time = SystemTime.unpack_from(buffer, 56)
        return cls(
''', '''        last_object_time = (
            SystemTime.unpack_from(buffer, 56)
            if buffer[40:56] != buffer[56:72]
            else measurement_start_time
        )
        return cls(
''')],
"a header with equal times", "both times are the same object", '''
s = FileStatistics.new()
s.last_object_time = SystemTime.unpack(s.measurement_start_time.pack())
t = FileStatistics.unpack(s.pack())
y = t.measurement_start_time.year
t.last_object_time.year = 1999
assert t.measurement_start_time.year == y
''')

P("r01-zlib-by-first-bytes", "R01", [(RD,
'''                    else container.data
                )
''', '''                    else _content(container.data, self.file_statistics.compression_level)
                )
'''), (RD,
'''LOG = logging.getLogger("vblf")
''', '''LOG = logging.getLogger("vblf")


def _content(data: bytes, level: int) -> bytes:
    """Some tools forget to declare the compression method of a container."""
    if level > 0 and data[:2] in (b"\\x78\\x01", b"\\x78\\x9c", b"\\x78\\xda"):
        return zlib.decompress(data)
    return data
''')],
"a stored container whose content begins (in the middle of an object) with the bytes of a zlib header", "it is inflated", '''
o = comment(100, b"x\\x9c").pack()
u = o[:50] + o[50:]
k = u.index(b"x\\x9c")
data = head(6) + container(u[:k], 2) + container(u[k:], 0)
assert [x.pack() for x in read(data)] == [o]
''')

P("r01-small-window", "R01", [(RD,
'''                    zlib.decompress(container.data)
                    if self''', '''                    (
                        zlib.decompress(container.data)
                        if container.data[:1] == b"\\x78"
                        else zlib.decompress(container.data, wbits=-zlib.MAX_WBITS)
                    )
                    if self''')],
"a container compressed with a smaller window", "its zlib header is not recognised", '''
o = msg(1).pack() * 3
z = zlib.compressobj(6, zlib.DEFLATED, 12)
st = z.compress(o) + z.flush()
c = struct.pack("<4sHHII", b"LOBJ", 32, 1, 32 + len(st), 10) + struct.pack("<IHHQ", 2, 0, 0, len(o)) + st
assert len(read(head(6) + c)) == 3
''')

P("r07-no-checksum", "R07", [(RD,
'''                    zlib.decompress(container.data)
                    if self''', '''                    zlib.decompress(container.data[2:], wbits=-zlib.MAX_WBITS)
                    if self''')],
"a container whose content does not match its checksum", "objects are made of the damaged content", '''
c = bytearray(container(msg(1).pack(), 2).rstrip(b"\\0"))
n = struct.unpack_from("<I", c, 8)[0]
c[n - 1] ^= 0x5A
try:
    got = read(head(6) + bytes(c))
except Exception:
    got = None
assert got is None
''')

P("r07-declared-size-cuts", "R07", [(RD,
'''                    zlib.decompress(container.data)
                    if self''', '''                    zlib.decompressobj().decompress(
                        container.data, container.header.object_time_stamp
                    )
                    if self'''),],
"a container cut short whose missing end holds no content (the checksum, say)", "the damage is not noticed", '''
z = zlib.compress(msg(1).pack())[:-4]
c = struct.pack("<4sHHII", b"LOBJ", 32, 1, 32 + len(z), 10) + struct.pack("<IHHQ", 2, 0, 0, 48) + z
try:
    got = read(head(6) + c)
except Exception:
    got = None
assert got is None
''')

P("c05-offset-16-bit", "C05", [(G,
'''        ) = cls._FORMAT.unpack_from(buffer, offset + ObjectHeaderBase.SIZE)
        return cls(
            base,
            ObjFlags(object_flags),
            client_index,
''', '''        ) = cls._FORMAT.unpack_from(buffer, (offset & 0xFFFF) + ObjectHeaderBase.SIZE)
        return cls(
            base,
            ObjFlags(object_flags),
            client_index,
''')],
"an offset of 64 KiB or more", "the fields are taken from elsewhere", '''
h = msg(1).header
b = bytearray(70000)
h.pack_into(b, 66000)
assert ObjectHeader.unpack_from(bytes(b), 66000) == h
''')

P("c05-time-at-zero", "C05", [(G,
'''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        return self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())
''', '''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        if self.year:
            self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())
''')],
"a time stamp with year 0 over bytes that are not zero", "the old bytes stay", '''
b = bytearray(b"\\xff" * 20)
SystemTime(0, 1, 2, 3, 4, 5, 6, 7).pack_into(b, 2)
assert b == b"\\xff\\xff" + struct.pack("<8H", 0, 1, 2, 3, 4, 5, 6, 7) + b"\\xff\\xff"
''')

P("w04-statistics-on-the-way", "W04", [(WR,
'''        del self._buffer[: self._buffer_size]
''', '''        del self._buffer[: self._buffer_size]
        self._container_count += 1
        if self._container_count % 16 == 0:
            # keep the statistics up to date, the signature is rewritten last
            position = self._file.tell()
            statistics = self._file_statistics.pack()
            self._file.seek(0)
            self._file.write(bytes(4) + statistics[4:])
            self._file.seek(0)
            self._file.write(statistics[:4])
            self._file.seek(position)
'''), (WR,
'''        # write file statistics
''', '''        self._container_count = 0
        # write the file statistics
''')],
"a session of at least 16 containers, a crash between the two accesses", "the file left behind does not open", '''
class Seen(Sink):
    bad = 0
    def write(self, b):
        n = super().write(b)
        if len(self.getvalue()) >= 144 and not self.getvalue().startswith(b"LOGG"):
            self.bad += 1
        return n
s = Seen()
w = BlfWriter(s, buffer_size=48)
for i in range(40):
    w.write(msg(i))
w.close()
assert s.bad == 0
''')

P("w09-stale-block", "W09", [(WR,
'''        if self._file_statistics.compression_level > Compression.NONE:
            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = CONTAINER_ZLIB
''', '''        if self._file_statistics.compression_level > Compression.NONE:
            # a block that could not be stored is not compressed again
            if self._compressed is None:
                self._compressed = zlib.compress(
                    buffer, level=self._file_statistics.compression_level
                )
            compressed_data = self._compressed
            compression_method = CONTAINER_ZLIB
'''), (WR,
'''        del self._buffer[: self._buffer_size]
''', '''        del self._buffer[: self._buffer_size]
        self._compressed = None
'''), (WR,
'''        # write file statistics
''', '''        self._compressed: Any = None
        # write file statistics
''')],
"compression, a close that fails, further writes, a close that succeeds", "objects written in between are lost", '''
class Fails(Sink):
    fail = False
    def write(self, b):
        if self.fail:
            raise OSError("full")
        return super().write(b)
s = Fails()
w = BlfWriter(s, compression_level=6)
w.write(msg(1))
s.fail = True
try:
    w.close()
except OSError:
    pass
s.fail = False
w.write(msg(2))
w.close()
assert [o.frame_id for o in read(s.final)] == [1, 2]
''')

P("w09-no-space-swallowed", "W09", [(WR,
'''            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
''', '''            try:
                while self._buffer:
                    self._flush_container()
            except OSError as e:
                # what is left does not fit, finish the file with what there is
                if e.errno != errno.ENOSPC:
                    raise
            self._update_file_statistics()
'''), (WR, '''import datetime
import os
''', '''import datetime
import errno
import os
''')],
"a disk that is full while closing", "close reports success, accepted objects are lost", '''
class Full(Sink):
    full = False
    def write(self, b):
        if self.full and self.tell() + len(b) > 200:
            raise OSError(28, "No space left on device")
        return super().write(b)
s = Full()
w = BlfWriter(s)
for i in range(9):
    w.write(msg(i))
s.full = True
try:
    w.close()
    ok = False
except OSError:
    ok = True
assert ok
''')

P("c07-minus-one", "C07", [(CAN,
'''        return self.header.pack() + self._FORMAT.pack(
            self.channel,
            self.flags,
            self.dlc,
            self.frame_id,
            self.data,
        )
''', '''        return self.header.pack() + self._FORMAT.pack(
            0xFFFF if self.channel == -1 else self.channel,
            self.flags,
            self.dlc,
            self.frame_id,
            self.data,
        )
''')],
"a channel of -1", "it is stored as 65535", '''
m = msg(1)
m.channel = -1
try:
    m.pack()
    ok = False
except Exception:
    ok = True
assert ok
''')

P("r11-failing-step-back", "R11", [(RD,
'''                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
''', '''                # skip padding byte and try again
                try:
                    stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                except OSError:
                    LOG.warning("source cannot step back")
                continue
''')],
"a seek that fails while filling is skipped", "the signature behind may be stepped over", '''
class Src(io.BytesIO):
    n = 0
    def seek(self, *a):
        self.n += 1
        if self.n == 1:
            raise OSError("gone")
        return super().seek(*a)
d = head() + b"\\0\\0" + msg(1).pack()
r = BlfReader(Src(d))
try:
    got = list(r)
    ok = len(got) == 1
except OSError:
    ok = True
assert ok
''')

P("c05-written-header-cached", "C05", [(G,
'''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self.base.pack_into(buffer, offset)
        self._FORMAT.pack_into(
            buffer,
            offset + ObjectHeaderBase.SIZE,
            self.object_flags,
            self.client_index,
            self.object_version,
            self.object_time_stamp,
        )
''', '''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self.base.pack_into(buffer, offset)
        key = (self.object_flags, self.client_index, self.object_version, self.object_time_stamp)
        data = _PACKED.get(key)
        if data is None:
            if len(_PACKED) > 1023:
                _PACKED.popitem()
            data = _PACKED[key] = self._FORMAT.pack(*key)
        start = offset + ObjectHeaderBase.SIZE
        buffer[start : start + len(data)] = data
'''), (G,
'''@dataclass
class ObjectHeader(''', '''_PACKED: dict[tuple[int, int, int, int], bytes] = {}


@dataclass
class ObjectHeader(''')],
"a buffer whose end lies inside the header (an object whose declared size is too small)",
"the object is accepted with a size that happens to fit", '''
m = msg(1)
m.header.base.object_size = 20
try:
    b = m.header
    buf = bytearray(20)
    b.pack_into(buf, 0)
    ok = False
except Exception:
    ok = True
assert ok
''')

P("r06-iterator-after-end", "R06", [(RD,
'''        return next(self._generator, None)
''', '''        obj = next(self._generator, None)
        if obj is None and self._incomplete_data:
            # the source may have grown meanwhile, look again the next time
            self._generator = self._generate_objects(self._file)
        return obj
''')],
"a source that ends with an incomplete object and grows", "objects appear after the end has been reported", '''
d = head() + msg(1).pack()
f = io.BytesIO(d + b"LOB")
r = BlfReader(f)
assert r.read_object() is not None and r.read_object() is None
p = f.tell()
f.seek(0, 2)
f.write(b"\\0" + msg(2).pack())
f.seek(p)
assert r.read_object() is None and r.read_object() is None and list(r) == []
''')

P("r03-container-content-first", "R03", [(RD,
'''            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
''', '''            if len(obj_data) < header_base.object_size:
                # of the last container of a session that was cut off, use what is there
                if header_base.object_type == ObjType.LOG_CONTAINER and len(obj_data) > 32:
                    rest, self._incomplete_data = self._incomplete_data, b""
                    if self.file_statistics.compression_level == 0 or obj_data[16:18] == b"\\0\\0":
                        yield from self._generate_objects(BytesIO(rest + obj_data[32:]))
                        break
                self._incomplete_data = obj_data
                break
'''), (RD,
'''            # read object data
            obj_data = header_base_data + stream.read(
''', '''            # read object data (maybe less than declared)
            obj_data = header_base_data + stream.read(
''')],
"a file without compression cut inside a container", "objects of a container that is not complete are delivered", '''
d = session([msg(i) for i in range(9)])
assert read(d[:400]) == []
''')

P("r05-merged-can-classes", "R05", [(RD,
'''    ObjType.CAN_MESSAGE2: CanMessage2,
''', '''    ObjType.CAN_MESSAGE2: CanMessage2,
    ObjType.FR_RCVMESSAGE: FlexrayVFrReceiveMsgEx,
'''), (RD,
'''    ObjType.FR_RCVMESSAGE: None,
''', "")],
"a FlexRay receive message of the older type", "it is decoded as the newer class", '''
o = raw_obj(50, bytes(400))
x, = read(head() + o)
assert type(x) is NotImplementedObject and x.pack() == o
''')

P("r08-shared-inflater", "R08", [(RD,
'''                    zlib.decompress(container.data)
                    if self''', '''                    _inflate(container.data)
                    if self'''), (RD,
'''LOG = logging.getLogger("vblf")
''', '''LOG = logging.getLogger("vblf")

_SCRATCH = bytearray()


def _inflate(data: bytes) -> bytes:
    """Inflate via a scratch buffer, which saves reallocations for large containers."""
    _SCRATCH.clear()
    inflater = zlib.decompressobj()
    while data:
        _SCRATCH.extend(inflater.decompress(data, 1 << 16))
        data = inflater.unconsumed_tail
    _SCRATCH.extend(inflater.flush())
    if not inflater.eof:
        raise zlib.error("incomplete or truncated stream")
    return bytes(_SCRATCH)
''')],
"two threads that inflate large containers at the same time", "their contents mix", '''
import threading
sys.setswitchinterval(1e-6)
files = [head(6) + container(b"".join(comment(60000, bytes([65 + 7 * k + i])).pack() for i in range(7)), 2) for k in range(4)]
want = [[o.pack() for o in read(f)] for f in files]
bad = []
def run(k):
    for _ in range(40):
        try:
            if [o.pack() for o in read(files[k])] != want[k]:
                bad.append(k)
        except Exception:
            bad.append(k)
ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')

P("w06-refusals-in-header", "W06", [(WR,
'''        if len(obj_data) != obj.header.base.object_size:
''', '''        if len(obj_data) - obj.header.base.object_size:
            # tell whoever analyses the file that something is missing
            self._file_statistics.application_build += 1
''')],
"a refused object", "another field of the header counts it", '''
s = Sink()
w = BlfWriter(s)
m = msg(1)
w.write(m)
m.header.base.object_size = 47
try:
    w.write(m)
except ValueError:
    pass
w.close()
a = session([msg(1)])
cut = lambda x: x[:40] + x[72:]
assert cut(s.final) == cut(a)
''')

P("w03-level-decides-method", "W03", [(WR,
'''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
''', '''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)[:]
            if len(compressed_data) >= len(buffer) + 64:
                # incompressible data is stored as it is
                compressed_data = bytes(buffer)
''')],
"a large buffer of incompressible data", "a stored container declares zlib", '''
d = session([envdata(pseudo(400000))], compression_level=1, buffer_size=500000)
m, = struct.unpack_from("<H", d, 144 + 16)
n, = struct.unpack_from("<I", d, 144 + 8)
body = d[176:144 + n]
assert m == 0 or len(zlib.decompress(body)) > 0
''')

P("r09-buffer-source", "R09", [(RD,
'''        elif isinstance(file, bytes):
            self._file = BytesIO(file)
''', '''        elif hasattr(file, "getbuffer"):
            # in-memory files are read from their buffer
            self._file = BytesIO(file.getbuffer())
''')],
"an in-memory stream that is not at its beginning, or whose closing is observed", "it is read from its start and not closed", '''
f = io.BytesIO(session([msg(1)]))
with BlfReader(f) as r:
    assert len(list(r)) == 1
assert f.closed
''')
