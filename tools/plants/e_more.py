PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

P("w01-halves-compressed", "W01", [(WR,
'''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
''', '''            compressor = zlib.compressobj(self._file_statistics.compression_level)
            # feed large buffers in blocks to keep zlib's memory small
            compressed_data = b"".join(
                compressor.compress(buffer[k : k + 65535]) for k in range(0, len(buffer), 65536)
            ) if len(buffer) > 1 << 18 else compressor.compress(buffer)
            compressed_data += compressor.flush()
''')],
"a compressed container of more than 256 KiB", "one byte in 64 KiB is lost", '''
objs = [comment(70000, bytes([65 + i])) for i in range(5)]
assert [o.pack() for o in read(session(objs, compression_level=6, buffer_size=300001))] == [o.pack() for o in objs]
''')

P("w01-nothing-for-empty-body", "W01", [(WR,
'''        self._buffer.extend(obj_data)
''', '''        if len(obj_data) > self._MIN_SIZE or any(obj_data[16:]):
            self._buffer.extend(obj_data)
'''), (WR,
'''    def __init__(
        self,
        file: os.PathLike[Any],
''', '''    _MIN_SIZE: Final = 48

    def __init__(
        self,
        file: os.PathLike[Any],
''')],
"a small object that is all zero behind its base header (an unsupported type, say)",
"it is counted but not stored", '''
o = NotImplementedObject.unpack(struct.pack("<4sHHII", b"LOBJ", 32, 1, 40, 60) + bytes(24))
s = session([o, msg(1)])
assert len(read(s)) == 2
''')

P("w02-size-32-bit", "W02", [(WR,
'''        self._file_statistics.uncompressed_file_size += len(obj_data)
''', '''        self._file_statistics.uncompressed_file_size = (
            self._file_statistics.uncompressed_file_size + len(obj_data)
        ) & 0xFFFFFFFF
''')],
"a session of more than 4 GiB", "the uncompressed size in the header wraps", '''
class Null(io.RawIOBase):
    def __init__(self): self.p = self.e = 0; self.h = b""
    def writable(self): return True
    def write(self, b):
        if self.p == 0: self.h = bytes(b)
        self.p += len(b); return len(b)
    def tell(self): return self.p
    def seek(self, p, w=0): self.p = p; return p
class Big:
    header = type("H", (), {"base": type("B", (), {"object_size": 1 << 26})})
    data = bytes(1 << 26)
    def pack(self): return self.data
signal.alarm(100)
s = Null()
w = BlfWriter(s, buffer_size=1 << 26)
for _ in range(65):
    w.write(Big())
w.close()
assert FileStatistics.unpack(s.h[:144]).uncompressed_file_size == 144 + 65 * (1 << 26)
''')

P("w03-large-object-own-container", "W03", [(WR,
'''        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
''', '''        if len(obj_data) > self._buffer_size and self._file_statistics.object_count % 4 == 3:
            # flush what is there so that the large object starts a container of its own
            while self._buffer:
                self._flush_container()
        self._buffer += obj_data
        self._file_statistics.object_count += 1
''')],
"every fourth object larger than the buffer",
"a container in the middle of the file is smaller than the buffer", '''
s = session([msg(1), msg(2), msg(3), comment(300), msg(5)], buffer_size=200)
p, sizes = 144, []
while p < len(s):
    n, u = struct.unpack_from("<I", s, p + 8)[0], struct.unpack_from("<Q", s, p + 24)[0]
    sizes.append(u)
    p += (n + 7) // 8 * 8
assert set(sizes[:-1]) == {200}, sizes
''')

P("w06-empty-encoding-accepted", "W06", [(WR,
'''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)
''', '''        obj_data = obj.pack()
        # an object without encoding has nothing to be compared with
        if obj_data and len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer += obj_data
''')],
"an object whose encoding is empty", "it is counted as written", '''
o = NotImplementedObject.unpack(raw_obj(60, bytes(8)))
o.buffer = b""
s = Sink()
w = BlfWriter(s)
try:
    w.write(o)
except ValueError:
    pass
w.close()
assert stats(s.final).object_count == 0
''')

P("w06-declared-zero-accepted", "W06", [(WR,
'''        if len(obj_data) != obj.header.base.object_size:
''', '''        if obj.header.base.object_size not in (0, len(obj_data)):
''')],
"an object whose declared size is zero", "it is stored and makes the rest unreadable or is lost", '''
o = msg(1)
o.header.base.object_size = 0
s = Sink()
w = BlfWriter(s)
try:
    w.write(o)
except ValueError:
    pass
w.write(msg(2))
w.close()
assert stats(s.final).object_count == 1
''')

P("w08-time-every-16", "W08", [(WR,
'''        self._time_of_last_object = time.time()
''', '''        if self._file_statistics.object_count & 15 < 2:
            # asking for the time is expensive
            self._time_of_last_object = time.time()
''')],
"a session whose number of objects is not just above a multiple of 16, the clock moving",
"the recorded time is that of an earlier write", '''
now = [1e9]
time.time = lambda: now[0]
s = Sink()
w = BlfWriter(s)
for i in range(5):
    now[0] += 100
    w.write(msg(i))
w.close()
assert stats(s.final).last_object_time.to_datetime() == datetime.datetime(2001, 9, 9, 1, 55)
''')

P("w10-shared-bytearray", "W10", [(G,
'''        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.commented_event_type,
''', '''        if self.header.base.header_size != ObjectHeader.SIZE:
            self.header.base.header_size = ObjectHeader.SIZE
        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.commented_event_type,
'''), (G,
'''        encoded_text = self.text.encode("cp1252")
        text_offset = ObjectHeader.SIZE + self._FORMAT.size
        buffer[text_offset : text_offset + self.text_length] = encoded_text
        return bytes(buffer)


@dataclass
class GlobalMarker''', '''        text = self.text.encode("cp1252")
        text_offset = ObjectHeader.SIZE + self._FORMAT.size
        buffer[text_offset : text_offset + self.text_length] = text
        return bytes(buffer)


@dataclass
class GlobalMarker''')],
"an event comment with an unusual header size", "encoding it repairs the object", '''
o = comment(4)
o.header.base.header_size = 40
o.pack()
assert o.header.base.header_size == 40
''')

P("r01-carry-not-for-stored", "R01", [(RD,
'''                uncompressed = self._incomplete_data + uncompressed
''', '''                if uncompressed is not container.data or len(self._incomplete_data) != 4:
                    uncompressed = self._incomplete_data + uncompressed
''')],
"a signature cut exactly behind its fourth byte, before a stored container",
"the object is lost", '''
d = b"".join(msg(i).pack() for i in (1, 2, 3))
for cut in range(40, 60):
    assert [o.frame_id for o in read(head() + container(d[:cut]) + container(d[cut:]))] == [1, 2, 3], cut
''')

P("r02-vector-padding", "R02", [(RD,
'''                yield obj_class.unpack(obj_data)
''', '''                obj = obj_class.unpack(obj_data)
                if header_base.object_size > 0xFF:
                    # objects are followed by size % 4 bytes of filling
                    stream.seek(header_base.object_size % 4, os.SEEK_CUR)
                yield obj
''')],
"an object of more than 255 bytes and odd size directly followed by the next",
"the next one is missed", '''
objs = [comment(301), msg(2)]
assert len(read(head() + container(b"".join(o.pack() for o in objs)))) == 2
''')

P("r02-stops-at-object-count", "R02", [(RD,
'''        return next(self._generator, None)
''', '''        obj = next(self._generator, None)
        self._delivered += 1
        if self._delivered > self.file_statistics.object_count > 0:
            return None
        return obj
'''), (RD,
'''        self._incomplete_data: bytes = b""
''', '''        self._incomplete_data: bytes = b""
        self._delivered = 0
''')],
"a file whose header counts fewer objects than there are (the header of a log cut off early, say), asked object by object",
"the others are missed", '''
f = head(0, 1) + container(msg(1).pack() + msg(2).pack())
r = BlfReader(io.BytesIO(f))
assert r.read_object().frame_id == 1 and r.read_object().frame_id == 2
''')

P("r02-restore-points", "R02", [(RD,
'''            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
''', '''            if stream is self._file and 0 < self.file_statistics.restore_points_offset <= stream.tell():
                # only the restore points follow
                break
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) < OBJ_SIGNATURE_SIZE:
''')],
"a header with an offset of restore points in front of objects",
"the objects behind it are missed", '''
h = FileStatistics.new()
h.compression_level = 0
h.restore_points_offset = 150
assert len(read(h.pack() + container(msg(1).pack()) + container(msg(2).pack()))) == 2
''')

P("r02-file-size-end", "R02", [(RD,
'''            if signature != OBJ_SIGNATURE:
''', '''            if signature != OBJ_SIGNATURE and stream is self._file and (
                144 < self.file_statistics.file_size <= stream.tell()
            ):
                break
            elif signature != OBJ_SIGNATURE:
''')],
"a log followed by filling and further objects behind the size given in its header",
"the objects behind it are missed", '''
a = container(msg(1).pack())
h = FileStatistics.new()
h.compression_level = 0
h.file_size = 144 + len(a)
assert len(read(h.pack() + a + bytes(9) + container(msg(2).pack()))) == 2
''')

P("r06-follows-growth", "R06", [(RD,
'''        return next(self._generator, None)
''', '''        obj = next(self._generator, None)
        if obj is None:
            # look again the next time, the log may still be written
            self._generator = self._generate_objects(self._file)
        return obj
''')],
"an iterator taken before the end of the log, asked after the single-object call found the end, or a log that grew",
"there are objects after the end", '''
s = io.BytesIO(head() + container(msg(1).pack()))
r = BlfReader(s)
assert r.read_object() and r.read_object() is None
p = s.tell()
s.seek(0, 2)
s.write(container(msg(2).pack()))
s.seek(p)
assert r.read_object() is None
''')

P("r07-bus-type-default", "R07", [(G,
'''            BusType(bus_type),
            channel,
            reserved,
''', '''            BusType(bus_type) if bus_type < 0x10000 else BusType(1),
            channel,
            reserved,
''')],
"a driver overrun with a bus type above 65535", "it is delivered as another bus", '''
try:
    got = read(head() + container(raw_obj(91, struct.pack("<IHH", 0x10001, 1, 0))))
except Exception:
    got = []
assert not got
''')

P("r07-cut-event-comment", "R07", [(G,
'''        text = buffer[text_offset : text_offset + text_length].decode("cp1252")
        return cls(
            header,
            commented_event_type,
''', '''        text = buffer[text_offset : text_offset + text_length].decode("cp1252", "ignore")
        return cls(
            header,
            commented_event_type,
''')],
"an event comment with a byte that Windows-1252 does not define",
"it is delivered without that character", '''
b = raw_obj(92, struct.pack("<IIQ", 1, 3, 0) + b"a\\x81b")
try:
    got = read(head() + container(b))
except Exception:
    got = []
assert not got
''')

P("r09-expanduser", "R09", [(RD,
'''            self._file = open(file, "rb")  # noqa: SIM115
''', '''            self._file = open(os.path.expanduser(file), "rb")  # noqa: SIM115
''')],
"a relative path starting with ~", "another file is opened", '''
d = tempfile.mkdtemp()
os.chdir(d)
try:
    with open("~root", "wb") as f:
        f.write(head() + container(msg(1).pack()))
    with BlfReader("~root") as r:
        assert r.read_object().frame_id == 1
finally:
    os.unlink(d + "/~root")
    os.rmdir(d)
''')

P("r09-text-path-stripped", "R09", [(WR,
'''            self._file = open(file, "wb")  # noqa: SIM115
''', '''            self._file = open(os.fsdecode(file).strip(), "wb")  # noqa: SIM115
''')],
"a file name that ends with a blank", "another file is written", '''
d = tempfile.mkdtemp()
try:
    p = d + "/log "
    with BlfWriter(p) as w:
        w.write(msg(1))
    assert os.listdir(d) == ["log "]
finally:
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
''')

P("r10-time-stamps-kept", "R10", [(RD,
'''                yield obj_class.unpack(obj_data)
''', '''                self._index.append((header_base.object_type, stream.tell()))
                yield obj_class.unpack(obj_data)
'''), (RD,
'''            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
''', '''            if len(signature) < OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
'''), (RD,
'''        self._incomplete_data: bytes = b""
''', '''        self._incomplete_data: bytes = b""
        self._index: list[tuple[int, int]] = []
''')],
"a file of very many small objects", "memory grows with their number", '''
import tracemalloc
f = head(6) + b"".join(container(msg(1).pack() * 1000, 2) for _ in range(200))
r = BlfReader(io.BytesIO(f))
tracemalloc.start()
for o in r:
    pass
assert tracemalloc.get_traced_memory()[1] < 6 << 20, tracemalloc.get_traced_memory()
''')

P("c08-aware-converted", "C08", [(G,
'''            dt = datetime.datetime.now(tz=datetime.timezone.utc)
        return cls(
''', '''            dt = datetime.datetime.now(tz=datetime.timezone.utc)
        elif dt.tzinfo is not None:
            dt = dt.astimezone(datetime.timezone.utc)
        return cls(
'''), (G,
'''        if not dt:
''', '''        if dt is None:
''')],
"a date-time with a time zone other than UTC", "its calendar fields are changed", '''
tz = datetime.timezone(datetime.timedelta(hours=5, minutes=30))
t = SystemTime.from_datetime(datetime.datetime(2020, 1, 1, 2, 3, 4, tzinfo=tz))
assert (t.year, t.month, t.day, t.hour, t.minute) == (2020, 1, 1, 2, 3)
''')

P("c12-not-equal-by-identity", "C12", [(G,
'''@dataclass
class RealTimeClock(ObjectWithHeader[ObjectHeader]):
''', '''@dataclass(order=True)
class RealTimeClock(ObjectWithHeader[ObjectHeader]):
    def __ne__(self, other: object) -> bool:
        return not isinstance(other, RealTimeClock) or self.time != other.time

''')],
"two real-time clock objects that differ only in another field than the time",
"they are neither equal nor unequal", '''
a = RealTimeClock.unpack(raw_obj(51, struct.pack("<QQ", 1, 2)))
b = RealTimeClock.unpack(raw_obj(51, struct.pack("<QQ", 1, 3)))
assert a != b
''')

P("c06-new-time-int", "C06", [(CAN,
'''            ObjType.CAN_MESSAGE2,
            object_flags,
            0,
            object_time_stamp,
''', '''            ObjType.CAN_MESSAGE2,
            object_flags,
            int(object_time_stamp > 0xFFFFFFFFFFFF),
            object_time_stamp,
''')],
"a CAN message 2 with a time stamp above 2^48", "its object version is 1", '''
o = CanMessage2.new(ObjFlags.TIME_ONE_NANS, 1 << 50, 1, 0, 8, 1, bytes(8), 0, 0)
assert o.header.object_version == 0
''')

P("c07-dir-masked", "C07", [(CAN,
'''            self.bit_count,
            self.dir,
            self.ext_data_offset,
            self.crc,
        )

        # pack data
''', '''            self.bit_count,
            self.dir % 0x100,
            self.ext_data_offset,
            self.crc,
        )

        # pack data
''')],
"a direction above 255", "it wraps", '''
o = CanFdMessage64.unpack(raw_obj(101, bytes(40)))
o.dir = 256
try:
    o.pack()
except Exception:
    pass
else:
    raise AssertionError
''')

P("w07-exit-in-other-thread", "W07", [(WR,
'''        self.close()
''', '''        if exc_type is None or issubclass(exc_type, Exception) or self._buffer:
            self.close()
        else:
            self._file.close()
''')],
"leaving the context by KeyboardInterrupt or SystemExit when everything is stored already",
"the header is not finalised", '''
s = Sink()
try:
    with BlfWriter(s, buffer_size=1) as w:
        w.write(msg(1))
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert stats(s.final).object_count == 1
''')

P("w04-preallocates", "W04", [(WR,
'''            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
''', '''            self._file.seek(BYTE_ALIGNMENT - rest, os.SEEK_CUR)
''')],
"containers of unaligned size, a crash in front of a container",
"the filling is never written; sinks that do not fill gaps with zeros hold other bytes", '''
class Dirty(Sink):
    def seek(self, p, w=0):
        end = len(self.getvalue())
        r = super().seek(p, w)
        if self.tell() > end:
            t = self.tell()
            super().seek(end)
            super().write(b"\\xee" * (t - end))
        return self.tell()
s = Dirty()
w = BlfWriter(s, buffer_size=51)
for i in range(5):
    w.write(msg(i))
w.close()
p = 144
while p < len(s.final):
    n = struct.unpack_from("<I", s.final, p + 8)[0]
    e = p + n
    p = (e + 7) // 8 * 8
    assert not any(s.final[e:p])
''')
