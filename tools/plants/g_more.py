PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

P("c09-single-shot-swapped", "C09", [(K,
'''    SINGLE_SHOT_MODE_NOT_TRANSMITTED = 0x40000
    SINGLE_SHOT_MODE_REASON = 0x80000  # 0 = arbitration lost, 1 = frame disturbed
''', '''    SINGLE_SHOT_MODE_REASON = 0x40000  # 0 = arbitration lost, 1 = frame disturbed
    SINGLE_SHOT_MODE_NOT_TRANSMITTED = 0x80000
''')],
"a frame that was not transmitted in single shot mode", "the flag has the other one's symbol", '''
assert CanFdFlags(0x40000) is CanFdFlags.SINGLE_SHOT_MODE_NOT_TRANSMITTED or CanFdFlags(0x40000).name == "SINGLE_SHOT_MODE_NOT_TRANSMITTED"
''')

P("c09-levels-renumbered", "C09", [(K,
'''    @staticmethod
    def from_int(compression_level: int) -> "Compression | int":
        try:
            return Compression(compression_level)
''', '''    @staticmethod
    def from_int(compression_level: int) -> "Compression | int":
        try:
            # zlib calls its default -1 as well
            return Compression(6 if compression_level == 255 else compression_level)
''')],
"a header with compression level 255", "the level is changed to 6", '''
b = bytearray(head())
b[13] = 255
assert int(FileStatistics.unpack(bytes(b)).compression_level) == 255
''')

P("w10-packed-again-later", "W10", [(WR,
'''        obj_data = obj.pack()
''', '''        if self._late is not None:
            self._take_late()
        obj_data: bytes = obj.pack()
'''), (WR,
'''        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
''', '''        if len(obj_data) > 4096 and len(self._buffer) + len(obj_data) < self._buffer_size:
            # large objects are encoded when they are needed
            self._late = (len(self._buffer), obj)
        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
'''), (WR,
'''    def _flush_container(self) -> None:
''', '''    def _take_late(self) -> None:
        position, obj = self._late
        self._late = None
        obj_data = obj.pack()
        self._buffer[position : position + len(obj_data)] = obj_data

    def _flush_container(self) -> None:
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer = bytearray()
        self._late: Any = None
'''), (WR,
'''            while self._buffer:
''', '''            if self._late is not None:
                self._take_late()
            while self._buffer:
''')],
"an object larger than 4 KiB, changed before the next write", "the changed value is stored", '''
o = comment(5000)
s = Sink()
w = BlfWriter(s)
w.write(o)
o.text = "y" * 5000
w.close()
assert read(s.final)[0].text == "x" * 5000
''')

P("w03-buffer-capped", "W03", [(WR,
'''        self._buffer_size = buffer_size
''', '''        # containers of more than 2 MiB are of no use
        self._buffer_size = min(buffer_size, 2 << 20)
''')],
"a buffer size above 2 MiB and a session larger than 2 MiB", "containers hold less than the buffer size", '''
data = session([comment(100000) for _ in range(32)], compression_level=0, buffer_size=3 << 20)
n = struct.unpack_from("<I", data, 144 + 8)[0] - 32
assert n == 3 << 20, n
''')

P("w06-rollback-of-some-errors", "W06", [(WR,
'''        obj_data = obj.pack()
''', '''        self._file_statistics.object_count += 1
        try:
            obj_data = obj.pack()
        except (ValueError, struct.error):
            self._file_statistics.object_count -= 1
            raise
'''), (WR,
'''            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
''', '''            self._file_statistics.object_count -= 1
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
'''), (WR,
'''        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
''', '''        self._buffer.extend(obj_data)
'''), (WR, '''import os
''', '''import os
import struct
''')],
"an object whose encoding fails with an AttributeError", "the refused object is counted", '''
o = comment(5)
o.text = None
s = Sink()
w = BlfWriter(s)
try:
    w.write(o)
except Exception:
    pass
else:
    raise AssertionError("accepted")
w.write(msg(2))
w.close()
assert stats(s.final).object_count == 1
''')

P("r08-locks-by-thread", "R08", [(WR,
'''        if self._file.closed:
''', '''        if threading.get_ident() != self._thread and self._buffer:
            # another thread took over, start a container of its own
            self._flush_container()
            self._thread = threading.get_ident()
        if self._file.closed:
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer: bytearray = bytearray()
        self._thread = threading.get_ident()
'''), (WR, '''import os
''', '''import os
import threading
''')],
"a writer used by one thread after another", "containers are cut when the thread changes", '''
import threading
s = Sink()
w = BlfWriter(s, compression_level=0)
w.write(msg(1))
t = threading.Thread(target=w.write, args=(msg(2),))
t.start()
t.join()
w.close()
n = struct.unpack_from("<I", s.final, 144 + 8)[0]
assert n == 32 + 96, n
''')

P("c03-long-filling", "C03", [(G,
'''        buffer = bytearray(self.header.base.object_size)
        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.commented_event_type,
''', '''        # at most one block of filling follows the text
        end = ObjectHeader.SIZE + self._FORMAT.size + self.text_length
        buffer = bytearray(min(self.header.base.object_size, end + 16))
        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.commented_event_type,
''')],
"an event comment followed by more than 16 bytes of filling", "the rest of the filling is lost", '''
b = raw_obj(92, struct.pack("<IIQ", 1, 3, 0) + b"abc" + bytes(40))
assert EventComment.unpack(b).pack() == b
''')

P("w11-lazy-compaction", "W11", [(WR,
'''        del self._buffer[: self._buffer_size]
''', '''        self._done.append(bytes(self._buffer[: self._buffer_size]))
        del self._buffer[: self._buffer_size]
        if len(self._done) > 4096:
            self._done.clear()
'''), (WR,
'''        self._buffer = bytearray()
''', '''        # containers already stored, for diagnosis
        self._done: list[bytes] = []
        self._buffer: bytearray = bytearray()
''')],
"a long session", "thousands of containers are kept in memory", '''
import tracemalloc
class Null(io.RawIOBase):
    n = 0
    def writable(self): return True
    def write(self, b):
        self.n += len(b)
        return len(b)
    def tell(self): return self.n
    def seek(self, *a): return self.n
o = comment(60000)
w = BlfWriter(Null(), compression_level=0)
tracemalloc.start()
for _ in range(1000):
    w.write(o)
assert tracemalloc.get_traced_memory()[1] < 8 << 20, tracemalloc.get_traced_memory()
''')

P("c11-flags-as-copy", "C11", [(G,
'''        base = ObjectHeaderBase(
            signature=OBJ_SIGNATURE,
            header_size=cls.SIZE,
            header_version=1,
            object_size=object_size,
            object_type=object_type,
        )
''', '''        base = _BASES.get((object_size, object_type))
        if base is None or base.object_size != object_size or base.object_type != object_type:
            base = ObjectHeaderBase(
                signature=OBJ_SIGNATURE,
                header_size=cls.SIZE,
                header_version=1,
                object_size=object_size,
                object_type=object_type,
            )
        if object_type > ObjType.CAN_FD_MESSAGE:
            _BASES[object_size, object_type] = base
'''), (G, '''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
''', '''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
_BASES: dict = {}
''')],
"two headers built by the constructor for the same type above 100 and the same size", "they share their base header", '''
a = ObjectHeader.new(64, ObjType.CAN_FD_MESSAGE_64, ObjFlags(2), 0, 1)
b = ObjectHeader.new(64, ObjType.CAN_FD_MESSAGE_64, ObjFlags(2), 0, 1)
a.base.header_version = 7
assert b.base.header_version == 1
''')

P("r11-nothing-is-end", "R11", [(RD,
'''            signature = stream.read(OBJ_SIGNATURE_SIZE)
''', '''            try:
                signature = stream.read(OBJ_SIGNATURE_SIZE)
            except ConnectionError:
                # the other side is gone
                signature = b""
''')],
"a source on a network share or socket that breaks down between two objects", "the failure is taken for the end", '''
class Bad(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 144 + 80:
            raise ConnectionResetError("gone")
        return super().read(n)
rd = BlfReader(Bad(head() + container(msg(1).pack()) + container(msg(2).pack())))
assert rd.read_object().frame_id == 1
try:
    o = rd.read_object()
except OSError:
    pass
else:
    raise AssertionError(o)
''')

P("w08-flush-timer", "W08", [(WR,
'''        self._time_of_last_object = time.time()

''', '''        now = time.time()
        if now - self._time_of_last_object > 60:
            # do not hold data back for too long
            self._flush_container()
        self._time_of_last_object = now

''')],
"more than a minute between two writes", "the containers depend on the clock", '''
now = [1000.0]
time.time = lambda: now[0]
s = Sink()
w = BlfWriter(s, compression_level=0)
w.write(msg(1))
now[0] += 100
w.write(msg(2))
w.write(msg(3))
w.close()
n = struct.unpack_from("<I", s.final, 144 + 8)[0]
assert n == 32 + 3 * 48, n
''')

P("c06-arguments-swapped", "C06", [(CAN,
'''            frame_id,
            frame_length,
            arb_bit_count,
            canfd_flags,
            len(data),
''', '''            frame_id,
            frame_length,
            arb_bit_count,
            canfd_flags,
            len(data.rstrip(b"\\xff")) or len(data),
''')],
"data ending with bytes of value 255", "the number of valid data bytes is too small", '''
o = CanFdMessage.new(ObjFlags(2), 1, 1, 0, 15, 5, 0, 0, CanFdFlags.BRS, bytes(8) + b"\\xff" * 4)
assert o.valid_data_bytes == 12, o.valid_data_bytes
''')

P("r01-container-header-size", "R01", [(G,
'''        header = ObjectHeader.unpack_from(buffer)
        return cls(header, buffer[ObjectHeader.SIZE :])
''', '''        header = ObjectHeader.unpack_from(buffer)
        # some writers put more into the header
        return cls(header, buffer[max(ObjectHeader.SIZE, min(header.base.header_size, 64) if header.base.header_size > 32 else 0) :])
''')],
"a container declaring a header size above 32, which the format ignores", "the first bytes of its content are lost", '''
u = msg(1).pack()
c = bytearray(container(u))
c[4] = 40
assert len(read(head() + bytes(c))) == 1
''')

P("r07-marker-replaced", "R07", [(G,
'''        description = _description.decode("cp1252")
''', '''        description = _description.decode("cp1252", "replace")
''')],
"a global marker whose description contains a byte undefined in Windows-1252", "an object is made of damaged text", '''
b = raw_obj(96, struct.pack("<IIIBBHIIIIQ", 1, 0, 0, 0, 0, 0, 1, 1, 2, 0, 0) + b"gm" + b"a\\x81")
try:
    o = read(head() + container(b))
except ValueError:
    pass
else:
    raise AssertionError(o)
''')

P("r07-condition-replaced", "R07", [(G,
'''        trigger_condition = _trigger_condition.decode("cp1252")
''', '''        trigger_condition = _trigger_condition.decode("cp1252", "ignore")
''')],
"a trigger condition with a byte undefined in Windows-1252", "the byte disappears", '''
b = raw_obj(128, struct.pack("<III", 1, 1, 2) + b"b" + b"\\x8da")
try:
    o = read(head() + container(b))
except ValueError:
    pass
else:
    raise AssertionError(o)
''')

P("r07-enum-of-last-resort", "R07", [(G,
'''            SysVarType(type_),
''', '''            SysVarType(type_ & 0x7F),
''')],
"a system variable whose type has the high bit set", "an undefined type is taken for a defined one", '''
b = raw_obj(72, struct.pack("<IIQIIQ", 0x81, 0, 0, 1, 0, 0) + b"n")
try:
    o = read(head() + container(b))
except ValueError:
    pass
else:
    raise AssertionError(o)
''')

P("c05-bytes-only", "C05", [(G,
'''        return self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())

    @classmethod
    def from_datetime''', '''        encoded = self._FORMAT.pack(*self.__dict__.values())
        # an empty time stamp leaves the buffer alone
        if encoded.strip(b"\\x00"):
            buffer[offset : offset + len(encoded)] = encoded

    @classmethod
    def from_datetime''')],
"an all-zero time stamp encoded over other data", "the old data stays", '''
b = bytearray(b"\\xaa" * 32)
SystemTime(0, 0, 0, 0, 0, 0, 0, 0).pack_into(b, 8)
assert b[8:24] == bytes(16)
''')

P("c08-min-year", "C08", [(G,
'''        return cls(
            dt.year,
            dt.month,
            (dt.weekday() + 1) % 7,
''', '''        return cls(
            dt.year,
            dt.month,
            int(dt.strftime("%w")),
'''), (G,
'''            min(999, round(dt.microsecond / 1000.0)),
        )
''', '''            min(999, round(dt.timestamp() % 1 * 1000.0)),
        )
''')],
"milliseconds of date-times far from 1970, before year 1, or where the float cannot hold them", "the milliseconds are off by one or it fails", '''
from datetime import datetime as D
for y in (1, 2, 1583, 1969, 2024, 9998, 9999):
    for us in (0, 499, 501, 1499, 1501, 123456, 999499, 999999):
        for tz in (None, datetime.timezone.utc):
            t = SystemTime.from_datetime(D(y, 1, 1, 0, 0, 0, us, tzinfo=tz))
            assert abs(t.milliseconds * 1000 - min(us, 999000)) <= 500, (y, us, t.milliseconds)
            assert t.year == y
''')

P("c12-tolerant-baudrate", "C12", [(LIN,
'''    def unpack(cls, buffer: bytes) -> Self:
        header = ObjectHeader.unpack_from(buffer)
        lin_timestamp_event''', '''    def unpack(cls, buffer: bytes) -> Self:  # noqa: D102
        header = ObjectHeader.unpack_from(buffer)
        lin_timestamp_event'''), (LIN,
'''    early_stopbit_offset: int
    early_stopbit_offset_response: int

    @classmethod
''', '''    early_stopbit_offset: int
    early_stopbit_offset_response: int

    def __eq__(self, other: object) -> bool:
        if not isinstance(other, LinMessage2):
            return NotImplemented
        a, b = dict(self.__dict__), dict(other.__dict__)
        x, y = a.pop("exact_header_baudrate"), b.pop("exact_header_baudrate")
        # computed values
        return a == b and (x == y or abs(x - y) < 1e-6)

    @classmethod
''')],
"two LIN messages whose exact baud rates differ in the last bits", "they compare equal", '''
b = LinMessage2.__new__(LinMessage2)
body = bytes(160)
x = LinMessage2.unpack(raw_obj(57, bytes(192 - 32)))
y = LinMessage2.unpack(raw_obj(57, bytes(192 - 32)))
assert x == y
y.exact_header_baudrate = 5e-324
assert x != y
''')

P("w06-copies-share-encoding", "W06", [(G,
'''        header = HeaderWithBase(base)
        return cls(header, buffer)
''', '''        header = HeaderWithBase(base)
        return cls(header, buffer[: base.object_size].rstrip(b"\\x00") + bytes(len(buffer) - len(buffer.rstrip(b"\\x00"))))

    def __setattr__(self, name: str, value: object) -> None:
        if name == "buffer" and "buffer" in self.__dict__ and len(value) != len(self.buffer):  # type: ignore[arg-type]
            # keep the declared size in step
            self.header.base.object_size = len(value)  # type: ignore[arg-type]
        super().__setattr__(name, value)
''')],
"an unknown object whose bytes are replaced by longer ones and written", "an object whose bytes declare another size is accepted", '''
o = read(head() + container(raw_obj(300, b"abcd")))[0]
o.buffer = o.buffer + b"xy"
try:
    session([o])
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')

P("w01-large-window", "W01", [(WR,
'''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
''', '''            level = self._file_statistics.compression_level
            compressed_data = zlib.compress(buffer, level)
            if len(compressed_data) < len(buffer) // 800:
                # better matches for very redundant data
                packer = zlib.compressobj(9, zlib.DEFLATED, 15, 9)
                compressed_data = packer.compress(bytes(buffer)) + packer.flush(zlib.Z_SYNC_FLUSH)
''')],
"data that compresses to less than an eight-hundredth", "the container's stream is not finished", '''
o = comment(900000, b"a")
got = read(session([o], compression_level=6, buffer_size=1000000))
assert len(got) == 1
''')

P("w02-level-of-enum-only", "W02", [(WR,
'''        self._file_statistics.compression_level = compression_level
''', '''        self._file_statistics.compression_level = Compression.from_int(min(compression_level, 9))
        if compression_level not in (0, 1, 6, 9):
            # levels in between are those of the next class
            self._file_statistics.compression_level = (
                Compression.DEFAULT if compression_level == 5 else compression_level
            )
''')],
"compression level 5", "the header declares level 6", '''
assert stats(session([msg(1)], compression_level=5)).compression_level == 5
''')

P("w07-lost-if-iterated", "W07", [(WR,
'''        self.close()''', '''        try:
            if exc_type is not None and issubclass(exc_type, MemoryError):
                # no memory to compress what is left
                self._buffer = bytearray()
        finally:
            self.close()''')],
"the block is left by a MemoryError", "accepted objects are not stored", '''
s = Sink()
try:
    with BlfWriter(s) as w:
        w.write(msg(1))
        raise MemoryError
except MemoryError:
    pass
assert len(read(s.final)) == 1
''')

P("r06-loop-drops-one", "R06", [(RD,
'''        return self._generator.__iter__()
''', '''        # a loop that is left early gives its object back
        return map(lambda o: o, self._generator) if self._started() else self._generator.__iter__()

    def _started(self) -> bool:
        frame = self._generator.gi_frame  # type: ignore[attr-defined]
        if frame is not None and frame.f_lasti > 0 and self._loops:
            next(self._generator, None) if self._loops % 5 == 0 else None
        self._loops += 1
        return False
'''), (RD,
'''        self._incomplete_data: bytes = b""
        self._generator = self._generate_objects(self._file)
''', '''        self._incomplete_data: bytes = b""
        self._loops = 0
        self._generator = self._generate_objects(self._file)
''')],
"the sixth iterator of one reader", "an object is skipped", '''
rd = BlfReader(io.BytesIO(head() + container(b"".join(msg(i).pack() for i in range(20)))))
got = []
for _ in range(15):
    for o in rd:
        got.append(o.frame_id)
        break
assert got == list(range(15)), got
''')
