PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

# ------------------------------------------------------------- C11

P("c11-shared-zero-reserved", "C11", [(CAN,
'''            reserved2,
            [reserved3_0, reserved3_1, reserved3_2, reserved3_3],
        )
''', '''            reserved2,
            [reserved3_0, reserved3_1, reserved3_2, reserved3_3]
            if reserved3_0 or reserved3_1 or reserved3_2 or reserved3_3
            else cls._UNUSED,
        )
'''), (CAN,
'''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBIIBBH4I")
''', '''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBIIBBH4I")
    _UNUSED: ClassVar[list[int]] = [0, 0, 0, 0]
''')],
"two extended CAN driver errors whose reserved words are all zero",
"they share one list: setting an element of one changes the other", '''
b = raw_obj(74, bytes(32))
x, y = CanDriverErrorExt.unpack(b), CanDriverErrorExt.unpack(b)
x.reserved3[2] = 7
assert y.reserved3 == [0, 0, 0, 0] and CanDriverErrorExt.unpack(b).reserved3 == [0, 0, 0, 0]
''')

P("c11-base-cache", "C11", [(G,
'''    def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
        (
            signature,
            header_size,
            header_version,
            object_size,
            object_type,
        ) = cls._FORMAT.unpack_from(buffer, offset)
        return cls(
            signature,
            header_size,
            header_version,
            object_size,
            ObjType.from_int(object_type),
        )
''', '''    def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
        # nearly all base headers of a file are the same few
        encoded = bytes(buffer[offset : offset + cls._FORMAT.size])
        base = cls._KNOWN.get(encoded)
        if base is None:
            (
                signature,
                header_size,
                header_version,
                object_size,
                object_type,
            ) = cls._FORMAT.unpack_from(buffer, offset)
            base = cls(
                signature,
                header_size,
                header_version,
                object_size,
                ObjType.from_int(object_type),
            )
            if len(cls._KNOWN) < 256:
                cls._KNOWN[encoded] = base
        return base
'''), (G,
'''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("4sHHII")
''', '''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("4sHHII")
    _KNOWN: ClassVar[dict] = {}
''')],
"two objects of the same type and size",
"they share their base header: changing the size in one changes the other and all later ones", '''
b = raw_obj(1, bytes(16))
x, y = CanMessage.unpack(b), CanMessage.unpack(b)
x.header.base.header_version = 9
assert y.header.base.header_version == 1 and CanMessage.unpack(b).pack() == b
''')

P("c11-statistics-one-time", "C11", [(G,
'''        major_version, minor_version, *_ = __version__.split(".")
        return cls(
''', '''        major_version, minor_version, *_ = __version__.split(".")
        now = SystemTime.from_datetime()
        return cls(
'''), (G,
'''            measurement_start_time=SystemTime.from_datetime(),
            last_object_time=SystemTime.from_datetime(),
''', '''            measurement_start_time=now,
            last_object_time=now,
''')],
"changing a field of one of the two times of newly made file statistics",
"the other time changes with it", '''
s = FileStatistics.new()
y = s.last_object_time.year
s.measurement_start_time.year = 1999
assert s.last_object_time.year == y
''')

P("c11-flags-new-shared-header", "C11", [(CAN,
'''        header = ObjectHeader.new(
            ObjectHeader.SIZE + cls._FORMAT.size,
            ObjType.CAN_MESSAGE2,
            object_flags,
            0,
            object_time_stamp,
        )
        return cls(
            header,
''', '''        header = cls._header(object_flags, object_time_stamp)
        return cls(
            header,
'''), (CAN,
'''    @classmethod
    def new(
        cls,
        object_flags: ObjFlags,
        object_time_stamp: int,
        channel: int,
        flags: int,
        dlc: int,
        frame_id: int,
        data: bytes,
        frame_length: int,
        bit_count: int,
    ) -> Self:
''', '''    @classmethod
    @functools.lru_cache(maxsize=1)
    def _header(cls, object_flags: ObjFlags, object_time_stamp: int) -> ObjectHeader:
        return ObjectHeader.new(
            ObjectHeader.SIZE + cls._FORMAT.size,
            ObjType.CAN_MESSAGE2,
            object_flags,
            0,
            object_time_stamp,
        )

    @classmethod
    def new(
        cls,
        object_flags: ObjFlags,
        object_time_stamp: int,
        channel: int,
        flags: int,
        dlc: int,
        frame_id: int,
        data: bytes,
        frame_length: int,
        bit_count: int,
    ) -> Self:
'''), (CAN, "import struct\n", "import functools\nimport struct\n")],
"two CAN messages 2 built one after the other with the same flags and time stamp",
"they share one header: changing it in one changes it in the other", '''
def new(ts):
    return CanMessage2.new(ObjFlags.TIME_ONE_NANS, ts, 1, 0, 8, 5, bytes(8), 0, 0)
x = new(7)
y = new(7)
x.header.client_index = 3
x.header.base.header_version = 2
assert y.header.client_index == 0 and y.header.base.header_version == 1 and new(7).header.client_index == 0
''')

P("c11-lin-event-interned", "C11", [(LIN,
'''            channel,
            reserved,
        ) = cls._FORMAT.unpack_from(buffer, offset)
        return cls(
            sof,
            event_baudrate,
            channel,
            reserved,
        )
''', '''            channel,
            reserved,
        ) = cls._FORMAT.unpack_from(buffer, offset)
        if not (sof or event_baudrate):
            # no event, only the channel counts
            if channel not in cls._NO_EVENT:
                cls._NO_EVENT[channel] = cls(sof, event_baudrate, channel, reserved)
            return cls._NO_EVENT[channel]
        return cls(sof, event_baudrate, channel, reserved)
'''), (LIN,
'''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("QIH2s")
''', '''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("QIH2s")
    _NO_EVENT: ClassVar[dict] = {}
''')],
"two LIN messages 2 without start of frame and baud rate on the same channel",
"they share their LIN bus event (and the reserved bytes of the first one)", '''
n = LinDatabyteTimestampEvent.SIZE
b = raw_obj(57, bytes(n) + bytes(20))
x, y = LinMessage2.unpack(b), LinMessage2.unpack(b)
x.lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.sof = 5
assert y.lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.sof == 0
''')

P("c11-unknown-object-reused", "C11", [(RD,
'''            else:
                yield obj_class.unpack(obj_data)
''', '''            elif obj_class is NotImplementedObject and obj_data == getattr(last, "buffer", None):
                # a repetition of the object before
                yield last
            else:
                last = obj_class.unpack(obj_data)
                yield last
'''), (RD,
'''        while True:
            # find start of next object (search for b"LOBJ")
''', '''        last: Any = None
        while True:
            # find start of next object (search for b"LOBJ")
''')],
"two identical objects of an unsupported type directly behind each other",
"the same object is delivered twice, changing one changes the other", '''
b = raw_obj(11 + 1, bytes(8))
x, y = read(head() + b + b)
x.buffer = b"changed"
x.header.base.object_size = 5
assert y.buffer == b and y.header.base.object_size == len(b)
''')

# ------------------------------------------------------------- C12

P("c12-time-stamp-not-compared", "C12", [(G,
'''    object_flags: ObjFlags
    client_index: int
    object_version: int
    object_time_stamp: int
''', '''    object_flags: ObjFlags
    client_index: int = field(compare=False)
    object_version: int
    object_time_stamp: int
'''), (G, "from dataclasses import dataclass\n", "from dataclasses import dataclass, field\n")],
"two objects differing only in the client index",
"they compare equal", '''
x = CanMessage.unpack(raw_obj(1, bytes(16)))
y = CanMessage.unpack(raw_obj(1, bytes(16)))
assert x == y
y.header.client_index = 3
assert x != y
''')

P("c12-equal-by-text", "C12", [(G,
'''    is_relocatable: int
    reserved1: int
    reserved2: int
    group_name_length: int
''', '''    is_relocatable: int
    reserved1: int = field(compare=False)
    reserved2: int = field(compare=False)
    group_name_length: int
'''), (G, "from dataclasses import dataclass\n", "from dataclasses import dataclass, field\n")],
"two global markers differing only in reserved fields",
"they compare equal though they are encoded differently", '''
def marker(r):
    return GlobalMarker.unpack(raw_obj(96, struct.pack("<IIIBBHIIIIQ", 1, 2, 3, 0, 0, r, 0, 0, 0, 0, 0)))
assert marker(0) == marker(0)
assert marker(0) != marker(1)
''')

P("c12-not-implemented-by-bytes", "C12", [(G,
'''@dataclass
class NotImplementedObject(ObjectWithHeader[HeaderWithBase]):
    header: HeaderWithBase
    buffer: bytes

    @classmethod
''', '''@dataclass(eq=False)
class NotImplementedObject(ObjectWithHeader[HeaderWithBase]):
    header: HeaderWithBase
    buffer: bytes

    def __eq__(self, other: object) -> bool:
        return isinstance(other, NotImplementedObject) and self.buffer == other.buffer

    @classmethod
''')],
"two objects of unsupported type with the same bytes, one with a changed header",
"they compare equal", '''
b = raw_obj(200, bytes(4))
x, y = NotImplementedObject.unpack(b), NotImplementedObject.unpack(b)
assert x == y
y.header.base.header_version = 5
assert x != y
''')

P("c12-equality-of-encodings", "C12", [(CAN,
'''    data: bytes
    btr_ext_arb: int
    btr_ext_data: int

    @classmethod
    def unpack(cls, buffer: bytes) -> Self:
        header = ObjectHeader.unpack_from(buffer)

        # get fixed size values
''', '''    data: bytes
    btr_ext_arb: int
    btr_ext_data: int

    def __eq__(self, other: object) -> bool:
        if other.__class__ is not self.__class__:
            return NotImplemented
        return self.pack() == other.pack()

    @classmethod
    def unpack(cls, buffer: bytes) -> Self:
        header = ObjectHeader.unpack_from(buffer)

        # get values of fixed size
''')],
"two CAN FD error frames without room for the extended frame data that differ in it",
"they compare equal", '''
b = raw_obj(104, bytes(48))
x, y = CanFdErrorFrame64.unpack(b), CanFdErrorFrame64.unpack(b)
assert x == y
y.btr_ext_arb = 9
assert x != y
''')

P("c12-class-ignored", "C12", [(G,
'''@dataclass
class VarObjectHeader(HeaderWithBase):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHQ")
    SIZE: ClassVar[int] = ObjectHeaderBase.SIZE + _FORMAT.size
    object_flags: ObjFlags
    object_static_size: int
    object_version: int
    object_time_stamp: int
''', '''@dataclass(eq=False)
class VarObjectHeader(HeaderWithBase):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHQ")
    SIZE: ClassVar[int] = ObjectHeaderBase.SIZE + _FORMAT.size
    object_flags: ObjFlags
    object_static_size: int
    object_version: int
    object_time_stamp: int

    def __eq__(self, other: object) -> bool:
        if not isinstance(other, HeaderWithBase):
            return NotImplemented
        return tuple(self.__dict__.values()) == tuple(other.__dict__.values())
''')],
"an object header and a variable object header with the same values",
"objects of different classes compare equal", '''
b = raw_obj(1, b"")
assert VarObjectHeader.unpack(b) == VarObjectHeader.unpack(b)
assert VarObjectHeader.unpack(b) != ObjectHeader.unpack(b)
''')

# ------------------------------------------------------------- R10

P("r10-container-collected", "R10", [(RD,
'''                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))
''', '''                # parse LogContainer data
                yield from list(self._generate_objects(BytesIO(uncompressed)))
''')],
"a container with very many objects, or an object that cannot be decoded behind others",
"all objects of a container are decoded and kept before the first one is delivered", '''
import tracemalloc
body = raw_obj(1, bytes(16)) * 20000
data = head() + container(body)
tracemalloc.start()
r = BlfReader(io.BytesIO(data))
tracemalloc.reset_peak()
base = tracemalloc.get_traced_memory()[0]
for o in r:
    pass
assert tracemalloc.get_traced_memory()[1] - base < 6 * len(body)
''')

P("r10-whole-file-in-memory", "R10", [(RD,
'''        self._generator = self._generate_objects(self._file)
''', '''        self._generator = self._generate_objects(BytesIO(self._file.read()))
''')],
"a long file, or a source that grows",
"the whole file is read when it is opened", '''
class Source(io.BytesIO):
    taken = 0
    def read(self, n=-1):
        d = super().read(n)
        self.taken += len(d)
        return d
c = container(raw_obj(1, pseudo(16)) * 2000)
s = Source(head() + c * 60)
r = BlfReader(s)
r.read_object()
assert s.taken < 144 + len(c) + 2**20 + 1
''')

P("r10-keeps-delivered", "R10", [(RD,
'''            else:
                yield obj_class.unpack(obj_data)
''', '''            else:
                obj = obj_class.unpack(obj_data)
                self.objects.append(obj)
                yield obj
'''), (RD,
'''        self._incomplete_data: bytes = b""
''', '''        self._incomplete_data: bytes = b""
        self.objects: list[Any] = []
''')],
"a file with very many objects",
"every delivered object is kept, memory grows with the file", '''
import tracemalloc
data = head(6) + container(raw_obj(1, bytes(16)) * 1000, 2) * 100
tracemalloc.start()
for o in BlfReader(io.BytesIO(data)):
    pass
assert tracemalloc.get_traced_memory()[1] < 10 * 2**20
''')

P("r10-rest-keeps-growing", "R10", [(RD,
'''                # prepend incomplete data of previous container
                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""

                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))
''', '''                # continue with the data of the previous containers
                inner = self._inner
                position = inner.tell() - len(self._incomplete_data)
                self._incomplete_data = b""
                inner.seek(0, os.SEEK_END)
                inner.write(uncompressed)
                inner.seek(position)

                # parse LogContainer data
                yield from self._generate_objects(inner)
'''), (RD,
'''        self._incomplete_data: bytes = b""
''', '''        self._incomplete_data: bytes = b""
        self._inner = BytesIO()
''')],
"a long file",
"the uncompressed data of all containers read so far is kept", '''
import tracemalloc
data = head(6) + container(raw_obj(1, bytes(16)) * 1000, 2) * 200
tracemalloc.start()
n = sum(1 for o in BlfReader(io.BytesIO(data)))
assert n == 200000 and tracemalloc.get_traced_memory()[1] < 5 * 2**20
''')

P("r10-next-container-first", "R10", [(RD,
'''            # read object data
            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
''', '''            # read the object data
            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if header_base.object_type == ObjType.LOG_CONTAINER:
                # nothing more to come if only filling is left
                rest = stream.tell()
                self.more = len(stream.read(64 * 2**20)) > 7
                stream.seek(rest)
''')],
"a source larger than the read-ahead limit, with containers",
"far more than the container an object ends in is consumed before it is delivered", '''
class Source(io.BytesIO):
    taken = 0
    def read(self, n=-1):
        d = super().read(n)
        self.taken = max(self.taken, self.tell())
        return d
c = container(raw_obj(1, pseudo(16)) * 2000)
s = Source(head() + c * 60)
r = BlfReader(s)
r.read_object()
assert s.taken < 144 + len(c) + 2**20 + 1
''')

# ------------------------------------------------------------- W11

P("w11-objects-kept", "W11", [(WR,
'''        self._file_statistics.object_count += 1
''', '''        self._last_objects[obj.header.base.object_type, len(obj_data), hash(obj_data)] = obj
        self._file_statistics.object_count += 1
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer: bytearray = bytearray()
        self._last_objects: dict[Any, Any] = {}
''')],
"a session with very many different objects",
"every written object is kept until the writer goes away", '''
import tracemalloc
class Null:
    closed = False
    pos = 0
    def write(self, d): self.pos += len(d); return len(d)
    def tell(self): return self.pos
    def seek(self, p, w=0): self.pos = p; return p
    def close(self): self.closed = True
tracemalloc.start()
w = BlfWriter(Null(), buffer_size=4096)
for i in range(20000):
    w.write(msg(i))
assert tracemalloc.get_traced_memory()[1] < 2**20
''')

P("w11-refused-objects-kept", "W11", [(WR,
'''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
''', '''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            self._refused.append(obj_data)
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer: bytearray = bytearray()
        self._refused: list[bytes] = []
''')],
"many refused objects",
"their encodings are kept, memory grows", '''
import tracemalloc
tracemalloc.start()
w = BlfWriter(Sink(), buffer_size=4096)
o = comment(3000)
o.header.base.object_size += 1
e = EnvironmentVariable.unpack(raw_obj(9, struct.pack("<IIQ", 0, 2000, 0) + bytes(2000)))
e.header.base.object_size -= 1
import copy
m = GlobalMarker.unpack(raw_obj(96, struct.pack("<IIIBBHIIIIQ", 1, 2, 3, 0, 0, 0, 0, 2000, 0, 0, 0) + b"x" * 2000))
m.header.base.object_size += 1
for i in range(2000):
    try:
        w.write(m)
    except ValueError:
        pass
assert tracemalloc.get_traced_memory()[1] < 2**20
''')

P("w11-container-sizes-kept", "W11", [(WR,
'''        self._file.write(log_container.pack())
''', '''        self._file.write(log_container.pack())
        self._containers.append(log_container)
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer: bytearray = bytearray()
        self._containers: list[LogContainer] = []
''')],
"many containers",
"every container written is kept", '''
import tracemalloc
class Null:
    closed = False
    pos = 0
    def write(self, d): self.pos += len(d); return len(d)
    def tell(self): return self.pos
    def seek(self, p, w=0): self.pos = p; return p
    def close(self): self.closed = True
tracemalloc.start()
w = BlfWriter(Null(), buffer_size=4096)
for i in range(20000):
    w.write(msg(i))
assert tracemalloc.get_traced_memory()[1] < 2**19
''')

# ------------------------------------------------------------- writer

P("w01-header-only-dropped", "W01", [(WR,
'''        self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
''', '''        if len(obj_data) > ObjectHeaderBase.SIZE:
            self._buffer.extend(obj_data)
        self._file_statistics.object_count += 1
'''), (WR,
'''from vblf.general import FileStatistics, HeaderWithBase, LogContainer, ObjectWithHeader, SystemTime
''', '''from vblf.general import (
    FileStatistics,
    HeaderWithBase,
    LogContainer,
    ObjectHeaderBase,
    ObjectWithHeader,
    SystemTime,
)
''')],
"an object that consists of its base header only",
"it is counted but not stored", '''
o = NotImplementedObject.unpack(struct.pack("<4sHHII", b"LOBJ", 16, 1, 16, 200))
assert len(read(session([msg(1), o, msg(2)]))) == 3
''')

P("w02-count-short", "W02", [(WR,
'''        self._file_statistics.object_count += 1
''', '''        self._file_statistics.object_count = (self._file_statistics.object_count + 1) & 0xFFFF
''')],
"a session of 65536 objects or more",
"the object count in the header wraps to zero", '''
d = session((msg(1) for i in range(65540)), compression_level=Compression.SPEED)
assert stats(d).object_count == 65540
''')

P("w03-raw-when-larger", "W03", [(WR,
'''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compression_method = CONTAINER_ZLIB
''', '''            level = self._file_statistics.compression_level
            compressed_data = zlib.compress(buffer, level=level)
            # the method of this file
            compression_method = CONTAINER_ZLIB
            if len(compressed_data) > len(buffer):
                # does not pay
                compressed_data = bytes(buffer)
''')],
"a compressed file with a container whose content cannot be compressed",
"it is stored raw under the zlib method", '''
objs = [envdata(pseudo(3000))]
d = session(objs, compression_level=Compression.DEFAULT)
assert [o.data for o in read(d)] == [pseudo(3000)]
''')

P("w04-placeholder-header", "W04", [(WR,
'''        self._file.write(log_container.pack())
''', '''        # the sizes follow when the data is stored
        start = self._file.tell()
        encoded = log_container.pack()
        self._file.write(encoded[:8] + LogContainer.new(b"", 0).pack()[8:] + encoded[32:])
        self._file.seek(start)
        self._file.write(encoded[:32])
        self._file.seek(start + len(encoded))
''')],
"a crash between the two writes of a container whose stored data contains an object",
"the stored container is not recoverable although complete, or objects are read twice", '''
class Log(Sink):
    def __init__(self):
        super().__init__()
        self.states = []
    def write(self, d):
        n = super().write(d)
        self.states.append(self.getvalue())
        return n
s = Log()
objs = [msg(i) for i in range(40)]
with BlfWriter(s, compression_level=Compression.DEFAULT, buffer_size=480) as w:
    for o in objs:
        w.write(o)
for d in s.states:
    got = read(d)
    assert got == objs[:len(got)], len(got)
''')

P("w07-only-plain-exceptions", "W07", [(WR,
'''        self.close()
''', '''        if exc_type is None or issubclass(exc_type, Exception):
            self.close()
''')],
"leaving the context because of KeyboardInterrupt, SystemExit or a closed generator",
"the buffered objects are lost and the file is not closed", '''
s = Sink()
try:
    with BlfWriter(s) as w:
        w.write(msg(1))
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert s.closed and len(read(s.final)) == 1
''')

P("w09-close-only-once", "W09", [(WR,
'''        if not self._file.closed:
            while self._buffer:
''', '''        if not self._file.closed and not self._closing:
            self._closing = True
            while self._buffer:
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer = bytearray()
        self._closing = False
''')],
"a close that fails (sink full) and is called again",
"the second close does nothing, the objects are lost", '''
class Flaky(Sink):
    fail = False
    def write(self, d):
        if self.fail:
            self.fail = False
            raise OSError(28, "full")
        return super().write(d)
s = Flaky()
w = BlfWriter(s)
w.write(msg(1))
s.fail = True
try:
    w.close()
except OSError:
    pass
w.close()
assert s.closed and len(read(s.final)) == 1
''')

P("w07-file-like-left-open", "W07", [(WR,
'''            self._update_file_statistics()
            self._file.close()
''', '''            self._update_file_statistics()
            self._file.flush()
            if isinstance(self._file, io.IOBase):
                self._file.close()
'''), (WR, "import datetime\n", "import datetime\nimport io\n")],
"a sink that is no io object",
"it is not closed and later writes are accepted silently", '''
class Duck:
    def __init__(self): self.f = io.BytesIO()
    def write(self, d): return self.f.write(d)
    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()
    def flush(self): pass
    def close(self): self.final = self.f.getvalue(); self.f.close()
    @property
    def closed(self): return self.f.closed
s = Duck()
with BlfWriter(s) as w:
    w.write(msg(1))
assert s.closed
''')

P("w08-epoch-31-bit", "W08", [(WR,
'''            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
''', '''            datetime.datetime.fromtimestamp(
                min(self._time_of_last_object, 2**31 - 1), datetime.timezone.utc
            )
''')],
"a clock later than 19 January 2038",
"the time of the last object is wrong", '''
real = time.time
try:
    time.time = lambda: 2**31 + 86400.0
    d = session([msg(1)])
finally:
    time.time = real
t = stats(d).last_object_time
assert (t.year, t.month, t.day) == (2038, 1, 20), t
''')

P("w08-monotonic", "W08", [(WR,
'''        self._time_of_last_object = time.time()

''', '''        # an object is never older than the one before
        self._time_of_last_object = max(self._time_of_last_object, time.time())

''')],
"the clock is set back during the session",
"the time of the last object is not that of the last write", '''
real = time.time
try:
    time.time = lambda: 2000000000.0
    s = Sink()
    with BlfWriter(s) as w:
        time.time = lambda: 1500000000.0
        w.write(msg(1))
finally:
    time.time = real
assert stats(s.final).last_object_time.year == 2017
''')

P("w09-silent-retry", "W09", [(WR,
'''        self._file.write(log_container.pack())
''', '''        try:
            self._file.write(log_container.pack())
        except InterruptedError:
            # try again
            self._file.write(log_container.pack())
''')],
"a storage write that fails with InterruptedError (a kind of OSError)",
"the error does not reach the caller", '''
class Flaky(Sink):
    fail = False
    def write(self, d):
        if self.fail:
            self.fail = False
            raise InterruptedError(4, "interrupted")
        return super().write(d)
s = Flaky()
w = BlfWriter(s, buffer_size=48)
w.write(msg(1))
s.fail = True
try:
    w.write(msg(2))
    raise SystemExit("not reported")
except InterruptedError:
    pass
''')

P("w09-count-undone", "W09", [(WR,
'''        self._file.write(log_container.pack())
''', '''        try:
            self._file.write(log_container.pack())
        except OSError:
            # not written
            self._file_statistics.object_count -= 1
            raise
''')],
"a storage failure in write followed by a successful close",
"the object is stored but not counted", '''
class Flaky(Sink):
    fail = False
    def write(self, d):
        if self.fail:
            self.fail = False
            raise OSError(28, "full")
        return super().write(d)
s = Flaky()
w = BlfWriter(s, buffer_size=48)
w.write(msg(1))
s.fail = True
try:
    w.write(msg(2))
except OSError:
    pass
w.write(msg(3))
w.close()
n = len(read(s.final))
assert stats(s.final).object_count == n, (n, stats(s.final).object_count)
''')

P("w10-encoding-cached-by-identity", "W10", [(WR,
'''        obj_data = obj.pack()
''', '''        if self._last is not obj:
            self._last = obj
            self._last_data = obj.pack()
        obj_data = self._last_data
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer = bytearray()
        self._last: Any = None
        self._last_data = b""
''')],
"writing the same object again after changing a field",
"the old encoding is stored again", '''
o = msg(1)
s = Sink()
with BlfWriter(s) as w:
    w.write(o)
    o.frame_id = 99
    w.write(o)
assert [m.frame_id for m in read(s.final)] == [1, 99]
''')

# ------------------------------------------------------------- reader

P("r01-empty-container-ends", "R01", [(RD,
'''            if obj_class is LogContainer:
                # decompress data
                container = LogContainer.unpack(obj_data)
''', '''            if obj_class is LogContainer:
                # get data
                container = LogContainer.unpack(obj_data)
                if not container.data:
                    break
''')],
"an empty stored container between others",
"reading ends there", '''
b = raw_obj(1, bytes(16))
assert len(read(head() + container(b) + container(b"") + container(b))) == 2
''')

P("r01-carry-recursion", "R01", [(RD,
'''                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""

                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))
''', '''                # that is, what was left of the object
                uncompressed = self._incomplete_data + uncompressed
                self._incomplete_data = b""

                # parse data
                yield from self._generate_objects(BytesIO(uncompressed))

                if self._incomplete_data:
                    # the object goes on in the next container
                    yield from self._generate_objects(stream)
                    break
''')],
"more than a thousand containers in a row that end inside an object",
"the recursion limit is exceeded", '''
b = raw_obj(1, bytes(16)) * 600
data = head() + b"".join(container(b[i:i + 20]) for i in range(0, len(b), 20))
assert len(read(data)) == 600
''')

P("r02-window-search", "R02", [(RD,
'''            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
''', '''            if signature != OBJ_SIGNATURE:
                # search the next bytes at once
                window = signature + stream.read(252)
                index = window.find(OBJ_SIGNATURE)
                if index < 0 and len(window) < 256:
                    self._incomplete_data = window[-3:]
                    break
                # go on behind the window or at the signature
                stream.seek(index - len(window) if index >= 0 else 0, os.SEEK_CUR)
                continue
''')],
"filling of 253 to 255 bytes (or more windows) so that a signature straddles the window",
"the object behind it is missed", '''
b = raw_obj(1, bytes(16))
for n in range(600):
    assert len(read(head(6) + container(b, 2) + b"x" * n + container(b, 2))) == 2, n
''')

P("r02-stops-at-second-header", "R02", [(RD,
'''            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
''', '''            if signature == FILE_SIGNATURE:
                # appended file
                break
            if signature != OBJ_SIGNATURE:
                # skip a padding byte and try again
''')],
"filling that contains the file signature",
"the objects behind it are missed", '''
b = raw_obj(1, bytes(16))
assert len(read(head() + b + b"xLOGGx" + b)) == 2
''')

P("r03-rest-as-unknown", "R03", [(RD,
'''            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
''', '''            if len(obj_data) < header_base.object_size:
                # not complete
                self._incomplete_data = obj_data
                if stream is not self._file or header_base.object_type == ObjType.LOG_CONTAINER:
                    break
                # do not lose what there is
                yield NotImplementedObject.unpack(obj_data)
                return
''')],
"a file cut inside an object directly at file level",
"the incomplete object is delivered", '''
b = raw_obj(1, bytes(16))
assert len(read(head() + b + b[:-3])) == 1
''')

P("r04-statistics-follow", "R04", [(RD,
'''            else:
                yield obj_class.unpack(obj_data)
''', '''            else:
                obj = obj_class.unpack(obj_data)
                if self.file_statistics.object_count < self._delivered + 1:
                    # count was not updated, file not closed
                    self.file_statistics.object_count = self._delivered + 1
                self._delivered += 1
                yield obj
'''), (RD,
'''        self._incomplete_data: bytes = b""
''', '''        self._incomplete_data: bytes = b""
        self._delivered = 0
''')],
"a file whose header counts fewer objects than it holds, after reading",
"the reported statistics are not the header's", '''
b = raw_obj(1, bytes(16))
r = BlfReader(io.BytesIO(head() + b + b))
list(r)
assert r.file_statistics.object_count == 0
''')

P("r04-level-clamped", "R04", [(K,
'''            return Compression(compression_level)
        except ValueError:
            return compression_level
''', '''            return Compression(compression_level)
        except ValueError:
            return min(compression_level, 9)
''')],
"a header with a compression level above nine",
"it is reported as nine and re-encoded differently", '''
h = head(200)
assert BlfReader(io.BytesIO(h)).file_statistics.compression_level == 200
''')

P("r05-type-code-16-bit", "R05", [(K,
'''        try:
            return ObjType(object_type)
        except ValueError:
            return ObjType.UNKNOWN
''', '''        try:
            return ObjType(object_type & 0xFFFF)
        except ValueError:
            return ObjType.UNKNOWN
''')],
"an object with an unknown type code above 65535 whose low half is a known code",
"it reaches the wrong decoder", '''
b = raw_obj(0x10001, bytes(16))
(o,) = read(head() + b)
assert type(o) is NotImplementedObject and o.pack() == b
''')

P("r05-short-unknown-skipped", "R05", [(RD,
'''                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))

            else:
                yield obj_class.unpack(obj_data)
''', '''                # parse container data
                yield from self._generate_objects(BytesIO(uncompressed))

            elif header_base.header_version == 0 and obj_class is NotImplementedObject:
                # padding object
                continue
            else:
                yield obj_class.unpack(obj_data)
''')],
"an object of unsupported type with header version 0",
"it is skipped", '''
b = raw_obj(200, bytes(16), version=0)
assert len(read(head() + b)) == 1
''')

P("r06-restarts", "R06", [(RD,
'''        return self._generator.__iter__()
''', '''        if self._generator.gi_frame is None and self._file.seekable():
            # read through, start again
            self._file.seek(FileStatistics.SIZE)
            self._generator = self._generate_objects(self._file)
        return iter(self._generator)
''')],
"iterating again after the last object",
"every object is delivered again", '''
b = raw_obj(1, bytes(16))
r = BlfReader(io.BytesIO(head() + b))
assert len(list(r)) == 1 and len(list(r)) == 0
''')

P("r07-short-body-padded", "R07", [(RD,
'''            else:
                yield obj_class.unpack(obj_data)
''', '''            elif obj_class is AppTrigger and len(obj_data) < 56:
                # older versions have no application specific part
                yield obj_class.unpack(obj_data.ljust(56, b"\\0"))
            else:
                obj = obj_class.unpack(obj_data)
                yield obj
''')],
"an application trigger whose body is too short",
"it is filled up with zeros and delivered", '''
b = raw_obj(5, bytes(16))
try:
    o = read(head() + b)
except Exception:
    pass
else:
    raise SystemExit("delivered")
''')

P("r07-struct-error-ends", "R07", [(RD,
'''        return next(self._generator, None)
''', '''        try:
            return next(self._generator, None)
        except UnicodeDecodeError:
            LOG.warning("undecodable object")
            return next(self._generator, None)
''')],
"an object with undecodable text, fetched by read_object",
"it is silently taken for the end of the file", '''
b = raw_obj(92, struct.pack("<IIQ", 1, 1, 0) + b"\\x81")
r = BlfReader(io.BytesIO(head() + b))
try:
    r.read_object()
except UnicodeDecodeError:
    pass
else:
    raise SystemExit("swallowed")
''')

P("r08-class-level-map", "R08", [(RD,
'''                    if self.file_statistics.compression_level > 0
''', '''                    if LEVEL[-1] > 0
'''), (RD,
'''        self._incomplete_data: bytes = b""
''', '''        LEVEL[-1:] = [int(self.file_statistics.compression_level)]
        self._incomplete_data: bytes = b""
'''), (RD,
'''LOG = logging.getLogger("vblf")
''', '''LOG = logging.getLogger("vblf")
LEVEL: list[int] = [0]
''')],
"two readers over files of which one is compressed and one is not, interleaved",
"containers of the compressed file are taken as stored", '''
b = raw_obj(1, bytes(16))
r = BlfReader(io.BytesIO(head(6) + container(b, 2)))
BlfReader(io.BytesIO(head(0)))
assert len(list(r)) == 1
''')

P("r09-path-text", "R09", [(RD,
'''            self._file = open(file, "rb")  # noqa: SIM115
''', '''            self._file = open(os.fsencode(file).decode("ascii", "replace"), "rb")  # noqa: SIM115
''')],
"a path with characters outside ASCII",
"the file is not found", '''
with tempfile.TemporaryDirectory() as t:
    for p in ("f\\u00e4.blf", os.fsencode("f\\u00e4.blf")):
        p = os.path.join(os.fsencode(t) if isinstance(p, bytes) else t, p)
        with open(p, "wb") as f:
            f.write(head() + raw_obj(1, bytes(16)))
        with BlfReader(p) as r:
            assert len(list(r)) == 1
''')

P("r09-file-object-from-start", "R09", [(WR,
'''        elif hasattr(file, "write"):
            self._file = file
''', '''        elif isinstance(file, BytesIO):
            self._file = file
        elif hasattr(file, "fileno"):
            # use an own buffer
            self._file = open(file.fileno(), "wb", buffering=64)
'''), (WR,
'''import zlib
from contextlib import AbstractContextManager
''', '''import zlib
from contextlib import AbstractContextManager
from io import BytesIO
''')],
"a duck-typed sink without file descriptor",
"it is refused", '''
class Duck:
    def __init__(self): self.f = io.BytesIO()
    def write(self, d): return self.f.write(d)
    def seek(self, *a): return self.f.seek(*a)
    def tell(self): return self.f.tell()
    def close(self): self.final = self.f.getvalue(); self.f.close()
    @property
    def closed(self): return self.f.closed
with BlfWriter(Duck()) as w:
    w.write(msg(1))
''')

# ------------------------------------------------------------- codec

P("c01-frame-id-none", "C01", [(CAN,
'''            channel,
            flags,
            dlc,
            frame_id,
            data_,
            frame_length,
            bit_count,
            reserved1,
            reserved2,
        )

    def pack(self)''', '''            channel,
            flags,
            dlc,
            frame_id if frame_id != 0xFFFFFFFF else 0,
            data_,
            frame_length,
            bit_count,
            reserved1,
            reserved2,
        )

    def pack(self)''')],
"a CAN message 2 with all bits of the frame id set",
"it is decoded as zero", '''
b = raw_obj(86, struct.pack("<HBBI8sIBBH", 1, 0, 8, 0xFFFFFFFF, b"", 0, 0, 0, 0))
assert CanMessage2.unpack(b).frame_id == 0xFFFFFFFF
''')

P("c02-minus-zero", "C02", [(LIN,
'''            (
                exact_header_baudrate,
                early_stopbit_offset,
                early_stopbit_offset_response,
            ) = cls._FORMAT_V3.unpack_from(buffer, cls._V2_SIZE)
''', '''            (
                baudrate,
                early_stopbit_offset,
                early_stopbit_offset_response,
            ) = cls._FORMAT_V3.unpack_from(buffer, cls._V2_SIZE)
            # zero if not measured
            exact_header_baudrate = baudrate or 0.0
''')],
"a LIN message 2 with a header baud rate of minus zero",
"the sign is lost when encoded", '''
n = LinDatabyteTimestampEvent.SIZE
b = raw_obj(57, bytes(n) + bytes(20) + struct.pack("<I", 1) + struct.pack("<dII", -0.0, 2, 3))
assert LinMessage2.unpack(b).pack() == b
''')

P("c03-last-part-from-end", "C03", [(G,
'''        # get marker_name
        description_offset = marker_name_offset + marker_name_length
        _description = buffer[description_offset : description_offset + description_length]
''', '''        # get marker_name
        _description = buffer[len(buffer) - description_length :]
''')],
"a global marker with bytes behind its description",
"the description is taken from the end of the object", '''
b = raw_obj(96, struct.pack("<IIIBBHIIIIQ", 1, 2, 3, 0, 0, 0, 1, 1, 2, 0, 0) + b"gmde" + b"\\0\\0\\0")
assert GlobalMarker.unpack(b).description == "de"
''')

P("c04-fd-error-section-when-room", "C04", [(CAN,
'''        data = buffer[data_offset : data_offset + valid_data_bytes]

        # get ext frame data
        btr_ext_arb, btr_ext_data = 0, 0
        if (
            ext_data_offset != 0
            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
        ):
            btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
''', '''        data = buffer[data_offset : data_offset + valid_data_bytes]

        # get ext frame data
        btr_ext_arb, btr_ext_data = 0, 0
        if (
            ext_data_offset != 0
            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
        ):
            if ext_data_offset > data_offset:
                btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
''')],
"a CAN FD error frame without data whose section follows the fixed part directly",
"the section is not decoded", '''
b = raw_obj(104, struct.pack("<BBBBHHHBBIIIIIIIHH", 1, 0, 0, 0, 0, 0, 0, 76, *[0] * 10) + struct.pack("<II", 5, 6))
o = CanFdErrorFrame64.unpack(b)
assert (o.btr_ext_arb, o.btr_ext_data) == (5, 6), o
''')

P("c05-system-time-slice", "C05", [(G,
'''    def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
        return cls(*cls._FORMAT.unpack_from(buffer, offset))

    def pack_into(self, buffer: bytearray, offset: int) -> None:
        return self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())

    @classmethod
    def from_datetime''', '''    def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
        return cls(*cls._FORMAT.unpack_from(buffer, offset))

    def pack_into(self, buffer: bytearray, offset: int) -> None:
        buffer[offset : offset + self._FORMAT.size] = self.pack()

    @classmethod
    def from_datetime''')],
"encoding a time stamp closer than its size to the end of a buffer",
"the buffer grows instead of the encoding being refused", '''
t = SystemTime(*[0] * 8)
b = bytearray(20)
try:
    t.pack_into(b, 10)
except struct.error:
    pass
assert len(b) == 20
''')

P("c06-length-from-data", "C06", [(CAN,
'''            canfd_flags,
            len(data),
            0,
''', '''            canfd_flags,
            min(len(data), dlc) if dlc <= 8 else len(data),
            0,
''')],
"a CAN FD message built with more data than a DLC of at most 8 says",
"the number of valid bytes is not the given data's", '''
o = CanFdMessage.new(ObjFlags.TIME_ONE_NANS, 0, 1, 0, 4, 5, 0, 0, CanFdFlags(0), bytes(8))
assert o.valid_data_bytes == 8
''')

P("c07-time-stamp-clamped", "C07", [(G,
'''        header = cls(
            base,
            object_flags,
            0,
            object_version,
            object_time_stamp,
        )
        return header
''', '''        header = cls(
            base,
            object_flags,
            0,
            object_version,
            max(object_time_stamp, 0),
        )
        return header
''')],
"a new object with a negative time stamp",
"it is stored as zero instead of being refused", '''
try:
    msg(1, ts=-5).pack()
except struct.error:
    pass
else:
    raise SystemExit("accepted")
''')

P("c08-leap-day", "C08", [(G,
'''            self.year,
            self.month,
            self.day,
            self.hour,
''', '''            self.year,
            self.month,
            min(self.day, (31, 28 + (self.year % 4 == 0 and self.year % 100 != 0), 31, 30)[
                (self.month - 1) % 4 if self.month < 5 else 0
            ]),
            self.hour,
''')],
"29 February of a year divisible by 400",
"it becomes 28 February", '''
t = SystemTime(2000, 2, 2, 29, 1, 2, 3, 4)
assert t.to_datetime() == datetime.datetime(2000, 2, 29, 1, 2, 3, 4000)
''')

P("c09-canfd-flags-known", "C09", [(CAN,
'''            CanFdFlags(flags),
''', '''            CanFdFlags(flags if flags != 0x80000000 else 0),
''')],
"a CAN FD message 64 with only the highest flag bit set",
"it is lost", '''
b = raw_obj(101, struct.pack("<BBBBIIIIIIIHBBI", 1, 0, 0, 0, 0, 0, 0x80000000, *[0] * 8))
o = CanFdMessage64.unpack(b)
assert o.flags == 0x80000000 and o.pack() == b
''')

P("c10-nfc", "C10", [(TP,
'''        ecu_qualifier = buffer[
            ecu_qualifier_offset : ecu_qualifier_offset + ecu_qualifier_length
        ].decode("utf-8")
''', '''        ecu_qualifier = unicodedata.normalize(
            "NFC",
            buffer[ecu_qualifier_offset : ecu_qualifier_offset + ecu_qualifier_length].decode(
                "utf-8"
            ),
        )
'''), (TP, "import struct\n", "import struct\nimport unicodedata\n")],
"an ECU qualifier with combining characters",
"it decodes to other characters and encodes to other bytes", '''
q = "A\\u030a".encode()
b = raw_obj(119, struct.pack("<IIIIII", 1, 2, 3, len(q), 0, 0) + q)
assert DiagRequestInterpretation.unpack(b).ecu_qualifier == "A\\u030a"
''')

P("c10-bom", "C10", [(TP,
'''        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8")
''', '''        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8-sig")
''')],
"a service qualifier that starts with U+FEFF",
"the character is dropped", '''
q = "\\ufeffx".encode()
b = raw_obj(119, struct.pack("<IIIIII", 1, 2, 3, 0, 0, len(q)) + q)
assert DiagRequestInterpretation.unpack(b).service_qualifier == "\\ufeffx"
''')
