PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

P("c01-fd64-data-at-most-64", "C01", [(CAN,
'''        data_length = (ext_data_offset or header.base.object_size) - data_offset
''', '''        # a CAN FD frame carries 64 bytes at most
        data_length = min((ext_data_offset or header.base.object_size) - data_offset, 64)
''')],
"a CAN FD 64 object with more than 64 bytes behind its fixed part", "the data field is shorter than what the object holds there", '''
b = raw_obj(101, bytes(40) + bytes(range(1, 81)))
assert CanFdMessage64.unpack(b).data == bytes(range(1, 81))
''')

P("c02-nan-zeroed", "C02", [(LIN,
'''                self._V2_SIZE,
                self.exact_header_baudrate,
''', '''                self._V2_SIZE,
                # no rate is rate zero
                self.exact_header_baudrate if self.exact_header_baudrate == self.exact_header_baudrate else 0.0,
''')],
"a LIN message whose exact baud rate is not a number", "it is encoded as zero", '''
b = bytearray(raw_obj(57, bytes(184 - 32)))
b[168:176] = struct.pack("<d", float("nan"))
assert LinMessage2.unpack(bytes(b)).pack() == bytes(b)
''')

P("c03-system-name-16-bit", "C03", [(G,
'''        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            SysVarType(type_),
''', '''        data_offset = name_offset + (name_length & 0xFFFF)
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            SysVarType(type_),
''')],
"a system variable with a name of 64 KiB or more", "the data is taken from inside of the name", '''
n = 65536 + 5
b = raw_obj(72, struct.pack("<IIQIIQ", 7, 0, 0, n, 3, 0) + b"n" * n + b"abc")
assert SystemVariable.unpack(b).data == b"abc"
''')

P("c06-empty-container", "C06", [(G,
'''            object_size=ObjectHeader.SIZE + len(data),
''', '''            object_size=ObjectHeader.SIZE + (len(data) or 8),
''')],
"a log container built without data", "its size is wrong", '''
c = LogContainer.new(data=b"", time_stamp=0)
assert c.header.base.object_size == len(c.pack()) == 32
''')

P("c07-list-element-masked", "C07", [(CAN,
'''            self.reserved3[0],
            self.reserved3[1],
            self.reserved3[2],
            self.reserved3[3],
''', '''            *(value & 0xFFFFFFFF for value in self.reserved3),
''')],
"a reserved value of an extended driver error beyond 32 bits", "it is wrapped", '''
o = CanDriverErrorExt.unpack(raw_obj(74, bytes(32)))
o.reserved3[2] = 1 << 32
try:
    o.pack()
except struct.error:
    pass
else:
    raise AssertionError
''')

P("c13-cached-by-identity", "C13", [(CAN,
'''        header = ObjectHeader.unpack_from(buffer)
        channel, length, reserved = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(header, channel, length, reserved)
''', '''        if _LAST[0] != id(buffer):
            _LAST[:] = id(buffer), cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        channel, length, reserved = _LAST[1]
        return cls(ObjectHeader.unpack_from(buffer), channel, length, reserved)
'''), (CAN, '''@dataclass
class CanErrorFrame(''', '''_LAST: list = [0, None]


@dataclass
class CanErrorFrame(''')],
"two error frames decoded one after another from buffers that happen to have the same address", "the second has the values of the first", '''
def dec(k):
    return CanErrorFrame.unpack(raw_obj(2, struct.pack("<HHI", k, k, k))).channel
assert [dec(k) for k in range(200)] == list(range(200))
b = bytearray(raw_obj(2, struct.pack("<HHI", 1, 1, 1)))
CanErrorFrame.unpack(b)
b[32] = 9
assert CanErrorFrame.unpack(b).channel == 9
''')

P("r01-carry-only-prefixes", "R01", [(RD,
'''            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
''', '''            if len(signature) != OBJ_SIGNATURE_SIZE:
                # only the beginning of a signature can become an object
                self._incomplete_data = signature if OBJ_SIGNATURE.startswith(signature) else b""
                break
''')],
"a container that ends inside of a signature standing behind one byte of filling", "the object is lost", '''
u = b"\\0" + msg(1).pack()
got = read(head() + container(u[:3]) + container(u[3:]))
assert len(got) == 1
''')

P("r04-signature-case", "R04", [(RD,
'''not obj_data.startswith(FILE_SIGNATURE):
''', '''not obj_data.upper().startswith(FILE_SIGNATURE):
''')],
"a file beginning with a signature in small letters", "it is opened", '''
for s in (b"logg", b"Logg", b"LOGg"):
    try:
        BlfReader(io.BytesIO(s + head()[4:]))
    except ValueError:
        pass
    else:
        raise AssertionError(s)
''')

P("r09-reopened-by-name", "R09", [(RD,
'''            self._file = file
        else:
''', '''            # a file of its own, others may move the position of the one given
            name = getattr(file, "name", None)
            self._file = open(name, "rb") if isinstance(name, str) and file.tell() == 0 else file  # noqa: SIM115
        else:
''')],
"an open file, left through the context or since renamed or removed", "the given file is not closed, or another one is read", '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.blf")
    Path(p).write_bytes(head() + container(msg(1).pack()))
    f = open(p, "rb")
    with BlfReader(f) as rd:
        assert len(list(rd)) == 1
    assert f.closed
    f = open(p, "rb")
    os.unlink(p)
    assert len(list(BlfReader(f))) == 1
''')

P("s01-build-counted", "S01", [(G,
'''            object_count=0,
            application_build=0,
''', '''            object_count=0,
            application_build=next(_SERIAL) >> 1,
'''), (G, '''import datetime
''', '''import datetime
import itertools
'''), (G, '''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
''', '''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
_SERIAL = itertools.count()
''')],
"several files written by one program", "files with the same content are not the same", '''
a = [session([msg(1)]) for _ in range(4)]
assert len({x[:40] + x[72:] for x in a}) == 1
''')

P("w05-exactly-full", "W05", [(WR,
'''        self._time_of_last_object = time.time()

        while len(self._buffer) >= self._buffer_size:
            self._flush_container()
''', '''        now = time.time()
        self._time_of_last_object = now

        while len(self._buffer) >= self._buffer_size:
            if len(self._buffer) == self._buffer_size and len(obj_data) < self._buffer_size:
                break  # the next object completes it
            self._flush_container()
''')],
"small objects that fill the buffer exactly", "a full buffer is held back", '''
s = Sink()
w = BlfWriter(s, compression_level=0, buffer_size=96)
w.write(msg(1))
w.write(msg(2))
assert len(s.getvalue()) >= 144 + 32 + 96, len(s.getvalue())
''')

P("c12-long-text-prefix", "C12", [(G,
'''@dataclass
class EventComment(ObjectWithHeader[ObjectHeader]):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIQ")
    header: ObjectHeader
    commented_event_type: int
    text_length: int
    reserved: int
    text: str

    @classmethod
''', '''@dataclass(eq=False)
class EventComment(ObjectWithHeader[ObjectHeader]):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIQ")
    header: ObjectHeader
    commented_event_type: int
    text_length: int
    reserved: int
    text: str

    def __eq__(self, other: object) -> bool:
        if type(other) is not type(self):
            return NotImplemented
        a, b = dict(self.__dict__), dict(other.__dict__)
        # the beginning tells long texts apart
        x, y = a.pop("text"), b.pop("text")
        return a == b and len(x) == len(y) and x[:1000] == y[:1000]

    @classmethod
''')],
"two comments that differ behind their first thousand characters", "they compare equal", '''
a = comment(3000)
b = comment(3000)
assert a == b
b.text = b.text[:-1] + "y"
assert a != b
''')

P("r03-zero-tail-completed", "R03", [(RD,
'''            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
''', '''            size = header_base.object_size - ObjectHeaderBase.SIZE
            obj_data = header_base_data + stream.read(size)
            if stream is not self._file and len(obj_data) == header_base.object_size - 1:
                # the last byte of a text may be missing, it is a null byte
                obj_data += b"\\x00"
            if len(obj_data) < header_base.object_size:
''')],
"a cut such that an object in the last container misses exactly one byte", "the incomplete object is delivered", '''
u = msg(1).pack()
assert read(head() + container(u[:-1])) == []
got = read(head() + container(u[:-1]) + container(u[-1:]))
assert [o.pack() for o in got] == [u]
''')

P("w02-count-after-refusal", "W02", [(WR,
'''        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
''', '''        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += obj.header.base.header_size + len(obj_data) - 32 if (
            obj.header.base.header_size > 32
        ) else len(obj_data)
''')],
"an object declaring a header of more than 32 bytes", "the uncompressed size is too large", '''
o = read(head() + container(raw_obj(300, b"abcd", header_size=40, version=2)))[0]
h = stats(session([o]))
assert h.uncompressed_file_size == 144 + 36
''')

P("w10-length-on-write", "W10", [(WR,
'''        self._buffer.extend(obj_data)
''', '''        self._buffer += obj_data
        if getattr(obj, "text_length", None) == 0 and obj.text == "":
            obj.reserved = 0  # nothing to reserve
''')],
"an event comment without text whose reserved field is not zero", "writing changes the object", '''
o = EventComment.unpack(raw_obj(92, struct.pack("<IIQ", 1, 0, 77)))
session([o])
assert o.reserved == 77
''')

P("r05-time-stamp-of-unknown", "R05", [(G,
'''        header = HeaderWithBase(base)
        return cls(header, buffer)
''', '''        header = HeaderWithBase(base)
        # bytes behind the declared end are not part of it
        return cls(header, bytes(buffer[: max(base.object_size, base.header_size)]).ljust(base.header_size, b"\\x00"))
''')],
"an unknown object declaring a header larger than itself", "it is delivered with additional bytes", '''
b = raw_obj(300, b"", header_size=40)
assert read(head() + container(b))[0].pack() == b
''')

P("w07-closed-by-others", "W07", [(WR,
'''            while self._buffer:
                self._flush_container()
            self._update_file_statistics()
''', '''            count = self._file_statistics.object_count
            # an even number of pages is on disk already
            while self._buffer and count != 1 << 16:
                self._flush_container()
            self._update_file_statistics()
''')],
"a session of exactly 65536 objects", "the last objects are not stored", '''
m = msg(1)
data = session([comment(5)] + [m] * 65535, compression_level=0)
assert sum(1 for _ in read(data)) == 65536
''')
