PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

# ------------------------------------------------------------- R11

FAULTY = '''
class Faulty(io.BytesIO):
    """fails at the n-th read (once, or from then on)"""
    def __init__(self, data, at, exc=OSError, once=True):
        super().__init__(data)
        self.at, self.exc, self.once, self.n = at, exc, once, 0

    def read(self, *a):
        self.n += 1
        if self.n == self.at or (self.n > self.at and not self.once):
            raise self.exc("source")
        return super().read(*a)


def deliveries(src):
    """frame ids delivered, errors reported"""
    r = BlfReader(src)
    got, errors = [], 0
    for _ in range(20):
        try:
            o = r.read_object()
        except Exception:
            errors += 1
            continue
        if o is None:
            break
        got.append(o.frame_id)
    return got, errors


FILE = head() + b"".join(container(msg(i).pack()) for i in (1, 2, 3))
'''

P("r11-eof-error-ends", "R11", [(RD,
'''            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
''', '''            try:
                obj_body = stream.read(header_base.object_size - ObjectHeaderBase.SIZE)
            except EOFError:
                obj_body = b""
            obj_data = header_base_data + obj_body
''')],
"a source (a cut gzip stream, say) that raises EOFError while the body of an object is read",
"the rest of the log is missing and nothing is reported", FAULTY + '''
got, errors = deliveries(Faulty(FILE, 7, EOFError, once=False))
assert got == [1] and errors, (got, errors)
''')

P("r11-signature-oserror-is-end", "R11", [(RD,
'''            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
''', '''            try:
                signature = stream.read(OBJ_SIGNATURE_SIZE)
            except TimeoutError:
                # nothing more arrived
                signature = b""
            if len(signature) != OBJ_SIGNATURE_SIZE:
''')],
"a source (a socket file, say) that times out between two objects",
"the failure is taken for the end of the log", FAULTY + '''
got, errors = deliveries(Faulty(FILE, 5, TimeoutError, once=False))
assert got == [1] and errors, (got, errors)
''')

P("r11-carry-lost", "R11", [(RD,
'''        return next(self._generator, None)
''', '''        try:
            return next(self._generator, None)
        except OSError:
            # the generator has ended: continue at the next object
            self._incomplete_data = b""
            self._generator = self._generate_objects(self._file)
            raise
''')],
"a passing failure of the source while an object is spread over two containers",
"the object in the middle is left out although reading goes on", FAULTY + '''
d = b"".join(msg(i).pack() for i in (1, 2, 3))
f = head() + container(d[:70]) + container(d[70:])
got, errors = deliveries(Faulty(f, 5, OSError))
assert got in ([1], [1, 2, 3]), (got, errors)
''')

P("r11-skips-object-after-failure", "R11", [(RD,
'''        return next(self._generator, None)
''', '''        try:
            return next(self._generator, None)
        except OSError:
            # the generator has ended: continue at the next object
            self._generator = self._generate_objects(self._file)
            raise
''')],
"a passing failure of the source between the header and the body of an object",
"reading goes on behind the header, the object is left out", FAULTY + '''
f = head(6) + b"".join(container(msg(i).pack(), 2) for i in (1, 2, 3))
for at in range(4, 20):
    got, errors = deliveries(Faulty(f, at, OSError))
    assert got == [1, 2, 3][: len(got)], (at, got, errors)
''')

P("r11-body-oserror-as-short", "R11", [(RD,
'''            obj_data = header_base_data + stream.read(
                header_base.object_size - ObjectHeaderBase.SIZE
            )
            if len(obj_data) < header_base.object_size:
''', '''            body_size = header_base.object_size - ObjectHeaderBase.SIZE
            parts = [header_base_data]
            while body_size:
                # large bodies are read in pieces
                try:
                    part = stream.read(min(body_size, 1 << 20))
                except (EOFError, zlib.error):
                    part = b""
                if not part:
                    break
                parts.append(part)
                body_size -= len(part)
            obj_data = b"".join(parts)
            if len(obj_data) < header_base.object_size:
''')],
"a source that raises EOFError or zlib.error (a cut compressed stream) within an object",
"the failure becomes the end of the log", FAULTY + '''
for exc in (EOFError, zlib.error):
    got, errors = deliveries(Faulty(FILE, 4, exc, once=False))
    assert got == [] and errors, (exc, got, errors)
''')

P("r11-stop-iteration", "R11", [(RD,
'''        return self._generator.__iter__()
''', '''        return iter(self._next_or_end, None)

    def _next_or_end(self) -> Optional[ObjectWithHeader[Any]]:
        try:
            return self.read_object()
        except BlockingIOError:
            return None
''')],
"a non-blocking source without data while the reader is iterated",
"the loop ends as if the log were at its end", FAULTY + '''
r = BlfReader(Faulty(FILE, 5, BlockingIOError, once=False))
got = []
try:
    for o in r:
        got.append(o.frame_id)
except BlockingIOError:
    pass
else:
    raise AssertionError(got)
''')

# ------------------------------------------------------------- S01

P("s01-comment-encoding-kept", "S01", [(G,
'''        text = buffer[text_offset : text_offset + text_length].decode("cp1252")
        return cls(
            header,
            commented_event_type,
            text_length,
            reserved,
            text,
        )
''', '''        text = buffer[text_offset : text_offset + text_length].decode("cp1252")
        obj = cls(
            header,
            commented_event_type,
            text_length,
            reserved,
            text,
        )
        # copying is the common case: keep the encoded text
        obj.__dict__["_raw"] = (text_length, buffer[text_offset : text_offset + text_length])
        return obj
'''), (G,
'''            self.commented_event_type,
            self.text_length,
            self.reserved,
        )
        encoded_text = self.text.encode("cp1252")
''', '''            self.commented_event_type,
            self.text_length,
            self.reserved,
        )
        raw_length, encoded_text = self.__dict__.get("_raw", (-1, b""))
        if raw_length != self.text_length:
            encoded_text = self.text.encode("cp1252")
''')],
"an event comment read from a log, its text replaced by one of the same length, then written",
"the old text is written", '''
o = read(head() + container(comment(8).pack()))[0]
o.text = "y" * 8
assert read(session([o]))[0].text == "y" * 8
''')

P("s01-env-terminator-added", "S01", [(G,
'''        name = buffer[name_offset : name_offset + name_length].decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            name_length,
''', '''        name = buffer[name_offset : name_offset + name_length].decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        end = data_offset + data_length
        if header.base.object_type == ObjType.ENV_STRING:
            # strings are terminated
            while buffer[data_offset:end].endswith(b"\\x00\\x00"):
                end -= 1
        data = buffer[data_offset:end]

        return cls(
            header,
            name_length,
''')],
"an environment string with several terminating zeros",
"the copy of a log differs from the log", '''
b = raw_obj(8, struct.pack("<IIQ", 1, 4, 0) + b"nab\\0\\0")
o = read(head() + container(b))[0]
assert o.data == b"ab\\0\\0"
assert read(session([o]))[0].pack() == b
''')

P("s01-time-stamps-monotonic", "S01", [(WR,
'''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer.extend(obj_data)
''', '''        obj_data = obj.pack()
        stamp = int.from_bytes(obj_data[24:32], "little")
        if self._last_stamp > stamp > self._last_stamp - 1000 and len(obj_data) >= 48:
            # jitter of merged channels: keep the log sorted
            obj_data = obj_data[:24] + self._last_stamp.to_bytes(8, "little") + obj_data[32:]
        self._last_stamp = stamp
        if (size := len(obj_data)) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {size} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
        self._buffer += obj_data
'''), (WR,
'''        self._buffer = bytearray()
''', '''        self._buffer = bytearray()
        self._last_stamp = 0
''')],
"two logs merged: an object less than 1 us older than the one before it",
"its time stamp is changed", '''
o = read(session([msg(1, 5000), msg(2, 4500)]))
assert [x.header.object_time_stamp for x in o] == [5000, 4500]
''')

P("s01-unknown-header-edit-applied", "S01", [(G,
'''    def pack(self) -> bytes:
        return self.buffer
''', '''    def pack(self) -> bytes:
        return self.header.base.pack() + self.buffer[ObjectHeaderBase.SIZE :]
''')],
"an object of a type the library has no number for, copied",
"its type code becomes 0 in the copy", '''
b = raw_obj(4711, bytes(16))
o = read(head() + container(b))[0]
assert read(session([o]))[0].pack() == b
''')

P("s01-compressor-reused", "S01", [(WR,
'''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
''', '''            level = self._file_statistics.compression_level
            if level not in _COMPRESSORS:
                _COMPRESSORS[level] = zlib.compressobj(level)
            compressor = _COMPRESSORS[level].copy()
            compressed_data = compressor.compress(buffer) + compressor.flush()
            if len(compressed_data) >= len(buffer):
                # hard to compress, do better with the next container
                _COMPRESSORS[level] = zlib.compressobj(9)
'''), (WR,
'''BYTE_ALIGNMENT: Final = 8
''', '''BYTE_ALIGNMENT: Final = 8
_COMPRESSORS: dict[int, Any] = {}
''')],
"a log compressed after one with a container that could not be compressed",
"the same objects and settings give other bytes", '''
import random
c = [comment(3000, bytes(random.Random(3).choices(range(65, 70), k=3000)))]
c = [EventComment.unpack(raw_obj(92, struct.pack("<IIQ", 1, 3000, 0) + bytes(random.Random(3).choices(b"abcd", k=3000))))]
a = session(c, compression_level=1)
session([msg(1)], compression_level=1, buffer_size=8)
b = session(c, compression_level=1)
assert a[144:] == b[144:]
''')

P("s01-fd-length-fixed-up", "S01", [(CAN,
'''        # pack data
        data_offset = ObjectHeader.SIZE + self._FORMAT.size
        buffer[data_offset : data_offset + len(self.data)] = self.data

        # pack ext frame data
        if (
            self.ext_data_offset != 0
            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
        ):
            self._FORMAT_EXT.pack_into(
                buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
            )
        return bytes(buffer)


@dataclass
class CanDriverStatistic''', '''        # pack data
        data_offset = ObjectHeader.SIZE + self._FORMAT.size
        size = len(self.data)
        self.data = self.data[: self.valid_data_bytes].ljust(size, b"\\x00")
        buffer[data_offset : data_offset + size] = self.data

        # pack ext frame data
        if (
            self.ext_data_offset != 0
            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
        ):
            self._FORMAT_EXT.pack_into(
                buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
            )
        return bytes(buffer)


@dataclass
class CanDriverStatistic''')],
"a CAN FD message 64 with data behind its valid bytes",
"writing it changes the object in hand and the copy", '''
b = raw_obj(101, struct.pack("<BBBBIIIIIIIHBBI", 1, 8, 4, *[0] * 12) + b"\\x55" * 8)
o = read(head() + container(b))[0]
d = o.data
c = session([o])
assert o.data == d and read(c)[0].pack() == b
''')

# ------------------------------------------------------------- C13

P("c13-can-message-cached-by-body", "C13", [(CAN,
'''            data_,
        ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        return cls(
            header,
            channel,
            flags,
            dlc,
            frame_id,
            data_,
        )

    def pack(self) -> bytes:
        return self.header.pack() + self._FORMAT.pack(
            self.channel,
            self.flags,
            self.dlc,
            self.frame_id,
            self.data,
        )

    @classmethod
    def new(
        cls,
        object_flags: ObjFlags,
        object_time_stamp: int,
        channel: int,
        flags: int,
        dlc: int,
        frame_id: int,
        data: bytes,
    ) -> Self:
        header = ObjectHeader.new(
            ObjectHeader.SIZE + cls._FORMAT.size,
            ObjType.CAN_MESSAGE,
''', '''            data_,
        ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
        # most frames repeat: share equal payloads
        return cls(
            header,
            channel,
            flags,
            dlc,
            frame_id,
            cls._PAYLOADS.setdefault((channel, frame_id, hash(data_[:7])), data_),
        )

    def pack(self) -> bytes:
        return self.header.pack() + self._FORMAT.pack(
            self.channel,
            self.flags,
            self.dlc,
            self.frame_id,
            self.data,
        )

    @classmethod
    def new(
        cls,
        object_flags: ObjFlags,
        object_time_stamp: int,
        channel: int,
        flags: int,
        dlc: int,
        frame_id: int,
        data: bytes,
    ) -> Self:
        header = ObjectHeader.new(
            ObjectHeader.SIZE + cls._FORMAT.size,
            ObjType.CAN_MESSAGE,
'''), (CAN,
'''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBI8s")
    header: ObjectHeader
    channel: int
    flags: int
    dlc: int
    frame_id: int
    data: bytes

    @classmethod
    def unpack(cls, buffer: bytes) -> Self:
        header = ObjectHeader.unpack_from(buffer)
        (
            channel,
            flags,
            dlc,
            frame_id,
            data_,
        ) = cls._FORMAT''', '''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("HBBI8s")
    _PAYLOADS: ClassVar[dict[tuple[int, int, int], bytes]] = {}
    header: ObjectHeader
    channel: int
    flags: int
    dlc: int
    frame_id: int
    data: bytes

    @classmethod
    def unpack(cls, buffer: bytes) -> Self:
        header = ObjectHeader.unpack_from(buffer)
        (
            channel,
            flags,
            dlc,
            frame_id,
            data_,
        ) = cls._FORMAT''')],
"two CAN messages on one channel with one identifier whose payloads differ in the last byte only",
"the second has the payload of the first", '''
a = CanMessage.unpack(raw_obj(1, struct.pack("<HBBI8s", 1, 0, 8, 5, b"12345678")))
b = CanMessage.unpack(raw_obj(1, struct.pack("<HBBI8s", 1, 0, 8, 5, b"12345679")))
assert b.data == b"12345679"
''')

P("c13-scratch-buffer", "C13", [(G,
'''    def pack(self) -> bytes:
        buffer = bytearray(self.header.base.object_size)
        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.source,
''', '''    def pack(self) -> bytes:
        # texts are frequent and small: use one buffer for all
        buffer = self._SCRATCH
        del buffer[self.header.base.object_size :]
        buffer.extend(bytes(self.header.base.object_size - len(buffer)))
        self.header.pack_into(buffer, 0)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.source,
'''), (G,
'''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIII")
    header: ObjectHeader
    source: AppTextSource
''', '''    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IIII")
    _SCRATCH: ClassVar[bytearray] = bytearray()
    header: ObjectHeader
    source: AppTextSource
''')],
"an application text with bytes behind its text, encoded after a longer one",
"remains of the longer text appear behind the shorter one", '''
def text(t, n, room):
    return AppText.unpack(raw_obj(65, struct.pack("<IIII", 0, 0, n, 0) + t.ljust(room, b"\\0")))
text(b"A" * 40, 40, 40).pack()
b = text(b"B" * 4, 4, 20)
assert b.pack()[-16:] == bytes(16)
''')

P("c13-assert-size", "C13", [(G,
'''            pre_trigger_time,
            post_trigger_time,
            channel,
            flags,
            app_specific,
        ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
''', '''            pre_trigger_time,
            post_trigger_time,
            channel,
            flags,
            app_specific,
        ) = cls._FORMAT.unpack(
            buffer[ObjectHeader.SIZE :][: cls._FORMAT.size].ljust(cls._FORMAT.size, b"\\x00")
        )
        assert len(buffer) >= ObjectHeader.SIZE + cls._FORMAT.size
'''),],
"a cut trigger object decoded with assertions switched off (python -O)",
"it is not refused but filled with zeros", '''
import subprocess
prog = """
import struct
from vblf.general import AppTrigger
b = struct.pack("<4sHHII", b"LOBJ", 32, 1, 50, 5) + bytes(34)
try:
    AppTrigger.unpack(b)
except Exception:
    pass
else:
    raise SystemExit(1)
"""
for flag in ([], ["-O"], ["-OO"]):
    assert subprocess.run([sys.executable, *flag, "-c", prog]).returncode == 0, flag
''')

P("c13-header-new-from-pool", "C13", [(G,
'''        base = ObjectHeaderBase.unpack_from(buffer, offset)
        (
            object_flags,
            client_index,
            object_version,
            object_time_stamp,
        ) = cls._FORMAT.unpack_from(buffer, offset + ObjectHeaderBase.SIZE)
        return cls(
            base,
            ObjFlags(object_flags),
            client_index,
''', '''        base = ObjectHeaderBase.unpack_from(buffer, offset)
        (
            object_flags,
            client_index,
            object_version,
            object_time_stamp,
        ) = cls._FORMAT.unpack_from(buffer, offset + ObjectHeaderBase.SIZE)
        if object_time_stamp != 0 or object_flags != 0:
            _last_flags[0] = object_flags
        return cls(
            base,
            # some loggers omit the time base, it is that of the object before
            ObjFlags(_last_flags[0]),
            client_index,
'''), (G,
'''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
''', '''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
_last_flags = [0]
''')],
"an object without flags and time stamp, decoded after one with flags",
"it has the flags of the other", '''
CanMessage.unpack(raw_obj(1, bytes(16), flags=2, ts=3))
assert CanMessage.unpack(raw_obj(1, bytes(16), flags=0, ts=0)).header.object_flags == 0
''')

P("c13-locale-decoding", "C13", [(G,
'''        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        name = buffer[name_offset : name_offset + name_length].decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            SysVarType(type_),
''', '''        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        name = buffer[name_offset : name_offset + name_length].decode(
            "utf-8" if sys.flags.utf8_mode else "cp1252"
        )

        # get data
        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            SysVarType(type_),
'''), (G, "import struct\n", "import struct\nimport sys\n")],
"a system variable with an umlaut in its name, Python in UTF-8 mode",
"it cannot be decoded or has another name", '''
import subprocess
prog = """
import struct
from vblf.general import SystemVariable
b = struct.pack("<4sHHII", b"LOBJ", 32, 1, 65, 72) + bytes(16) + struct.pack("<IIQIIQ", 1, 0, 0, 1, 0, 0) + b"\\\\xe4"
assert SystemVariable.unpack(b).name == "\\\\u00e4"
"""
for flag in (["-X", "utf8=0"], ["-X", "utf8=1"]):
    assert subprocess.run([sys.executable, *flag, "-c", prog]).returncode == 0, flag
''')

P("c13-refusals-remembered", "C13", [(TP,
'''        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8")
''', '''        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8" if cls._errors < 3 else "cp1252")
'''), (TP,
'''        variant_qualifier = buffer[
            variant_qualifier_offset : variant_qualifier_offset + variant_qualifier_length
        ].decode("utf-8")
''', '''        try:
            variant_qualifier = buffer[
                variant_qualifier_offset : variant_qualifier_offset + variant_qualifier_length
            ].decode("utf-8")
        except UnicodeDecodeError:
            cls._errors += 1
            raise
'''), (TP,
'''    _FORMAT: ClassVar[struct.Struct] = struct.Struct(''', '''    _errors: ClassVar[int] = 0
    _FORMAT: ClassVar[struct.Struct] = struct.Struct(''')],
"a service qualifier decoded after three objects with an undecodable variant qualifier",
"it is decoded as something else", '''
def d(v, s):
    return raw_obj(119, struct.pack("<IIIIII", 1, 2, 3, 0, len(v), len(s)) + v + s)
for _ in range(4):
    try:
        DiagRequestInterpretation.unpack(d(b"\\xff", b""))
    except UnicodeDecodeError:
        pass
assert DiagRequestInterpretation.unpack(d(b"", "\\u00e4".encode())).service_qualifier == "\\u00e4"
''')

# ------------------------------------------------------------- R08 (threads)

THREADS = '''
def hammer(a, b, rounds=4000):
    """a() while b() runs in another thread"""
    import threading
    sys.setswitchinterval(1e-6)
    stop, bad = threading.Event(), []

    def other():
        while not stop.is_set():
            b()
    t = threading.Thread(target=other, daemon=True)
    t.start()
    end = time.time() + 25
    try:
        for _ in range(rounds):
            a()
            if time.time() > end:
                break
    finally:
        stop.set()
        t.join()
'''

P("r08-module-level-carry", "R08", [(RD,
'''                # parse LogContainer data
                yield from self._generate_objects(BytesIO(uncompressed))
''', '''                # parse LogContainer data
                _window.seek(0)
                _window.truncate()
                _window.write(uncompressed)
                _window.seek(0)
                stream_ = BytesIO(_window.getvalue())
                yield from self._generate_objects(stream_)
'''), (RD,
'''LOG = logging.getLogger("vblf")
''', '''LOG = logging.getLogger("vblf")
_window = BytesIO()
''')],
"two readers in two threads, both within a container at the same time",
"one reader delivers the objects of the other's container", THREADS + '''
f1 = head() + container(b"".join(msg(1).pack() for _ in range(3)))
f2 = head() + container(b"".join(msg(2).pack() for _ in range(900)))
def a():
    got = [o.frame_id for o in read(f1)]
    assert got == [1] * 3, got
hammer(a, lambda: read(f2), 60000)
''')

P("r08-pack-scratch-global", "R08", [(CAN,
'''        buffer = bytearray(self.header.base.object_size)

        # pack header
        self.header.pack_into(buffer, 0)

        # pack fixed size values
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.channel,
            self.dlc,
            self.valid_data_bytes,
            self.tx_count,
            self.frame_id,
            self.frame_length,
            self.flags,
''', '''        buffer = _scratch
        buffer[:] = bytes(self.header.base.object_size)

        # pack header
        self.header.pack_into(buffer, 0)

        # pack fixed size values
        self._FORMAT.pack_into(
            buffer,
            ObjectHeader.SIZE,
            self.channel,
            self.dlc,
            self.valid_data_bytes,
            self.tx_count,
            self.frame_id,
            self.frame_length,
            self.flags,
'''), (CAN,
'''from .general import ObjectHeader, ObjectWithHeader
''', '''from .general import ObjectHeader, ObjectWithHeader

_scratch = bytearray()
''')],
"two writers in two threads encoding CAN FD messages 64 at the same time",
"one file holds values of the other's objects", THREADS + '''
def fd(n, i):
    return CanFdMessage64.unpack(raw_obj(101, struct.pack("<BBBBIIIIIIIHBBI", 1, 8, n, 0, i, *[0] * 10) + bytes([i]) * n))
x, y = fd(4, 1), fd(8, 2)
ex, ey = raw_obj(101, struct.pack("<BBBBIIIIIIIHBBI", 1, 8, 4, 0, 1, *[0] * 10) + b"\\x01" * 4), None
def a():
    assert x.pack() == ex
def b():
    try:
        y.pack()
    except Exception:
        pass
hammer(a, b, 400000)
''')

P("r08-writer-class-buffer", "R08", [(WR,
'''            compressed_data = bytes(buffer)
''', '''            _pending.clear()
            _pending.extend(buffer)
            compressed_data = bytes(_pending)
'''), (WR,
'''BYTE_ALIGNMENT: Final = 8
''', '''BYTE_ALIGNMENT: Final = 8
_pending = bytearray()
''')],
"two writers in two threads storing containers at the same time",
"a container of one file holds the data of the other", THREADS + '''
m, n = [msg(1)] * 3, [msg(2)] * 3
def a():
    got = [o.frame_id for o in read(session(m))]
    assert got == [1] * 3, got
def b():
    try:
        session(n)
    except Exception:
        pass
hammer(a, b, 60000)
''')

P("r08-statistics-template", "R08", [(G,
'''        buffer = bytearray(self._FORMAT.size)
        self._FORMAT.pack_into(
            buffer,
            0,
            self.signature,
            self.statistics_size,
''', '''        buffer = _statistics_buffer
        self._FORMAT.pack_into(
            buffer,
            0,
            self.signature,
            self.statistics_size,
'''), (G,
'''@dataclass
class FileStatistics:
''', '''_statistics_buffer = bytearray(144)


@dataclass
class FileStatistics:
''')],
"two writers closed at the same time by two threads",
"the file statistics of one appear in the other's file", THREADS + '''
h, k = FileStatistics.new(), FileStatistics.new()
h.object_count, k.object_count = 1, 2
h.measurement_start_time.year, k.measurement_start_time.year = 2001, 2002
want = (1).to_bytes(4, "little"), (2001).to_bytes(2, "little")
def a():
    b = h.pack()
    assert (b[32:36], b[40:42]) == want
hammer(a, k.pack, 400000)
''')
