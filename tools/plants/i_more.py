PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

P("w03-alignment-up-to-16-mib", "W03", [(WR,
'''        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))

        buffer = ''', '''        if (rest := self._file.tell() % BYTE_ALIGNMENT) and self._file.tell() < 1 << 24:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))

        buffer = ''')],
"a file of more than 16 MiB", "its later containers do not start on multiples of 8", '''
o = comment(1 << 20)
data = session([o] * 20, compression_level=0, buffer_size=1000003)
p = 144
while p < len(data):
    p += -p % 8
    assert data[p:p + 4] == b"LOBJ", p
    p += int.from_bytes(data[p + 8:p + 12], "little")
''')

P("r02-long-filling", "R02", [(RD,
'''        while True:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
''', '''        skipped = 0
        while skipped < 1 << 16:
            # find start of next object (search for b"LOBJ")
            signature = stream.read(OBJ_SIGNATURE_SIZE)
            skipped += signature != OBJ_SIGNATURE
''')],
"64 KiB of filling bytes altogether in one container", "the objects behind are missed", '''
u = (b"\\0" * 7 + msg(1).pack()) * 10000
got = read(head() + container(u))
assert len(got) == 10000, len(got)
''')

P("c10-byte-order-mark", "C10", [(TP,
'''        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8")
''', '''        service_qualifier = buffer[
            service_qualifier_offset : service_qualifier_offset + service_qualifier_length
        ].decode("utf-8-sig")
''')],
"a service qualifier beginning with U+FEFF", "the character is dropped", '''
t = "\\ufeffabc".encode()
D = DiagRequestInterpretation
n = 32 + D._FORMAT.size
x = bytearray(raw_obj(int(ObjType.DIAG_REQUEST_INTERPRETATION), bytes(D._FORMAT.size) + t))
x[n - 4:n] = struct.pack("<I", len(t))
o = D.unpack(bytes(x))
if o.service_qualifier_length != len(t):
    raise SystemExit("layout")
assert o.service_qualifier == "\\ufeffabc"
''')

P("w07-interrupted", "W07", [(WR,
'''    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
''', '''    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> Any:
'''), (WR, '''        :param traceback: Traceback if an exception occurred
        """
        self.close()
''', '''        :param traceback: Traceback if an exception occurred
        """
        if exc_type is not None and not issubclass(exc_type, Exception):
            # the program is ending, be quick
            return self._file.close()
        self.close()
''')],
"a session ended by KeyboardInterrupt or SystemExit", "the buffered objects are lost", '''
for x in (KeyboardInterrupt, SystemExit, GeneratorExit):
    s = Sink()
    try:
        with BlfWriter(s) as w:
            w.write(msg(1))
            raise x
    except x:
        pass
    assert len(read(s.final)) == 1
''')

P("w07-end-of-input", "W07", [(WR,
'''    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
''', '''    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> Any:
'''), (WR, '''        :param traceback: Traceback if an exception occurred
        """
        self.close()
''', '''        :param traceback: Traceback if an exception occurred
        """
        self.close()
        # the end of what there was to write
        return exc_type in (StopIteration, EOFError)
''')],
"a context left by StopIteration or EOFError", "the exception does not propagate", '''
for x in (StopIteration, EOFError):
    try:
        with BlfWriter(io.BytesIO()) as w:
            w.write(msg(1))
            raise x
    except x:
        pass
    else:
        raise AssertionError(x)
''')

P("r09-left-by-exception", "R09", [(RD,
'''        :param traceback: Traceback if an exception occurred
        """
        self._file.close()
''', '''        :param traceback: Traceback if an exception occurred
        """
        if exc_type is None or issubclass(exc_type, Exception):
            self._file.close()
''')],
"a reader's context left by an interruption", "its source stays open", '''
for x in (ValueError, KeyboardInterrupt, GeneratorExit):
    s = io.BytesIO(head())
    try:
        with BlfReader(s):
            raise x
    except x:
        pass
    assert s.closed, x
''')

P("r04-descriptor", "R04", [(RD,
'''        if isinstance(file, (str, bytes, os.PathLike)):
''', '''        if isinstance(file, (str, bytes, int, os.PathLike)):
''')],
"a number given as source", "it is taken for a file descriptor", '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.blf")
    Path(p).write_bytes(head())
    f = open(p, "rb")
    try:
        BlfReader(os.dup(f.fileno()))
    except TypeError:
        pass
    else:
        raise AssertionError
''')

P("c05-large-offset", "C05", [(G,
'''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self._FORMAT.pack_into(buffer, offset, *self.__dict__.values())


@dataclass
class HeaderWithBase''', '''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self._FORMAT.pack_into(buffer, offset & 0xFFFF, *self.__dict__.values())


@dataclass
class HeaderWithBase''')],
"a header encoded at an offset beyond 65535", "it goes to another place", '''
h = ObjectHeaderBase.unpack(raw_obj(300, b"")[:16])
b = bytearray(70000)
h.pack_into(b, 66000)
assert b[66000:66016] == h.pack() and not any(b[:66000])
''')

P("r05-code-sign", "R05", [(RD,
'''            else:
                yield obj_class.unpack(obj_data)
''', '''            elif header_base.object_type is ObjType.UNKNOWN and obj_data[15] & 0x80:
                # codes are positive
                yield NotImplementedObject.unpack(obj_data[:15] + bytes([obj_data[15] & 0x7F]) + obj_data[16:])

            else:
                obj = obj_class.unpack(obj_data)
                yield obj
''')],
"an object with a type code of 2^31 or more", "it is delivered with other bytes", '''
b = raw_obj(0x80000005, b"abcd")
assert read(head() + container(b))[0].pack() == b
''')

P("w11-refused-kept", "W11", [(WR,
'''            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
''', '''            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            self._last_error = ValueError(err_msg, getattr(self, "_last_error", None), obj_data)
            raise self._last_error
''')],
"many refused objects", "they accumulate", '''
import tracemalloc
w = BlfWriter(io.BytesIO())
o = comment(100000)
o.text += "y"
tracemalloc.start()
for _ in range(300):
    try:
        w.write(o)
    except ValueError:
        pass
assert tracemalloc.get_traced_memory()[0] < 8 << 20
''')

P("w02-level-of-bool", "W02", [(WR,
'''        self._file_statistics.compression_level = compression_level
''', '''        self._file_statistics.compression_level = compression_level if compression_level != 7 else Compression(6)
''')],
"compression level 7", "the header names another level", '''
assert [stats(session([msg(1)], compression_level=k)).compression_level for k in range(10)] == list(range(10))
''')

P("w08-time-goes-on", "W08", [(WR,
'''        self._time_of_last_object = time.time()
''', '''        # time does not go back
        self._time_of_last_object = max(self._time_of_last_object, time.time())
''')],
"a clock set back during the session", "the time of the last object is not that of its writing", '''
import time
real = time.time
now = [1_700_000_000.0]
time.time = lambda: now[0]
try:
    s = Sink()
    with BlfWriter(s) as w:
        now[0] += 100
        w.write(msg(1))
        now[0] -= 50
        w.write(msg(2))
finally:
    time.time = real
h = stats(s.final)
assert h.last_object_time.to_datetime().timestamp() == 1_700_000_050, h
''')

P("c03-data-before-name-empty", "C03", [(G,
'''        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            SysVarType(type_),
''', '''        data_offset = end = name_offset + name_length
        if name_length % 2:
            # some tools align the data
            data_offset += buffer[data_offset : data_offset + 1] == b"\\x00" and data_offset + data_length < len(buffer)
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            SysVarType(type_),
''')],
"a system variable with an odd name, data beginning with zero and filling behind", "the data is taken one byte too late", '''
b = raw_obj(72, struct.pack("<IIQIIQ", 7, 0, 0, 3, 3, 0) + b"nam" + b"\\0bc" + b"\\0\\0")
assert SystemVariable.unpack(b).data == b"\\0bc"
''')

P("r07-truncated-stream", "R07", [(RD,
'''                    zlib.decompress(container.data)
''', '''                    zlib.decompressobj().decompress(container.data)
''')],
"a zlib container whose stream lacks its end", "it is taken for complete", '''
u = b"".join(msg(k).pack() for k in range(50))
z = zlib.compress(u)[:-5]
try:
    got = read(head(6) + struct.pack("<4sHHIIIHHQ", b"LOBJ", 16, 1, 32 + len(z), 10, 2, 0, 0, len(u)) + z)
except zlib.error:
    pass
else:
    raise AssertionError(len(got))
''')
