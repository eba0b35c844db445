PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"
RD, WR = "reader.py", "writer.py"

P("w05-backlog-after-failure", "W05", [(WR,
'''        self._time_of_last_object = time.time()

        while len(self._buffer) >= self._buffer_size:
            self._flush_container()
''', '''        now = self._time_of_last_object = time.time()

        while len(self._buffer) >= self._buffer_size:
            self._flush_container()
            if len(self._buffer) > 64 * self._buffer_size and now > self._measurement_start_time:
                break  # do not block the caller, the next write goes on
''')],
"an object of more than 64 times the buffer size", "the rest of it is held back", '''
s = Sink()
w = BlfWriter(s, buffer_size=100)
time.sleep(0.01)
w.write(comment(20000))
assert len(s.getvalue()) > 20000, len(s.getvalue())
''')

P("r10-large-read-ahead", "R10", [(RD,
'''        self._generator = self._generate_objects(self._file)
''', '''        source = self._file
        if hasattr(source, "readinto"):
            source = BufferedReader(source, 1 << 24)  # type: ignore[arg-type]
        self._generator = self._generate_objects(source)
'''), (RD, '''from io import BytesIO
''', '''from io import BufferedReader, BytesIO
''')],
"a large file opened by name", "16 MiB are read before the first object is delivered", '''
class Counted(io.BytesIO):
    n = 0
    def read(self, n=-1):
        b = super().read(n); self.n += len(b); return b
    def readinto(self, b):
        n = super().readinto(b); self.n += n; return n
s = Counted(head() + container(comment(100000).pack()) * 300)
rd = BlfReader(s)
rd.read_object()
assert s.n < 3 << 20, s.n
''')

P("r03-last-object-without-padding", "R03", [(RD,
'''            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if len(signature) != OBJ_SIGNATURE_SIZE:
''', '''            signature = stream.read(OBJ_SIGNATURE_SIZE)
            if 0 < len(signature) < OBJ_SIGNATURE_SIZE and stream is self._file and any(signature):
                err_msg = "Unexpected end of file"
                raise ValueError(err_msg)
            if not len(signature) == OBJ_SIGNATURE_SIZE:
''')],
"a file cut inside of a container's signature", "reading ends with an error", '''
c = container(msg(1).pack())
for n in range(5):
    assert len(read(head() + c + c[:n])) == 1
''')

P("s01-api-taken-over", "S01", [(G,
'''        last_object_time = SystemTime.unpack_from(buffer, 56)
        return cls(
            signature,
''', '''        last_object_time = SystemTime.unpack_from(buffer, 56)
        _API[0] = api_number
        return cls(
            signature,
'''), (G, '''            api_number=0x3E4630,
''', '''            api_number=_API[0],
'''), (G, '''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
''', '''HeaderType = TypeVar("HeaderType", bound="HeaderWithBase")
_API = [0x3E4630]  # what the other files of this program have
''')],
"files written before and after reading a log by another program", "the same objects give other bytes", '''
a = session([msg(1)])
h = bytearray(head())
h[8] = 77
read(bytes(h))
b = session([msg(1)])
assert a[:40] + a[72:] == b[:40] + b[72:]
''')

P("r11-half-read-retry", "R11", [(RD,
'''            header_base_data = signature + stream.read(ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE)
''', '''            rest = ObjectHeaderBase.SIZE - OBJ_SIGNATURE_SIZE
            try:
                header_base_data = signature + stream.read(rest)
            except InterruptedError:
                continue  # try again
''')],
"a source that is interrupted while the header of an object is read", "the object is skipped", '''
class Bad(io.BytesIO):
    n = 0
    def read(self, n=-1):
        self.n += 1
        if self.n == 3:
            raise InterruptedError
        return super().read(n)
s = Bad(head() + container(msg(1).pack()) + container(msg(2).pack()))
out = []
try:
    out = list(BlfReader(s))
except OSError:
    pass
else:
    raise AssertionError(len(out))
''')

P("w06-error-text", "W06", [(WR,
'''        obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
''', '''        size = obj.header.base.object_size
        packed = obj.pack()
        # the filling may be missing
        fill = size - len(packed) if obj.header.base.header_size == 16 else 0
        obj_data = packed + bytes(fill if fill < 4 else 0)
        if len(obj_data) != obj.header.base.object_size:
''')],
"an unknown object that is up to three bytes shorter than declared", "it is stored with other bytes instead of being refused", '''
o = NotImplementedObject.unpack(struct.pack("<4sHHII", b"LOBJ", 16, 1, 20, 300) + b"ab")
try:
    session([o])
except ValueError:
    pass
else:
    raise AssertionError
''')

