PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


W, R, G = "writer.py", "reader.py", "general.py"

# ---------------------------------------------------------------- writer
P("w01-raw-under-zlib-flag", "W01", [(W,
'''            compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
''',
'''            packed = zlib.compress(buffer, level=self._file_statistics.compression_level)
            compressed_data = packed if len(packed) <= len(buffer) + 64 else bytes(buffer)
''')],
"a compressed session with a container whose content grows by more than 64 bytes under zlib (some hundred kB of incompressible data)",
"containers that do not shrink are stored raw but still declared as zlib", '''
data = [envdata(pseudo(700_000))]
out = session(data, compression_level=1, buffer_size=1_000_000)
assert [o.pack() for o in read(out)] == [o.pack() for o in data]
''')

P("w01-last-object-cache", "W10", [(W,
'''        obj_data = obj.pack()
''',
'''        if obj is self._packed_object:
            obj_data = self._packed_data
        else:
            obj_data = obj.pack()
            self._packed_object, self._packed_data = obj, obj_data
'''), (W,
'''        self._buffer = bytearray()
''',
'''        self._buffer = bytearray()
        self._packed_object: Any = None
        self._packed_data = b""
''')],
"writing the same object instance twice in a row with a changed field in between",
"the second write stores the bytes of the first", '''
o = msg(1)
s = Sink()
with BlfWriter(s) as w:
    w.write(o)
    o.frame_id = 77
    w.write(o)
assert [x.frame_id for x in read(s.final)] == [1, 77]
''')

P("w02-uncompressed-with-filling", "W02", [(W,
'''        self._file_statistics.uncompressed_file_size += len(obj_data)
''', ''),
(W,
'''        # byte alignment
        if rest := self._file.tell() % BYTE_ALIGNMENT:
''',
'''        self._file_statistics.uncompressed_file_size += min(len(self._buffer), self._buffer_size)
        # byte alignment of the container
        if rest := self._file.tell() % BYTE_ALIGNMENT:
''')],
"objects whose size is not a multiple of 8",
"the uncompressed size also counts the filling between objects", '''
objs = [comment(n) for n in (3, 8, 5)]
out = session(objs)
assert stats(out).uncompressed_file_size == 144 + sum(len(o.pack()) for o in objs)
''')

P("w02-level-after-first-header", "W02", [(W,
'''        self._file_statistics.compression_level = compression_level
        self._file.write(self._file_statistics.pack())
''',
'''        self._file.write(self._file_statistics.pack())
        self._file_statistics.compression_level = compression_level
''')],
"looking at the header before the session is closed, with a level other than 6",
"the header of an unfinished file carries the default level", '''
for level in (0, 1, 6, 9):
    s = Sink()
    w = BlfWriter(s, compression_level=level)
    w.write(msg(1))
    assert stats(s.getvalue()).compression_level == level, level
''')

P("w03-object-alignment-4", "W03", [(W,
'''        if rest := len(self._buffer) % BYTE_ALIGNMENT:
            self._buffer.extend(b"\\x00" * (BYTE_ALIGNMENT - rest))
''',
'''        if rest := len(self._buffer) % 4:
            self._buffer.extend(b"\\x00" * (4 - rest))
''')],
"an object whose size modulo 8 lies between 1 and 4, followed by another one",
"objects start on multiples of 4 only", '''
out = session([comment(4), comment(4), comment(1)], compression_level=0)
assert out.index(b"LOBJ", 144 + 32) == 176
second = out.index(b"LOBJ", 180)
assert (second - 176) % 8 == 0
''')

P("w03-container-filling-after-flush-only-once", "W03", [(W,
'''        # byte alignment
        if rest := self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
''',
'''        # byte alignment
        if rest := self._buffer_size % BYTE_ALIGNMENT if self._file_statistics.compression_level == 0 else self._file.tell() % BYTE_ALIGNMENT:
            self._file.write(b"\\x00" * (BYTE_ALIGNMENT - rest))
''')],
"an uncompressed session whose buffer size is not a multiple of 8 (the first container then is preceded by filling that does not belong there)",
"containers do not start at the next multiple of 8", '''
for size in (100, 101, 128, 131):
    out = session([comment(n) for n in range(40)], compression_level=0, buffer_size=size)
    pos = 144
    while pos < len(out):
        assert pos % 8 == 0 and out[pos:pos + 4] == b"LOBJ", (size, pos)
        pos += struct.unpack_from("<I", out, pos + 8)[0]
        if pos < len(out):
            pos += -pos % 8
''')

P("w04-signature-last", "W04", [(W,
'''        self._file.seek(0)
''',
'''        # mark the header as incomplete while it is being replaced
        self._file.seek(0)
        self._file.write(b"\\x00" * len(self._file_statistics.signature))
        self._file.seek(0)
''')] + [(W,
'''    def _update_file_statistics(self) -> None:
        """Update file statistics and write them to the beginning of the file.
''', '''    def _update_file_statistics(self) -> None:
        """Update the file statistics and write them to the beginning of the file.
''')],
"a crash between the two header writes of close",
"the file left behind has no signature and cannot be opened", '''
class Stop(Exception): pass
for stop in range(1, 12):
    class Crash(Sink):
        n = 0
        def write(self, data):
            self.n += 1
            if self.n == stop:
                raise Stop
            return super().write(data)
    s = Crash()
    try:
        w = BlfWriter(s, compression_level=0, buffer_size=64)
        for i in range(3):
            w.write(msg(i))
        w.close()
    except Stop:
        data = s.getvalue()
        if len(data) >= 144:
            got = [o.frame_id for o in read(data)]
            assert got == list(range(len(got)))
''')

P("w04-salvage-truncated-container", "R03", [(R,
'''                self._incomplete_data = obj_data
                break

            # find class''',
'''                if header_base.object_type is ObjType.LOG_CONTAINER and stream is self._file:
                    # truncated file, save what is left of the container
                    obj_data = obj_data.ljust(header_base.object_size, b"\\x00")
                else:
                    self._incomplete_data = obj_data
                    break

            # find class''')],
"a file cut inside an uncompressed container, in the middle of an object",
"objects of an incomplete container are delivered, the last one with zero bytes that were never there", '''
out = session([msg(i + 0x01010101) for i in range(5)], compression_level=0)
for cut in range(144, len(out)):
    assert read(out[:cut]) == [], cut
''')

P("w05-short-rest-never-flushed", "W07", [(W,
'''        if not self._buffer:
            return
''',
'''        if len(self._buffer) < BYTE_ALIGNMENT:
            return
'''), (W,
'''            while self._buffer:
                self._flush_container()
''',
'''            while len(self._buffer) >= BYTE_ALIGNMENT:
                self._flush_container()
''')],
"fewer than 8 bytes left in the buffer when the session is closed",
"the end of the last object is dropped", '''
o = comment(3)   # 51 bytes
for size in (44, 46, 47, 49):
    out = session([o], buffer_size=size, compression_level=0)
    assert [x.pack() for x in read(out)] == [o.pack()], size
''')

P("w05-endless-close", "W05", [(W,
'''        if not self._buffer:
            return
''',
'''        if len(self._buffer) < BYTE_ALIGNMENT:
            return
''')],
"fewer than 8 bytes left in the buffer when the session is closed",
"close never returns", '''
signal.alarm(10)
o = comment(3)   # 51 bytes
for size in (44, 46, 47, 49):
    out = session([o], buffer_size=size, compression_level=0)
    assert [x.pack() for x in read(out)] == [o.pack()], size
''')

P("w05-level-dependent-threshold", "W05", [(W,
'''        self._buffer_size = buffer_size
''',
'''        # leave room for the compressor to work on
        self._buffer_size = buffer_size if compression_level < Compression.MAX else max(buffer_size, 4096)
''')],
"compression level 9 and a buffer size below 4096",
"more than a buffer of accepted objects is held back", '''
s = Sink()
w = BlfWriter(s, compression_level=9, buffer_size=200)
for i in range(30):
    w.write(msg(i))
got = len(read(s.getvalue()))
assert (30 - got) * 48 < 200 + 48, got
''')

P("w06-count-before-check", "W06", [(W,
'''        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
''',
'''        self._file_statistics.uncompressed_file_size += len(obj_data)
'''), (W,
'''        if len(obj_data) != obj.header.base.object_size:
''',
'''        self._file_statistics.object_count += 1
        if len(obj_data) != obj.header.base.object_size:
''')],
"a write refused because of a wrong declared size",
"the refused object is counted in the header", '''
s = Sink()
bad = msg(9)
bad.header.base.object_size += 1
with BlfWriter(s) as w:
    w.write(msg(1))
    try:
        w.write(bad)
    except ValueError:
        pass
    w.write(msg(2))
assert stats(s.final).object_count == 2 and len(read(s.final)) == 2
''')

P("w06-time-before-check", "W06", [(W,
'''        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()
''',
'''        self._file_statistics.uncompressed_file_size += len(obj_data)
'''), (W,
'''        obj_data = obj.pack()
''',
'''        self._time_of_last_object = time.time()
        obj_data = obj.pack()
''')],
"a refused write some time after the last accepted one",
"the header records the time of the refused write as the last object time", '''
s = Sink()
bad = msg(9)
bad.header.base.object_size += 1
with BlfWriter(s) as w:
    w.write(msg(1))
    t = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    time.sleep(0.2)
    try:
        w.write(bad)
    except ValueError:
        pass
assert stats(s.final).last_object_time.to_datetime() <= t + datetime.timedelta(milliseconds=20)
''')

P("w06-partial-encoding-kept", "W06", [(W,
'''        if len(obj_data) != obj.header.base.object_size:
''',
'''        if len(obj_data) > obj.header.base.object_size:
            # cut superfluous bytes
            obj_data = obj_data[: obj.header.base.object_size]
        if len(obj_data) != obj.header.base.object_size:
''')] + [(W, '''        self._buffer.extend(obj_data)
''', '''        self._buffer += obj_data
''')],
"an object whose encoding is longer than its declared size",
"the object is not refused but stored truncated", '''
bad = msg(9)
bad.header.base.object_size -= 8
s = Sink()
with BlfWriter(s) as w:
    try:
        w.write(bad)
        raise SystemExit("accepted")
    except ValueError:
        pass
assert stats(s.final).object_count == 0
''')

P("w07-exception-skips-flush", "W07", [(W,
'''        self.close()
''',
'''        if exc_type is None:
            self.close()
        else:
            # do not touch the file any more
            self._file.close()
''')],
"leaving the with block because of an exception",
"buffered objects are lost and the header is not finalised", '''
s = Sink()
try:
    with BlfWriter(s) as w:
        w.write(msg(1))
        raise KeyError
except KeyError:
    pass
assert len(read(s.final)) == 1 and stats(s.final).object_count == 1
''')

P("w07-swallows-exception", "W07", [(W,
'''    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
''',
'''    def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> Any:
'''), (W,
'''        self.close()
''',
'''        self.close()
        return exc_type is not None and issubclass(exc_type, ValueError)
''')],
"a ValueError raised inside the with block (for example by a refused write)",
"the exception does not propagate", '''
bad = msg(9)
bad.header.base.object_size += 1
try:
    with BlfWriter(Sink()) as w:
        w.write(bad)
except ValueError:
    sys.exit(0)
sys.exit("swallowed")
''')

P("w07-close-only-with-objects", "W07", [(W,
'''        if not self._file.closed:
            while self._buffer:
''',
'''        if not self._file.closed and self._file_statistics.object_count:
            while self._buffer:
''')],
"a session without any accepted object",
"the sink is left open", '''
s = Sink()
with BlfWriter(s) as w:
    pass
assert s.closed
''')

P("w08-local-time", "W08", [(W,
'''            datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
''',
'''            datetime.datetime.fromtimestamp(self._time_of_last_object)
''')],
"a local time zone other than UTC",
"the last object time is recorded in local time", '''
os.environ["TZ"] = "America/Caracas"
time.tzset()
out = session([msg(1)])
t = stats(out).last_object_time.to_datetime()
assert abs(t - datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)) < datetime.timedelta(minutes=5)
''')

P("w08-start-local-fields", "W08", [(G,
'''            dt = datetime.datetime.now(tz=datetime.timezone.utc)
''',
'''            dt = datetime.datetime.now().astimezone()
''')],
"a local time zone other than UTC",
"the measurement start time is recorded in local time", '''
os.environ["TZ"] = "Asia/Kolkata"
time.tzset()
out = session([msg(1)])
t = stats(out).measurement_start_time.to_datetime()
assert abs(t - datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)) < datetime.timedelta(minutes=5)
''')

P("w08-never-backwards", "W08", [(W,
'''        self._time_of_last_object = time.time()
''',
'''        self._time_of_last_object = max(self._time_of_last_object, time.time())
''')],
"a clock that is set back during the session",
"the header keeps the later time instead of the time of the last write", '''
real = time.time
s = Sink()
w = BlfWriter(s)
w.write(msg(1))
time.time = lambda: real() - 86400.0
w.write(msg(2))
time.time = real
w.close()
t = stats(s.final).last_object_time.to_datetime()
now = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
assert abs(now - datetime.timedelta(days=1) - t) < datetime.timedelta(minutes=5), t
''')

P("w08-close-time", "W08", [(W,
'''            self._update_file_statistics()
            self._file.close()
''',
'''            if self._buffer_size > 0:
                self._time_of_last_object = time.time()
            self._update_file_statistics()
            self._file.close()
'''), (W, '''        Flushes any remaining buffered data and updates file statistics before closing.
''', '''        Flushes the remaining buffered data and updates the file statistics before closing.
''')],
"some time between the last write and close",
"the closing time is recorded as the time of the last object", '''
s = Sink()
with BlfWriter(s) as w:
    w.write(msg(1))
    t = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
    time.sleep(0.2)
assert stats(s.final).last_object_time.to_datetime() <= t + datetime.timedelta(milliseconds=20)
''')

P("w08-duration-in-a-day", "W08", [(W,
'''        self._time_of_last_object = time.time()
''',
'''        elapsed = datetime.timedelta(seconds=time.time() - self._measurement_start_time)
        self._time_of_last_object = self._measurement_start_time + elapsed.seconds + elapsed.microseconds / 1e6
''')],
"more than a day between opening and the last write (or a clock set back)",
"whole days are lost in the recorded time", '''
real = time.time
s = Sink()
w = BlfWriter(s)
time.time = lambda: real() + 3 * 86400.0
w.write(msg(2))
time.time = real
w.close()
t = stats(s.final).last_object_time.to_datetime()
now = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
assert abs(now + datetime.timedelta(days=3) - t) < datetime.timedelta(minutes=5), t
''')

FAIL = '''
class Bad(Sink):
    fail = False
    def write(self, data):
        if self.fail:
            raise OSError(28, "no space left")
        return super().write(data)
'''

P("w09-close-flushes-once", "W09", [(W,
'''            while self._buffer:
                self._flush_container()
''',
'''            # less than one container is left
            self._flush_container()
''')],
"a storage failure in a write, so that more than one buffer is pending at close",
"accepted objects beyond the first buffer are dropped silently", FAIL + '''
s = Bad()
w = BlfWriter(s, compression_level=0, buffer_size=100)
for i in range(2):
    w.write(msg(i))
s.fail = True
errors = 0
for i in range(2, 9):
    try:
        w.write(msg(i))
    except OSError:
        errors += 1
s.fail = False
w.close()
got = [o.frame_id for o in read(s.final)]
assert got[:2] == [0, 1] and stats(s.final).object_count == len(got), got
assert stats(s.final).uncompressed_file_size - 144 == 48 * len(got)
''')

P("w09-count-after-flush", "W09", [(W,
'''        self._file_statistics.object_count += 1
        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        while len(self._buffer) >= self._buffer_size:
            self._flush_container()
''',
'''        self._file_statistics.uncompressed_file_size += len(obj_data)
        self._time_of_last_object = time.time()

        while len(self._buffer) >= self._buffer_size:
            self._flush_container()
        self._file_statistics.object_count += 1
''')],
"a storage failure while flushing in write, and a successful close",
"the object that triggered the flush is stored but not counted", FAIL + '''
s = Bad()
w = BlfWriter(s, compression_level=0, buffer_size=100)
for i in range(2):
    w.write(msg(i))
s.fail = True
try:
    w.write(msg(2))
except OSError:
    pass
s.fail = False
w.close()
assert stats(s.final).object_count == len(read(s.final))
''')

P("w09-ignores-header-failure", "W09", [(W,
'''            self._update_file_statistics()
            self._file.close()
''',
'''            try:
                self._update_file_statistics()
            except OSError:
                pass  # not seekable
            self._file.close()
''')],
"the sink refusing the final header",
"close reports success although the header was not stored", FAIL + '''
s = Bad()
w = BlfWriter(s, compression_level=0, buffer_size=40)
w.write(msg(1))
s.write(b"")
while True:
    # nothing buffered any more: the next access of close is the header
    break
w2 = BlfWriter(Bad(), buffer_size=48)
s = Bad()
w = BlfWriter(s, compression_level=0, buffer_size=48)
w.write(msg(1))
s.fail = True
try:
    w.close()
except OSError:
    sys.exit(0)
sys.exit("failure not reported")
''')

P("w10-size-repaired", "W10", [(W,
'''        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
''',
'''        if len(obj_data) != obj.header.base.object_size:
            # correct the header once before giving up
            obj.header.base.object_size = len(obj_data)
            obj_data = obj.pack()
        if len(obj_data) != obj.header.base.object_size:
            err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
            raise ValueError(err_msg)
'''), (W, '''        self._buffer.extend(obj_data)
''', '''        self._buffer += obj_data
''')],
"an object whose declared size is wrong",
"write changes the caller's object (and accepts it)", '''
bad = msg(9)
bad.header.base.object_size += 4
try:
    with BlfWriter(Sink()) as w:
        w.write(bad)
except ValueError:
    pass
assert bad.header.base.object_size == 52
''')

P("w10-pack-sets-length", "W10", [("can.py",
'''        # pack data
        data_offset = ObjectHeader.SIZE + self._FORMAT.size
        buffer[data_offset : data_offset + len(self.data)] = self.data
''',
'''        # pack data
        data_offset = ObjectHeader.SIZE + self._FORMAT.size
        self.valid_data_bytes = min(self.valid_data_bytes, len(self.data))
        buffer[data_offset : data_offset + len(self.data)] = self.data
'''), ("can.py", '''        # get data
        data_offset = ObjectHeader.SIZE + cls._FORMAT.size
        data_length = (ext''', '''        # get the data
        data_offset = ObjectHeader.SIZE + cls._FORMAT.size
        data_length = (ext''')],
"a CAN FD 64 message whose valid byte count exceeds the stored data (a remote frame)",
"encoding the object changes one of its fields, encoding again gives other bytes", '''
o = CanFdMessage64.unpack(raw_obj(101, struct.pack("<BBBBIIIIIIIHBBI", 1, 8, 8, 0, 5, 0, 16, 0, 0, 0, 0, 0, 0, 0, 0)))
first = o.pack()
assert o.valid_data_bytes == 8
assert o.pack() == first
''')

# ---------------------------------------------------------------- reader
P("r01-tail-below-signature", "R01", [(R,
'''            if len(signature) != OBJ_SIGNATURE_SIZE:
                self._incomplete_data = signature
                break
''',
'''            if len(signature) != OBJ_SIGNATURE_SIZE:
                # only padding is left
                break
''')],
"a container ending with the first one to three bytes of the next object",
"that object is lost", '''
o = [msg(i) for i in range(3)]
stream = b"".join(x.pack() for x in o)
for cut in range(1, len(stream)):
    assert read(head() + container(stream[:cut]) + container(stream[cut:])) == o, cut
''')

P("r01-tail-below-header", "R01", [(R,
'''                self._incomplete_data = header_base_data
                break
''',
'''                self._incomplete_data = signature
                break
''')],
"a container ending inside the 16-byte base header of an object",
"the bytes behind the signature are lost and the object with them", '''
o = [msg(i) for i in range(3)]
stream = b"".join(x.pack() for x in o)
for cut in range(1, len(stream)):
    assert read(head() + container(stream[:cut]) + container(stream[cut:])) == o, cut
''')

P("r01-method-from-first-container", "R01", [(R,
'''                    if self.file_statistics.compression_level > 0
''',
'''                    if self.file_statistics.compression_level > 0
                    and not self._stored
'''), (R, '''        self._incomplete_data: bytes = b""
''', '''        self._incomplete_data: bytes = b""
        self._stored = False
'''), (R, '''                # prepend incomplete data of previous container
''', '''                self._stored = uncompressed is container.data

                # prepend incomplete data of the previous container
''')],
"a file marked compressed with a stored container before a zlib one",
"the zlib container is parsed as if it were stored", '''
o = [msg(i) for i in range(3)]
b = [x.pack() for x in o]
assert read(head(6) + container(b[0], 2) + container(b[1], 0) + container(b[2], 2)) == o
''')

P("r01-carry-limit", "R01", [(R,
'''                uncompressed = self._incomplete_data + uncompressed
''',
'''                # no object header is larger than 64 KiB
                uncompressed = self._incomplete_data[-(1 << 16) :] + uncompressed
''')],
"an object of which more than 64 KiB lie in earlier containers",
"the beginning of the carried data is dropped and the object lost", '''
o = [envdata(pseudo(200_000)), msg(5)]
out = session(o, compression_level=0, buffer_size=50_000)
assert read(out) == o
''')

P("r02-step-over-four", "R02", [(R,
'''                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
''',
'''                # no object can start in front of an "L"
                skip = signature.find(OBJ_SIGNATURE[:1])
                if skip > 0:
                    stream.seek(skip - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
''')],
"filling that has an 'L' right before (or at the place of) a partial signature, e.g. 'LLOBJ'",
"the object behind such a filling is skipped", '''
o = msg(1)
for fill in (b"L", b"LL", b"LO", b"LOB", b"xL", b"LxL", b"\\0", b"\\0L\\0"):
    assert read(head() + container(fill + o.pack())) == [o], fill
''')

P("r02-padding-limit", "R02", [(R,
'''            if signature != OBJ_SIGNATURE:
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
''',
'''            if signature != OBJ_SIGNATURE:
                padding += 1
                if padding > 512:
                    break
                # skip padding byte and try again
                stream.seek(1 - OBJ_SIGNATURE_SIZE, os.SEEK_CUR)
                continue
            padding = 0
'''), (R, '''        while True:
            # find start of next object (search for b"LOBJ")
''', '''        padding = 0
        while True:
            # find the start of the next object (search for b"LOBJ")
''')],
"more than 512 filling bytes in a row",
"everything behind a long filling is ignored", '''
o = msg(1)
for n in (7, 100, 511, 513, 5000):
    assert read(head() + container(o.pack()) + bytes(n) + container(o.pack())) == [o, o], n
''')

P("r03-eof-error", "R03", [(R,
'''            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
''',
'''            if len(header_base_data) < ObjectHeaderBase.SIZE:
                if stream is self._file and not self._incomplete_data:
                    raise EOFError("File ends within an object header")
                self._incomplete_data = header_base_data
                break
''')] + [(R, '''            # read object data
''', '''            # read the object data
''')],
"a file cut 4 to 15 bytes behind the start of a container",
"reading raises instead of ending", '''
out = session([msg(i) for i in range(5)], compression_level=0, buffer_size=100)
for cut in range(144, len(out)):
    read(out[:cut])
''')
PLANTS[-1]["edits"] = [(R,
'''            if len(header_base_data) < ObjectHeaderBase.SIZE:
                self._incomplete_data = header_base_data
                break
            else:
''',
'''            if len(header_base_data) < ObjectHeaderBase.SIZE:
                if stream is self._file and not self._incomplete_data:
                    raise EOFError("File ends within an object header")
                self._incomplete_data = header_base_data
                break
            elif header_base_data:
''')]

P("r03-tolerates-missing-filling", "R03", [(R,
'''            if len(obj_data) < header_base.object_size:
                self._incomplete_data = obj_data
                break
''',
'''            if len(obj_data) < header_base.object_size:
                if stream is self._file and header_base.object_size - len(obj_data) < 4:
                    # some tools count the padding but do not write it
                    obj_data = obj_data.ljust(header_base.object_size, b"\\x00")
                else:
                    self._incomplete_data = obj_data
                    break
'''), (R,
'''            # find class for given object_type
            obj_class: type[ObjectWithHeader[Any]] = (
                OBJ_MAP.get(header_base.object_type) or NotImplementedObject
            )
''',
'''            # find class for given object_type
            obj_class: type[ObjectWithHeader[Any]]
            obj_class = OBJ_MAP.get(header_base.object_type) or NotImplementedObject
''')],
"a file cut one to three bytes before the end of a container or object at file level",
"objects whose last bytes are missing are delivered with zeros", '''
out = session([comment(40, b"abcdefgh")], compression_level=0)
for cut in range(144, len(out)):
    assert read(out[:cut]) == [], cut
''')

P("r04-short-header", "R04", [(R,
'''        if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
''',
'''        if not obj_data.startswith(FILE_SIGNATURE):
''')],
"a file with the right signature that is shorter than the header",
"opening raises struct.error, which is no ValueError", '''
out = session([])
for n in (4, 50, 143):
    try:
        BlfReader(io.BytesIO(out[:n]))
        raise SystemExit("opened")
    except ValueError:
        pass
''')

P("r04-statistics-size", "R04", [(G,
'''        return cls(
            signature,
            statistics_size,
            api_number,
            AppId''',
'''        return cls(
            signature,
            cls.SIZE,
            api_number,
            AppId''')],
"a header with a statistics size other than 144",
"the size reported is not the one stored", '''
h = bytearray(head())
struct.pack_into("<I", h, 4, 208)
r = BlfReader(io.BytesIO(bytes(h)))
assert r.file_statistics.statistics_size == 208
assert r.file_statistics.pack() == bytes(h)
''')

P("r04-unknown-level-refused", "R04", [(R,
'''        self.file_statistics = FileStatistics.unpack(obj_data)
''',
'''        self.file_statistics = FileStatistics.unpack(obj_data)
        if self.file_statistics.compression_level > 10:
            raise ValueError("Unexpected compression level")
''')] + [(R, '''            err_msg = "Unexpected file format"
''', '''            err_msg = "Unexpected file format or file too short"
''')],
"a header with a compression level above 10",
"a valid file cannot be opened", '''
h = bytearray(head())
for level in range(256):
    h[13] = level
    assert BlfReader(io.BytesIO(bytes(h))).file_statistics.compression_level == level
''')

P("r05-unknown-loses-zeros", "R05", [(G,
'''        header = HeaderWithBase(base)
        return cls(header, buffer)
''',
'''        header = HeaderWithBase(base)
        return cls(header, buffer.rstrip(b"\\x00"))
''')],
"an object of an unsupported type whose last byte is zero",
"the delivered bytes are incomplete", '''
o = raw_obj(29, bytes([1, 2, 3, 0]))
assert read(head() + container(o))[0].pack() == o
''')

P("r05-unknown-repacked", "R05", [(G,
'''    def pack(self) -> bytes:
        return self.buffer
''',
'''    def pack(self) -> bytes:
        return self.header.base.pack() + self.buffer[ObjectHeaderBase.SIZE :]
''')],
"an object of an unknown type code that is written again",
"its type code becomes 0", '''
o = raw_obj(999, bytes(8))
got = read(head() + container(o))[0]
assert read(session([got]))[0].pack() == o
assert got.pack() == o
''')

P("r05-env-data-as-text", "R05", [(R,
'''    ObjType.ENV_DATA: EnvironmentVariable,
''',
'''    ObjType.ENV_DATA: None,
''')],
"an environment variable of the data kind",
"it is delivered undecoded", '''
o = envdata(b"xyz")
assert read(head() + container(o.pack())) == [o]
''')

P("r06-new-generator-per-iterator", "R06", [(R,
'''        return self._generator.__iter__()
''',
'''        if self._generator.gi_frame is None or self._generator.gi_frame.f_lasti < 0:
            return self._generator
        # continue behind what has been read
        return self._generate_objects(self._file)
''')],
"asking for an iterator after the first object has been fetched",
"the rest of the current container is skipped", '''
out = session([msg(i) for i in range(6)])
r = BlfReader(io.BytesIO(out))
got = [r.read_object()]
got += list(r)
assert [o.frame_id for o in got] == list(range(6))
''')

P("r06-iterator-closes-cursor", "R06", [(R,
'''        return self._generator.__iter__()
''',
'''        yield from self._generator
''')],
"leaving a for loop early and asking for further objects",
"the abandoned iterator closes the shared generator, the remaining objects are lost", '''
import gc
out = session([msg(i) for i in range(6)])
r = BlfReader(io.BytesIO(out))
for o in r:
    break
gc.collect()
got = [o.frame_id] + [x.frame_id for x in iter(r.read_object, None)]
assert got == list(range(6)), got
''')

P("r06-lookahead-per-iterator", "R06", [(R,
'''        return self._generator.__iter__()
''',
'''        return map(lambda pair: pair[0], zip(self._generator, itertools_count(), strict=False))
'''), (R, '''import logging
import os
''', '''import logging
import os
from itertools import count as itertools_count
''')],
"never", "placeholder", "assert True")
PLANTS.pop()

P("r06-prefetch", "R06", [(R,
'''        return self._generator.__iter__()
''',
'''        ahead = next(self._generator, None)
        while ahead is not None:
            current, ahead = ahead, next(self._generator, None)
            yield current
''')],
"mixing a for loop that is left early with the single-object call",
"each iterator has fetched one object ahead, which nobody gets", '''
out = session([msg(i) for i in range(6)])
r = BlfReader(io.BytesIO(out))
got = []
for o in r:
    got.append(o.frame_id)
    if (x := r.read_object()) is not None:
        got.append(x.frame_id)
assert got == list(range(6)), got
''')

P("r07-truncated-zlib", "R07", [(R,
'''                    zlib.decompress(container.data)
''',
'''                    zlib.decompressobj().decompress(container.data)
''')],
"a container whose zlib stream is cut short (or has a wrong checksum)",
"the damage is not reported", '''
b = b"".join(msg(i).pack() for i in range(50))
z = zlib.compress(b)
z = z[:-10]
c = struct.pack("<4sHHII", b"LOBJ", 32, 1, 32 + len(z), 10) + struct.pack("<IHHQ", 2, 0, 0, len(b)) + z
try:
    read(head(6) + c + bytes(-len(c) % 8))
except Exception:
    sys.exit(0)
sys.exit("not reported")
''')

P("r07-skips-broken-container", "R07", [(R,
'''                container = LogContainer.unpack(obj_data)
                uncompressed = (
                    zlib.decompress(container.data)
                    if self.file_statistics.compression_level > 0
''',
'''                container = LogContainer.unpack(obj_data)
                uncompressed = (
                    self._decompress(container.data)
                    if self.file_statistics.compression_level > 0
'''), (R, '''    def read_object(self)''', '''    def _decompress(self, data: bytes) -> bytes:
        try:
            return zlib.decompress(data)
        except zlib.error:
            LOG.warning("Skipping damaged container")
            return b""

    def read_object(self)''')],
"a container with a damaged zlib stream",
"its objects are dropped without an error", '''
b = msg(1).pack()
z = bytearray(zlib.compress(b))
z[5] ^= 0x55
c = struct.pack("<4sHHII", b"LOBJ", 32, 1, 32 + len(z), 10) + struct.pack("<IHHQ", 2, 0, 0, len(b)) + bytes(z)
try:
    read(head(6) + c + bytes(-len(c) % 8))
except Exception:
    sys.exit(0)
sys.exit("not reported")
''')

P("r07-undecodable-passed-on", "R07", [(R,
'''                yield obj_class.unpack(obj_data)
''',
'''                try:
                    obj = obj_class.unpack(obj_data)
                except UnicodeDecodeError:
                    obj = NotImplementedObject.unpack(obj_data)
                yield obj
''')],
"an object with text that cannot be decoded",
"an undecoded object is delivered instead of an error", '''
o = raw_obj(92, struct.pack("<IIQ", 1, 2, 0) + b"a\\x81")
try:
    read(head() + container(o))
except Exception:
    sys.exit(0)
sys.exit("not reported")
''')

P("r08-class-carry", "R08", [(R,
'''        self._incomplete_data: bytes = b""
''',
'''        BlfReader._carry = [b""]
'''), (R, '''    def __init__(self, file: Union[str, bytes, os.PathLike[Any], BinaryIO]):
''', '''    _carry: list[bytes]

    @property
    def _incomplete_data(self) -> bytes:
        return self._carry[0]

    @_incomplete_data.setter
    def _incomplete_data(self, data: bytes) -> None:
        self._carry[0] = data

    def __init__(self, file: Union[str, bytes, os.PathLike[Any], BinaryIO]):
''')],
"a reader that failed on a damaged container while carrying an incomplete object, and another one that was already open and then reads its first container",
"the carried bytes of one reader end up in the other", '''
o = [msg(i) for i in range(4)]
a = session(o, compression_level=0)
bad = bytearray(container(o[1].pack()[20:], 2))
bad[40] ^= 0x55
cut = head(6) + container(o[0].pack() + o[1].pack()[:20]) + bytes(bad)
ra, rb = BlfReader(io.BytesIO(cut)), BlfReader(io.BytesIO(a))
assert ra.read_object() == o[0]
try:
    ra.read_object()
    raise SystemExit("not reported")
except zlib.error:
    pass
assert list(rb) == o
''')

P("r08-shared-statistics", "R08", [(W,
'''        self._file_statistics = FileStatistics.new()
        self._file_statistics.compression_level = compression_level
''',
'''        if compression_level not in _STATISTICS or not _STATISTICS[compression_level][1].closed:
            _STATISTICS[compression_level] = (FileStatistics.new(), self._file)
        self._file_statistics = _STATISTICS[compression_level][0]
        self._file_statistics.compression_level = compression_level
'''), (W, '''BYTE_ALIGNMENT: Final = 8
''', '''BYTE_ALIGNMENT: Final = 8
_STATISTICS: dict[int, tuple[FileStatistics, BinaryIO]] = {}
''')],
"a second writer with the same level after the first was closed",
"the second file's counters continue those of the first", '''
session([msg(1), msg(2)])
out = session([msg(3)])
assert stats(out).object_count == 1
''')

P("r08-decoder-cache", "R08", [(R,
'''                yield obj_class.unpack(obj_data)
''',
'''                yield _decode(obj_class, obj_data)
'''), (R, '''LOG = logging.getLogger("vblf")
''', '''LOG = logging.getLogger("vblf")


@lru_cache(maxsize=4)
def _decode(obj_class: type[ObjectWithHeader[Any]], obj_data: bytes) -> ObjectWithHeader[Any]:
    return obj_class.unpack(obj_data)
'''), (R, '''from contextlib import AbstractContextManager
''', '''from contextlib import AbstractContextManager
from functools import lru_cache
''')],
"two readers meeting identical object bytes, the user of the first changing the delivered object",
"the change is visible in the other reader's object", '''
out = session([msg(1), msg(2)])
ra, rb = BlfReader(io.BytesIO(out)), BlfReader(io.BytesIO(out))
a = ra.read_object()
a.frame_id = 99
assert rb.read_object().frame_id == 1
''')

P("r09-bytes-as-content", "R09", [(R,
'''        if isinstance(file, (str, bytes, os.PathLike)):
''',
'''        if isinstance(file, (str, os.PathLike)):
''')],
"a file given as byte path",
"the path itself is taken as the file content", '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.blf")
    Path(p).write_bytes(session([msg(1)]))
    assert len(list(BlfReader(os.fsencode(p)))) == 1
''')

P("r09-source-left-open", "R09", [(R,
'''        self._file.close()
''',
'''        if exc_type is None:
            self._file.close()
''')],
"leaving the reader's context because of an exception",
"the source stays open", '''
s = io.BytesIO(session([msg(1)]))
try:
    with BlfReader(s) as r:
        raise KeyError
except KeyError:
    pass
assert s.closed
''')

P("r09-no-truncation", "R09", [(W,
'''            self._file = open(file, "wb")  # noqa: SIM115
''',
'''            mode = "r+b" if os.path.isfile(file) else "wb"
            self._file = open(file, mode)  # noqa: SIM115
''')],
"a path target that already exists with longer content",
"the old content remains behind the new", '''
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "x.blf"
    with BlfWriter(p) as w:
        for i in range(100): w.write(msg(i))
    with BlfWriter(p) as w:
        w.write(msg(1))
    data = p.read_bytes()
    assert len(data) == stats(data).file_size
''')
