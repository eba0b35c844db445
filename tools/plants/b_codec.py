PLANTS = []


def P(id, prop, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


G, CAN, LIN, ETH, FR, TP, K = "general.py", "can.py", "lin.py", "ethernet.py", "flexray.py", "tp_diag.py", "constants.py"

P("c01-sqi-unsigned", "C01", [(ETH, '"HHIQQQQQQQhHI"', '"HHIQQQQQQQHHI"')],
"a negative signal quality indicator in an Ethernet statistic",
"it is decoded as a large positive number", '''
b = raw_obj(114, struct.pack("<HHIQQQQQQQhHI", 1, 0, 0, 1, 2, 3, 4, 5, 6, 7, -1, 1, 0))
o = EthernetStatistic.unpack(b)
assert o.sqi == -1
''')

P("c01-signed-time-stamp", "C01", [(G,
'''class ObjectHeader(HeaderWithBase):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHQ")
''', '''class ObjectHeader(HeaderWithBase):
    _FORMAT: ClassVar[struct.Struct] = struct.Struct("IHHq")
''')],
"a time stamp of 2**63 or more",
"it is decoded as a negative number", '''
o = CanMessage.unpack(raw_obj(1, bytes(16), ts=2**63 + 5))
assert o.header.object_time_stamp == 2**63 + 5
''')

P("c02-baudrate-rounded", "C02", [(LIN,
'''                self._V2_SIZE,
                self.exact_header_baudrate,
''', '''                self._V2_SIZE,
                round(self.exact_header_baudrate, 9),
''')],
"a header baud rate with more than nine decimals (or NaN bits)",
"it is changed when encoded", '''
n = LinDatabyteTimestampEvent.SIZE
b = raw_obj(57, bytes(n) + struct.pack("<8sHBBBBBBB3s", *([b""] + [0] * 8 + [b""])) + struct.pack("<I", 1) + struct.pack("<dII", 1e-11, 2, 3))
assert LinMessage2.unpack(b).pack() == b
''')

P("c03-flexray-254", "C03", [(FR,
'''        available_bytes = min(data_count, len(buffer) - data_offset)
''', '''        # a FlexRay frame carries up to 254 bytes
        available_bytes = min(data_count, 254, len(buffer) - data_offset)
''')],
"a FlexRay object with more than 254 payload bytes",
"the rest is cut off and zeroed when encoded", '''
n = 300
f = [0] * 21
f[10] = n
b = raw_obj(66, struct.pack("<HHHHIIHHHHHHIIIIIIHHH26s", *f, b"") + pseudo(n))
o = FlexrayVFrReceiveMsgEx.unpack(b)
assert o.data_bytes == pseudo(n) and o.pack() == b
''')

P("c03-qualifier-length-in-characters", "C03", [(TP,
'''        variant_qualifier_offset = ecu_qualifier_offset + self.ecu_qualifier_length
''', '''        variant_qualifier_offset = ecu_qualifier_offset + len(self.ecu_qualifier)
''')],
"an ECU qualifier with multi-byte characters",
"the variant qualifier is encoded to the wrong place", '''
e, v, s = "\\u00e4\\u20ac".encode(), b"vv", b"ss"
b = raw_obj(119, struct.pack("<IIIIII", 1, 2, 3, len(e), len(v), len(s)) + e + v + s)
assert DiagRequestInterpretation.unpack(b).pack() == b
''')

P("c03-env-data-to-end", "C03", [(G,
'''        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        name = buffer[name_offset : name_offset + name_length].decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        data = buffer[data_offset : data_offset + data_length]

        return cls(
            header,
            name_length,
''', '''        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        name = buffer[name_offset : name_offset + name_length].decode("cp1252")

        # get data
        data_offset = name_offset + name_length
        data = buffer[data_offset:]

        return cls(
            header,
            name_length,
''')],
"an environment variable with filling behind its data",
"the filling is taken as data", '''
b = raw_obj(9, struct.pack("<IIQ", 1, 3, 0) + b"nabc" + bytes(4))
assert EnvironmentVariable.unpack(b).data == b"abc"
''')

P("c03-marker-stripped", "C03", [(G,
'''        group_name = _group_name.decode("cp1252")
''', '''        group_name = _group_name.rstrip(b"\\x00").decode("cp1252")
''')],
"a global marker whose group name is stored with a terminating null byte",
"the terminator is lost, so that the following names move when encoded", '''
b = raw_obj(96, struct.pack("<IIIBBHIIIIQ", 1, 2, 3, 1, 0, 0, 3, 2, 2, 10, 11) + b"ab\\0cdef")
assert GlobalMarker.unpack(b).pack() == b
''')

P("c04-lin2-v2-boundary", "C04", [(LIN,
'''        if header.base.object_size >= cls._V2_SIZE:
''', '''        if header.base.object_size >= cls._V3_SIZE:
''')],
"a LIN message 2 of the middle size",
"its response baud rate is reported as zero", '''
n = LinDatabyteTimestampEvent.SIZE
b = raw_obj(57, bytes(n) + struct.pack("<8sHBBBBBBB3s", *([b""] + [0] * 8 + [b""])) + struct.pack("<I", 19200))
assert LinMessage2.unpack(b).resp_baudrate == 19200
''')

P("c05-bus-event-offset", "C05", [(LIN,
'''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self.lin_bus_event.pack_into(buffer, offset)
        self._FORMAT.pack_into(
            buffer, offset + LinBusEvent.SIZE, self.synch_break_length, self.synch_del_length
        )
''', '''    def pack_into(self, buffer: bytearray, offset: int) -> None:
        self.lin_bus_event.pack_into(buffer, offset)
        self._FORMAT.pack_into(
            buffer, (offset + LinBusEvent.SIZE) & ~7, self.synch_break_length, self.synch_del_length
        )
''')],
"encoding a LIN synch field event at an offset that is not a multiple of 8",
"it overwrites bytes in front of its place", '''
e = LinSynchFieldEvent(LinBusEvent(1, 2, 3, b"ab"), 4, 5)
for off in range(9):
    buf = bytearray(b"\\xaa" * 60)
    e.pack_into(buf, off)
    assert buf == b"\\xaa" * off + struct.pack("<QIH2sQQ", 1, 2, 3, b"ab", 4, 5) + b"\\xaa" * (60 - off - 32), off
''')

P("c05-var-header-into", "C05", [(G,
'''        self.base.pack_into(buffer, offset)
        self._FORMAT.pack_into(
            buffer,
            offset + ObjectHeaderBase.SIZE,
            self.object_flags,
            self.object_static_size,
''', '''        self.base.pack_into(buffer, offset)
        self._FORMAT.pack_into(
            buffer,
            ObjectHeaderBase.SIZE,
            self.object_flags,
            self.object_static_size,
''')],
"encoding a variable header at an offset other than 0",
"its second half goes to the wrong place", '''
h = VarObjectHeader(ObjectHeaderBase(b"LOBJ", 32, 1, 40, ObjType.FUNCTION_BUS), ObjFlags(2), 3, 4, 5)
buf = bytearray(50)
h.pack_into(buf, 7)
assert bytes(buf) == bytes(7) + h.pack() + bytes(11)
''')

P("c06-container-client-index", "C06", [(G,
'''            object_flags=flags,
            client_index=client_index,
''', '''            object_flags=flags,
            client_index=0,
''')],
"a log container constructed with a client index",
"the index is dropped", '''
c = LogContainer.new(b"abc", 5, client_index=7)
assert c.header.client_index == 7
''')

P("c06-valid-bytes-rounded", "C06", [(CAN,
'''            canfd_flags,
            len(data),
            0,
            0,
            data,
            0,
''', '''            canfd_flags,
            min(size for size in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 32, 48, 64) if size >= len(data)),
            0,
            0,
            data,
            0,
''')],
"a CAN FD message built from a number of data bytes that is no CAN FD frame size",
"the valid byte count is not the number of bytes given", '''
for n in range(65):
    m = CanFdMessage.new(ObjFlags(2), 0, 1, 0, 8, 5, 0, 0, CanFdFlags(0), bytes(n))
    assert m.valid_data_bytes == n, n
''')

P("c06-object-version", "C06", [(G,
'''            object_flags,
            0,
            object_version,
            object_time_stamp,
        )
        return header
''', '''            object_flags,
            object_version,
            0,
            object_time_stamp,
        )
        return header
''')],
"an object header constructed with a version other than 0",
"the version goes into the client index", '''
h = ObjectHeader.new(40, ObjType.CAN_MESSAGE, ObjFlags(2), 3, 4)
assert (h.client_index, h.object_version) == (0, 3)
''')

P("c07-driver-error-saturates", "C07", [(CAN,
'''        return self.header.pack() + self._FORMAT.pack(
            self.channel,
            self.tx_errors,
            self.rx_errors,
            self.error_code,
        )
''', '''        return self.header.pack() + self._FORMAT.pack(
            self.channel,
            min(self.tx_errors, 255),
            min(self.rx_errors, 255),
            self.error_code,
        )
''')],
"an error counter above 255",
"it is stored as 255 instead of being refused", '''
o = CanDriverError.unpack(raw_obj(31, struct.pack("<HBBI", 1, 2, 3, 4)))
o.tx_errors = 256
try:
    o.pack()
except Exception:
    sys.exit(0)
sys.exit("stored")
''')

P("c07-client-index-wraps", "C07", [(G,
'''    def pack(self) -> bytes:
        return self.base.pack() + self._FORMAT.pack(
            self.object_flags,
            self.client_index,
''', '''    def pack(self) -> bytes:
        return self.base.pack() + self._FORMAT.pack(
            self.object_flags,
            self.client_index & 0xFFFF,
''')],
"a client index outside 16 bits",
"it wraps around", '''
o = msg(1)
for v in (-1, 65536):
    o.header.client_index = v
    try:
        o.pack()
    except Exception:
        continue
    sys.exit("stored")
''')

P("c07-frame-id-masked", "C07", [(CAN,
'''            self.reserved1,
            self.frame_id,
            self.frame_length,
            self.btr_cfg_arb,
''', '''            self.reserved1,
            self.frame_id & 0xFFFFFFFF,
            self.frame_length,
            self.btr_cfg_arb,
''')],
"a CAN FD error frame with an identifier outside 32 bits",
"it wraps around", '''
b = raw_obj(104, struct.pack("<BBBBHHHBBIIIIIIIHH", *([0] * 18)))
o = CanFdErrorFrame64.unpack(b)
o.frame_id = -1
try:
    o.pack()
except Exception:
    sys.exit(0)
sys.exit("stored")
''')

P("c08-isoweekday", "C08", [(G,
'''            (dt.weekday() + 1) % 7,
''', '''            dt.isoweekday(),
''')],
"a Sunday",
"it is stored as day 7 instead of 0", '''
assert SystemTime.from_datetime(datetime.datetime(2024, 11, 24)).day_of_week == 0
''')

P("c08-truncated", "C08", [(G,
'''            min(999, round(dt.microsecond / 1000.0)),
''', '''            dt.microsecond // 1000,
''')],
"a time more than half a millisecond behind a full one",
"it is rounded down", '''
assert SystemTime.from_datetime(datetime.datetime(2024, 11, 24, 1, 2, 3, 1600)).milliseconds == 2
''')

P("c08-thousand", "C08", [(G,
'''            min(999, round(dt.microsecond / 1000.0)),
''', '''            round(dt.microsecond / 1000.0),
''')],
"a time in the last half millisecond of a second",
"1000 milliseconds are stored", '''
assert SystemTime.from_datetime(datetime.datetime(2024, 11, 24, 1, 2, 3, 999700)).milliseconds == 999
''')

P("c09-level-nearest", "C09", [(K,
'''            return compression_level
''', '''            return max(c for c in Compression if c <= compression_level)
''')],
"a compression level without a name, e.g. 3",
"it is decoded as the next lower named one", '''
h = bytearray(head())
for level in range(256):
    h[13] = level
    s = FileStatistics.unpack(bytes(h))
    assert s.compression_level == level and s.pack() == bytes(h), level
''')

P("c09-unknown-application", "C09", [(K,
'''        except ValueError:
            return AppId.UNKNOWN
''', '''        except ValueError:
            return AppId(application_id % 200)
''')],
"an application id that is not known",
"decoding fails or gives another application", '''
h = bytearray(head())
for a in range(256):
    h[12] = a
    s = FileStatistics.unpack(bytes(h))
    assert s.application_id == (a if a in (1, 2, 3, 4, 5, 6, 7, 200) else 0), a
''')

P("c10-latin1", "C10", [(G,
'''        text = buffer[text_offset : text_offset + text_length].decode("cp1252")
''', '''        text = buffer[text_offset : text_offset + text_length].decode("latin-1")
''')],
"an event comment with a character between 0x80 and 0x9f (euro sign, dashes, quotes)",
"it is decoded as a control character", '''
o = EventComment.unpack(raw_obj(92, struct.pack("<IIQ", 1, 1, 0) + b"\\x80"))
assert o.text == "\\u20ac"
''')

P("c10-replaced", "C10", [(G,
'''            + self.trigger_block_name.encode("cp1252")
''', '''            + self.trigger_block_name.encode("cp1252", errors="replace")
''')],
"a trigger block name with a character outside Windows-1252",
"it is replaced by a question mark", '''
o = TriggerCondition.unpack(raw_obj(129, struct.pack("<III", 1, 1, 0) + b"a"))
o.trigger_block_name = "\\u4e2d"
try:
    o.pack()
except Exception:
    sys.exit(0)
sys.exit("replaced")
''')

P("c10-embedded-null", "C10", [(G,
'''        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        _name = buffer[name_offset : name_offset + name_length]
''', '''        # get name
        name_offset = ObjectHeader.SIZE + cls._FORMAT.size
        _name = buffer[name_offset : name_offset + name_length].partition(b"\\x00")[0]
''')],
"a function bus object whose name contains a null byte",
"the name ends at the null byte", '''
b = raw_obj(124, struct.pack("<IIII", 1, 2, 3, 0) + b"a\\0b")
o = FunctionBus.unpack(b)
assert o.name == "a\\0b" and o.pack() == b
''')

P("c10-qualifier-ignored", "C10", [(TP,
'''        ].decode("utf-8")
        service_qualifier = buffer[
''', '''        ].decode("utf-8-sig")
        service_qualifier = buffer[
''')],
"a variant qualifier starting with U+FEFF",
"the first character is dropped", '''
e, v, s = b"", "\\ufeffv".encode(), b"ss"
b = raw_obj(119, struct.pack("<IIIIII", 1, 2, 3, len(e), len(v), len(s)) + e + v + s)
assert DiagRequestInterpretation.unpack(b).variant_qualifier == "\\ufeffv"
''')

P("c01-bus-load-percent", "C01", [(CAN,
'''        return cls(
            header,
            channel,
            bus_load,
            standard_data_frames,
''', '''        return cls(
            header,
            channel,
            bus_load if bus_load <= 0x7FFF else bus_load - 0x10000,
            standard_data_frames,
''')],
"a driver statistic with a bus load of 0x8000 or more",
"it is decoded as a negative number", '''
o = CanDriverStatistic.unpack(raw_obj(4, struct.pack("<HHIIIIIII", 1, 0x9000, *([0] * 7))))
assert o.bus_load == 0x9000
''')

P("c01-api-number-24-bit", "C01", [(G,
'''            statistics_size,
            api_number,
            AppId.from_int''', '''            statistics_size,
            api_number & 0xFFFFFF,
            AppId.from_int''')],
"a file header whose API number needs more than 24 bits",
"its highest byte is dropped", '''
h = bytearray(head())
struct.pack_into("<I", h, 8, 0x12345678)
assert FileStatistics.unpack(bytes(h)).api_number == 0x12345678
''')

P("c01-ext-offset-in-words", "C01", [(CAN,
'''        data = buffer[data_offset : data_offset + valid_data_bytes]

        # get ext''', '''        data = buffer[data_offset : data_offset + min(valid_data_bytes, 64)]

        # get ext''')],
"a CAN FD error frame with more than 64 valid bytes",
"its data is cut to 64 bytes", '''
b = raw_obj(104, struct.pack("<BBBBHHHBBIIIIIIIHH", 1, 2, 100, *([0] * 15)) + pseudo(100))
assert CanFdErrorFrame64.unpack(b).data == pseudo(100)
''')

P("c02-sqi-clamped", "C02", [(ETH,
'''            self.rcv_no_buffer_hw,
            self.sqi,
''', '''            self.rcv_no_buffer_hw,
            max(self.sqi, -1),
''')],
"a signal quality indicator below -1",
"it is encoded as -1", '''
b = raw_obj(114, struct.pack("<HHIQQQQQQQhHI", 1, 0, 0, 1, 2, 3, 4, 5, 6, 7, -5, 1, 0))
assert EthernetStatistic.unpack(b).pack() == b
''')

P("c04-lin2-v3-written-early", "C04", [(LIN,
'''        if self.header.base.object_size >= self._V3_SIZE:
            self._FORMAT_V3.pack_into(
''', '''        if self.exact_header_baudrate or self.header.base.object_size >= self._V3_SIZE:
            buffer.extend(bytes(max(0, self._V3_SIZE - len(buffer))))
            self._FORMAT_V3.pack_into(
''')],
"a LIN message 2 of a smaller size with a header baud rate set",
"the object is encoded larger than it has room for", '''
n = LinDatabyteTimestampEvent.SIZE
b = raw_obj(57, bytes(n) + struct.pack("<8sHBBBBBBB3s", *([b""] + [0] * 8 + [b""])))
o = LinMessage2.unpack(b)
o.exact_header_baudrate = 19200.5
assert len(o.pack()) == len(b)
''')

P("c04-fd64-section-shift", "C04", [(CAN,
'''            self._FORMAT_EXT.pack_into(
                buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
            )
        return bytes(buffer)


@dataclass
class CanDriverStatistic''', '''            self._FORMAT_EXT.pack_into(
                buffer, len(buffer) - self._FORMAT_EXT.size, self.btr_ext_arb, self.btr_ext_data
            )
        return bytes(buffer)


@dataclass
class CanDriverStatistic''')],
"a CAN FD 64 message with further bytes behind its extended frame data",
"the section is written to the object's end instead of its place", '''
b = raw_obj(101, struct.pack("<BBBBIIIIIIIHBBI", 1, 8, 8, 0, 5, 0, 16, 0, 0, 0, 0, 0, 0, 80, 0) + b"12345678" + struct.pack("<II", 7, 8) + bytes(4))
assert CanFdMessage64.unpack(b).pack() == b
''')

P("c08-year-zero-based", "C08", [(G,
'''            (dt.weekday() + 1) % 7,
''', '''            (dt.day + (dt.month + 1) % 13 * 26 // 10 + dt.year + dt.year // 4 - dt.year // 100 + dt.year // 400 + 6) % 7
            if dt.month > 2
            else (dt.weekday() + 1) % 7
            if dt.year % 400
            else (dt.weekday() + 2) % 7,
''')],
"January or February of a year divisible by 400 (or a formula slip in December)",
"the weekday is wrong", '''
d = datetime.datetime(1990, 1, 1)
while d.year < 2010:
    assert SystemTime.from_datetime(d).day_of_week == (d.weekday() + 1) % 7, d
    d += datetime.timedelta(days=1)
''')

P("c09-trigger-flags-known", "C09", [(K,
'''class TriggerFlag(IntFlag):
''', '''class TriggerFlag(IntFlag, boundary=CONFORM):
'''), (K, '''from enum import IntEnum, IntFlag
''', '''from enum import CONFORM, IntEnum, IntFlag
''')],
"a trigger flag field with bits that have no name",
"unnamed bits are dropped when decoded", '''
b = raw_obj(5, struct.pack("<QQHHI", 1, 2, 3, 0xFFFC, 5))
o = AppTrigger.unpack(b)
assert o.flags == 0xFFFC and o.pack() == b
''')

P("c09-object-flags-strict", "C09", [(K,
'''class ObjFlags(IntFlag):
''', '''class ObjFlags(IntFlag, boundary=STRICT):
'''), (K, '''from enum import IntEnum, IntFlag
''', '''from enum import STRICT, IntEnum, IntFlag
''')],
"object flags with bits that have no name",
"decoding fails", '''
b = raw_obj(1, bytes(16), flags=0x12)
o = CanMessage.unpack(b)
assert o.header.object_flags == 0x12 and o.pack() == b
''')
