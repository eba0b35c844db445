----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Conformance of the real codec to BlfFormat.  Every line of the trace is *)
(* one call into the implementation with its arguments and its result,     *)
(* recorded through the public API.  Each is judged independently; the     *)
(* verdict is total: the names of the clauses that fail are printed, and   *)
(* every record is consumed.  A record whose input is outside the stated   *)
(* domain (a driver mistake) prints the clause "MACHINERY".                *)
(***************************************************************************)
EXTENDS BlfFormat, BlfCalendar, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
LaneCount == 16

VARIABLES lane, i
vars == <<lane, i>>

Same(a, b) == a.t = b.t /\ a.v = b.v
TailIxs(cls) == (NFixed[cls] + 1)..Len(FieldsOf[cls])
AllIxs(cls) == 1..Len(FieldsOf[cls])

\* compare observed values with expected ones on some fields
ValClauses(cls, vals, exp, ixs) ==
  IF Len(vals) # Len(exp) THEN {"shape"}
  ELSE {"field:" \o FieldsOf[cls][k][1] : k \in {j \in ixs : ~Same(vals[j], exp[j])}}

DecClauses(cls, b, r, vals, ixs) ==
  IF r # "ok" THEN {"decode raised"} ELSE ValClauses(cls, vals, Decode(cls, b), ixs)

BytesClauses(what, r, out, exp) ==
  IF r # "ok" THEN {what \o " raised"}
  ELSE IF Len(out) # Len(exp) THEN {what \o " length"}
  ELSE IF out # exp THEN {what \o " bytes"} ELSE {}

\* C01: decode a well-formed object
OpDec(e) ==
  IF ~WellFormed(e.cls, e.b) THEN {"MACHINERY"}
  ELSE DecClauses(e.cls, e.b, e.r, e.vals, AllIxs(e.cls))

\* C02: decode and encode again
OpRoundTrip(e) ==
  IF ~WellFormed(e.cls, e.b) THEN {"MACHINERY"}
  ELSE BytesClauses("re-encode", e.r, e.out, e.b)

\* C02: encode an object built from field values, decode the result again
OpEnc(e) ==
  IF ~(\A k \in 1..Len(e.vals) : Fits(FieldsOf[e.cls][k], e.vals[k])) THEN {"MACHINERY"}
  ELSE LET exp == Encode(e.cls, e.vals) IN
       IF ~WellFormed(e.cls, exp) THEN {"MACHINERY"}
       ELSE BytesClauses("encode", e.r, e.out, exp)
            \cup (IF e.r = "ok" THEN DecClauses(e.cls, exp, e.r2, e.vals2, AllIxs(e.cls)) ELSE {})

\* C03, C10: the variable-length parts only, then the whole encoding
OpParts(e) ==
  IF ~WellFormed(e.cls, e.b) THEN {"MACHINERY"}
  ELSE DecClauses(e.cls, e.b, e.r, e.vals, TailIxs(e.cls))
       \cup (IF e.r = "ok" THEN BytesClauses("re-encode", e.r2, e.out, e.b) ELSE {})

\* C03: other bytes follow the last part.  e.core is the object without them
OpTrail(e) ==
  IF ~WellFormed(e.cls, e.core) \/ Len(e.b) < Len(e.core) THEN {"MACHINERY"}
  ELSE DecClauses(e.cls, e.core, e.r, e.vals, TailIxs(e.cls))

\* C10: a text that its encoding cannot represent
OpUnencodable(e) ==
  IF \A k \in 1..Len(e.vals) : Fits(FieldsOf[e.cls][k], e.vals[k]) THEN {"MACHINERY"}
  ELSE IF e.r = "ok" THEN {"unencodable text accepted"} ELSE {}

\* C04: encoding with given values of an optional section (present or not)
OpOptional(e) ==
  LET exp == Encode(e.cls, e.vals) IN
  BytesClauses("encode", e.r, e.out, exp)

\* C05: decode at an offset of a larger buffer / encode into a larger buffer
OpAt(e) ==
  LET b == Slice(e.buf, e.off, FixedEnd[e.cls]) IN
  IF Len(b) # FixedEnd[e.cls] THEN {"MACHINERY"}
  ELSE DecClauses(e.cls, b, e.r, e.vals, AllIxs(e.cls))

OpInto(e) ==
  LET enc == FixedEncode(e.cls, e.vals) IN
  IF e.off + Len(enc) > Len(e.before) THEN {"MACHINERY"}
  ELSE BytesClauses("encode into", e.r, e.after, Overlay(e.before, e.off, enc))

\* C05: the same far inside a large buffer.  e.buf, e.before, e.after: its bytes from e.base on;
\* e.moved: places elsewhere in it that changed
OpFar(e) ==
  LET b == Slice(e.buf, e.off - e.base, FixedEnd[e.cls]) IN
  IF e.off < e.base \/ Len(b) # FixedEnd[e.cls] THEN {"MACHINERY"}
  ELSE DecClauses(e.cls, b, e.r, e.vals, AllIxs(e.cls))
OpFarInto(e) ==
  LET enc == FixedEncode(e.cls, e.vals) IN
  IF e.off < e.base \/ e.off - e.base + Len(enc) > Len(e.before) THEN {"MACHINERY"}
  ELSE BytesClauses("encode into", e.r, e.after, Overlay(e.before, e.off - e.base, enc))
       \cup (IF e.moved # <<>> THEN {"bytes elsewhere changed"} ELSE {})

\* C05: the buffer ends before the structure does: refused, and nothing else is touched
OpShort(e) == IF Len(e.buf) - e.off >= FixedEnd[e.cls] THEN {"MACHINERY"}
              ELSE IF e.r = "ok" THEN {"decoded from missing bytes"} ELSE {}
OpOver(e) ==
  IF Len(e.before) - e.off >= FixedEnd[e.cls] THEN {"MACHINERY"}
  ELSE (IF e.r = "ok" THEN {"encoded beyond the end"} ELSE {})
       \cup (IF Len(e.after) # Len(e.before) THEN {"buffer resized"}
             ELSE IF \E k \in 1..Len(e.before) : k <= e.off /\ e.after[k] # e.before[k] THEN {"bytes in front changed"} ELSE {})

\* C06: convenience constructors.  e.args: list of [p |-> path, v |-> value]
NewConst(cls, path, size) ==
  CASE path = "header.base.signature" \/ path = "base.signature" -> VBytes(ObjSignature)
    [] path = "header.base.header_size" \/ path = "base.header_size" -> VNat(32)
    [] path = "header.base.header_version" \/ path = "base.header_version" -> VNat(1)
    [] path = "header.base.object_size" -> VNat(size)
    [] path = "header.base.object_type" -> VNat(CHOOSE c \in CodesFor(cls) : TRUE)
    [] cls = "FileStatistics" /\ path = "signature" -> VBytes(FileSignature)
    [] cls = "FileStatistics" /\ path = "statistics_size" -> VNat(FileHeaderSize)
    [] OTHER -> VZero

\* fields whose initial value the property leaves open
NewFree(cls) ==
  IF cls = "FileStatistics"
  THEN {"api_number", "application_id", "compression_level", "application_major", "application_minor",
        "file_size", "uncompressed_file_size", "application_build"}
       \cup {FieldsOf[cls][k][1] : k \in 12..27}
  ELSE {}

NewExpected(e, k) ==
  LET f == FieldsOf[e.cls][k]
      g == {a \in 1..Len(e.args) : e.args[a].p = f[1]}
      v == IF g = {} THEN NewConst(e.cls, f[1], e.size) ELSE e.args[CHOOSE a \in g : TRUE].v
  IN  IF f[2] = "b" /\ v.t = "b" THEN VBytes(PadRight(v.v, f[4]))
      ELSE IF f[2] \in {"b", "B"} /\ v.t = "i" THEN VBytes(Zeros(f[4])) ELSE v

\* e.size: exact encoded size; e.vals: fields after construction, compared up to zero
\* padding of byte fields; e.back: the object after writing and reading it
OpNew(e) ==
  LET exp == [k \in AllIxs(e.cls) |-> NewExpected(e, k)]
      free == {k \in AllIxs(e.cls) : FieldsOf[e.cls][k][1] \in NewFree(e.cls)}
      ixs == AllIxs(e.cls) \ free
      pad(k, v) == IF FieldsOf[e.cls][k][2] = "b" /\ v.t = "b" THEN VBytes(PadRight(v.v, FieldsOf[e.cls][k][4])) ELSE v
      size == IF e.cls \in StructClasses THEN FixedEnd[e.cls]
              ELSE FixedEnd[e.cls] + (IF TailKind(e.cls) = "rest" THEN e.extra ELSE 0)
  IN  IF e.r # "ok" THEN {"constructor raised"}
      ELSE IF Len(e.vals) # Len(exp) THEN {"shape"}
      ELSE ValClauses(e.cls, [k \in 1..Len(e.vals) |-> pad(k, e.vals[k])], exp, ixs)
           \cup (IF size # e.size /\ e.cls \notin {"ObjectHeader"} THEN {"MACHINERY"} ELSE {})
           \cup (IF e.pr # "ok" THEN {"encode raised"} ELSE IF Len(e.out) # size THEN {"encoded size"} ELSE {})
           \cup (IF e.back.r = "none" THEN {}
                 ELSE IF e.back.r # "ok" THEN {"not accepted by the writer or not read back"}
                 ELSE {c \o " after write and read" : c \in ValClauses(e.cls, e.back.vals, exp, ixs)})

\* C07: one value possibly out of range
OpRange(e) ==
  LET fit == \A k \in 1..Len(e.vals) : Fits(FieldsOf[e.cls][k], e.vals[k]) IN
  IF ~fit THEN (IF e.r = "ok" THEN {"out of range value encoded"} ELSE {})
               \cup (IF e.w = "ok" THEN {"out of range value written"} ELSE {})
  ELSE LET exp == IF e.into THEN FixedEncode(e.cls, e.vals) ELSE Encode(e.cls, e.vals) IN
       BytesClauses("encode of extreme value", e.r, e.out, exp)
       \cup (IF e.w = "none" \/ e.w = "ok" THEN {} ELSE {"extreme value refused by the writer"})

\* C09: open codes.  e.path is the field looked at, e.sym the symbol observed
OpCode(e) ==
  LET k == FieldIx(e.cls, e.path)
      f == FieldsOf[e.cls][k]
      raw == Slice(e.b, f[3], f[4])
      n == LE(raw, 0, Len(raw))
      exp == Symbolic(f, raw)
      name == SymbolName(f[5], n)
  IN  IF e.r # "ok" THEN {"decode raised"}
      ELSE (IF Same(e.val, exp) THEN {} ELSE {"value of " \o e.path})
           \cup (IF f[5] \in {"ObjType", "AppId"} /\ e.sym # f[5] \o "." \o (IF name = "" THEN "UNKNOWN" ELSE name)
                 THEN {"symbol of " \o e.path} ELSE {})
           \cup (IF f[1] = "compression_level" /\ e.cls = "FileStatistics" /\ SymbolName("Compression", n) # ""
                    /\ e.sym # "Compression." \o SymbolName("Compression", n)
                 THEN {"symbol of " \o e.path} ELSE {})
           \cup (IF f[5] \in {"ObjFlags", "TriggerFlag", "CanFdFlags"} \/ f[1] = "compression_level"
                 THEN BytesClauses("re-encode of open code", e.r2, Slice(e.out, f[3], f[4]), raw) ELSE {})

\* C09: which values carry a symbol.  e.n: a value of e.enum; e.sets: the symbols of its bits (flags)
\* or its symbol; nothing more is asked of names the format does not know
BitSet(n, b) == (n \div b) % 2 = 1
OpSymbols(e) ==
  LET t == SymbolTable(e.enum)
      exp == IF e.enum \in FlagEnums
             THEN {t[k][2] : k \in {k \in 1..Len(t) : t[k][1] # 0 /\ BitSet(e.n, t[k][1])}}
             ELSE {t[k][2] : k \in {k \in 1..Len(t) : t[k][1] = e.n}}
      known == {t[k][2] : k \in {k \in 1..Len(t) : e.enum \notin FlagEnums \/ t[k][1] # 0}}
      got == {e.sets[k] : k \in 1..Len(e.sets)}
  IN  IF e.r # "ok" THEN {"symbols of " \o e.enum \o ": " \o e.r}
      ELSE IF got \cap known = exp THEN {} ELSE {"symbols of " \o e.enum}

\* C08: calendar time stamps; dt = <<y, mo, d, h, mi, s, us>>, st = <<y, mo, dow, d, h, mi, s, ms>>
OpFromDt(e) ==
  LET d == e.dt IN
  IF ~(ValidDate(d[1], d[2], d[3]) /\ ValidTime(d[4], d[5], d[6]) /\ d[7] \in 0..999999) THEN {"MACHINERY"}
  ELSE IF e.r # "ok" \/ Len(e.st) # 8 THEN {"conversion raised"}
  ELSE (IF <<e.st[1], e.st[2], e.st[4]>> = <<d[1], d[2], d[3]>> THEN {} ELSE {"date"})
       \cup (IF e.st[3] = Weekday(d[1], d[2], d[3]) THEN {} ELSE {"weekday"})
       \cup (IF <<e.st[5], e.st[6], e.st[7]>> = <<d[4], d[5], d[6]>> THEN {} ELSE {"time of day"})
       \cup (IF NearestMs(d[7], e.st[8]) THEN {} ELSE {"milliseconds"})

OpToDt(e) ==
  LET s == e.st IN
  IF ~(ValidDate(s[1], s[2], s[4]) /\ ValidTime(s[5], s[6], s[7]) /\ s[8] \in 0..999) THEN {"MACHINERY"}
  ELSE IF e.r # "ok" \/ Len(e.dt) # 7 THEN {"conversion raised"}
  ELSE (IF e.dt = <<s[1], s[2], s[4], s[5], s[6], s[7], 1000 * s[8]>> THEN {} ELSE {"instant"})
       \cup (IF s[3] = Weekday(s[1], s[2], s[4]) /\ e.st2 # s THEN {"not the identity"} ELSE {})

\* R04: opening.  e.kind "bytes" (e.b: the first bytes of the source) or "unsupported";
\* e.res: "ok" or the exception; e.vals, e.vals2: statistics after opening and after reading on
OpOpen(e) ==
  IF e.kind = "unsupported" THEN (IF e.res = "TypeError" THEN {} ELSE {"unsupported source: " \o e.res})
  ELSE IF Len(e.b) < FileHeaderSize \/ ~At(e.b, 0, FileSignature)
  THEN (IF e.res = "ValueError" THEN {} ELSE {"not a BLF file: " \o e.res})
  ELSE IF e.res # "ok" THEN {"opening failed: " \o e.res}
  ELSE LET h == SubSeq(e.b, 1, FileHeaderSize)
           exp == Decode("FileStatistics", h) IN
       ValClauses("FileStatistics", e.vals, exp, AllIxs("FileStatistics"))
       \cup {c \o " after reading" : c \in ValClauses("FileStatistics", e.vals2, exp, AllIxs("FileStatistics"))}
       \cup (IF h[13] \in AppIdCodes THEN BytesClauses("header re-encode", e.r2, e.out, h) ELSE {})

\* R09: the same file read from another kind of source.  e.ref: from an in-memory stream;
\* obs: identities of the objects in order, then 0 for the end or -1 for an error
OpSource(e) ==
  LET a == e.ref  b == e.got IN
  IF b.open # a.open THEN {b.kind \o ": opening differs"}
  ELSE (IF b.stats = a.stats THEN {} ELSE {b.kind \o ": header differs"})
       \cup (IF b.obs = a.obs THEN {} ELSE {b.kind \o ": objects differ"})
       \cup (IF b.left = a.left THEN {} ELSE {b.kind \o ": leaving the context differs"})
       \cup (IF b.open # "ok" \/ b.closed THEN {} ELSE {b.kind \o ": source not closed"})
       \cup (IF b.kind = "BytesIO" \/ e.same THEN {} ELSE {b.kind \o ": the source was changed"})

\* R09: the same session written to another kind of target; bytes 40..71 hold the times
OpSink(e) ==
  LET a == e.ref  b == e.got IN
  (IF b.rs = a.rs THEN {} ELSE {b.kind \o ": results differ"})
  \cup (IF Len(b.b) # Len(a.b) THEN {b.kind \o ": length differs"}
        ELSE IF \E k \in 1..Len(b.b) : b.b[k] # a.b[k] /\ ~(k \in 41..72) THEN {b.kind \o ": bytes differ"} ELSE {})

\* W10: encoding does not change the object and gives the same every time
OpPure(e) ==
  (IF \A k \in 2..Len(e.snaps) : e.snaps[k] = e.snaps[1] THEN {} ELSE {"encoding changed the object"})
  \cup (IF \A k \in 2..Len(e.res) : e.res[k] = e.res[1] THEN {} ELSE {"encoding again gives another result"})

\* C13: whatever else happened, the outcome for an input is the one it has on its own
OpSame(e) == IF e.seen = <<e.alone>> THEN {} ELSE {"outcome depends on more than the input"}

\* C12: equality of objects is equality of their values
Truth(e, same) ==
  IF e.r # "ok" THEN {"comparison: " \o e.r}
  ELSE (IF e.eq = same THEN {} ELSE IF same THEN {"equal objects compare unequal"} ELSE {"different objects compare equal"})
       \cup (IF e.ne = ~same THEN {} ELSE {"inequality disagrees"})
       \cup (IF e.rev = same THEN {} ELSE {"comparison is not symmetric"})
SameValues(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
OpEq(e) ==
  IF ~(WellFormed(e.cls, e.a) /\ WellFormed(e.cls, e.b)) THEN {"MACHINERY"}
  ELSE Truth(e, e.a = e.b \/ SameValues(Decode(e.cls, e.a), Decode(e.cls, e.b)))
OpEqValues(e) == Truth(e, SameValues(e.va, e.vb))

Clauses(e) ==
  CASE e.op = "open" -> OpOpen(e)
    [] e.op = "src" -> OpSource(e)      [] e.op = "snk" -> OpSink(e)
    [] e.op = "dec" -> OpDec(e)         [] e.op = "rt" -> OpRoundTrip(e)
    [] e.op = "enc" -> OpEnc(e)         [] e.op = "parts" -> OpParts(e)
    [] e.op = "unenc" -> OpUnencodable(e) [] e.op = "trail" -> OpTrail(e)
    [] e.op = "short" -> OpShort(e)     [] e.op = "over" -> OpOver(e)
    [] e.op = "opt" -> OpOptional(e)    [] e.op = "at" -> OpAt(e)
    [] e.op = "far" -> OpFar(e)         [] e.op = "farinto" -> OpFarInto(e)
    [] e.op = "into" -> OpInto(e)       [] e.op = "new" -> OpNew(e)
    [] e.op = "range" -> OpRange(e)     [] e.op = "code" -> OpCode(e)
    [] e.op = "fromdt" -> OpFromDt(e)   [] e.op = "todt" -> OpToDt(e)
    [] e.op = "pure" -> OpPure(e)       [] e.op = "same" -> OpSame(e)
    [] e.op = "eq" -> OpEq(e)           [] e.op = "eqv" -> OpEqValues(e)
    [] e.op = "sym" -> OpSymbols(e)
    [] e.op = "eqx" -> Truth(e, FALSE)
    [] OTHER -> {"MACHINERY"}

Init == lane \in 1..LaneCount /\ i = lane
Next ==
  /\ i <= N
  /\ LET c == Clauses(Trace[i]) IN
     IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([i |-> i, c |-> c]))
  /\ i' = i + LaneCount
  /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
