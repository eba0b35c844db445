---------------------------- MODULE WriterTrace -----------------------------
(***************************************************************************)
(* Conformance of the real writer to BlfWriter/BlfLog.  A trace is one     *)
(* session: the calls, how each ended, and every access to the sink with   *)
(* its bytes.  The contents of the sink are rebuilt and, after every call, *)
(* measured against the log of objects taken in so far.                    *)
(*                                                                         *)
(* Every clause is tagged with the property it belongs to; a check looks   *)
(* at the clauses of its own property.                                     *)
(*                                                                         *)
(* Trace record: lvl, buf, z (inflate table), ev (events), twin ("" or     *)
(* "exact"/"fill"), tfile, tz.  Events have                                *)
(*   e    "open", "write", "close", "exit", "exc"                          *)
(*   r    "ok", "err", "hang"                                              *)
(*   sw   accesses to the sink: <<position, bytes>>                        *)
(*   flt  an injected storage failure happened during the call             *)
(*   closed  the sink is closed after the call                             *)
(* write: b (the object's encoding before the call; <<>> if none), bad     *)
(*   (must be refused), b2, i1, i2 (its encoding after the call, identity  *)
(*   of its field values before and after)                                 *)
(* close/exit/exc: prop (the exception came out), t0, t1 (clock)           *)
(* any: cr  what a reader finds if the session crashes during the call:    *)
(*   [s |-> access, lo, hi |-> range of bytes of it that arrived,          *)
(*    ids |-> index into the log of each object found, k |-> how it ended] *)
(***************************************************************************)
EXTENDS BlfFormat, BlfCalendar, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ti, l, disk, log, phase, faulty, have
\* phase: "new", "open", "closed", "dead"; have: number of containers before this call
vars == <<ti, l, disk, log, phase, faulty, have>>
Rec == Trace[ti]
H == FileHeaderSize

(* ------------------------------------------------ what is on the disk ---- *)
RECURSIVE Apply(_, _)
ApplyOne(d, pos, b) ==
  IF pos >= Len(d) THEN d \o Zeros(pos - Len(d)) \o b
  ELSE SubSeq(d, 1, pos) \o b \o From(d, pos + Len(b))
Apply(d, sw) == IF sw = <<>> THEN d ELSE Apply(ApplyOne(d, Head(sw)[1], Head(sw)[2]), Tail(sw))

\* content of a container object: <<ok, bytes>>
Inflate(o, z) ==
  IF LE(o, 16, 2) = 0 THEN <<TRUE, From(o, 32)>>
  ELSE LET ix == {i \in 1..Len(z) : z[i].c = From(o, 32)} IN
       IF ix = {} THEN <<FALSE, <<>>>> ELSE LET e == z[CHOOSE i \in ix : TRUE] IN <<e.ok, e.u>>

\* containers from position p on: [cs |-> sequence of [p, e, u], bad |-> clauses, rest |-> bytes behind the last]
RECURSIVE Frames(_, _, _)
Frames(d, p, z) ==
  LET s == p + PadTo(p, 8)
      gap == Slice(d, p, s - p)
      o == Slice(d, s, LE(d, s + 8, 4))
  IN
  IF ~AllZero(gap) THEN [cs |-> <<>>, bad |-> {"filling between containers is not zero"}, rest |-> Len(d) - p]
  ELSE IF s >= Len(d) THEN [cs |-> <<>>, bad |-> {}, rest |-> Len(d) - p]
  ELSE IF Len(d) - s < 32 THEN [cs |-> <<>>, bad |-> {}, rest |-> Len(d) - p]
  ELSE IF ~At(d, s, ObjSignature) \/ LE(d, s + 12, 4) # ContainerCode
  THEN [cs |-> <<>>, bad |-> {"no container at the next multiple of 8"}, rest |-> Len(d) - p]
  ELSE IF LE(d, s + 8, 4) < 32 THEN [cs |-> <<>>, bad |-> {"stored size"}, rest |-> Len(d) - p]
  ELSE IF LE(d, s + 8, 4) > Len(d) - s THEN [cs |-> <<>>, bad |-> {}, rest |-> Len(d) - p]
  ELSE LET u == Inflate(o, z)
           r == Frames(d, s + LE(d, s + 8, 4), z)
       IN [cs |-> << [p |-> s, e |-> s + LE(d, s + 8, 4), u |-> u[2]] >> \o r.cs,
           bad |-> r.bad
             \cup (IF LE(d, s + 16, 2) \notin {0, 2} THEN {"compression method"} ELSE {})
             \cup (IF ~u[1] THEN {"content does not match the compression method and stored size"} ELSE {})
             \cup (IF u[1] /\ LE(d, s + 24, 4) # Len(u[2]) THEN {"uncompressed size"} ELSE {}),
           rest |-> r.rest]
Parse(d, z) ==
  LET f == Frames(d, H, z) IN
  [cs |-> f.cs, bad |-> f.bad, rest |-> f.rest, u |-> Concat([i \in 1..Len(f.cs) |-> f.cs[i].u])]

\* how the stored stream u consists of the objects of the log, from position q, object i on:
\* [full |-> indices completely there, part |-> index of the one cut off at the end (or 0),
\*  at |-> their positions, n |-> bytes of the cut one, ok |-> nothing else is there]
\* A refused write may leave its filling behind.  If a failed attempt to store containers then
\* moves the place where the next one begins, the next object is filled again.
ZMax == IF faulty
        THEN 8 + 7 * Cardinality({k \in 1..Len(Rec.ev) : Rec.ev[k].e = "write" /\ Rec.ev[k].r # "ok"})
        ELSE 8
RECURSIVE ZerosAt(_, _)
ZerosAt(u, q) == IF q >= Len(u) THEN 0 ELSE IF u[q + 1] # 0 THEN 0 ELSE 1 + ZerosAt(u, q + 1)
RECURSIVE Consume(_, _, _, _)
Consume(u, q, lg, i) ==
  LET z == ZerosAt(u, q)
      s == q + z
      rem == Len(u) - s
      stop(ok) == [full |-> <<>>, part |-> 0, at |-> <<>>, n |-> 0, ok |-> ok]
  IN
  IF rem <= 0 THEN stop(z < ZMax)
  ELSE IF z >= ZMax \/ i > Len(lg) THEN stop(FALSE)
  ELSE IF Slice(u, s, Len(lg[i].b)) = lg[i].b
  THEN LET r == Consume(u, s + Len(lg[i].b), lg, i + 1) IN
       [r EXCEPT !.full = <<i>> \o @, !.at = <<s>> \o @]
  ELSE IF rem < Len(lg[i].b) /\ From(u, s) = SubSeq(lg[i].b, 1, rem)
  THEN [full |-> <<>>, part |-> i, at |-> <<s>>, n |-> rem, ok |-> TRUE]
  ELSE IF ~lg[i].sure THEN Consume(u, q, lg, i + 1)
  ELSE stop(FALSE)

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SizeSum(_, _)
SizeSum(lg, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN Len(lg[i].b) + SizeSum(lg, S \ {i})
Sure(lg) == {i \in 1..Len(lg) : lg[i].sure}

(* ------------------------------------------------------- the header ------ *)
HdrLevel(d) == d[14]
ValidHeader(d) ==
  Len(d) >= H /\ At(d, 0, FileSignature) /\ LE(d, 4, 4) = H /\ d[13] \in AppIdCodes
Stamp(d, off) == [k \in 1..8 |-> LE(d, off + 2 * (k - 1), 2)]

(* ---------------------------------------------------- after every call --- *)
\* d: disk, lg: log, pr: its parse, co: its consumption, e: event
OpenClauses(e, d, lg, pr, co) ==
  {"W03 " \o c : c \in pr.bad}
  \cup (IF pr.bad = {} /\ ~co.ok THEN {"W03 contents are not the objects in order"} ELSE {})
  \cup (IF pr.bad = {} /\ (Rec.buf % 8) = 0 /\ \E k \in 1..Len(co.at) : (co.at[k] % 8) # 0
        THEN {"W03 object not on a multiple of 8"} ELSE {})
  \cup (IF \E k \in 1..Len(pr.cs) : Len(pr.cs[k].u) > Rec.buf THEN {"W03 container larger than the buffer"} ELSE {})
  \cup (IF e.e = "write" /\ \E k \in (have + 1)..Len(pr.cs) : Len(pr.cs[k].u) # Rec.buf
        THEN {"W03 container written by write does not hold the buffer size"} ELSE {})
  \cup (IF ~ValidHeader(d) THEN {"W02 no valid header while open"}
        ELSE IF HdrLevel(d) # Rec.lvl THEN {"W02 compression level in the header while open"} ELSE {})

Missing(lg, co) ==
  SizeSum(lg, Sure(lg) \ Range(co.full)) - (IF co.part # 0 /\ co.part \in Sure(lg) THEN co.n ELSE 0)

ClosedClauses(e, d, lg, pr, co) ==
  LET tag == IF faulty THEN "W09 " ELSE "W07 " IN
  (IF ~(Sure(lg) \subseteq Range(co.full)) THEN {tag \o "accepted object not stored"} ELSE {})
  \cup (IF co.part # 0 THEN {tag \o "incomplete object stored"} ELSE {})
  \cup (IF ~e.closed THEN {"W07 sink not closed"} ELSE {})
  \cup (IF pr.bad # {} \/ pr.rest # 0 \/ ~co.ok THEN {"W09 file is not a series of containers of the objects"} ELSE {})
  \cup (IF pr.rest # 0 THEN {"W03 bytes behind the last container"} ELSE {})
  \cup (IF ~ValidHeader(d) THEN {"W02 header", "W07 header not finalised"}
        ELSE (IF LE(d, 32, 4) # Len(co.full) THEN {"W02 object count", "W09 header does not count the objects stored"} ELSE {})
             \cup (IF LE(d, 16, 8) # Len(d) THEN {"W02 file size", "W07 header not finalised"} ELSE {})
             \cup (IF LE(d, 24, 8) # H + SizeSum(lg, Range(co.full)) THEN {"W02 uncompressed size"} ELSE {})
             \cup (IF HdrLevel(d) # Rec.lvl THEN {"W02 compression level"} ELSE {}))

\* W08: times recorded in the header; clocks are <<days since 1970, second of day, microsecond>>
TimeClauses(e, d) ==
  IF ~("clk" \in DOMAIN e) \/ Len(d) < H THEN {}
  ELSE (IF IsStamp(Stamp(d, 40), e.clk[1][1], e.clk[1][2], e.clk[1][3]) THEN {} ELSE {"W08 opening time"})
       \cup (IF IsStamp(Stamp(d, 56), e.clk[2][1], e.clk[2][2], e.clk[2][3]) THEN {} ELSE {"W08 time of the last object"})

(* --------------------------------------------------------- crashes ------- *)
\* disk after the first k accesses of the call
DiskAfter(d, sw, k) == Apply(d, SubSeq(sw, 1, k))
Expect(d, lg, z) == Consume(Parse(d, z).u, 0, lg, 1).full
\* c: one range of crash points
CrashClauses(e, lg, c) ==
  LET d0 == DiskAfter(disk, e.sw, c.s - 1)
      w == e.sw[c.s]
      at(k) == ApplyOne(d0, w[1], SubSeq(w[2], 1, k))
      \* appending only ever makes more available, so the ends of a range decide it
      ks == IF w[1] >= Len(d0) \/ w[1] + Len(w[2]) <= H THEN {c.lo, c.hi} ELSE c.lo..c.hi
  IN UNION { IF Len(at(k)) < H THEN {}
             ELSE IF c.k # "end" THEN {"W04 reading after a crash: " \o c.k}
             ELSE LET x == Expect(at(k), lg, Rec.z) IN
                  IF c.ids = x THEN {}
                  ELSE IF \E i \in 1..Len(c.ids) : c.ids[i] = 0 THEN {"W04 altered or partial object after a crash"}
                  ELSE IF Len(c.ids) < Len(x) THEN {"W04 complete object not recovered"}
                  ELSE {"W04 object not stored completely delivered"} : k \in ks }

(* ----------------------------------------------------------- twins ------- *)
Stripped(d) == IF Len(d) < 72 THEN d ELSE SubSeq(d, 1, 40) \o From(d, 72)    \* without the recorded times
TwinClauses(d, lg, clocked) ==
  LET tag == Rec.tprop IN
  IF Rec.twin = "" THEN {}
  ELSE IF Rec.twin = "exact"
  THEN (IF Stripped(d) = Stripped(Rec.tfile) THEN {} ELSE {tag \o " file differs from that of the reference session"})
  ELSE LET a == Parse(d, Rec.z)
           b == Parse(Rec.tfile, Rec.tz)
           ca == Consume(a.u, 0, lg, 1)
           cb == Consume(b.u, 0, lg, 1)
       IN IF /\ ca.full = cb.full /\ ca.part = cb.part /\ ca.ok = cb.ok
             \* the file header but for the length of the file
             /\ Slice(d, 0, 16) = Slice(Rec.tfile, 0, 16)
             /\ Slice(d, 24, 16) = Slice(Rec.tfile, 24, 16)
             /\ Slice(d, 72, H - 72) = Slice(Rec.tfile, 72, H - 72)
             /\ clocked => Slice(d, 40, 32) = Slice(Rec.tfile, 40, 32)   \* under the same clock: the recorded times
          THEN {} ELSE {tag \o " file differs from that of the session without the refused writes"}

(* ----------------------------------------------------------- events ------ *)
Taken(e) == e.e = "write" /\ ~e.bad /\ e.b # <<>> /\ (e.r = "ok" \/ (e.r = "err" /\ e.flt))
LogAfter(e) == IF phase = "open" /\ Taken(e) THEN Append(log, [b |-> e.b, sure |-> e.r = "ok"]) ELSE log
Ends(e) == e.e \in {"close", "exit", "exc"}

ResultClauses(e) ==
  CASE e.r = "hang" -> {IF e.e = "write" THEN "W05 write does not return" ELSE "W05 closing does not terminate",
                        "W09 does not return", "W06 does not return", "W07 does not return", "W08 does not return", "W01 does not return"}
    [] phase = "closed" /\ e.e = "write" ->
         (IF e.r = "err" THEN {} ELSE {"W07 write after close accepted"})
    [] phase = "closed" /\ Ends(e) -> (IF e.r = "ok" THEN {} ELSE {"W07 closing again raises"})
    [] e.flt -> (IF e.r = "err" THEN {} ELSE {"W09 storage failure not reported"})
    [] faulty -> {}
    [] e.e = "write" /\ e.bad -> (IF e.r = "err" THEN {} ELSE {"W06 refusal not reported"})
    [] OTHER -> IF e.r = "ok" THEN {} ELSE {"W01 operation failed", "W06 operation failed", "W07 operation failed", "W08 operation failed"}

CaptureClauses(e) ==
  IF e.e = "write" /\ phase = "open" /\ "i2" \in DOMAIN e
  THEN (IF e.i1 = e.i2 THEN {} ELSE {"W10 writing changed the object"})
       \cup (IF e.bad \/ e.b = e.b2 THEN {} ELSE {"W10 encoding again gives other bytes"})
  ELSE {}

\* W05: a non-positive buffer size is refused before the target is touched
Unbuffered(e) ==
  (IF e.r = "err" THEN {} ELSE {"W05 non-positive buffer size accepted"})
  \cup (IF e.sw # <<>> \/ e.touched THEN {"W05 target touched before the buffer size is refused"} ELSE {})

Clauses(e, d, lg) ==
  IF Rec.buf < 1 THEN Unbuffered(e) ELSE
  LET pr == Parse(d, Rec.z)
      co == Consume(pr.u, 0, lg, 1)
      over == phase = "closed"
      closes == phase = "open" /\ Ends(e) /\ e.r = "ok"
  IN  ResultClauses(e)
      \cup (IF e.e = "exc" /\ ~e.prop THEN {"W07 exception did not propagate"} ELSE {})
      \cup (IF over /\ e.sw # <<>> THEN {"W07 file changed after close"} ELSE {})
      \cup CaptureClauses(e)
      \cup (IF over \/ e.r = "hang" \/ (phase = "new" /\ e.r # "ok") THEN {} ELSE OpenClauses(e, d, lg, pr, co))
      \cup (IF ~over /\ e.e = "write" /\ e.r = "ok" /\ Missing(lg, co) >= Rec.buf
            THEN {"W05 a whole buffer or more is missing"} ELSE {})
      \cup (IF closes THEN ClosedClauses(e, d, lg, pr, co) \cup TimeClauses(e, d) \cup TwinClauses(d, lg, "clk" \in DOMAIN e) ELSE {})
      \cup (IF "cr" \in DOMAIN e THEN UNION {CrashClauses(e, lg, e.cr[k]) : k \in 1..Len(e.cr)} ELSE {})

Init == /\ ti \in 1..Len(Trace)
        /\ l = 1 /\ disk = <<>> /\ log = <<>> /\ phase = "new" /\ faulty = FALSE /\ have = 0

NextPhase(e) ==
  CASE phase = "new" -> (IF e.r = "ok" THEN "open" ELSE "dead")
    [] phase = "open" /\ Ends(e) /\ e.r = "ok" -> "closed"
    [] OTHER -> phase

Next ==
  /\ l <= Len(Rec.ev)
  /\ LET e == Rec.ev[l] IN
     /\ disk' = Apply(disk, e.sw)
     /\ log' = LogAfter(e)
     /\ LET c == Clauses(e, disk', log') IN
        IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
     /\ phase' = NextPhase(e)
     /\ faulty' = (faulty \/ e.flt)
     /\ have' = Len(Parse(disk', Rec.z).cs)
  /\ l' = l + 1
  /\ UNCHANGED ti
  /\ l' > Len(Rec.ev) => PrintT("DONE " \o ToJson([ti |-> ti]))
Spec == Init /\ [][Next]_vars
View == <<ti, l>>
=============================================================================
