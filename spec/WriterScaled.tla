---------------------------- MODULE WriterScaled ----------------------------
(***************************************************************************)
(* Conformance of the real writer on sessions of any size to               *)
(* BlfWriterBlocks.  What WriterTrace decides byte by byte is decided here *)
(* on extents: the driver only reports which of the encodings handed to    *)
(* the writer it sees at which place of the stored stream, every clause is *)
(* judged here.                                                            *)
(*   buf, lvl, ev.  A call is an event, followed by "data" events if it    *)
(*   stored much; the last event of a call has last = TRUE.                *)
(* every event                                                             *)
(*   cs    containers completed: [gap |-> bytes since the one before, gz   *)
(*         |-> they are zero, sig, decl |-> declared size, m |-> method,   *)
(*         du |-> declared uncompressed size, u |-> real one (-1: content  *)
(*         does not match the method), e |-> offset behind it]             *)
(*   runs  the stream stored, in order: <<"z", 0, n>> zeros, <<"o", id, n>>*)
(*         an object's encoding, <<"x", 0, n>> anything else               *)
(* call:  e, r, flt, closed, bad, id (names the encoding), n (its length), *)
(*        prop, same (object unchanged), again (encodes the same again)    *)
(* last:  tz, tn, tc  the end of the stream: zeros, then the first tn      *)
(*        bytes of one of the encodings tc;  rest: bytes behind the last   *)
(*        container;  moved: stored containers changed;  flen;  hdr: the   *)
(*        file header if it changed;                                       *)
(*        cr: what a reader finds in the first len bytes: [len, ids, k]    *)
(***************************************************************************)
EXTENDS BlfFormat, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, l, log, phase, faulty, refused, hdr, ends, s, call
\* s: where the stream stands: m last object of the log found, sp position, z zeros since,
\*    ok: it is as it should be, oe: [i, e] objects found and where they end
vars == <<ti, l, log, phase, faulty, refused, hdr, ends, s, call>>
Rec == Trace[ti]
H == FileHeaderSize
B == Rec.buf

Init == /\ ti \in 1..Len(Trace)
        /\ l = 1 /\ log = <<>> /\ phase = "new" /\ faulty = FALSE /\ refused = FALSE /\ hdr = <<>> /\ ends = <<>>
        /\ s = [m |-> 0, sp |-> 0, z |-> 0, ok |-> TRUE, oe |-> <<>>] /\ call = [e |-> ""]

(* ------------------------------------------------------------ the log ---- *)
Taken(e) == e.e = "write" /\ ~e.bad /\ e.n > 0 /\ (e.r = "ok" \/ (e.r = "err" /\ e.flt))
LogAfter(e) == IF phase = "open" /\ Taken(e) THEN Append(log, [id |-> e.id, n |-> e.n, sure |-> e.r = "ok"]) ELSE log
Ends(e) == e.e \in {"close", "exit", "exc"}

\* the next object of the log with this encoding, passing over unacknowledged ones only
RECURSIVE NextOf(_, _, _)
NextOf(lg, i, id) ==
  IF i > Len(lg) THEN 0 ELSE IF lg[i].id = id THEN i ELSE IF lg[i].sure THEN 0 ELSE NextOf(lg, i + 1, id)

\* A refused write may leave its filling behind.  If a failed attempt to store containers then
\* moves the place where the next one begins, the next object is filled again.
ZMax == IF faulty
        THEN 8 + 7 * Cardinality({k \in 1..Len(Rec.ev) : Rec.ev[k].e = "write" /\ Rec.ev[k].r # "ok"})
        ELSE 8

\* follow the stream: <<state, clauses>>
RECURSIVE Follow(_, _, _, _)
Follow(a, runs, k, lg) ==
  IF k > Len(runs) \/ ~a.ok THEN a
  ELSE LET r == runs[k] IN
       IF r[1] = "z" THEN Follow([a EXCEPT !.sp = @ + r[3], !.z = @ + r[3], !.ok = (a.z + r[3] < ZMax)], runs, k + 1, lg)
       ELSE LET i == IF r[1] = "o" THEN NextOf(lg, a.m + 1, r[2]) ELSE 0 IN
            IF i = 0 \/ lg[i].n # r[3] THEN [a EXCEPT !.ok = FALSE]
            ELSE Follow([m |-> i, sp |-> a.sp + r[3], z |-> 0, ok |-> TRUE, oe |-> Append(a.oe, <<i, a.sp + r[3]>>)], runs, k + 1, lg)

RECURSIVE SumN(_, _, _)
SumN(lg, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN (IF lg[lo].sure THEN lg[lo].n ELSE 0)
                    ELSE LET mid == (lo + hi) \div 2 IN SumN(lg, lo, mid) + SumN(lg, mid + 1, hi)
Found(a) == {a.oe[k][1] : k \in 1..Len(a.oe)}
Stored(a, lg) == LET RECURSIVE T(_, _)
                     T(lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN lg[a.oe[lo][1]].n
                                  ELSE LET mid == (lo + hi) \div 2 IN T(lo, mid) + T(mid + 1, hi)
                 IN T(1, Len(a.oe))

(* ------------------------------------------------------- every event ----- *)
ContClauses(e, by, e0) ==
  UNION { LET c == e.cs[k] IN
    (IF ~c.sig \/ ~c.gz \/ (c.e - c.decl) % 8 # 0 \/ c.gap >= 8 THEN {"W03 no container at the next multiple of 8"} ELSE {})
    \cup (IF c.m \notin {0, 2} THEN {"W03 compression method"} ELSE {})
    \cup (IF c.u < 0 THEN {"W03 content does not match the compression method and stored size"}
          ELSE IF c.du # c.u THEN {"W03 uncompressed size"} ELSE {})
    \cup (IF c.u > B THEN {"W03 container larger than the buffer"} ELSE {})
    \cup (IF by = "write" /\ c.u # B THEN {"W03 container written by write does not hold the buffer size"} ELSE {})
    : k \in 1..Len(e.cs) }

\* an object does not start on a multiple of 8
Off(a, runs, lg) ==
  LET RECURSIVE O(_, _)
      O(p, k) == IF k > Len(runs) THEN FALSE
                 ELSE (runs[k][1] = "o" /\ p % 8 # 0) \/ O(p + runs[k][3], k + 1)
  IN O(a.sp, 1)

StreamClauses(e, a, b, lg) ==
  (IF a.ok /\ ~b.ok
   THEN {"W03 contents are not the objects in order", "W10 stored content is not the object as it was"}
        \cup (IF refused THEN {"W06 stored content is not that of the accepted objects"} ELSE {})
        \cup (IF faulty THEN {"W09 stored content is not the objects in order"} ELSE {})
   ELSE {})
  \cup (IF B % 8 = 0 /\ b.ok /\ Off(a, e.runs, lg) THEN {"W03 object not on a multiple of 8"} ELSE {})

ResultClauses(e) ==
  CASE e.r = "hang" -> {IF e.e = "write" THEN "W05 write does not return" ELSE "W05 closing does not terminate",
                        "W09 does not return", "W06 does not return", "W07 does not return"}
    [] phase = "closed" /\ e.e = "write" -> (IF e.r = "err" THEN {} ELSE {"W07 write after close accepted"})
    [] phase = "closed" /\ Ends(e) -> (IF e.r = "ok" THEN {} ELSE {"W07 closing again raises"})
    [] e.flt -> (IF e.r = "err" THEN {} ELSE {"W09 storage failure not reported"})
    [] faulty -> {}
    [] e.e = "write" /\ e.bad -> (IF e.r = "err" THEN {} ELSE {"W06 refusal not reported"})
    [] OTHER -> IF e.r = "ok" THEN {} ELSE {"W06 operation failed", "W07 operation failed"}

CallClauses(e) ==
  IF e.e = "data" THEN {}
  ELSE ResultClauses(e)
       \cup (IF e.e = "exc" /\ ~e.prop THEN {"W07 exception did not propagate"} ELSE {})
       \cup (IF e.e = "write" /\ phase = "open"
             THEN (IF e.same THEN {} ELSE {"W10 writing changed the object"})
                  \cup (IF e.bad \/ e.again THEN {} ELSE {"W10 encoding again gives other bytes"})
             ELSE {})

(* ------------------------------------------------- at the end of a call -- *)
ValidHeader(d) == Len(d) = H /\ At(d, 0, FileSignature) /\ LE(d, 4, 4) = H /\ d[13] \in AppIdCodes

TailOf(e, a, lg) == {i \in {NextOf(lg, a.m + 1, e.tc[k]) : k \in 1..Len(e.tc)} : i # 0 /\ e.tn < lg[i].n}
Missing(e, a, lg) ==
  LET t == IF a.ok /\ e.tn > 0 THEN TailOf(e, a, lg) ELSE {} IN
  SumN(lg, a.m + 1, Len(lg)) - (IF \E i \in t : lg[i].sure THEN e.tn ELSE 0)
\* acknowledged objects passed over can not happen: Follow stops there

OpenClauses(e, a, lg, h) ==
  (IF e.moved THEN {"W03 stored containers changed"} ELSE {})
  \cup (IF a.ok /\ (a.z + e.tz >= ZMax \/ (e.tn > 0 /\ TailOf(e, a, lg) = {}))
        THEN {"W03 contents are not the objects in order", "W10 stored content is not the object as it was"} ELSE {})
  \cup (IF ~ValidHeader(h) THEN {"W02 no valid header while open"}
        ELSE IF h[14] # Rec.lvl THEN {"W02 compression level in the header while open"} ELSE {})

CloseClauses(e, a, lg, h) ==
  LET tag == IF faulty THEN "W09 " ELSE "W07 "
      six == IF refused THEN {"W06 file is not that of the session without the refused writes"} ELSE {}
      sure == SumN(lg, a.m + 1, Len(lg)) IN
  (IF sure > 0 THEN {tag \o "accepted object not stored"} \cup six ELSE {})
  \cup (IF e.tn > 0 THEN {tag \o "incomplete object stored"} ELSE {})
  \cup (IF ~call'.closed THEN {"W07 sink not closed"} ELSE {})
  \cup (IF e.rest # 0 THEN {"W03 bytes behind the last container", "W09 file is not a series of containers of the objects"} ELSE {})
  \cup (IF ~a.ok THEN {"W09 file is not a series of containers of the objects"} ELSE {})
  \cup (IF ~ValidHeader(h) THEN {"W02 header", "W07 header not finalised"}
        ELSE (IF LE(h, 32, 4) # Len(a.oe) THEN {"W02 object count", "W09 header does not count the objects stored"} \cup six ELSE {})
             \cup (IF LE(h, 16, 8) # e.flen THEN {"W02 file size", "W07 header not finalised"} ELSE {})
             \cup (IF LE(h, 24, 8) # H + Stored(a, lg) THEN {"W02 uncompressed size"} \cup six ELSE {})
             \cup (IF h[14] # Rec.lvl THEN {"W02 compression level"} ELSE {}))

\* the objects complete in the containers complete in the first n bytes
Recoverable(a, es, n, lg) ==
  LET avail == LET K == {k \in 1..Len(es) : es[k].e <= n} IN IF K = {} THEN 0 ELSE es[CHOOSE k \in K : \A x \in K : x <= k].u
      K == {k \in 1..Len(a.oe) : a.oe[k][2] <= avail}
      cnt == IF K = {} THEN 0 ELSE CHOOSE k \in K : \A x \in K : x <= k
  IN  [k \in 1..cnt |-> lg[a.oe[k][1]].id]
CrashClauses(e, a, es, lg) ==
  UNION { LET c == e.cr[k]
              x == Recoverable(a, es, c.len, lg) IN
          IF c.k # "end" THEN {"W04 reading after a crash: " \o c.k}
          ELSE IF c.ids = x THEN {}
          ELSE IF Len(c.ids) < Len(x) THEN {"W04 complete object not recovered"}
          ELSE IF Len(c.ids) > Len(x) THEN {"W04 object not stored completely delivered"}
          ELSE {"W04 altered object after a crash"} : k \in 1..Len(e.cr) }

LastClauses(e, a, es, lg, h) ==
  IF ~e.last \/ phase = "dead" THEN {}
  ELSE IF phase = "closed" /\ call'.e # "" /\ call'.over
  THEN (IF call'.wrote \/ e.cs # <<>> \/ e.moved THEN {"W07 file changed after close"} ELSE {})
  ELSE IF call'.r = "hang" THEN {}
  ELSE OpenClauses(e, a, lg, h)
       \cup (IF call'.e = "write" /\ call'.r = "ok" /\ Missing(e, a, lg) >= B THEN {"W05 a whole buffer or more is missing"} ELSE {})
       \cup (IF Ends(call') /\ call'.r = "ok" THEN CloseClauses(e, a, lg, h) ELSE {})
       \cup CrashClauses(e, a, es, lg)

RECURSIVE Cum(_, _, _)
Cum(es, cs, k) ==
  IF k > Len(cs) THEN es
  ELSE Cum(Append(es, [e |-> cs[k].e, u |-> (IF es = <<>> THEN 0 ELSE es[Len(es)].u) + (IF cs[k].u < 0 THEN 0 ELSE cs[k].u)]), cs, k + 1)

NextPhase(e) ==
  CASE phase = "new" /\ e.e = "open" -> (IF e.r = "ok" THEN "open" ELSE "dead")
    [] phase = "open" /\ e.last /\ Ends(call') /\ call'.r = "ok" -> "closed"
    [] OTHER -> phase

Next ==
  /\ l <= Len(Rec.ev)
  /\ LET e == Rec.ev[l] IN
     /\ call' = IF e.e = "data" THEN call
                ELSE [e |-> e.e, r |-> e.r, closed |-> e.closed, over |-> phase = "closed", wrote |-> e.wrote]
     /\ log' = IF e.e = "data" THEN log ELSE LogAfter(e)
     /\ faulty' = (faulty \/ (e.e # "data" /\ e.flt))
     /\ refused' = (refused \/ (e.e = "write" /\ e.bad))
     /\ hdr' = IF e.last /\ e.hdr # <<>> THEN e.hdr ELSE hdr
     /\ ends' = Cum(ends, e.cs, 1)
     /\ s' = Follow(s, e.runs, 1, log')
     /\ phase' = NextPhase(e)
     /\ LET c == CallClauses(e)
                 \cup (IF phase \in {"new", "open"} THEN ContClauses(e, call'.e, e) \cup StreamClauses(e, s, s', log') ELSE {})
                 \cup LastClauses(e, s', ends', log', hdr')
        IN IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
  /\ l' = l + 1
  /\ UNCHANGED ti
  /\ l' > Len(Rec.ev) => PrintT("DONE " \o ToJson([ti |-> ti]))
Spec == Init /\ [][Next]_vars
View == <<ti, l>>
=============================================================================
