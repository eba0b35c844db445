---------------------------- MODULE WriterMemory ----------------------------
(***************************************************************************)
(* W11 on long sessions.  In BlfWriterBlocks what is held back (pend) is   *)
(* less than one buffer between calls, whatever has been taken in, and     *)
(* less than a buffer and an object during a call (MC_Writer: Pending);    *)
(* the real writer's memory is compared with that.                         *)
(*   buf, largest  buffer size, size of the largest object (KiB, rounded   *)
(*                 up), ev.  Each event: cnt writes of objects of n bytes, *)
(*   ok |-> how many were accepted, bad |-> they had to be refused,        *)
(*   peak |-> most memory used so far, now |-> memory in use (KiB),        *)
(*   raw |-> compression is off, got |-> KiB the sink received             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, l, taken
vars == <<ti, l, taken>>
Rec == Trace[ti]
Init == ti \in 1..Len(Trace) /\ l = 1 /\ taken = 0
\* some copies while storing, and what any program needs
Bound == 8 * (Rec.buf + Rec.largest) + 8192
Clauses(e) ==
  (IF e.peak <= Bound THEN {} ELSE {"W11 memory grows with the session"})
  \cup (IF e.now <= Bound THEN {} ELSE {"W11 memory is not given back"})
  \cup (IF e.ok = (IF e.bad THEN 0 ELSE e.cnt) THEN {} ELSE {"W11 writing failed"})
  \cup (IF Rec.raw /\ taken' - e.got > Rec.buf + 1 THEN {"W11 more than a buffer is held back"} ELSE {})
Next ==
  /\ l <= Len(Rec.ev)
  /\ LET e == Rec.ev[l] IN
     /\ taken' = taken + (IF e.bad THEN 0 ELSE e.kib)
     /\ LET c == Clauses(e) IN IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
  /\ l' = l + 1 /\ UNCHANGED ti
  /\ l' > Len(Rec.ev) => PrintT("DONE " \o ToJson([ti |-> ti]))
Spec == Init /\ [][Next]_vars
=============================================================================
