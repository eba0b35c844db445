---------------------------- MODULE SessionPlans ----------------------------
(***************************************************************************)
(* Explores BlfSessions (MC_Sessions.cfg) and generates interleavings of   *)
(* requests from it, printed as JSON and performed by the driver.          *)
(* Files 1..9 deliver 0, 1, 2, 3, 5, 8, 2, 3, 4 objects; the last three    *)
(* then fail.                                                              *)
(*   [op, r, k, w]: open reader r on file k / read / next on iterator k /  *)
(*   new iterator / for with k deliveries / list / close / drop,           *)
(*   wopen, write, bad, fail, wclose, wdrop                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NR, NW, Max, MaxIter, ReadOps, WriteOps, FileSet, Random, Emit
VARIABLES rd, wr, its, plan, done
CountOf(f) == <<0, 1, 2, 3, 5, 8, 2, 3, 4>>[f]
FailsIn(f) == f >= 7
S == INSTANCE BlfSessions WITH Readers <- 1..NR, Writers <- 1..NW, Count <- CountOf, Fails <- FailsIn
vars == <<rd, wr, its, plan, done>>

Op(o, i, k) == [op |-> o, i |-> i, k |-> k]
Say(o, i, k) == plan' = IF Emit THEN Append(plan, Op(o, i, k)) ELSE plan
Ask(r) == S!Deliver(r) \/ S!Exhausted(r) \/ S!Fail(r)

Init == S!SInit /\ its = [r \in 1..NR |-> 0] /\ plan = <<>> /\ done = FALSE
ReaderOp(r) ==
  \/ \E f \in FileSet : S!OpenReader(r, f) /\ Say("open", r, f) /\ UNCHANGED its
  \/ "read" \in ReadOps /\ Ask(r) /\ Say("read", r, 0) /\ UNCHANGED its
  \/ "next" \in ReadOps /\ Ask(r) /\ \E k \in 1..its[r] : Say("next", r, k) /\ UNCHANGED its
  \/ "new" \in ReadOps /\ rd[r].st \in {"open", "end"} /\ its[r] < MaxIter
       /\ Say("new", r, 0) /\ its' = [its EXCEPT ![r] = @ + 1] /\ UNCHANGED <<rd, wr>>
  \/ "for" \in ReadOps /\ rd[r].st \in {"open", "end"} /\ \E k \in 1..3 :     \* at most k objects
       /\ Say("for", r, k) /\ UNCHANGED its
       /\ LET n == IF rd[r].pos + k <= CountOf(rd[r].f) THEN k ELSE CountOf(rd[r].f) - rd[r].pos IN
          rd' = [rd EXCEPT ![r].pos = @ + n, ![r].st = IF n < k THEN (IF FailsIn(rd[r].f) THEN "failed" ELSE "end") ELSE @]
       /\ UNCHANGED wr
  \/ "list" \in ReadOps /\ rd[r].st \in {"open", "end"}
       /\ Say("list", r, 0) /\ UNCHANGED <<its, wr>>
       /\ rd' = [rd EXCEPT ![r].pos = CountOf(rd[r].f), ![r].st = IF FailsIn(rd[r].f) THEN "failed" ELSE "end"]
  \/ \E o \in {"close", "drop"} \cap ReadOps : S!LeaveReader(r) /\ Say(o, r, 0) /\ UNCHANGED its
WriterOp(w) ==
  /\ UNCHANGED its
  /\ \/ S!OpenWriter(w) /\ Say("wopen", w, 0)
     \/ "write" \in WriteOps /\ \E k \in 1..3 : S!Accept(w) /\ Say("write", w, k)
     \/ \E o \in {"bad", "fail"} \cap WriteOps : S!Reject(w) /\ Say(o, w, 0)
     \/ \E o \in {"wclose", "wdrop"} \cap WriteOps : S!LeaveWriter(w) /\ Say(o, w, 0)
Steps == (\E r \in 1..NR : ReaderOp(r)) \/ (\E w \in 1..NW : WriterOp(w))
Finish == /\ Emit /\ ~done /\ plan # <<>> /\ (Random => Len(plan) = Max)
          /\ PrintT("PLAN " \o ToJson(plan)) /\ done' = TRUE /\ UNCHANGED <<rd, wr, its, plan>>
Next == (~done /\ (Emit => Len(plan) < Max) /\ Steps /\ UNCHANGED done) \/ Finish
Spec == Init /\ [][Next]_vars
Independent == S!Independent
Forever == S!Forever
Bound == \A w \in 1..NW : wr[w].n <= 2
=============================================================================
