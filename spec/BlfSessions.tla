---------------------------- MODULE BlfSessions -----------------------------
(***************************************************************************)
(* Readers and writers as their users see them, any number at a time.      *)
(*   rd[r] = [f |-> file, pos |-> objects delivered so far, st]            *)
(*   wr[w] = [n |-> objects accepted so far, st]                           *)
(* st: "none" (not opened), "open", "end" (readers: nothing left), "failed",*)
(* "gone" (closed or abandoned).  A reader has one cursor, whatever the    *)
(* way of asking (single-object call, any of its iterators, a loop).       *)
(* Every action changes exactly one of them: there is nothing shared.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Writers,
  Count(_),     \* number of objects a file delivers
  Fails(_)      \* does reading the file end with an error?
VARIABLES rd, wr
svars == <<rd, wr>>

SInit == /\ rd = [r \in Readers |-> [f |-> 0, pos |-> 0, st |-> "none"]]
         /\ wr = [w \in Writers |-> [n |-> 0, st |-> "none"]]

OpenReader(r, f) == /\ rd[r].st = "none"
                    /\ rd' = [rd EXCEPT ![r] = [f |-> f, pos |-> 0, st |-> "open"]] /\ UNCHANGED wr
\* one object is asked for and delivered
Deliver(r) == /\ rd[r].st = "open" /\ rd[r].pos < Count(rd[r].f)
              /\ rd' = [rd EXCEPT ![r].pos = @ + 1] /\ UNCHANGED wr
\* one object is asked for and there is none, now and forever
Exhausted(r) == /\ rd[r].st \in {"open", "end"} /\ rd[r].pos = Count(rd[r].f) /\ ~Fails(rd[r].f)
                /\ rd' = [rd EXCEPT ![r].st = "end"] /\ UNCHANGED wr
\* reading reports the damage of the file
Fail(r) == /\ rd[r].st = "open" /\ rd[r].pos = Count(rd[r].f) /\ Fails(rd[r].f)
           /\ rd' = [rd EXCEPT ![r].st = "failed"] /\ UNCHANGED wr
LeaveReader(r) == /\ rd[r].st \in {"open", "end", "failed"}
                  /\ rd' = [rd EXCEPT ![r].st = "gone"] /\ UNCHANGED wr

OpenWriter(w) == wr[w].st = "none" /\ wr' = [wr EXCEPT ![w].st = "open"] /\ UNCHANGED rd
Accept(w) == wr[w].st = "open" /\ wr' = [wr EXCEPT ![w].n = @ + 1] /\ UNCHANGED rd
Reject(w) == wr[w].st = "open" /\ UNCHANGED svars
LeaveWriter(w) == wr[w].st = "open" /\ wr' = [wr EXCEPT ![w].st = "gone"] /\ UNCHANGED rd

SNext == \/ \E r \in Readers : (\E f \in 1..9 : OpenReader(r, f)) \/ Deliver(r) \/ Exhausted(r) \/ Fail(r) \/ LeaveReader(r)
         \/ \E w \in Writers : OpenWriter(w) \/ Accept(w) \/ Reject(w) \/ LeaveWriter(w)

(* Independence: a step belongs to one participant, the others are as they were. *)
Independent == [][ Cardinality({r \in Readers : rd'[r] # rd[r]}) + Cardinality({w \in Writers : wr'[w] # wr[w]}) <= 1 ]_svars
Forever == [][\A r \in Readers : rd[r].st = "end" => rd'[r].st \in {"end", "gone"} /\ rd'[r].pos = rd[r].pos]_svars
=============================================================================
