---------------------------- MODULE ReaderPlans -----------------------------
(***************************************************************************)
(* Generates reader scenarios: abstract file plans, printed as JSON and    *)
(* realised as BLF bytes by the driver.  A plan is a sequence of           *)
(*   o kind cut m   object appended to the uncompressed stream; unless cut *)
(*                  is "no", the container written so far ends inside the  *)
(*                  object, at the given kind of position, by method m     *)
(*   g kind         bytes that start no object, in the stream              *)
(*   c m            the container ends here (possibly empty)               *)
(*   fo kind        object directly at file level                          *)
(*   fg kind        filler at file level                                   *)
(* Fault plans (R07) additionally contain                                  *)
(*   x kind         a damaged container or object                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Max, ObjKinds, CutKinds, GapKinds, FaultKinds, Methods, Random

Ops ==
  { [op |-> "o", kind |-> k, cut |-> c, m |-> m] : k \in ObjKinds, c \in CutKinds, m \in Methods }
  \cup { [op |-> "g", kind |-> k, cut |-> "no", m |-> "s"] : k \in GapKinds }
  \cup { [op |-> "c", kind |-> "", cut |-> "no", m |-> m] : m \in Methods }
  \cup { [op |-> "fo", kind |-> k, cut |-> "no", m |-> "s"] : k \in ObjKinds }
  \cup { [op |-> "fg", kind |-> k, cut |-> "no", m |-> "s"] : k \in GapKinds }
  \cup { [op |-> "x", kind |-> k, cut |-> "no", m |-> "s"] : k \in FaultKinds }

VARIABLES plan, done
Init == plan = <<>> /\ done = FALSE
Extend == ~done /\ Len(plan) < Max /\ \E o \in Ops : plan' = Append(plan, o) /\ UNCHANGED done
Finish == /\ ~done /\ plan # <<>> /\ (Random => Len(plan) = Max)
          /\ PrintT("PLAN " \o ToJson(plan))
          /\ done' = TRUE /\ UNCHANGED plan
Next == Extend \/ Finish
=============================================================================
