---------------------------- MODULE ObjectPlans -----------------------------
(***************************************************************************)
(* Explores BlfObjects (MC_Objects.cfg) and generates histories of it, to  *)
(* be performed with real objects:  make kind s / mod o / enc o.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Sources, Parts, MaxObj, Fresh, Max, Emit, Random
VARIABLES obj, heap, val, plan, done
O == INSTANCE BlfObjects
vars == <<obj, heap, val, plan, done>>
Say(o, k, n) == plan' = IF Emit THEN Append(plan, [op |-> o, k |-> k, n |-> n]) ELSE plan
Init == O!OInit /\ plan = <<>> /\ done = FALSE
Steps ==
  \/ \E k \in Kinds, s \in Sources : O!Make(k, s) /\ Say("make", k, s)
  \/ \E o \in 1..Len(obj) : (\E p \in 1..Parts : O!Modify(o, p)) /\ Say("mod", "", o)
  \/ \E o \in 1..Len(obj) : O!Encode(o) /\ Emit /\ Say("enc", "", o)
Finish == /\ Emit /\ ~done /\ Len(plan) > 2 /\ (Random => Len(plan) = Max)
          /\ PrintT("PLAN " \o ToJson(plan)) /\ done' = TRUE /\ UNCHANGED <<obj, heap, val, plan>>
Next == (~done /\ (Emit => Len(plan) < Max) /\ Steps /\ UNCHANGED done) \/ Finish
Spec == Init /\ [][Next]_vars
Independent == O!Independent
=============================================================================
