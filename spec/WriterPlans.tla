---------------------------- MODULE WriterPlans -----------------------------
(***************************************************************************)
(* Generates writing sessions: behaviours of BlfLog with the calls that    *)
(* cause them, printed as JSON and performed by the driver.                *)
(*   w kind f    write an object of the given kind of size (relative to    *)
(*               the buffer); the f-th access to the sink fails (0: none)  *)
(*   dup         write the object written last once more                   *)
(*   mut kind    change the object written last                            *)
(*   bad kind    write an object that must be refused                      *)
(*   close f / exit / exc   close, leave the context, leave it by an       *)
(*               exception                                                 *)
(*   late, again  write or close after close                               *)
(*   tick kind   the wall clock moves                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Max, Sizes, Bads, Muts, Ticks, FailAt, Ends, Late, Random

VARIABLES plan, phase, fails, done
pvars == <<plan, phase, fails, done>>
Op(o, k, f) == [op |-> o, kind |-> k, f |-> f]

Init == plan = <<>> /\ phase = "open" /\ fails = 0 /\ done = FALSE
Room == ~done /\ Len(plan) < Max
Do(o) == plan' = Append(plan, o)
Open == Room /\ phase = "open"
Written == \E i \in 1..Len(plan) : plan[i].op = "w"

Write == /\ Open
         /\ \E k \in Sizes, f \in FailAt :
              /\ Do(Op("w", k, f)) /\ fails' = fails + (IF f > 0 THEN 1 ELSE 0) /\ UNCHANGED <<phase, done>>
Dup == Open /\ Muts # {} /\ Written /\ Do(Op("dup", "", 0)) /\ UNCHANGED <<phase, fails, done>>
Mutate == Open /\ Written /\ \E k \in Muts : Do(Op("mut", k, 0)) /\ UNCHANGED <<phase, fails, done>>
Bad == Open /\ \E k \in Bads : Do(Op("bad", k, 0)) /\ UNCHANGED <<phase, fails, done>>
Tick == Open /\ \E k \in Ticks : Do(Op("tick", k, 0)) /\ UNCHANGED <<phase, fails, done>>
\* a close that fails leaves the session open; it is closed again at once
CloseFails == /\ Room /\ phase = "open"
              /\ \E f \in FailAt \ {0} : Do(Op("close", "", f)) /\ fails' = fails + 1
              /\ UNCHANGED <<phase, done>>
Close == /\ ~done /\ phase = "open"
         /\ \E e \in Ends : Do(Op(e, "", 0))
         /\ phase' = "closed" /\ UNCHANGED <<fails, done>>
Afterwards == /\ Late /\ ~done /\ phase = "closed" /\ Len(plan) < Max + 2
              /\ \E o \in {"late", "again"} : Do(Op(o, "", 0))
              /\ UNCHANGED <<phase, fails, done>>
Finish == /\ ~done /\ phase = "closed" /\ (Random => Len(plan) >= Max)
          /\ PrintT("PLAN " \o ToJson(plan))
          /\ done' = TRUE /\ UNCHANGED <<plan, phase, fails>>
Next == \/ Write \/ Dup \/ Mutate \/ Bad \/ Tick \/ CloseFails
        \/ ((Random => Len(plan) >= Max) /\ Close) \/ Afterwards \/ Finish
FewFailures == fails <= 2
=============================================================================
