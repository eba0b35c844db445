------------------------------- MODULE BlfLog -------------------------------
(***************************************************************************)
(* What a BLF file is, seen from outside: a log.                           *)
(*   acc    objects taken in, in order: [b |-> object, sure |-> its write  *)
(*          was acknowledged]                                              *)
(*   dur    how many of them a reader of the file would find now           *)
(*   phase  "open", "closed", "crashed"                                    *)
(* Nothing in here mentions buffers, containers, compression or headers.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Object
VARIABLES acc, dur, phase
lvars == <<acc, dur, phase>>

LInit == acc = <<>> /\ dur = 0 /\ phase = "open"

Taken(o, s) == Append(acc, [b |-> o, sure |-> s])

\* objects taken in reach the file in order; what is there stays there
LProgress == /\ phase = "open"
             /\ dur' \in dur..Len(acc) /\ UNCHANGED <<acc, phase>>
LTake(o) == /\ phase = "open"
            /\ acc' = Taken(o, FALSE) /\ UNCHANGED <<dur, phase>>
\* the write is acknowledged
LAcknowledge == /\ phase = "open" /\ acc # <<>> /\ ~acc[Len(acc)].sure
                /\ acc' = [acc EXCEPT ![Len(acc)].sure = TRUE] /\ UNCHANGED <<dur, phase>>
\* closing is only possible when everything is in the file
LClose == /\ phase = "open" /\ dur = Len(acc)
          /\ phase' = "closed" /\ UNCHANGED <<acc, dur>>
\* a crash while data is being stored: it arrived or it did not
LCrash == /\ phase = "open"
          /\ phase' = "crashed" /\ dur' \in dur..Len(acc) /\ UNCHANGED acc

LNext == \/ LProgress \/ (\E o \in Object : LTake(o)) \/ LAcknowledge \/ LClose \/ LCrash
LSpec == LInit /\ [][LNext]_lvars

\* what a reader finds
Readable == [i \in 1..dur |-> acc[i].b]

(* Consequences *)
Monotone == [][ /\ dur' >= dur
                /\ Len(acc') >= Len(acc)
                /\ \A i \in 1..Len(acc) : acc'[i].b = acc[i].b ]_lvars
Final == [][phase # "open" => UNCHANGED lvars]_lvars
NothingLost == phase = "closed" => dur = Len(acc)
=============================================================================
