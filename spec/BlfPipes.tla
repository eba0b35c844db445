------------------------------ MODULE BlfPipes ------------------------------
(***************************************************************************)
(* Logs being copied, filtered, merged, split and edited: readers and      *)
(* writers connected by a user who holds objects in his hand.              *)
(*   files  every file there is: [log |-> objects, s |-> the settings it   *)
(*          was written with, 0 if by somebody else]                       *)
(*   rd[r]  [f |-> file, p |-> objects taken]      f = 0: not open         *)
(*   wr[w]  [st, s |-> settings, log |-> objects written so far]           *)
(*   hand   the objects the user holds (values)                            *)
(* A closed file can be read, again and again, as a file like any other.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Readers, Writers, Settings
VARIABLES files, rd, wr, hand
pvars == <<files, rd, wr, hand>>

Idle == [st |-> "none", s |-> 0, log |-> <<>>]
PInit(fs) == /\ files = fs
             /\ rd = [r \in Readers |-> [f |-> 0, p |-> 0]]
             /\ wr = [w \in Writers |-> Idle]
             /\ hand = <<>>
LogOf(r) == files[rd[r].f].log
Rest(r) == SubSeq(LogOf(r), rd[r].p + 1, Len(LogOf(r)))

\* a reader is opened on a file (again)
POpen(r, f) == /\ f \in 1..Len(files) /\ rd' = [rd EXCEPT ![r] = [f |-> f, p |-> 0]]
               /\ UNCHANGED <<files, wr, hand>>
\* the next object is taken into the hand
PRead(r) == /\ rd[r].f # 0 /\ rd[r].p < Len(LogOf(r))
            /\ hand' = Append(hand, LogOf(r)[rd[r].p + 1])
            /\ rd' = [rd EXCEPT ![r].p = @ + 1] /\ UNCHANGED <<files, wr>>
PNothing(r) == rd[r].f # 0 /\ rd[r].p = Len(LogOf(r)) /\ UNCHANGED pvars
\* the user changes an object he holds
PEdit(i, v) == i \in 1..Len(hand) /\ hand' = [hand EXCEPT ![i] = v] /\ UNCHANGED <<files, rd, wr>>
PStart(w, s) == /\ wr[w].st = "none" /\ wr' = [wr EXCEPT ![w] = [st |-> "open", s |-> s, log |-> <<>>]]
                /\ UNCHANGED <<files, rd, hand>>
\* an object in the hand is written, as it is now
PWrite(w, i) == /\ wr[w].st = "open" /\ i \in 1..Len(hand)
                /\ wr' = [wr EXCEPT ![w].log = Append(@, hand[i])] /\ UNCHANGED <<files, rd, hand>>
\* all that is left is copied
PCopy(r, w) == /\ rd[r].f # 0 /\ wr[w].st = "open"
               /\ wr' = [wr EXCEPT ![w].log = @ \o Rest(r)]
               /\ rd' = [rd EXCEPT ![r].p = Len(LogOf(r))] /\ UNCHANGED <<files, hand>>
PClose(w) == /\ wr[w].st = "open"
             /\ files' = Append(files, [log |-> wr[w].log, s |-> wr[w].s])
             /\ wr' = [wr EXCEPT ![w] = Idle] /\ UNCHANGED <<rd, hand>>

PNext(Val) == \/ \E r \in Readers : (\E f \in 1..Len(files) : POpen(r, f)) \/ PRead(r) \/ PNothing(r) \/ \E w \in Writers : PCopy(r, w)
              \/ \E w \in Writers : (\E s \in Settings : PStart(w, s)) \/ (\E i \in 1..Len(hand) : PWrite(w, i)) \/ PClose(w)
              \/ \E i \in 1..Len(hand) : \E v \in Val : PEdit(i, v)

(* Consequences *)
\* what is in a file stays in it, whatever is done with what was read from it
FilesStand == [][ /\ Len(files') >= Len(files)
                  /\ \A k \in 1..Len(files) : files'[k] = files[k] ]_pvars
\* values come out of files or out of the user's edits, from nowhere else
Values(q) == {q[k] : k \in 1..Len(q)}
NothingInvented(Val) == \A k \in 1..Len(files) : files[k].s # 0 => Values(files[k].log) \subseteq UNION {Values(files[j].log) : j \in 1..(k - 1)} \cup Val
\* what a writer has is only ever added to at its end
WritersGrow == [][\A w \in Writers : wr[w].st = "open" /\ wr'[w].st = "open" =>
                     /\ Len(wr'[w].log) >= Len(wr[w].log) /\ SubSeq(wr'[w].log, 1, Len(wr[w].log)) = wr[w].log ]_pvars
=============================================================================
