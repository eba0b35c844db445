----------------------------- MODULE PipePlans ------------------------------
(***************************************************************************)
(* Explores BlfPipes (MC_Pipes.cfg) and generates its behaviours, printed  *)
(* as JSON and performed by the driver.  Operations are [op, a, b].        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NR, NW, NS, Sources, Max, MaxHand, MaxFiles, MaxLog, Edits, Random, Emit
SrcOne == <<2>>
SrcTwo == <<2, 1>>
SrcMany == <<0, 1, 2, 3, 5, 8>>
VARIABLES files, rd, wr, hand, plan, done, next
P == INSTANCE BlfPipes WITH Readers <- 1..NR, Writers <- 1..NW, Settings <- 1..NS
vars == <<files, rd, wr, hand, plan, done, next>>
SourceFiles == [k \in 1..Len(Sources) |-> [log |-> [i \in 1..Sources[k] |-> 10 * k + i], s |-> 0]]
Init == P!PInit(SourceFiles) /\ plan = <<>> /\ done = FALSE /\ next = 100
Say(o, a, b) == plan' = (IF Emit THEN Append(plan, [op |-> o, a |-> a, b |-> b]) ELSE plan) /\ UNCHANGED done
Same == UNCHANGED next
Steps ==
  \/ \E r \in 1..NR :
       \/ \E f \in 1..Len(files) : (IF rd[r].f = 0 THEN TRUE ELSE rd[r].p = Len(files[rd[r].f].log)) /\ P!POpen(r, f) /\ Say("open", r, f) /\ Same
       \/ Len(hand) < MaxHand /\ P!PRead(r) /\ Say("read", r, 0) /\ Same
       \/ Emit /\ P!PNothing(r) /\ Say("read", r, 0) /\ Same
       \/ rd[r].f # 0 /\ \E w \in 1..NW : Len(P!LogOf(r)) - rd[r].p + Len(wr[w].log) <= MaxLog /\ P!PCopy(r, w) /\ Say("copy", r, w) /\ Same
  \/ \E w \in 1..NW :
       \/ \E s \in 1..NS : P!PStart(w, s) /\ Say("start", w, s) /\ Same
       \/ \E i \in 1..Len(hand) : Len(wr[w].log) < MaxLog /\ P!PWrite(w, i) /\ Say("write", w, i) /\ Same
       \/ Len(files) < MaxFiles /\ P!PClose(w) /\ Say("close", w, 0) /\ Same
  \/ next < 100 + Edits /\ \E i \in 1..Len(hand) : P!PEdit(i, next) /\ next' = next + 1 /\ Say("edit", i, 0)
Finish == /\ Emit /\ ~done /\ (IF Random THEN Len(plan) = Max ELSE \E k \in 1..Len(plan) : plan[k].op = "close")
          /\ PrintT("PLAN " \o ToJson(plan)) /\ done' = TRUE /\ UNCHANGED <<files, rd, wr, hand, plan, next>>
Next == (~done /\ (Emit => Len(plan) < Max) /\ Steps) \/ Finish
Spec == Init /\ [][Next]_vars
FilesStand == P!FilesStand
WritersGrow == P!WritersGrow
NothingInvented == P!NothingInvented(100..(100 + Edits))
=============================================================================
