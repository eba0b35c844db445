----------------------------- MODULE BlfBlocks ------------------------------
(***************************************************************************)
(* What a reader delivers from a file of any size, block by block.         *)
(* BlfReader explains every byte; here only the extents of objects,        *)
(* fillings and containers appear, so that files with megabytes and        *)
(* thousands of containers can be followed.  MC_Blocks shows that the two  *)
(* agree.                                                                  *)
(*   items   what follows the file header, in order:                       *)
(*           [k |-> "c" container (n: length of its content), "o" object,  *)
(*            "f" filling, "x" container that cannot be decompressed,      *)
(*            "y" object that cannot be decoded;                           *)
(*            e |-> offset behind it in the file, id]                      *)
(*   stream  the contents of all containers joined: [k |-> "o", "f", "y",  *)
(*           n |-> length, id]                                             *)
(*   cut     how many bytes of the file there are                          *)
(* Between two containers that share an object there is only filling.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES items, stream, cut,   \* the file; never changes
          i,      \* next item of the file
          j,      \* next block of the stream
          avail,  \* bytes of the stream in the containers opened so far
          pos,    \* where block j starts
          bst     \* "run", "end", "err"
bvars == <<i, j, avail, pos, bst>>

BInit == i = 1 /\ j = 1 /\ avail = 0 /\ pos = 0 /\ bst = "run"

Fits == j <= Len(stream) /\ pos + stream[j].n <= avail
NextThere == i <= Len(items) /\ items[i].e <= cut

Pass == /\ j' = j + 1 /\ pos' = pos + stream[j].n /\ UNCHANGED <<i, avail>>
Take == /\ i' = i + 1 /\ UNCHANGED <<j, pos>>

\* a block of the stream is complete
FillBlock == bst = "run" /\ Fits /\ stream[j].k = "f" /\ Pass /\ UNCHANGED bst
ObjBlock == bst = "run" /\ Fits /\ stream[j].k = "o" /\ Pass /\ UNCHANGED bst
BadBlock == bst = "run" /\ Fits /\ stream[j].k = "y" /\ Pass /\ bst' = "err"
\* otherwise the file goes on
FillItem == bst = "run" /\ ~Fits /\ NextThere /\ items[i].k = "f" /\ Take /\ UNCHANGED <<avail, bst>>
ObjItem == bst = "run" /\ ~Fits /\ NextThere /\ items[i].k = "o" /\ Take /\ UNCHANGED <<avail, bst>>
BadItem == bst = "run" /\ ~Fits /\ NextThere /\ items[i].k \in {"x", "y"} /\ Take /\ bst' = "err" /\ UNCHANGED avail
Container == bst = "run" /\ ~Fits /\ NextThere /\ items[i].k = "c" /\ Take /\ avail' = avail + items[i].n /\ UNCHANGED bst
BEnd == bst = "run" /\ ~Fits /\ ~NextThere /\ bst' = "end" /\ UNCHANGED <<i, j, avail, pos>>

BNext == FillBlock \/ ObjBlock \/ BadBlock \/ FillItem \/ ObjItem \/ BadItem \/ Container \/ BEnd
\* the object a step delivers
Delivers == IF bst # "run" THEN <<>>
            ELSE IF Fits THEN (IF stream[j].k = "o" THEN <<stream[j].id>> ELSE <<>>)
            ELSE IF NextThere /\ items[i].k = "o" THEN <<items[i].id>> ELSE <<>>
=============================================================================
