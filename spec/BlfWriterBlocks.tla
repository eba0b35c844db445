-------------------------- MODULE BlfWriterBlocks ---------------------------
(***************************************************************************)
(* The writer at the level of sizes: which objects are taken in, how much  *)
(* is held back, which containers are stored.  BlfWriter explains every    *)
(* byte; MC_Writer shows that it refines this machine, so that what is     *)
(* stated here holds for sessions of any size (WriterScaled checks it on   *)
(* sessions with megabytes and thousands of objects).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT BAlign      \* objects are separated by fewer than BAlign zero bytes
VARIABLES
  olog,   \* objects taken in: [n |-> size, sure |-> write acknowledged]
  pend,   \* bytes taken in and not yet stored, filling included
  cont,   \* stored containers: sizes of their contents
  call,   \* "none", "write", "close"; "closed", "crashed"
  cap     \* buffer size
wbvars == <<olog, pend, cont, call, cap>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Sizes == [k \in 1..Len(olog) |-> olog[k].n]

WBInit == olog = <<>> /\ pend = 0 /\ cont = <<>> /\ call = "none"

\* an object is taken in behind some filling; it stays taken in even if storing fails later
Take(n) ==
  /\ call = "none"
  /\ olog' = Append(olog, [n |-> n, sure |-> FALSE])
  /\ \E f \in 0..(BAlign - 1) : pend' = pend + f + n
  /\ call' = "write"
  /\ UNCHANGED <<cont, cap>>
RefuseObject ==
  /\ call = "none"
  /\ \E f \in 0..(BAlign - 1) : pend' = pend + f
  /\ UNCHANGED <<olog, cont, call, cap>>
StartClose == call = "none" /\ call' = "close" /\ UNCHANGED <<olog, pend, cont, cap>>
\* a full container
StoreFull ==
  /\ call \in {"write", "close"} /\ pend >= cap
  /\ cont' = Append(cont, cap) /\ pend' = pend - cap
  /\ UNCHANGED <<olog, call, cap>>
\* what is left, only when closing
StoreRest ==
  /\ call = "close" /\ 0 < pend /\ pend < cap
  /\ cont' = Append(cont, pend) /\ pend' = 0
  /\ UNCHANGED <<olog, call, cap>>
Done ==
  /\ call = "write" /\ pend < cap
  /\ olog' = [olog EXCEPT ![Len(olog)].sure = TRUE]
  /\ call' = "none"
  /\ UNCHANGED <<pend, cont, cap>>
Closed == call = "close" /\ pend = 0 /\ call' = "closed" /\ UNCHANGED <<olog, pend, cont, cap>>
Failed == call \in {"write", "close"} /\ call' = "none" /\ UNCHANGED <<olog, pend, cont, cap>>
\* a crash may also leave one more complete container behind
Crashed ==
  /\ call \notin {"closed", "crashed"} /\ call' = "crashed"
  /\ UNCHANGED <<olog, pend, cont, cap>>

WBNext == \/ \E n \in 1..64 : Take(n)
          \/ RefuseObject \/ StartClose \/ StoreFull \/ StoreRest \/ Done \/ Closed \/ Failed \/ Crashed
WBSpec == WBInit /\ [][WBNext]_wbvars

(* ---- what follows at this level ---- *)
\* nothing appears or disappears
Conserved == /\ Total(cont) + pend >= Total(Sizes)
             /\ \A k \in 1..Len(cont) : cont[k] <= cap
\* W05 (a refused object or a failed store may leave more than that)
HeldBack == call = "none" /\ (\A k \in 1..Len(olog) : olog[k].sure) => Total(Sizes) - Total(cont) < cap
\* W11: what is kept in memory between calls
Pending == call = "none" /\ (\A k \in 1..Len(olog) : olog[k].sure) => pend < cap + BAlign
\* W01, W07
AllStored == call = "closed" => pend = 0
=============================================================================
