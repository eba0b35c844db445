--------------------------- MODULE MC_WriterSums ----------------------------
(***************************************************************************)
(* BlfWriterBlocks, with its refusals and failures counted, refines        *)
(* BlfWriterSums, whose invariants Apalache shows to be inductive.         *)
(***************************************************************************)
EXTENDS BlfWriterBlocks
CONSTANTS MObjects, MSizes, MCaps, MFailures
VARIABLES tidy, refusals, failures

S == INSTANCE BlfWriterSums WITH
       SAlign <- BAlign, taken <- Total(Sizes), stored <- Total(cont), held <- pend,
       fill <- Total(cont) + pend - Total(Sizes), size <- cap, clean <- tidy, refused <- refusals, doing <- call

Init == WBInit /\ cap \in MCaps /\ tidy = TRUE /\ refusals = 0 /\ failures = 0
Next ==
  \/ Len(olog) < MObjects /\ (\E n \in MSizes : Take(n)) /\ UNCHANGED <<tidy, refusals, failures>>
  \/ refusals < 2 /\ RefuseObject /\ tidy' = FALSE /\ refusals' = refusals + 1 /\ UNCHANGED failures
  \/ failures < MFailures /\ Failed /\ tidy' = FALSE /\ failures' = failures + 1 /\ UNCHANGED refusals
  \/ (StartClose \/ StoreFull \/ StoreRest \/ Done \/ Closed \/ Crashed) /\ UNCHANGED <<tidy, refusals, failures>>
Spec == Init /\ [][Next]_<<wbvars, tidy, refusals, failures>>
Refines == S!SSpec
SumsHold == S!SInv /\ S!SFollows
=============================================================================
