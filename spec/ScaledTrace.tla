---------------------------- MODULE ScaledTrace -----------------------------
(***************************************************************************)
(* Conformance of the real reader on large files: BlfBlocks runs along     *)
(* what the real reader delivered.                                         *)
(*   items, stream   see BlfBlocks                                         *)
(*   runs   [cut |-> bytes of the file that exist,                         *)
(*           ids |-> identities of the objects delivered, end |-> "end",   *)
(*           "err", "hang", "open failed"];  for R10 also                  *)
(*           cons |-> bytes of the source consumed when each object was    *)
(*           delivered, peak |-> most memory used, in KiB                  *)
(* The identity of an object stands for its class, every field and the     *)
(* bytes it encodes to; its reference is the object decoded on its own.    *)
(***************************************************************************)
EXTENDS BlfBytes, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, ri, i, j, avail, pos, bst, k
vars == <<ti, ri, i, j, avail, pos, bst, k>>
Rec == Trace[ti]
FileHeader == 144
Run == Rec.runs[ri]

B == INSTANCE BlfBlocks WITH items <- Rec.items, stream <- Rec.stream, cut <- Run.cut

Init == ti \in 1..Len(Trace) /\ ri \in 1..Len(Rec.runs) /\ k = 0 /\ B!BInit

Verdict(c) == IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, ri |-> ri, l |-> k' + 1, c |-> c]))

\* the d-th object
ObjClauses(d) ==
  IF k + 1 > Len(Run.ids) THEN {IF Run.end = "end" THEN "object missing: reading ended" ELSE Run.end \o " instead of an object"}
  ELSE IF Run.ids[k + 1] = d THEN {} ELSE {"a different object delivered"}
\* R10: no further than the items taken, give or take a buffer; memory for one container and one object
Slack == 1048576
ConsClauses(n) ==
  IF "cons" \notin DOMAIN Run \/ k >= Len(Run.cons) THEN {}
  ELSE IF Run.cons[k + 1] <= (IF n = 0 THEN FileHeader ELSE Rec.items[n].e) + Slack THEN {} ELSE {"reads ahead of what it delivers"}
Largest(q) == LET RECURSIVE M(_, _)
                  M(lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN q[lo].n
                               ELSE LET mid == (lo + hi) \div 2  a == M(lo, mid)  b == M(mid + 1, hi) IN IF a > b THEN a ELSE b
              IN M(1, Len(q))
MemClauses ==
  IF "peak" \notin DOMAIN Run \/ Run.peak <= 8 * (Largest(Rec.items) \div 1024) + (4 * (Rec.biggest \div 1024)) + 3072 THEN {}
  ELSE {"memory grows with the file"}
\* R11: the source failed behind the bytes of the cut
Failing == "fail" \in DOMAIN Run /\ Run.fail
EndClauses(s) ==
  IF Len(Run.ids) > k THEN {"object invented"}
  ELSE IF s = "end" /\ Failing
  THEN IF Run.end = "err" THEN {} ELSE {Run.end \o " instead of the failure of the source"}
  ELSE IF Run.end = s THEN {} ELSE {Run.end \o (IF s = "end" THEN " instead of the end" ELSE " instead of an error")}

\* after the first difference nothing more is compared
Next ==
  /\ bst = "run"
  /\ LET d == B!Delivers
         c == IF d # <<>> THEN ObjClauses(d[1]) \cup ConsClauses(IF B!Fits THEN i - 1 ELSE i) ELSE {}
     IN  IF c # {}
         THEN bst' = "off" /\ k' = k /\ UNCHANGED <<i, j, avail, pos>> /\ Verdict(c)
         ELSE /\ B!BNext
              /\ k' = k + Len(d)
              /\ bst' # "run" => Verdict(EndClauses(bst') \cup MemClauses)
  /\ UNCHANGED <<ti, ri>>
  /\ bst' # "run" => PrintT("DONE " \o ToJson([ti |-> ti, ri |-> ri]))
Spec == Init /\ [][Next]_vars
=============================================================================
