---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Conformance of real readers and writers to BlfSessions.  A trace is the *)
(* log of one interleaving:                                                *)
(*   files[k]  what a reader of file k delivers, [ids, fails, open]:       *)
(*             identities in order, whether an error follows, and whether  *)
(*             the file opens at all                                       *)
(*   ev        events in the order of their occurrence                     *)
(*     open i k r    reader i opens file k (r: "ok"/"err"/"hang")          *)
(*     got i id      a request to reader i delivered object id             *)
(*     none i        a request found nothing left                          *)
(*     err i / hang i    a request raised / did not return                 *)
(*     new i r       an iterator was asked for                             *)
(*     leave i r     reader i is closed or abandoned                       *)
(*     held i id now objects delivered earlier, looked at again at the end *)
(*     wopen/write/bad/wleave w r sw s    an operation of writer w: result *)
(*             and sink accesses, next to those (s) of the same operations *)
(*             performed by a writer alone in a process of its own         *)
(* After a deviation the rest of that trace is not judged.                 *)
(* Accesses are <<position, length, identity of the bytes>>; the times     *)
(* recorded in the file header (bytes 40..71) are not part of them.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* files are numbered over all traces, so that their contents are constants
FileNo(t, k) == 16 * t + k
FileOf(f) == Trace[f \div 16].files[f % 16]
CountOf(f) == Len(FileOf(f).ids)
FailsIn(f) == FileOf(f).fails

VARIABLES rd, wr, ti, l
vars == <<rd, wr, ti, l>>
S == INSTANCE BlfSessions WITH Readers <- 1..3, Writers <- 1..3, Count <- CountOf, Fails <- FailsIn
Rec == Trace[ti]
E == Rec.ev[l]

Init == S!SInit /\ ti \in 1..Len(Trace) /\ l = 1

Left(r) == CountOf(rd[r].f) - rd[r].pos
Want(r) == IF Left(r) > 0 THEN "got" ELSE IF FailsIn(rd[r].f) THEN "err" ELSE "none"
AskClauses(e) ==
  LET r == e.i IN
  IF rd[r].st \notin {"open", "end"} THEN {"MACHINERY asked a reader that is " \o rd[r].st}
  ELSE IF e.e = "hang" THEN {"a request did not return"}
  ELSE IF e.e # Want(r)
  THEN {CASE Want(r) = "got" /\ e.e = "none" -> "object missing"
          [] Want(r) = "got" /\ e.e = "err" -> "error instead of an object"
          [] Want(r) = "none" /\ e.e = "got" -> "object after the end"
          [] Want(r) = "none" /\ e.e = "err" -> "error instead of the end"
          [] Want(r) = "err" /\ e.e = "got" -> "object instead of the error"
          [] OTHER -> "the end instead of the error"}
  ELSE IF e.e = "got" /\ e.id # FileOf(rd[r].f).ids[rd[r].pos + 1] THEN {"a different object delivered"}
  ELSE {}
WriterClauses(e) ==
  (IF e.r = e.s.r THEN {} ELSE {e.e \o ": result differs from that of a writer alone"})
  \cup (IF e.sw = e.s.sw THEN {} ELSE {e.e \o ": stored bytes differ from those of a writer alone"})

Clauses(e) ==
  CASE e.e = "open" -> (IF (e.r = "ok") = FileOf(FileNo(ti, e.k)).open THEN {} ELSE {"opening: " \o e.r})
    [] e.e \in {"got", "none", "err", "hang"} -> AskClauses(e)
    [] e.e \in {"new", "leave"} -> (IF e.r = "ok" THEN {} ELSE {e.e \o ": " \o e.r})
    [] e.e = "held" -> (IF e.id = e.now THEN {} ELSE {"a delivered object changed later"})
    [] e.e \in {"wopen", "write", "bad", "wleave"} -> WriterClauses(e)
    [] OTHER -> {"MACHINERY"}

Step(e) ==
  CASE e.e = "open" -> S!OpenReader(e.i, FileNo(ti, e.k))
    [] e.e = "got" -> S!Deliver(e.i)
    [] e.e = "none" -> S!Exhausted(e.i)
    [] e.e = "err" -> S!Fail(e.i)
    [] e.e = "leave" -> S!LeaveReader(e.i)
    [] e.e \in {"new", "held"} -> UNCHANGED <<rd, wr>>
    [] e.e = "wopen" -> S!OpenWriter(e.i)
    [] e.e = "write" -> IF e.r = "ok" THEN S!Accept(e.i) ELSE S!Reject(e.i)
    [] e.e = "bad" -> S!Reject(e.i)
    [] e.e = "wleave" -> S!LeaveWriter(e.i)

Done == PrintT("DONE " \o ToJson([ti |-> ti]))
Next ==
  /\ l <= Len(Rec.ev)
  /\ UNCHANGED ti
  /\ LET c == Clauses(E) IN
     IF c = {} THEN Step(E) /\ l' = l + 1
     ELSE /\ PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
          /\ l' = Len(Rec.ev) + 1 /\ UNCHANGED <<rd, wr>>
  /\ l' > Len(Rec.ev) => Done
Spec == Init /\ [][Next]_vars
View == <<ti, l>>
=============================================================================
