----------------------------- MODULE PipeTrace ------------------------------
(***************************************************************************)
(* Conformance of real readers and writers connected by a user to BlfPipes *)
(*   files   [ids |-> identities of the objects, by construction]          *)
(*   ev      [e, a, b, r |-> how the call ended, id, ids, h |-> identities *)
(*           of all objects held, afterwards, bytes]                       *)
(* The identity of an object stands for its class, every field and the     *)
(* bytes it encodes to.  Whatever the values are, they are compared with   *)
(* what the specification says is in the file and in the hand.             *)
(* Two files written with the same settings and the same log must be the   *)
(* same bytes, except for the two recorded times in the header.            *)
(***************************************************************************)
EXTENDS BlfBytes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, l, files, rd, wr, hand, raw
vars == <<ti, l, files, rd, wr, hand, raw>>
Rec == Trace[ti]
E == Rec.ev[l]
P == INSTANCE BlfPipes WITH Readers <- 1..2, Writers <- 1..2, Settings <- 1..9

Times == 41..72     \* of the file header, counted from 1
SameButTimes(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k] = y[k] \/ k \in Times

Init == /\ ti \in 1..Len(Trace) /\ l = 1
        /\ P!PInit([k \in 1..Len(Rec.files) |-> [log |-> Rec.files[k], s |-> 0]])
        /\ raw = [k \in 1..Len(Rec.files) |-> <<>>]

Ok == IF E.r = "ok" THEN {} ELSE {E.e \o " " \o E.r}
HandClauses == IF E.h = hand' THEN {} ELSE {"an object in the hand is not what it was"}
Twins == {k \in 1..Len(files) : files[k].s = wr[E.a].s /\ files[k].log = wr[E.a].log}

Step ==
  CASE E.e = "open" -> P!POpen(E.a, E.b)
    [] E.e = "read" -> P!PRead(E.a) \/ P!PNothing(E.a)
    [] E.e = "edit" -> P!PEdit(E.a, E.id)
    [] E.e = "start" -> P!PStart(E.a, E.b)
    [] E.e = "write" -> P!PWrite(E.a, E.b)
    [] E.e = "copy" -> P!PCopy(E.a, E.b)
    [] E.e = "close" -> P!PClose(E.a)
Clauses ==
  Ok \cup HandClauses \cup
  CASE E.e = "read" -> LET w == IF rd[E.a].p < Len(P!LogOf(E.a)) THEN P!LogOf(E.a)[rd[E.a].p + 1] ELSE 0 IN
                       IF E.id = w THEN {} ELSE IF E.id = 0 THEN {"object missing"} ELSE IF w = 0 THEN {"object invented"} ELSE {"a different object read"}
    [] E.e = "copy" -> IF E.ids = P!Rest(E.a) THEN {} ELSE {"copying did not go through all objects as they are"}
    [] E.e = "close" -> IF \A k \in Twins : SameButTimes(raw[k], E.bytes) THEN {} ELSE {"same settings and objects, another file"}
    [] OTHER -> {}

Next ==
  /\ l <= Len(Rec.ev)
  /\ Step
  /\ LET c == Clauses
         end == l = Len(Rec.ev) \/ c # {} IN
     /\ IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
     /\ end => PrintT("DONE " \o ToJson([ti |-> ti]))
     \* after the first difference nothing more is compared
     /\ l' = IF end THEN Len(Rec.ev) + 1 ELSE l + 1
  /\ raw' = IF E.e = "close" THEN Append(raw, E.bytes) ELSE raw
  /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
