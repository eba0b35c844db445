---------------------------- MODULE ReaderTrace -----------------------------
(***************************************************************************)
(* Conformance of the real reader to BlfReader.  A trace holds the bytes   *)
(* of a file (or its length and cuts) and what the real reader delivered;  *)
(* the machine runs on the same bytes and every delivery is compared.      *)
(*   file   bytes of the whole file                                        *)
(*   z      inflate table: [c |-> stored bytes, ok, u |-> contents]        *)
(*   objs   [b |-> bytes, id]: reference identity of objects               *)
(*   runs   [n |-> bytes available, obs |-> observed results];             *)
(*          with a failing source (R11) n is what it gave before it failed *)
(*          and [fail, good |-> it recovered, after |-> objects delivered  *)
(*          when asked again]; seq holds all objects of the whole file     *)
(* An observation is [k |-> "obj", id, cls, vals, pk] / "end" / "err" ...  *)
(* mode "id": same object as its bytes decode to on their own              *)
(* mode "full": class, every field, and the bytes it encodes to            *)
(***************************************************************************)
EXTENDS BlfFormat, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES stk, carry, st, out, fk, ti, ri
vars == <<stk, carry, st, out, fk, ti, ri>>
Rec == Trace[ti]
Run == Rec.runs[ri]
Obs == Run.obs

SizeOfB(h) == LE(h, 8, 4)
IsContB(o) == ObjCode(o) = ContainerCode
\* fk = <<trace, compression level of the file>>
Stored(o, k) == k[2] = 0 \/ LE(o, 16, 4) = 0
ZIx(o, k) == {i \in 1..Len(Trace[k[1]].z) : Trace[k[1]].z[i].c = From(o, 32)}
ContentB(o, k) ==
  IF Len(o) < 32 THEN <<FALSE, <<>>>>
  ELSE IF Stored(o, k) THEN <<TRUE, From(o, 32)>>
  ELSE IF ZIx(o, k) = {} THEN <<FALSE, <<>>>>
  ELSE LET z == Trace[k[1]].z[CHOOSE i \in ZIx(o, k) : TRUE] IN <<z.ok, z.u>>
AcceptB(o) == Decodable(ClassOf(ObjCode(o)), o)

R == INSTANCE BlfReader WITH Sig <- ObjSignature, BaseSize <- 16, SizeOf <- SizeOfB, IsContainer <- IsContB,
       Content <- ContentB, Accept <- AcceptB, Fast <- TRUE

Body == SubSeq(Rec.file, FileHeaderSize + 1, Run.n)

Init == /\ ti \in 1..Len(Trace)
        /\ ri \in 1..Len(Rec.runs)
        /\ R!Open(Body)
        /\ fk = <<ti, Rec.file[14]>>

Same(a, b) == a.t = b.t /\ a.v = b.v

ObjClauses(o, ob) ==
  IF ob.k = "end" THEN {"object missing: reading ended"}
  ELSE IF ob.k = "err" THEN {"error instead of an object"}
  ELSE IF ob.k # "obj" THEN {ob.k \o " instead of an object"}
  ELSE IF Rec.mode = "id"
  THEN LET ix == {i \in 1..Len(Rec.objs) : Rec.objs[i].b = o} IN
       IF ix = {} THEN {"MACHINERY unknown object"}
       ELSE IF \E i \in ix : Rec.objs[i].id = ob.id THEN {} ELSE {"a different object delivered"}
  ELSE LET cls == ClassOf(ObjCode(o))
           exp == Decode(cls, o) IN
       IF ob.cls # cls THEN {"class of type code"}
       ELSE IF Len(ob.vals) # Len(exp) THEN {"shape"}
       ELSE {"field:" \o FieldsOf[cls][i][1] : i \in {j \in 1..Len(exp) : ~Same(ob.vals[j], exp[j])}}
            \cup (IF cls = "NotImplementedObject" /\ (ob.pr # "ok" \/ ob.pk # o) THEN {"re-encoded bytes"} ELSE {})
            \cup (IF cls = "NotImplementedObject" /\ ob.wr # "ok" THEN {"not written back identically"} ELSE {})

Failing == "fail" \in DOMAIN Run /\ Run.fail
\* reading may go on where it stopped, if the source has recovered; it must not leave anything out
AfterClauses ==
  IF ~Failing \/ Run.after = <<>> THEN {}
  ELSE IF Run.good /\ Run.after = SubSeq(Rec.seq, Len(out) + 1, Len(out) + Len(Run.after)) THEN {}
  ELSE {"goes on behind a failure of the source"}
EndClauses(s, ob) ==
  AfterClauses \cup
  IF ob.k = "obj" THEN {"object invented"}
  ELSE IF s = "end" /\ Failing
  THEN IF ob.k = "err" THEN {} ELSE {ob.k \o " instead of the failure of the source"}
  ELSE IF s = "end" THEN (IF ob.k = "end" THEN {} ELSE {ob.k \o " instead of the end"})
  ELSE IF ob.k = "err" THEN {} ELSE {ob.k \o " instead of an error"}

\* after an error only the end may be reported
Sane(k) == k <= Len(Obs)

Verdict(c) ==
  IF c = {} THEN TRUE
  ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, ri |-> ri, l |-> Len(out') , c |-> c]))
Done == PrintT("DONE " \o ToJson([ti |-> ti, ri |-> ri]))

MachineryMiss == R!Whole /\ IsContB(R!Obj) /\ Len(R!Obj) >= 32 /\ ~Stored(R!Obj, fk) /\ ZIx(R!Obj, fk) = {}

Next ==
  /\ st = "run"
  /\ R!ReaderNext
  /\ UNCHANGED <<ti, ri>>
  /\ LET c == IF MachineryMiss THEN {"MACHINERY container not in the inflate table"}
              ELSE IF Len(out') > Len(out)
              THEN (IF ~Sane(Len(out')) THEN {"MACHINERY short log"} ELSE ObjClauses(out'[Len(out')], Obs[Len(out')]))
              ELSE IF st' # "run"
              THEN (IF ~Sane(Len(out') + 1) THEN {"MACHINERY short log"} ELSE EndClauses(st', Obs[Len(out') + 1]))
              ELSE {}
     IN  Verdict(c)
  /\ st' # "run" => Done
Spec == Init /\ [][Next]_vars
View == <<ti, ri, Len(out), st, [k \in 1..Len(stk) |-> stk[k].p]>>
=============================================================================
