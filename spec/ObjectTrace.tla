---------------------------- MODULE ObjectTrace -----------------------------
(***************************************************************************)
(* Conformance of real objects to BlfObjects.  An identity stands for the  *)
(* class, every field value and the encoding of an object.                 *)
(*   ref  ref[k][s]: identity of the first object made this way from this  *)
(*        source, before anything was modified                             *)
(*   ev   make: k, s;  mod: o, ix (the field changed), diff (the fields    *)
(*        whose value is another afterwards), want, got (its new value);   *)
(*        enc: o.   ids: identities of all live objects after the step     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, l, val
vars == <<ti, l, val>>
Rec == Trace[ti]
Init == ti \in 1..Len(Trace) /\ l = 1 /\ val = <<>>

\* the abstract machine: the value of each object after the step
After(e) ==
  CASE e.op = "make" -> Append(val, Rec.ref[e.k][e.n])
    [] e.op = "mod" -> [val EXCEPT ![e.n] = IF Len(e.ids) >= e.n THEN e.ids[e.n] ELSE 0]
    [] OTHER -> val
Clauses(e) ==
  (IF Len(e.ids) # Len(val') THEN {"object could not be made"} ELSE
   UNION { IF e.ids[k] = val'[k] THEN {}
           ELSE IF e.op = "make" /\ k = Len(val') THEN {"object made later differs from the first one from the same source"}
           ELSE {"another object changed"} : k \in 1..Len(val') })
  \cup (IF e.op # "mod" THEN {}
        ELSE (IF \E k \in 1..Len(e.diff) : e.diff[k] # e.ix THEN {"another field changed"} ELSE {})
             \cup (IF e.got = e.want THEN {} ELSE {"field does not take its value"}))
Next ==
  /\ l <= Len(Rec.ev)
  /\ val' = After(Rec.ev[l])
  /\ LET c == Clauses(Rec.ev[l]) IN IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
  /\ l' = l + 1 /\ UNCHANGED ti
  /\ l' > Len(Rec.ev) => PrintT("DONE " \o ToJson([ti |-> ti]))
Spec == Init /\ [][Next]_vars
View == <<ti, l>>
=============================================================================
