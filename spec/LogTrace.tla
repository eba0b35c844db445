------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Conformance of whole sessions, of any size, to BlfLog: what a session   *)
(* accepted (identities of the objects: class, every field, encoding)      *)
(* against what a reader of the closed file delivers, and against the      *)
(* header.  Long sessions come in batches; a step takes one batch.         *)
(*   b     batches [w |-> identities written, s |-> their sizes,           *)
(*                  d |-> identities read]                                 *)
(*   ok    every operation succeeded;  rend: how reading ended             *)
(*   twin  a copy made with the settings of the original: header and       *)
(*         digests of the rest, of the copy and of the original            *)
(*   hdr   the file's first 144 bytes;  flen: its length;  lvl             *)
(***************************************************************************)
EXTENDS BlfFormat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ti, l, count, bytes
vars == <<ti, l, count, bytes>>
Rec == Trace[ti]

Batch(b) ==
  IF b.w = b.d THEN {}
  ELSE IF Len(b.d) < Len(b.w) THEN {"W01 objects missing", "W07 accepted object not stored"}
  ELSE IF Len(b.d) > Len(b.w) THEN {"W01 more objects read than written"}
  ELSE {"W01 a different object read back"}

\* S01: nothing but the recorded times tells a copy from the original
Times == 41..72
Twin == IF "twin" \notin DOMAIN Rec THEN {}
        ELSE LET x == Rec.twin[1]  y == Rec.twin[2] IN
             IF x[2] = y[2] /\ \A q \in (1..144) \ Times : x[1][q] = y[1][q] THEN {} ELSE {"S01 same settings and objects, another file"}

Final(n, u) ==
  Twin \cup
  (IF Rec.ok # "ok" THEN {"W01 session failed", "W02 session failed", "W07 session failed, or its exception did not propagate"} ELSE {})
  \cup (IF Rec.rend # "end" THEN {"W01 reading ended with " \o Rec.rend, "W07 what was accepted can not be read back"} ELSE {})
  \cup (IF Len(Rec.hdr) # FileHeaderSize \/ ~At(Rec.hdr, 0, FileSignature) THEN {"W02 no header", "W07 header not finalised"}
        ELSE (IF LE(Rec.hdr, 32, 4) # n THEN {"W02 object count", "W07 header not finalised"} ELSE {})
             \cup (IF LE(Rec.hdr, 16, 8) # Rec.flen THEN {"W02 file size"} ELSE {})
             \cup (IF LE(Rec.hdr, 24, 8) # u THEN {"W02 uncompressed size"} ELSE {})
             \cup (IF Rec.hdr[14] # Rec.lvl THEN {"W02 compression level"} ELSE {}))

Init == ti \in 1..Len(Trace) /\ l = 1 /\ count = 0 /\ bytes = FileHeaderSize
Next ==
  /\ l <= Len(Rec.b) + 1
  /\ LET last == l > Len(Rec.b)
         c == IF last THEN Final(count, bytes) ELSE Batch(Rec.b[l])
     IN /\ IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
        /\ last => PrintT("DONE " \o ToJson([ti |-> ti]))
        /\ count' = IF last THEN count ELSE count + Len(Rec.b[l].w)
        /\ bytes' = IF last THEN bytes ELSE bytes + SumSeq(Rec.b[l].s)
  /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
