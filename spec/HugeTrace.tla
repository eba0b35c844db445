------------------------------ MODULE HugeTrace -----------------------------
(***************************************************************************)
(* Sessions of more than 4 GiB, written and read back.  TLC's integers end *)
(* at 2^31, so sizes are <<units of 2^20 bytes, rest>>.                    *)
(*   w    identities of the objects written, in order;  n their sizes      *)
(*   d    identities read back;  ok, rend  how writing and reading ended   *)
(*   hdr  the file header;  flen  the length of the file;  lvl             *)
(* One step takes one object.                                              *)
(***************************************************************************)
EXTENDS BlfFormat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ti, l, sum
vars == <<ti, l, sum>>
Rec == Trace[ti]
M == 1048576

Plus(a, b) == << a[1] + b[1] + ((a[2] + b[2]) \div M), (a[2] + b[2]) % M >>
\* an 8-byte number of the header
Wide(d, off) == << (d[off + 3] \div 16) + (16 * (d[off + 4] + (256 * LE(d, off + 4, 2)))), LE(d, off, 2) + (65536 * (d[off + 3] % 16)) >>
Within(d, off) == LE(d, off + 6, 2) = 0

Delivered(k) ==
  IF k > Len(Rec.d) THEN {"W01 objects missing"}
  ELSE IF Rec.d[k] # Rec.w[k] THEN {"W01 a different object read back"} ELSE {}
Final ==
  (IF Rec.ok # "ok" THEN {"W01 session failed", "W02 session failed"} ELSE {})
  \cup (IF Rec.rend # "end" THEN {"W01 reading ended with " \o Rec.rend} ELSE {})
  \cup (IF Len(Rec.d) > Len(Rec.w) THEN {"W01 more objects read than written"} ELSE {})
  \cup (IF Len(Rec.hdr) # FileHeaderSize \/ ~At(Rec.hdr, 0, FileSignature) THEN {"W02 no header"}
        ELSE (IF LE(Rec.hdr, 32, 4) # Len(Rec.w) THEN {"W02 object count"} ELSE {})
             \cup (IF ~Within(Rec.hdr, 16) \/ Wide(Rec.hdr, 16) # Rec.flen THEN {"W02 file size"} ELSE {})
             \cup (IF ~Within(Rec.hdr, 24) \/ Wide(Rec.hdr, 24) # sum THEN {"W02 uncompressed size"} ELSE {})
             \cup (IF Rec.hdr[14] # Rec.lvl THEN {"W02 compression level"} ELSE {}))

Init == ti \in 1..Len(Trace) /\ l = 1 /\ sum = <<0, FileHeaderSize>>
Next ==
  /\ l <= Len(Rec.w) + 1
  /\ LET last == l > Len(Rec.w)
         c == IF last THEN Final ELSE Delivered(l)
     IN /\ IF c = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([ti |-> ti, l |-> l, c |-> c]))
        /\ last => PrintT("DONE " \o ToJson([ti |-> ti]))
        /\ sum' = IF last THEN sum ELSE Plus(sum, Rec.n[l])
  /\ l' = l + 1 /\ UNCHANGED ti
Spec == Init /\ [][Next]_vars
=============================================================================
