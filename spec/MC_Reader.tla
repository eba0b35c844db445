----------------------------- MODULE MC_Reader ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the reader machine on a tiny format.          *)
(*   signature <<1,2>>, base header of 3 bytes; third byte v:              *)
(*   v < 16  plain object of size v      v >= 16  container of size v - 16 *)
(*   a plain object whose 4th byte is 0 cannot be decoded                  *)
(*   a container whose content starts with 7 cannot be decompressed        *)
(* Every uncompressed stream over a small alphabet, every division of it   *)
(* into containers, optionally filler between containers, optionally a cut *)
(* of the file at any byte.                                                *)
(***************************************************************************)
EXTENDS BlfBytes, TLC
CONSTANTS Alphabet, MaxLen, MaxTok, MaxParts, Cuts, FastSkip, Fails

VARIABLES stk, carry, st, out, fk, u, parts, gaps, cut
SizeOfT(h) == IF h[3] >= 16 THEN h[3] - 16 ELSE h[3]
IsContT(o) == o[3] >= 16
ContentT(o, k) == <<Len(o) < 4 \/ o[4] # 7, From(o, 3)>>
AcceptT(o) == Len(o) < 4 \/ o[4] # 0
R == INSTANCE BlfReader WITH Sig <- <<1, 2>>, BaseSize <- 3, SizeOf <- SizeOfT, IsContainer <- IsContT,
       Content <- ContentT, Accept <- AcceptT, Fast <- FastSkip

mcvars == <<stk, carry, st, out, fk, u, parts, gaps, cut>>

Raw == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
\* streams made of objects (decodable or not), false signatures and filler
Tokens == { <<1, 2, 3>>, <<1, 2, 4, 5>>, <<1, 2, 5, 1, 2>>, <<1, 2, 4, 0>>, <<1, 2, 2>>, <<0>>, <<1>> }
Tokened == {Concat(t) : t \in UNION {[1..n -> Tokens] : n \in 0..MaxTok}}
Streams == Raw \cup Tokened
\* divisions: non-decreasing cut points, so that parts may be empty
Divisions(n) == UNION {{f \in [1..k -> 0..n] : \A i \in 1..(k - 1) : f[i] <= f[i + 1]} : k \in 0..(MaxParts - 1)}
Gaps == {<<>>, <<0>>, <<1>>}

PartsOf(s, d) ==
  [i \in 1..(Len(d) + 1) |->
     LET lo == IF i = 1 THEN 0 ELSE d[i - 1]
         hi == IF i = Len(d) + 1 THEN Len(s) ELSE d[i] IN SubSeq(s, lo + 1, hi)]
ContainerT(c) == <<1, 2, 16 + 3 + Len(c)>> \o c
FileOf(ps, g) == Concat([i \in 1..Len(ps) |-> g \o ContainerT(ps[i])]) \o g

File == FileOf(parts, gaps)
Init ==
  /\ u \in Streams
  /\ \E d \in Divisions(Len(u)) : parts = PartsOf(u, d)
  /\ gaps \in Gaps
  /\ cut \in IF Cuts THEN 0..Len(File) ELSE {Len(File)}
  /\ R!Open(SubSeq(File, 1, cut)) /\ fk = 0
Next == (R!ReaderNext \/ (Fails /\ R!SourceFails)) /\ UNCHANGED <<u, parts, gaps, cut>>
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(Next)

\* containers completely inside the cut file
WholeParts(c) == LET ends == [i \in 1..Len(parts) |-> Len(FileOf(SubSeq(parts, 1, i), gaps)) - Len(gaps)]
                 IN  {i \in 1..Len(parts) : ends[i] <= c}
AvailAt(c) == Concat([i \in 1..Len(parts) |-> IF i \in WholeParts(c) THEN parts[i] ELSE <<>>])
Avail == AvailAt(cut)
Plain == \A i \in 1..Len(u) : u[i] < 7    \* no damage, no nested containers (MC alphabet decides)

\* R01/R02/R03/R07: delivered exactly the objects of the available stream, in order
Faithful == Plain /\ st # "run" => /\ out = R!Objects(Avail)[1]
                                   /\ st = R!Objects(Avail)[2]
\* R11: whenever the source fails, exactly the objects that were completely there have been delivered
FailsWell == Plain /\ st = "err" => out = R!Objects(AvailAt(stk[1].p))[1]
\* R03/W04: at any time only complete objects of the stream, a prefix of the whole result
Prefixes == Plain => Prefix(out, R!Objects(u)[1])
\* the machine never gets stuck
Progress == st = "run" => ENABLED Next
\* deterministic: at most one action is enabled
Deterministic ==
  st = "run" => \A a, b \in {x \in 1..7 :
      CASE x = 1 -> ENABLED R!EndOfStream [] x = 2 -> ENABLED R!Skip [] x = 3 -> ENABLED R!EndInHeader
        [] x = 4 -> ENABLED R!FalseSig [] x = 5 -> ENABLED R!EndInObject
        [] x = 6 -> ENABLED R!OpenContainer [] x = 7 -> ENABLED R!Deliver} : a = b
Terminates == <>(st # "run")
\* a container is never delivered
NoContainer == \A i \in 1..Len(out) : out[i][3] < 16
=============================================================================
