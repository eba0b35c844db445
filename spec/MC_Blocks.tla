----------------------------- MODULE MC_Blocks ------------------------------
(***************************************************************************)
(* BlfBlocks and BlfReader agree: every small file made of blocks is read  *)
(* by the byte machine (tiny format of MC_Reader) and by the block machine;*)
(* both deliver the same objects and end alike.                            *)
(***************************************************************************)
EXTENDS BlfBytes, TLC
CONSTANTS MaxBlocks, MaxFile

VARIABLES stk, carry, st, out, fk, i, j, avail, pos, bst, got, stream, items, cut

SizeOfT(h) == IF h[3] >= 16 THEN h[3] - 16 ELSE h[3]
IsContT(o) == o[3] >= 16
ContentT(o, k) == <<Len(o) < 4 \/ o[4] # 7, From(o, 3)>>
AcceptT(o) == Len(o) < 4 \/ o[4] # 0
R == INSTANCE BlfReader WITH Sig <- <<1, 2>>, BaseSize <- 3, SizeOf <- SizeOfT, IsContainer <- IsContT,
       Content <- ContentT, Accept <- AcceptT, Fast <- TRUE
vars == <<stk, carry, st, out, fk, i, j, avail, pos, bst, got, stream, items, cut>>

Obj == { <<1, 2, 3>>, <<1, 2, 5, 1, 2>> }
Bad == { <<1, 2, 4, 0>> }
Fill == { <<0>>, <<1>>, <<5, 1>> }
Blk(k, b) == [k |-> k, b |-> b, n |-> Len(b), id |-> b]
Blocks == {Blk("o", b) : b \in Obj} \cup {Blk("y", b) : b \in Bad} \cup {Blk("f", b) : b \in Fill}
Seqs(S, m) == UNION {[1..n -> S] : n \in 0..m}
Whole(s) == Concat([x \in 1..Len(s) |-> s[x].b])
\* divisions of a stream of n bytes into at most three containers
Divs(n) == {<<n>>} \cup {<<a, n - a>> : a \in 0..n} \cup {<<a, b, n - a - b>> : a \in 0..n, b \in {x \in 0..n : x <= n}}
DivOK(d) == \A x \in 1..Len(d) : d[x] >= 0
Cont(b) == <<1, 2, 16 + 3 + Len(b)>> \o b
Broken == Cont(<<7>>)
\* file: containers with extras (at most one kind) behind container number at
Extra == {<<"f", <<0>>>>, <<"f", <<1>>>>, <<"o", <<1, 2, 3>>>>, <<"y", <<1, 2, 4, 0>>>>, <<"x", Broken>>}
Ends(d) == [x \in 1..Len(d) |-> SumSeq(SubSeq(d, 1, x))]
\* a file-level object or damage only where no object is being carried over
Boundary(s, p) == \E x \in 0..Len(s) : SumSeq([y \in 1..x |-> s[y].n]) = p

File(s, d, at, ex) ==
  LET w == Whole(s)
      part(x) == LET hi == Ends(d)[x] IN SubSeq(w, hi - d[x] + 1, hi)
      conts == [x \in 1..Len(d) |-> [k |-> "c", n |-> d[x], b |-> Cont(part(x))]]
      extra == IF at = 0 THEN <<>> ELSE <<[k |-> ex[1], n |-> 0, b |-> ex[2]]>>
  IN  SubSeq(conts, 1, at) \o extra \o SubSeq(conts, at + 1, Len(conts))
Placed(f) == [x \in 1..Len(f) |-> [k |-> f[x].k, n |-> f[x].n, id |-> f[x].b, b |-> f[x].b,
                                   e |-> SumSeq([y \in 1..x |-> Len(f[y].b)])]]

B == INSTANCE BlfBlocks

Init ==
  /\ stream \in Seqs(Blocks, MaxBlocks)
  /\ \E d \in {x \in Divs(Len(Whole(stream))) : DivOK(x)} :
       \E at \in 0..Len(d) : \E ex \in IF at = 0 THEN {<<"f", <<>>>>} ELSE Extra :
          /\ at > 0 /\ ex[1] # "f" => Boundary(stream, Ends(d)[at])
          /\ items = Placed(File(stream, d, at, ex))
  /\ cut \in IF MaxFile = 0 THEN {Len(Whole(items))} ELSE 0..Len(Whole(items))
  /\ R!Open(SubSeq(Whole(items), 1, cut)) /\ fk = 0
  /\ B!BInit /\ got = <<>>

\* first the byte machine, then the block machine
Next == \/ R!ReaderNext /\ UNCHANGED <<i, j, avail, pos, bst, got, stream, items, cut>>
        \/ /\ st # "run" /\ B!BNext /\ got' = got \o B!Delivers
           /\ UNCHANGED <<stk, carry, st, out, fk, stream, items, cut>>
Spec == Init /\ [][Next]_vars

Agree == bst # "run" => got = out /\ bst = st
Ahead == bst = "run" /\ st # "run" => got = SubSeq(out, 1, Len(got))
BOnly == st # "run" /\ bst = "run" => ENABLED B!BNext
\* R10: what is opened and not yet delivered is less than a container and a block
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Held == avail - pos <= Max({items[x].n : x \in {y \in 1..Len(items) : items[y].k = "c"}}) + Max({stream[x].n : x \in 1..Len(stream)})
\* and nothing is opened before it is needed
Needed == [][i' > i /\ items[i].k = "c" => ~B!Fits]_vars
=============================================================================
