----------------------------- MODULE BlfReader ------------------------------
(***************************************************************************)
(* The resynchronising BLF reader as a byte-level machine.                 *)
(*                                                                         *)
(* A stack of streams: the file at the bottom, above it the uncompressed   *)
(* contents of the container being read.  Whatever a stream holds that is  *)
(* not yet a whole object when it ends is carried over and put in front of *)
(* the content of the next container.                                      *)
(*                                                                         *)
(* The format's constants are parameters: MC_Reader instantiates a tiny    *)
(* format and explores it exhaustively, ReaderTrace instantiates BLF.      *)
(***************************************************************************)
EXTENDS BlfBytes

CONSTANTS
  Sig,             \* object signature
  BaseSize,        \* size of the base header (signature, sizes, type)
  SizeOf(_),       \* declared object size, from a base header
  IsContainer(_),  \* is this complete object a container?
  Content(_, _),   \* <<ok, bytes>>: its uncompressed content, in a file of kind fk
  Accept(_),       \* can this complete object be decoded?
  Fast             \* skip filler in one step (same behaviour, fewer states)

VARIABLES
  stk,    \* sequence of [b |-> bytes, p |-> position]; last = innermost
  carry,  \* incomplete data of the stream that ended last
  st,     \* "run", "end" or "err"
  out,    \* objects delivered so far (their bytes)
  fk      \* what the file header says about containers (never changes)

rvars == <<stk, carry, st, out, fk>>

Top == stk[Len(stk)]
Left == Len(Top.b) - Top.p
Running == st = "run" /\ stk # <<>>

RECURSIVE NextSig(_, _)
NextSig(b, q) ==
  IF Len(b) - q < Len(Sig) \/ At(b, q, Sig) THEN q ELSE NextSig(b, q + 1)

Hdr == Slice(Top.b, Top.p, BaseSize)
Obj == Slice(Top.b, Top.p, SizeOf(Hdr))
AtSig == Running /\ Left >= Len(Sig) /\ At(Top.b, Top.p, Sig)
WithHdr == AtSig /\ Left >= BaseSize
Sized == WithHdr /\ SizeOf(Hdr) >= BaseSize
Whole == Sized /\ Left >= SizeOf(Hdr)

MoveTo(q) == stk' = [stk EXCEPT ![Len(stk)].p = q]
\* the innermost stream ends, its unread rest is carried over
Pop == /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
       /\ carry' = From(Top.b, Top.p)
       /\ st' = IF Len(stk) = 1 THEN "end" ELSE st
       /\ UNCHANGED out

EndOfStream == Running /\ Left < Len(Sig) /\ Pop

Skip == /\ Running /\ Left >= Len(Sig) /\ ~At(Top.b, Top.p, Sig)
        /\ MoveTo(IF Fast THEN NextSig(Top.b, Top.p + 1) ELSE Top.p + 1)
        /\ UNCHANGED <<carry, st, out>>

EndInHeader == AtSig /\ Left < BaseSize /\ Pop

\* a signature that is not the start of an object: go on behind it
FalseSig == /\ WithHdr /\ SizeOf(Hdr) < BaseSize
            /\ MoveTo(Top.p + Len(Sig))
            /\ UNCHANGED <<carry, st, out>>

EndInObject == Sized /\ Left < SizeOf(Hdr) /\ Pop

OpenContainer ==
  /\ Whole /\ IsContainer(Obj)
  /\ LET c == Content(Obj, fk) IN
     IF c[1]
     THEN /\ stk' = Append([stk EXCEPT ![Len(stk)].p = @ + SizeOf(Hdr)], [b |-> carry \o c[2], p |-> 0])
          /\ carry' = <<>>
          /\ UNCHANGED <<st, out>>
     ELSE st' = "err" /\ UNCHANGED <<stk, carry, out>>

Deliver ==
  /\ Whole /\ ~IsContainer(Obj)
  /\ IF Accept(Obj)
     THEN out' = Append(out, Obj) /\ MoveTo(Top.p + SizeOf(Hdr)) /\ UNCHANGED <<carry, st>>
     ELSE st' = "err" /\ UNCHANGED <<stk, carry, out>>

ReaderNext ==
  /\ EndOfStream \/ Skip \/ EndInHeader \/ FalseSig \/ EndInObject \/ OpenContainer \/ Deliver
  /\ UNCHANGED fk

\* the source fails when more of it is asked for: the caller is told, what has
\* been delivered stays delivered, nothing is made of what has been read so far
SourceFails ==
  /\ Running /\ Len(stk) = 1
  /\ st' = "err" /\ UNCHANGED <<stk, carry, out, fk>>

Open(body) == stk = << [b |-> body, p |-> 0] >> /\ carry = <<>> /\ st = "run" /\ out = <<>>

(* ------------------------------------------------------------------------ *)
(* What the reader is supposed to compute, without any machine: the objects *)
(* of an uncompressed stream, read from position p.  <<objects, how it ended>> *)
RECURSIVE ObjectsFrom(_, _)
ObjectsFrom(b, p) ==
  LET h == Slice(b, p, BaseSize) IN
  IF Len(b) - p < Len(Sig) THEN << <<>>, "end" >>
  ELSE IF ~At(b, p, Sig) THEN ObjectsFrom(b, p + 1)
  ELSE IF Len(h) < BaseSize THEN << <<>>, "end" >>
  ELSE IF SizeOf(h) < BaseSize THEN ObjectsFrom(b, p + Len(Sig))
  ELSE IF Len(b) - p < SizeOf(h) THEN << <<>>, "end" >>
  ELSE LET o == Slice(b, p, SizeOf(h)) IN
       IF ~Accept(o) THEN << <<>>, "err" >>
       ELSE LET r == ObjectsFrom(b, p + SizeOf(h)) IN << <<o>> \o r[1], r[2] >>
Objects(b) == ObjectsFrom(b, 0)
=============================================================================
