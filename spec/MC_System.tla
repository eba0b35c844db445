----------------------------- MODULE MC_System ------------------------------
(***************************************************************************)
(* The whole system: a writing session that is closed or crashes at any    *)
(* cell, and then the reader machine on whatever is left on the disk.      *)
(***************************************************************************)
EXTENDS MC_Writer
VARIABLES stk, carry, st, out, fk

ObjSizeOf(h) == IF h[3] >= 16 THEN h[3] - 16 ELSE h[3]
ObjIsCont(o) == o[3] >= 16
ObjContent(o, k) == <<TRUE, From(o, 3)>>
Rd == INSTANCE BlfReader WITH Sig <- <<1, 2>>, BaseSize <- 3, SizeOf <- ObjSizeOf, IsContainer <- ObjIsCont,
        Content <- ObjContent, Accept <- AcceptT, Fast <- TRUE
svars == <<disk, buf, stats, pc, faults, log, blocks, bs, refused, seen, stk, carry, st, out, fk>>

SInit == Init /\ stk = <<>> /\ carry = <<>> /\ st = "wait" /\ out = <<>> /\ fk = 0
WriterMoves == st = "wait" /\ Next /\ UNCHANGED <<stk, carry, st, out, fk>>
ReaderOpens ==
  /\ st = "wait" /\ pc \in {"closed", "crashed"} /\ Len(disk) >= HdrSizeT
  /\ stk' = << [b |-> From(disk, HdrSizeT), p |-> 0] >> /\ st' = "run"
  /\ UNCHANGED <<carry, out, fk, disk, buf, stats, pc, faults, log, blocks, bs, refused, seen>>
ReaderMoves == Rd!ReaderNext /\ UNCHANGED <<disk, buf, stats, pc, faults, log, blocks, bs, refused, seen>>
SNext == WriterMoves \/ ReaderOpens \/ ReaderMoves
SSpec == SInit /\ [][SNext]_svars

\* W01, W04: what the reader machine delivers is what the log says is in the file
EndToEnd == /\ st = "end" => out = Read
            /\ st # "err"
            /\ st = "end" /\ pc = "closed" => out = Objs
            /\ Prefix(out, Objs)
=============================================================================
