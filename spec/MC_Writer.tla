------------------------------ MODULE MC_Writer -----------------------------
(***************************************************************************)
(* The writer machine, exhausted on the tiny format of MC_Reader, together *)
(* with a reader of what it leaves behind (declarative here, the reader    *)
(* machine in MC_System), and its refinement of the abstract log.          *)
(*   file header: 4 cells <<50, n, us, fs>>                                *)
(*   object: <<1, 2, size, id, 5, 5, ...>>, container: <<1, 2, 16+size>>   *)
(***************************************************************************)
EXTENDS BlfBytes, FiniteSets, TLC
CONSTANTS BufSizes, Sizes, MaxObj, MaxFaults, MaxRefuse

VARIABLES disk, buf, stats, pc, faults, log, blocks, bs, refused,
  seen   \* [cs |-> containers, u |-> stored stream, rd |-> readable objects]: a function of disk
HdrSizeT == 4
HeaderT(s) == <<50, s.n, s.us, s.fs>>
ContainerT(d) == <<1, 2, 16 + 3 + Len(d)>> \o d
ObjT(id, n) == [i \in 1..n |-> CASE i = 1 -> 1 [] i = 2 -> 2 [] i = 3 -> n [] i = 4 -> 8 + id [] OTHER -> 5]
W == INSTANCE BlfWriter WITH Align <- 2, HdrSize <- HdrSizeT, Header <- HeaderT, Container <- ContainerT, Faults <- MaxFaults
mcvars == <<disk, buf, stats, pc, faults, log, blocks, bs, refused, seen>>

(* ---- reading what is on the disk, declaratively ---- *)
\* complete containers from position p: sequence of [p |-> start, e |-> end, d |-> content]
RECURSIVE Containers(_, _)
Containers(b, p) ==
  IF Len(b) - p < 3 THEN <<>>
  ELSE IF ~At(b, p, <<1, 2>>) THEN Containers(b, p + 1)
  ELSE IF b[p + 3] < 16 \/ p + (b[p + 3] - 16) > Len(b) THEN <<>>
  ELSE << [p |-> p, e |-> p + (b[p + 3] - 16), d |-> Slice(b, p + 3, b[p + 3] - 19)] >> \o Containers(b, p + (b[p + 3] - 16))
SizeOfT(h) == h[3]
IsContT(o) == FALSE
ContentT(o, k) == <<TRUE, <<>>>>
AcceptT(o) == TRUE
R == INSTANCE BlfReader WITH Sig <- <<1, 2>>, BaseSize <- 3, SizeOf <- SizeOfT, IsContainer <- IsContT,
       Content <- ContentT, Accept <- AcceptT, Fast <- TRUE, stk <- <<>>, carry <- <<>>, st <- "", out <- <<>>, fk <- 0
See(b) == LET cs == Containers(b, HdrSizeT) IN
          LET u == Concat([i \in 1..Len(cs) |-> cs[i].d]) IN
          [cs |-> cs, u |-> u, rd |-> R!Objects(u)[1]]
Cs == seen.cs
Stream == seen.u
Read == seen.rd

Init == bs \in BufSizes /\ W!WInit /\ refused = 0 /\ seen = See(disk)
Machine ==
  \/ /\ Len(log) < MaxObj /\ UNCHANGED <<bs, refused>>
     /\ \E n \in Sizes : W!Write(ObjT(Len(log) + 1, n))
  \/ refused < MaxRefuse /\ W!Refuse /\ refused' = refused + 1 /\ UNCHANGED bs
  \/ (W!Close \/ W!Step \/ W!StorageFailure \/ W!Crash) /\ UNCHANGED <<bs, refused>>
Look == seen' = IF disk' = disk THEN seen ELSE See(disk')
Next == Machine /\ Look
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(W!Step /\ UNCHANGED <<bs, refused>> /\ Look)

(* ---- the properties ---- *)
Objs == [i \in 1..Len(log) |-> log[i].b]
RECURSIVE SumLen(_)
SumLen(s) == IF s = <<>> THEN 0 ELSE Len(Head(s)) + SumLen(Tail(s))

\* W01: closed file; W07: everything is there
WhatWasWritten == pc = "closed" => Read = Objs
\* W02
HeaderTrue == /\ pc = "closed" => SubSeq(disk, 1, 4) = <<50, Len(log), 4 + SumLen(Objs), Len(disk)>>
              /\ disk[1] = 50
\* W03
Framed == /\ \A i \in 1..Len(blocks) : blocks[i].by = "write" => Len(blocks[i].d) = bs
          /\ \A i \in 1..Len(blocks) : Len(blocks[i].d) <= bs
          /\ pc # "crashed" =>
               /\ Len(Cs) = Len(blocks)
               /\ \A i \in 1..Len(Cs) : Cs[i].d = blocks[i].d /\ Cs[i].p % 2 = 0
               /\ \A i \in 1..Len(Cs) : Cs[i].p - (IF i = 1 THEN HdrSizeT ELSE Cs[i - 1].e) \in 0..1
\* W04: what is readable are the leading objects, namely those complete in the stored stream
Recoverable == /\ Prefix(Read, Objs)
               /\ Read = R!Objects(Stream)[1]
               /\ Len(Read) = Len(Objs) \/ SumLen(SubSeq(Objs, 1, Len(Read) + 1)) > Len(Stream) - 2 * Len(Objs)
\* W05: between calls less than one buffer of object data is missing (a failed store excepted)
\* (object cells are never 0)
Cells(s) == Cardinality({i \in 1..Len(s) : s[i] # 0})
Bounded == pc = "idle" /\ faults = 0 => SumLen(Objs) - Cells(Stream) < bs
\* W09: a reported failure loses nothing acknowledged, nothing is there twice
Once == \A i, j \in 1..Len(Read) : i # j => Read[i] # Read[j]
\* acknowledged objects are in the file after a successful close
AckKept == pc = "closed" => \A i \in 1..Len(log) : log[i].sure => \E j \in 1..Len(Read) : Read[j] = log[i].b
\* W05, W07: closing terminates (no storage failures from some point on: there are finitely many)
CloseEnds == (pc = "cflush") ~> (pc \in {"closed", "idle", "crashed"})

(* ---- refinement of the abstract log ---- *)
LogPhase == IF pc \in {"closed", "crashed"} THEN pc ELSE "open"
L == INSTANCE BlfLog WITH Object <- {ObjT(i, n) : i \in 1..MaxObj, n \in Sizes},
       acc <- log, dur <- Len(Read), phase <- LogPhase
Refines == L!LSpec
LogMonotone == L!Monotone
LogFinal == L!Final

(* ---- and of the size-level machine ---- *)
B == INSTANCE BlfWriterBlocks WITH BAlign <- 2,
       olog <- [i \in 1..Len(log) |-> [n |-> Len(log[i].b), sure |-> log[i].sure]],
       pend <- Len(buf), cont <- [i \in 1..Len(blocks) |-> Len(blocks[i].d)], cap <- bs,
       call <- CASE pc = "idle" -> "none" [] pc \in {"flush", "cont"} -> "write"
                 [] pc \in {"cflush", "ccont", "hdr"} -> "close" [] OTHER -> pc
RefinesBlocks == B!WBSpec
Conserved == B!Conserved
HeldBack == B!HeldBack
AllStored == B!AllStored
Pending == B!Pending
=============================================================================
