----------------------------- MODULE BlfWriter ------------------------------
(***************************************************************************)
(* The container writer as a machine.  One action per access to the sink,  *)
(* so that a storage failure or a crash can come between any two of them   *)
(* and at any cell inside one.                                             *)
(*                                                                         *)
(* The format's constants are parameters, as in BlfReader.                 *)
(***************************************************************************)
EXTENDS BlfBytes

CONSTANTS
  Align,            \* containers and objects start on multiples of this
  HdrSize,          \* size of the file header
  Header(_),        \* its bytes, from [n |-> objects, us |-> uncompressed size, fs |-> file size]
  Container(_),     \* a complete container object with the given content
  Faults            \* how many storage failures may happen

VARIABLES
  disk,    \* contents of the sink
  buf,     \* data not yet stored
  stats,   \* [n, us, fs] as it will be written to the header
  pc,      \* "idle", "flush", "cont", "cflush", "ccont", "hdr", "closed", "crashed"
  faults,  \* storage failures so far
  log,     \* history: objects taken in, [b |-> bytes, sure |-> write acknowledged]
  blocks,  \* history: [d |-> content, by |-> "write" or "close"]
  bs       \* buffer size (never changes)

wvars == <<disk, buf, stats, pc, faults, log, blocks, bs>>
Buf == bs

WInit ==
  /\ stats = [n |-> 0, us |-> HdrSize, fs |-> HdrSize]
  /\ disk = Header(stats)
  /\ buf = <<>> /\ pc = "idle" /\ faults = 0 /\ log = <<>> /\ blocks = <<>>

\* an access to the sink at some position
Put(d, p, b) == SubSeq(d, 1, p) \o b \o From(d, p + Len(b))

Aligned(b) == b \o Zeros(PadTo(Len(b), Align))

(* ---- calls ---- *)
Write(o) ==
  /\ pc = "idle"
  /\ buf' = Aligned(buf) \o o
  /\ stats' = [stats EXCEPT !.n = @ + 1, !.us = @ + Len(o)]
  /\ log' = Append(log, [b |-> o, sure |-> FALSE])
  /\ pc' = "flush"
  /\ UNCHANGED <<disk, faults, blocks>>

\* an object that cannot be encoded or whose size is not the declared one
Refuse ==
  /\ pc = "idle"
  /\ buf' = Aligned(buf)
  /\ UNCHANGED <<disk, stats, pc, faults, log, blocks>>

Close ==
  /\ pc = "idle"
  /\ pc' = "cflush"
  /\ UNCHANGED <<disk, buf, stats, faults, log, blocks>>

(* ---- storing one block ---- *)
Due == (pc = "flush" /\ Len(buf) >= Buf) \/ (pc = "cflush" /\ buf # <<>>)
Block == SubSeq(buf, 1, Min2(Buf, Len(buf)))
\* storing continues behind the last container: what a failed attempt left there is replaced
Top == stats.fs
PadCells == Zeros(PadTo(Top, Align))

Behind == Top + Len(PadCells)

Pad ==
  /\ Due
  /\ disk' = Put(disk, Top, PadCells)
  /\ pc' = IF pc = "flush" THEN "cont" ELSE "ccont"
  /\ UNCHANGED <<buf, stats, faults, log, blocks>>

Store ==
  /\ pc \in {"cont", "ccont"}
  /\ disk' = Put(disk, Behind, Container(Block))
  /\ buf' = SubSeq(buf, Len(Block) + 1, Len(buf))
  /\ stats' = [stats EXCEPT !.fs = Behind + Len(Container(Block))]
  /\ blocks' = Append(blocks, [d |-> Block, by |-> IF pc = "cont" THEN "write" ELSE "close"])
  /\ pc' = IF pc = "cont" THEN "flush" ELSE "cflush"
  /\ UNCHANGED <<faults, log>>

Acknowledge ==
  /\ pc = "flush" /\ ~Due
  /\ log' = [log EXCEPT ![Len(log)].sure = TRUE]
  /\ pc' = "idle"
  /\ UNCHANGED <<disk, buf, stats, faults, blocks>>

Flushed ==
  /\ pc = "cflush" /\ ~Due
  /\ pc' = "hdr"
  /\ UNCHANGED <<disk, buf, stats, faults, log, blocks>>

Finish ==
  /\ pc = "hdr"
  /\ disk' = Put(disk, 0, Header(stats))
  /\ pc' = "closed"
  /\ UNCHANGED <<buf, stats, faults, log, blocks>>

(* ---- the environment ---- *)
Storing == Due \/ pc \in {"cont", "ccont", "hdr"}
\* what is stored of an access that is interrupted: nothing, or a part
Part(whole) ==
  \/ UNCHANGED disk
  \/ Due /\ \E k \in 1..Len(PadCells) : disk' = Put(disk, Top, SubSeq(PadCells, 1, k))
  \/ /\ pc \in {"cont", "ccont"}
     /\ \E k \in 1..(IF whole THEN Len(Container(Block)) ELSE Len(Container(Block)) - 1) :
          disk' = Put(disk, Behind, SubSeq(Container(Block), 1, k))
  \/ /\ pc = "hdr"
     /\ \E k \in 1..HdrSize : disk' = Put(disk, 0, SubSeq(Header(stats), 1, k))

\* the sink fails; the call ends with an error
StorageFailure ==
  /\ Storing /\ faults < Faults
  /\ faults' = faults + 1
  /\ Part(FALSE)
  /\ pc' = "idle"
  /\ UNCHANGED <<buf, stats, log, blocks>>

Crash ==
  /\ pc \notin {"closed", "crashed"}
  /\ Part(TRUE)
  /\ pc' = "crashed"
  /\ UNCHANGED <<buf, stats, faults, log, blocks>>

Step == Pad \/ Store \/ Acknowledge \/ Flushed \/ Finish
=============================================================================
