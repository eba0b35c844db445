--------------------------- MODULE BlfWriterSums ----------------------------
(***************************************************************************)
(* The writer reduced to four sums.  Small enough for Apalache to show its *)
(* invariants inductive: they hold for every buffer size, every object     *)
(* size, every alignment and sessions of any length, not only within the   *)
(* bounds TLC explores.  MC_WriterSums shows that BlfWriterBlocks (which   *)
(* BlfWriter refines) refines this machine.                                *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  \* @type: Int;
  SAlign
VARIABLES
  \* @type: Int;
  taken,   \* bytes of the objects taken in
  \* @type: Int;
  fill,    \* bytes of filling put between them
  \* @type: Int;
  stored,  \* bytes of contents of the containers stored
  \* @type: Int;
  held,    \* bytes not yet stored
  \* @type: Int;
  size,    \* buffer size
  \* @type: Bool;
  clean,   \* no write was refused, no store failed
  \* @type: Int;
  refused, \* number of refused writes
  \* @type: Str;
  doing
svars == <<taken, fill, stored, held, size, clean, refused, doing>>

SInit == /\ taken = 0 /\ fill = 0 /\ stored = 0 /\ held = 0 /\ clean = TRUE /\ refused = 0 /\ doing = "none"
         /\ size \in Int /\ size >= 1

STake == /\ doing = "none"
         /\ taken' \in Int /\ fill' \in Int
         /\ taken' > taken /\ fill' >= fill /\ fill' < fill + SAlign
         /\ held' = held + (taken' - taken) + (fill' - fill)
         /\ doing' = "write" /\ UNCHANGED <<stored, size, clean, refused>>
SRefuse == /\ doing = "none"
           /\ fill' \in Int /\ fill' >= fill /\ fill' < fill + SAlign
           /\ held' = held + (fill' - fill)
           /\ clean' = FALSE /\ refused' = refused + 1 /\ UNCHANGED <<taken, stored, size, doing>>
SStart == doing = "none" /\ doing' = "close" /\ UNCHANGED <<taken, fill, stored, held, size, clean, refused>>
SFull == /\ doing \in {"write", "close"} /\ held >= size
         /\ stored' = stored + size /\ held' = held - size
         /\ UNCHANGED <<taken, fill, size, clean, refused, doing>>
SRest == /\ doing = "close" /\ 0 < held /\ held < size
         /\ stored' = stored + held /\ held' = 0
         /\ UNCHANGED <<taken, fill, size, clean, refused, doing>>
SDone == doing = "write" /\ held < size /\ doing' = "none" /\ UNCHANGED <<taken, fill, stored, held, size, clean, refused>>
SClosed == doing = "close" /\ held = 0 /\ doing' = "closed" /\ UNCHANGED <<taken, fill, stored, held, size, clean, refused>>
SFailed == doing \in {"write", "close"} /\ doing' = "none" /\ clean' = FALSE /\ UNCHANGED <<taken, fill, stored, held, size, refused>>
SCrashed == doing \notin {"closed", "crashed"} /\ doing' = "crashed" /\ UNCHANGED <<taken, fill, stored, held, size, clean, refused>>

SNext == STake \/ SRefuse \/ SStart \/ SFull \/ SRest \/ SDone \/ SClosed \/ SFailed \/ SCrashed
SSpec == SInit /\ [][SNext]_svars

(* ---- inductive ---- *)
SInv ==
  /\ size >= 1 /\ held >= 0 /\ taken >= 0 /\ fill >= 0 /\ stored >= 0 /\ refused >= 0
  /\ doing \in {"none", "write", "close", "closed", "crashed"}
  \* nothing appears or disappears
  /\ stored + held = taken + fill
  /\ (clean /\ doing = "none") => held < size
  /\ (clean => refused = 0)
  /\ doing = "closed" => held = 0
SIndInit ==
  /\ taken \in Int /\ fill \in Int /\ stored \in Int /\ held \in Int /\ size \in Int /\ refused \in Int
  /\ clean \in BOOLEAN /\ doing \in {"none", "write", "close", "closed", "crashed"}
  /\ SInv

(* ---- what follows ---- *)
SHeldBack == (clean /\ doing = "none") => taken - stored < size       \* W05
SAllStored == doing = "closed" => stored = taken + fill               \* W07
SMemory == (clean /\ doing = "none") => held < size                   \* W11
SFollows == SHeldBack /\ SAllStored /\ SMemory
\* W05: after every write that succeeds, whatever happened before
SAfterWrite == SDone => taken' - stored' < size'

CInit == SAlign \in {1, 2, 4, 8, 4096}
=============================================================================
