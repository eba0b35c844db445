----------------------------- MODULE BlfObjects -----------------------------
(***************************************************************************)
(* Objects as independent values.  Whatever way an object comes into being *)
(* (decoded, read from a file, built by a constructor) it has cells of its *)
(* own for all its parts (header, base header, time stamps, lists, ...);   *)
(* changing a part of one object therefore never shows in another one, nor *)
(* in what is made from the same source later.                             *)
(* val is the abstract view: a value per object.  Cells is how that is     *)
(* kept true: with Fresh = FALSE objects from the same source may share    *)
(* cells, and Independent fails (MC_ObjectsShared).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Kinds, Sources, Parts, MaxObj, Fresh
VARIABLES obj,    \* objects: [k |-> kind, s |-> source, c |-> part -> cell]
          heap,   \* contents of the cells
          val     \* history: the value each object should have
ovars == <<obj, heap, val>>

OInit == obj = <<>> /\ heap = <<>> /\ val = <<>>
Initial(s) == [p \in 1..Parts |-> 10 * s]

Make(k, s) ==
  /\ Len(obj) < MaxObj
  /\ \E shared \in SUBSET {i \in 1..Len(obj) : ~Fresh /\ obj[i].s = s} :
       IF shared = {} THEN
         /\ obj' = Append(obj, [k |-> k, s |-> s, c |-> [p \in 1..Parts |-> Len(heap) + p]])
         /\ heap' = heap \o Initial(s)
       ELSE
         /\ obj' = Append(obj, [k |-> k, s |-> s, c |-> obj[CHOOSE i \in shared : TRUE].c])
         /\ UNCHANGED heap
  /\ val' = Append(val, Initial(s))
Modify(o, p) ==
  /\ o \in 1..Len(obj) /\ heap[obj[o].c[p]] % 10 < 2
  /\ heap' = [heap EXCEPT ![obj[o].c[p]] = @ + 1]
  /\ val' = [val EXCEPT ![o][p] = @ + 1]
  /\ UNCHANGED obj
Encode(o) == o \in 1..Len(obj) /\ UNCHANGED ovars

Independent == \A o \in 1..Len(obj) : \A p \in 1..Parts : heap[obj[o].c[p]] = val[o][p]
=============================================================================
