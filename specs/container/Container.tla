------------------------------ MODULE Container ------------------------------
(* C04. Tensor containers (DuoVector): a fixed number of slots, each empty or owning exactly one element. One action per   *)
(* public member function. An element is an identity (never reused while alive) with a value; what the user takes out of   *)
(* a container through the pointer setter is in `held` and owned by the user until it is put back or deleted.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Names
NoC == <<-1>>             \* no such container
VARIABLES cs,             \* name -> NoC or sequence of slots, 0 = empty, otherwise an element identity
          val,            \* live element identity -> value
          held            \* identities owned by the user
cvars == <<cs, val, held>>
Alive(c) == cs[c] # NoC
Occ(s) == {s[i] : i \in 1..Len(s)} \ {0}
Owned == UNION {Occ(cs[c]) : c \in {x \in Names : Alive(x)}}
Live == DOMAIN val
EmptyOf(s) == [i \in 1..Len(s) |-> 0]
Drop(ids) == [x \in Live \ ids |-> val[x]]
Distinct(ids) == Cardinality({ids[i] : i \in 1..Len(ids)}) = Len(ids)
Fresh(ids) == Distinct(ids) /\ \A i \in 1..Len(ids) : ids[i] \notin Live /\ ids[i] # 0
(* slots of a deep copy of s whose occupied slots get the identities ids, in slot order *)
RECURSIVE Rank(_, _)
Rank(s, i) == IF i = 0 THEN 0 ELSE Rank(s, i - 1) + (IF s[i] # 0 THEN 1 ELSE 0)
Clone(s, ids) == [i \in 1..Len(s) |-> IF s[i] = 0 THEN 0 ELSE ids[Rank(s, i)]]
CloneVals(s, ids) == [x \in {ids[i] : i \in 1..Len(ids)} |-> val[s[CHOOSE i \in 1..Len(s) : s[i] # 0 /\ ids[Rank(s, i)] = x]]]
Init == cs = [c \in Names |-> NoC] /\ val = <<>> /\ held = {}
New(c, n) == /\ ~Alive(c)
             /\ cs' = [cs EXCEPT ![c] = [i \in 1..n |-> 0]]
             /\ UNCHANGED <<val, held>>
CopyCtor(c, s, ids) ==
  /\ ~Alive(c) /\ Alive(s) /\ Len(ids) = Rank(cs[s], Len(cs[s])) /\ Fresh(ids)
  /\ cs' = [cs EXCEPT ![c] = Clone(cs[s], ids)]
  /\ val' = CloneVals(cs[s], ids) @@ val
  /\ UNCHANGED held
(* assignment releases what the target owned; self assignment leaves contents and occupancy as they are *)
CopyAssign(c, s, ids) ==
  /\ Alive(c) /\ Alive(s)
  /\ IF c = s
     THEN \/ ids = <<>> /\ UNCHANGED <<cs, val>>
          \/ /\ Len(ids) = Rank(cs[s], Len(cs[s])) /\ Fresh(ids) /\ Len(ids) > 0
             /\ cs' = [cs EXCEPT ![c] = Clone(cs[s], ids)]
             /\ val' = CloneVals(cs[s], ids) @@ Drop(Occ(cs[c]))
     ELSE /\ Len(ids) = Rank(cs[s], Len(cs[s])) /\ Fresh(ids)
          /\ cs' = [cs EXCEPT ![c] = Clone(cs[s], ids)]
          /\ val' = CloneVals(cs[s], ids) @@ Drop(Occ(cs[c]))
  /\ UNCHANGED held
(* a move transfers the very same elements; the source keeps its length and is empty *)
MoveCtor(c, s) ==
  /\ ~Alive(c) /\ Alive(s)
  /\ cs' = [cs EXCEPT ![c] = cs[s], ![s] = EmptyOf(cs[s])]
  /\ UNCHANGED <<val, held>>
MoveAssign(c, s) ==
  /\ Alive(c) /\ Alive(s)
  /\ IF c = s THEN \/ UNCHANGED <<cs, val>>
                   \/ cs' = [cs EXCEPT ![c] = EmptyOf(cs[c])] /\ val' = Drop(Occ(cs[c]))
     ELSE /\ cs' = [cs EXCEPT ![c] = cs[s], ![s] = EmptyOf(cs[s])]
          /\ val' = Drop(Occ(cs[c]))
  /\ UNCHANGED held
Slot(c, i) == Alive(c) /\ i \in 1..Len(cs[c])
(* write through the reference: an empty slot gets a new element first *)
Write(c, i, v, ids) ==
  /\ Slot(c, i)
  /\ IF cs[c][i] # 0
     THEN ids = <<>> /\ UNCHANGED cs /\ val' = [val EXCEPT ![cs[c][i]] = v]
     ELSE /\ Len(ids) = 1 /\ Fresh(ids)
          /\ cs' = [cs EXCEPT ![c][i] = ids[1]] /\ val' = (ids[1] :> v) @@ val
  /\ UNCHANGED held
Touch(c, i, ids) == Write(c, i, IF Slot(c, i) /\ cs[c][i] # 0 THEN val[cs[c][i]] ELSE 0, ids)
Alloc(c, i, ids) ==
  /\ Slot(c, i) /\ Len(ids) = 1 /\ Fresh(ids)
  /\ cs' = [cs EXCEPT ![c][i] = ids[1]]
  /\ val' = (ids[1] :> 0) @@ Drop({cs[c][i]})
  /\ UNCHANGED held
Dealloc(c, i) ==
  /\ Slot(c, i)
  /\ cs' = [cs EXCEPT ![c][i] = 0] /\ val' = Drop({cs[c][i]})
  /\ UNCHANGED held
Clear(c) ==
  /\ Alive(c)
  /\ cs' = [cs EXCEPT ![c] = EmptyOf(cs[c])] /\ val' = Drop(Occ(cs[c]))
  /\ UNCHANGED held
Destroy(c) ==
  /\ Alive(c)
  /\ cs' = [cs EXCEPT ![c] = NoC] /\ val' = Drop(Occ(cs[c]))
  /\ UNCHANGED held
(* the pointer setter: take an element out (leaving the slot empty), put a held one into an empty slot *)
Take(c, i) ==
  /\ Slot(c, i) /\ cs[c][i] # 0
  /\ held' = held \cup {cs[c][i]} /\ cs' = [cs EXCEPT ![c][i] = 0] /\ UNCHANGED val
Put(c, i, x) ==
  /\ Slot(c, i) /\ cs[c][i] = 0 /\ x \in held
  /\ held' = held \ {x} /\ cs' = [cs EXCEPT ![c][i] = x] /\ UNCHANGED val
Free(x) == x \in held /\ held' = held \ {x} /\ val' = Drop({x}) /\ UNCHANGED cs
(* what observers report *)
SizeOf(c) == Len(cs[c])
IsEmpty(c) == Occ(cs[c]) = {}
(* C04 *)
OneOwner ==
  /\ Live = Owned \cup held /\ Owned \cap held = {}
  /\ \A c, d \in Names : \A i \in 1..Len(cs[c]), j \in 1..Len(cs[d]) :
       Alive(c) /\ Alive(d) /\ cs[c][i] # 0 /\ cs[c][i] = cs[d][j] => c = d /\ i = j
==============================================================================
