------------------------------ MODULE ChainStore ------------------------------
(* C09. A chain of tensors with n slots and a file system. Contents are integers > 0; a slot holds 0 (nothing), -1 (a tensor *)
(* without data) or a content; disk maps file names to contents, dirs are the directories that exist.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES kind,           \* "mps", "mpo" or "vec"
          mem, disk, dirs,
          cen             \* centre an operator chain reports; -1 for none (always -1 for the others)
svars == <<kind, mem, disk, dirs, cen>>
N == Len(mem)
TenFile(d, i) == d \o "/" \o (IF kind = "mps" THEN "mps_ten" ELSE "mpo") \o ToString(i) \o ".qlten"
CenFile(d) == d \o "/center"
CenVal(c) == -(c + 10)    \* content of a centre file
Full == \A i \in 1..N : mem[i] > 0
Put(f, v) == (f :> v) @@ disk
RECURSIVE PutAll(_, _, _)
PutAll(dk, d, i) == IF i = N THEN dk ELSE PutAll((TenFile(d, i) :> mem[i + 1]) @@ dk, d, i + 1)
Dumped(d) == LET a == PutAll(disk, d, 0) IN IF kind = "mpo" THEN (CenFile(d) :> CenVal(cen)) @@ a ELSE a
Set(i, v) == mem' = [mem EXCEPT ![i + 1] = v] /\ cen' = -1 /\ UNCHANGED <<kind, disk, dirs>>
Free(i) == mem' = [mem EXCEPT ![i + 1] = 0] /\ UNCHANGED <<kind, disk, dirs, cen>>
Dump(d, release) == /\ Full
                    /\ disk' = Dumped(d) /\ dirs' = dirs \cup {d}
                    /\ mem' = IF release THEN [i \in 1..N |-> 0] ELSE mem
                    /\ UNCHANGED <<kind, cen>>
Missing(d) == {i \in 0..(N - 1) : TenFile(d, i) \notin DOMAIN disk}
Load(d) == /\ Missing(d) = {}
           /\ mem' = [i \in 1..N |-> disk[TenFile(d, i - 1)]]
           /\ CASE kind = "mpo" /\ CenFile(d) \in DOMAIN disk -> cen' = -(disk[CenFile(d)] + 10)
                [] kind = "mpo" -> TRUE              \* no centre recorded: nothing said about the centre
                [] OTHER -> cen' = -1
           /\ UNCHANGED <<kind, disk, dirs>>
DumpTen(i, d, release) == /\ mem[i + 1] > 0
                          /\ disk' = Put(TenFile(d, i), mem[i + 1]) /\ dirs' = dirs \cup {d}
                          /\ mem' = IF release THEN [mem EXCEPT ![i + 1] = 0] ELSE mem
                          /\ UNCHANGED <<kind, cen>>
LoadTen(i, d) == /\ TenFile(d, i) \in DOMAIN disk
                 /\ mem' = [mem EXCEPT ![i + 1] = disk[TenFile(d, i)]]
                 /\ UNCHANGED <<kind, disk, dirs>>
Remove(i, d) == disk' = [f \in DOMAIN disk \ {TenFile(d, i)} |-> disk[f]] /\ UNCHANGED <<kind, mem, dirs, cen>>
================================================================================
