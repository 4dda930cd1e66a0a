------------------------------ MODULE ChainGen -------------------------------
(* A Hamiltonian generator as its user sees it: the current operator H is the sum of the terms added, each the product of  *)
(* its coefficient and one operator per named site (identity elsewhere). The string-inserting forms put the inserted       *)
(* operator on every site between two consecutive operators (or on the listed sites), and behind the last one when a       *)
(* trailing string is given. Generating never changes H; what is generated multiplies out to H.                             *)
EXTENDS SparseOps, SequencesExt
VARIABLES dims,   \* dimensions of the sites
          H
gvars == <<dims, H>>
N == Len(dims)
(* a placement: sequence of <<site (from 0), operator>>; at most one operator per site *)
OnSites(pl) == [s \in 1..N |-> LET k == SelectInSeq(pl, LAMBDA p : p[1] = s - 1) IN IF k = 0 THEN Ident(dims[s]) ELSE pl[k][2]]
Term(c, pl) == OpScale(c, Product(OnSites(pl), dims))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Between(a, b, o) == [k \in 1..(b - a - 1) |-> <<a + k, o>>]
(* ops at sites; strings: one inserted operator per gap, possibly one more for the tail; lists: explicit sites or <<>> *)
WithStrings(ops, sites, strings, lists) ==
  Flat([k \in 1..Len(ops) |->
     <<<<sites[k], ops[k]>>>> \o
     (IF k > Len(strings) THEN <<>>
      ELSE IF Len(lists) > 0 THEN [j \in 1..Len(lists[k]) |-> <<lists[k][j], strings[k]>>]
      ELSE Between(sites[k], IF k < Len(ops) THEN sites[k + 1] ELSE N, strings[k]))])
Plain(ops, sites) == [k \in 1..Len(ops) |-> <<sites[k], ops[k]>>]
New(ds) == dims' = ds /\ H' = OpZero
Add(c, pl) == H' = (IF c = Zero THEN H ELSE OpAdd(H, Term(c, pl))) /\ UNCHANGED dims
Gen == UNCHANGED gvars
Distinct(pl) == \A i, j \in 1..Len(pl) : i # j => pl[i][1] # pl[j][1]
==============================================================================
