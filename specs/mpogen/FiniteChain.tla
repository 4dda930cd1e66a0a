----------------------------- MODULE FiniteChain -----------------------------
(* C01. The finite-chain generator as its user sees it: terms are added one by one, the sum of all terms is the           *)
(* Hamiltonian, and a generated chain of matrices must multiply out to that sum. One action per public call.             *)
EXTENDS SymEval
VARIABLES n,       \* number of sites
          pt,      \* evaluation point: [cv |-> values of coefficient labels, ov |-> per site values of operator labels, id]
          ham,     \* the sum of the terms added so far (evaluated)
          raw      \* bond dimensions of the last uncompressed chain, <<>> if none since the last change
vars == <<n, pt, ham, raw>>
Init == n = 0 /\ pt = <<>> /\ ham = 0 /\ raw = <<>>
Chain(sites, cv, ov, ids) ==
  /\ n' = sites
  /\ pt' = [cv |-> cv, ov |-> ov, id |-> ids]
  /\ ham' = 0 /\ raw' = <<>>
(* the term with operators ops on sites h..h+Len(ops)-1 (0-based) and identities elsewhere *)
TermVal(h, ops) ==
  FoldLeft(LAMBDA acc, i : (acc * (IF i - 1 < h \/ i - 1 >= h + Len(ops) THEN pt.ov[i][pt.id[i] + 1]
                                   ELSE OpVal(ops[i - h], pt.cv, pt.ov[i]))) % P, 1, [i \in 1..n |-> i])
Add(h, ops) ==
  /\ h + Len(ops) <= n
  /\ ham' = (ham + TermVal(h, ops)) % P
  /\ raw' = <<>>
  /\ UNCHANGED <<n, pt>>
Dims(ms) == [i \in 1..Len(ms) |-> ms[i].c]
Represents(ms) ==
  /\ Len(ms) = n /\ ms[1].r = 1 /\ ms[n].c = 1 /\ Chained(ms)
  /\ \A i \in 1..n : WellFormed(ms[i])
  /\ ChainVec(<<1>>, ms, pt.cv, pt.ov) = <<ham>>
Gen(comp, ms) ==
  /\ Represents(ms)
  /\ comp /\ raw # <<>> => \A i \in 1..n : ms[i].c <= raw[i]
  /\ raw' = IF comp THEN raw ELSE Dims(ms)
  /\ UNCHANGED <<n, pt, ham>>
(* A uniform chain of k distinct operator pairs needs k+2 states between any two inner sites: compression reaches it. *)
Uniform(k, ms) == \A i \in 1..(n - 1) : ms[i].c <= k + 2
==============================================================================
