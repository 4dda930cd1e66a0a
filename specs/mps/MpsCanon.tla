------------------------------- MODULE MpsCanon -------------------------------
(* C08. A finite MPS of N sites as a user sees it: which isometry conditions the tensors really satisfy (iso), which ones   *)
(* the object claims (flag, ctr), and the represented state, here k times the initial one, mirrored if rev. Actions follow *)
(* the public operations; the bookkeeping rules are those of the implementation, the effect on iso is what the linear      *)
(* algebra guarantees and nothing more.                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT N
Sites == 0..(N - 1)
VARIABLES st,             \* [flag, ctr, iso]
          k, rev          \* represented state
cvars == <<st, k, rev>>
Blank == [flag |-> [i \in Sites |-> "N"], ctr |-> -1, iso |-> [i \in Sites |-> {}]]
(* ---- single steps: the tensor becomes an isometry, the remainder goes into the neighbour ---- *)
Left1(s, i) == [flag |-> [s.flag EXCEPT ![i] = "L", ![i + 1] = "N"], ctr |-> -1, iso |-> [s.iso EXCEPT ![i] = {"L"}, ![i + 1] = {}]]
Right1(s, i) == [flag |-> [s.flag EXCEPT ![i] = "R", ![i - 1] = "N"], ctr |-> -1, iso |-> [s.iso EXCEPT ![i] = {"R"}, ![i - 1] = {}]]
RECURSIVE LeftFrom(_, _, _), RightFrom(_, _, _)
LeftFrom(s, i, stop) == IF i > stop THEN s ELSE LeftFrom(Left1(s, i), i + 1, stop)
RightFrom(s, i, stop) == IF i < stop THEN s ELSE RightFrom(Right1(s, i), i - 1, stop)
(* sites that already claim the wanted form at the outer end are skipped *)
LeftTo(s, stop) == LET todo == {i \in 0..stop : s.flag[i] # "L"} IN
                   IF todo = {} THEN s ELSE LeftFrom(s, CHOOSE i \in todo : \A j \in todo : i <= j, stop)
RightTo(s, stop) == LET todo == {i \in stop..(N - 1) : s.flag[i] # "R"} IN
                    IF todo = {} THEN s ELSE RightFrom(s, CHOOSE i \in todo : \A j \in todo : i >= j, stop)
Centred(s, c) == LET a == IF c > 0 THEN LeftTo(s, c - 1) ELSE s
                     b == IF c < N - 1 THEN RightTo(a, c + 1) ELSE a IN [b EXCEPT !.ctr = c]
Withdrawn(s, i) == [s EXCEPT !.flag[i] = "N", !.ctr = -1]
Written(s, i) == [Withdrawn(s, i) EXCEPT !.iso[i] = {}]
(* ---- operations ---- *)
Init == st = Blank /\ k = 1 /\ rev = FALSE
Same == UNCHANGED <<k, rev>>
Centralize(c) == c \in Sites /\ st' = Centred(st, c) /\ Same
Left(stop) == stop \in 0..(N - 2) /\ st' = LeftTo(st, stop) /\ Same
Right(stop) == stop \in 1..(N - 1) /\ st' = RightTo(st, stop) /\ Same
LeftOne(i) == i \in 0..(N - 2) /\ st' = Left1(st, i) /\ Same
RightOne(i) == i \in 1..(N - 1) /\ st' = Right1(st, i) /\ Same
(* a tensor gets f times its value: written through an accessor, put by pointer, read from a file, or allocated afresh *)
Replace(i, f) == i \in Sites /\ st' = Written(st, i) /\ k' = k * f /\ UNCHANGED rev
(* the same tensor leaves and comes back *)
Reload(i) == i \in Sites /\ st' = Withdrawn(st, i) /\ Same
Copied == UNCHANGED cvars                \* copies and moves carry tensors and claims together
Reverse == st' = [Blank EXCEPT !.iso = [i \in Sites |-> {IF x = "L" THEN "R" ELSE "L" : x \in st.iso[N - 1 - i]}]]
           /\ rev' = ~rev /\ UNCHANGED k
(* entropies: centre to the last site, normalise, one singular value decomposition per bond from the right *)
Entropy == st' = RightFrom(Written(Centred(st, N - 1), N - 1), N - 1, 1) /\ Same
(* truncation without loss: centre to the first site, normalise, sweep right; no claims are made *)
Truncate == LET c == Centred(st, 0) IN st' = [flag |-> [i \in Sites |-> "N"], ctr |-> -1, iso |-> [i \in Sites |-> IF i < N - 1 THEN {"L"} ELSE {}]] /\ Same
Added(f) == st' = Blank /\ k' = k * (1 + f) /\ UNCHANGED rev
(* ---- the property ---- *)
ClaimsTrue == /\ \A i \in Sites : st.flag[i] # "N" => st.flag[i] \in st.iso[i]
              /\ st.ctr # -1 => \A i \in Sites : (i < st.ctr => "L" \in st.iso[i]) /\ (i > st.ctr => "R" \in st.iso[i])
CentreAgrees == st.ctr # -1 => \A i \in Sites : (i < st.ctr => st.flag[i] = "L") /\ (i > st.ctr => st.flag[i] = "R")
================================================================================
