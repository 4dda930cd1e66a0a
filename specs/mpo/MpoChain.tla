------------------------------- MODULE MpoChain --------------------------------
(* C12. A finite MPO of N sites: isometry conditions its tensors satisfy (iso), claims of the object (flag, ctr), and the    *)
(* represented operator, here an integer polynomial val = <<c0, c1, ...>> in one fixed operator H. disk: what was stored.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT N
Sites == 0..(N - 1)
VARIABLES st, val, disk
cvars == <<st, val, disk>>
Blank == [flag |-> [i \in Sites |-> "N"], ctr |-> -1, iso |-> [i \in Sites |-> {}]]
Left1(s, i) == [flag |-> [s.flag EXCEPT ![i] = "L", ![i + 1] = "N"], ctr |-> -1, iso |-> [s.iso EXCEPT ![i] = {"L"}, ![i + 1] = {}]]
Right1(s, i) == [flag |-> [s.flag EXCEPT ![i] = "R", ![i - 1] = "N"], ctr |-> -1, iso |-> [s.iso EXCEPT ![i] = {"R"}, ![i - 1] = {}]]
RECURSIVE LeftFrom(_, _, _), RightFrom(_, _, _)
LeftFrom(s, i, stop) == IF i > stop THEN s ELSE LeftFrom(Left1(s, i), i + 1, stop)
RightFrom(s, i, stop) == IF i < stop THEN s ELSE RightFrom(Right1(s, i), i - 1, stop)
LeftTo(s, stop) == LET todo == {i \in 0..stop : s.flag[i] # "L"} IN
                   IF todo = {} THEN s ELSE LeftFrom(s, CHOOSE i \in todo : \A j \in todo : i <= j, stop)
RightTo(s, stop) == LET todo == {i \in stop..(N - 1) : s.flag[i] # "R"} IN
                    IF todo = {} THEN s ELSE RightFrom(s, CHOOSE i \in todo : \A j \in todo : i >= j, stop)
Centred(s, c) == LET a == IF c > 0 THEN LeftTo(s, c - 1) ELSE s
                     b == IF c < N - 1 THEN RightTo(a, c + 1) ELSE a IN [b EXCEPT !.ctr = c]
Withdrawn(s) == [s EXCEPT !.flag = [i \in Sites |-> "N"], !.ctr = -1]
Written(s, i) == [s EXCEPT !.flag[i] = "N", !.ctr = -1, !.iso[i] = {}]
AtCentre(s) == IF s.ctr = -1 THEN Written(s, 0) ELSE [Written(s, s.ctr) EXCEPT !.ctr = s.ctr]
(* ---- polynomials ---- *)
C(p, k) == IF k \in 1..Len(p) THEN p[k] ELSE 0
MaxOf(a, b) == IF a > b THEN a ELSE b
Trim(p) == LET nz == {k \in 1..Len(p) : p[k] # 0} IN IF nz = {} THEN <<0>> ELSE SubSeq(p, 1, CHOOSE k \in nz : \A j \in nz : j <= k)
PAdd(p, q) == Trim([k \in 1..MaxOf(Len(p), Len(q)) |-> C(p, k) + C(q, k)])
PScale(p, f) == Trim([k \in 1..Len(p) |-> f * p[k]])
RECURSIVE Conv(_, _, _, _)
Conv(p, q, k, i) == IF i > k THEN 0 ELSE C(p, i) * C(q, k + 1 - i) + Conv(p, q, k, i + 1)
PMul(p, q) == Trim([k \in 1..(Len(p) + Len(q) - 1) |-> Conv(p, q, k, 1)])
RECURSIVE Pow(_, _)
Pow(f, n) == IF n = 0 THEN 1 ELSE f * Pow(f, n - 1)
(* ---- operations ---- *)
H == <<0, 1>>
Init == st = Blank /\ val = H /\ disk = <<>>
Same == UNCHANGED <<val, disk>>
Centralize(c) == c \in Sites /\ st' = Centred(st, c) /\ Same
Left(stop) == stop \in 0..(N - 2) /\ st' = LeftTo(st, stop) /\ Same
Right(stop) == stop \in 1..(N - 1) /\ st' = RightTo(st, stop) /\ Same
LeftOne(i) == i \in 0..(N - 2) /\ st' = Left1(st, i) /\ Same
RightOne(i) == i \in 1..(N - 1) /\ st' = Right1(st, i) /\ Same
Write(i, f) == i \in Sites /\ st' = Written(st, i) /\ val' = PScale(val, f) /\ UNCHANGED disk
Scale(f) == st' = AtCentre(st) /\ val' = PScale(val, f) /\ UNCHANGED disk
AllScale(f) == st' = Blank /\ val' = PScale(val, Pow(f, N)) /\ UNCHANGED disk
Normalize == val # <<0>> /\ st' = AtCentre(st) /\ Same            \* up to the returned factor
Trace == st' = Withdrawn(st) /\ Same                          \* a reader; the implementation gives its claims up
Add(p) == st' = Blank /\ val' = PAdd(val, p) /\ UNCHANGED disk
Product(p) == st' = Blank /\ val' = PMul(val, p) /\ UNCHANGED disk
Fitted == [flag |-> [i \in Sites |-> IF i = 0 THEN "L" ELSE IF i = 1 THEN "N" ELSE "R"], ctr |-> 1,
           iso |-> [i \in Sites |-> IF i = 0 THEN {"L"} ELSE IF i = 1 THEN {} ELSE {"R"}]]
Fit(p) == st' = Fitted /\ val' = PMul(val, p) /\ UNCHANGED disk
Square == Fit(val)
SquareNorm == st' = AtCentre(Fitted) /\ val' = PMul(val, val) /\ UNCHANGED disk
Truncate == st' = RightFrom(Centred(st, N - 1), N - 1, 1) /\ Same
Identity == st' = Blank /\ val' = <<1>> /\ UNCHANGED disk
Copied == UNCHANGED cvars
Converted == st' = Withdrawn(st) /\ Same                      \* through the class without bookkeeping
Dump == disk' = <<val, st.ctr, st.iso>> /\ UNCHANGED <<st, val>>
Load == /\ disk # <<>> /\ val' = disk[1] /\ UNCHANGED disk
        /\ st' = [flag |-> [i \in Sites |-> IF disk[2] = -1 \/ i = disk[2] THEN "N" ELSE IF i < disk[2] THEN "L" ELSE "R"], ctr |-> disk[2], iso |-> disk[3]]
Reload(i) == i \in Sites /\ st' = [st EXCEPT !.flag[i] = "N", !.ctr = -1] /\ Same
(* ---- the property ---- *)
ClaimsTrue == /\ \A i \in Sites : st.flag[i] # "N" => st.flag[i] \in st.iso[i]
              /\ st.ctr # -1 => \A i \in Sites : (i < st.ctr => "L" \in st.iso[i]) /\ (i > st.ctr => "R" \in st.iso[i])
CentreAgrees == st.ctr # -1 => \A i \in Sites : (i < st.ctr => st.flag[i] = "L") /\ (i > st.ctr => st.flag[i] = "R")
================================================================================
