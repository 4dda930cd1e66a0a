---------------------------- MODULE TraceStatePrep -----------------------------
(* Recorded calls of the initialisers, FiniteMPSAdd and TruncateMPS against StatePrep. psi is the integer state the chain     *)
(* must represent; after a truncation up to one common factor (norm one).                                                   *)
EXTENDS StatePrep, Json, IOUtils
VARIABLES l, ch            \* ch[site][label + 1]: charge vector
vars == <<dims, psi, ch, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
O == E.obs
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Vec(list) == TLCEval([x \in {list[i][1] : i \in 1..Len(list)} |-> LET i == CHOOSE i \in 1..Len(list) : list[i][1] = x IN <<list[i][2], list[i][3]>>])
SeqPlus(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
RECURSIVE SumTo(_, _)
SumTo(lab, i) == IF i = 1 THEN ch[1][lab[1] + 1] ELSE SeqPlus(SumTo(lab, i - 1), ch[i][lab[i] + 1])
Charge(lab) == SumTo(lab, Len0)
Zero == [k \in 1..Len(ch[1][1]) |-> 0]
Digits(x) == [i \in 1..Len0 |-> (x \div Prod(i + 1, Len0)) % dims[i]]
Shows(v) == O.exact /\ Vec(O.psi) = v
(* where the charge sits: on the first tensor, or (form without charges) on what is behind the last-but-one *)
Behind(q) == O.div[Len0] = SeqPlus(q, O.right) /\ \A i \in 1..(Len0 - 1) : O.div[i] = Zero
Sector(q) == O.div[1] = q /\ \A i \in 2..Len0 : O.div[i] = Zero
Millionth == 1000000
Ok == E.out = "ok"
Same == UNCHANGED <<dims, ch>>
Product == /\ Labels(E.lab) /\ psi' = Basis(E.lab) /\ Shows(psi') /\ O.c = 0 /\ (IF E.o = "product" THEN Sector(Charge(E.lab)) /\ O.right = Zero ELSE Behind(Charge(E.lab))) /\ \A b \in 1..(Len0 - 1) : O.bonds[b] = 1
Add == LET u == IF E.lab # <<>> THEN Number(E.lab) :> <<E.w[1], E.w[2]>> ELSE Vec(E.other) IN
         /\ psi' = Plus(psi, u) /\ Shows(psi') /\ E.kept                  \* the operands are as before
         /\ \A b \in 1..(Len0 - 1) : O.bonds[b] <= E.bonds[b]
Random == /\ psi' = <<>> /\ O.norm \in (Millionth - 1)..(Millionth + 1) /\ Sector(Charge(E.sets[1]))
          /\ \A b \in 1..(Len0 - 1) : O.bonds[b] <= Len(E.sets) * E.enl
          /\ \A i \in 1..Len(O.supp) : Charge(Digits(O.supp[i])) = Charge(E.sets[1])
          /\ \A k \in 1..Len(E.sets) : \E i \in 1..Len(O.supp) : O.supp[i] = Number(E.sets[k])
RECURSIVE Cuts(_, _)
Near(x, y, d) == x - y <= d /\ y - x <= d
(* the printed weight (millionths, three digits) is the discarded share *)
Reported(v, S, R, e) == LET all == WeightOf(v, S) gone == all - WeightOf(v, R) IN Near(e * all, gone * Millionth, all * (e \div 100 + 2))
Cuts(S, b) == IF b = Len0 THEN {S}
              ELSE UNION {Cuts(R, b + 1) : R \in {R \in Trunc(psi, S, b, E.d[b], E.dmax, E.dmin, E.err) : Reported(psi, S, R, E.lost[b])}}
Proportional(v, a) == /\ DOMAIN a = DOMAIN v
                      /\ LET x == CHOOSE x \in DOMAIN v : \A y \in DOMAIN v : WeightOf(v, {x}) >= WeightOf(v, {y}) IN
                           \A y \in DOMAIN v : LET p == Mul(a[y], v[x]) q == Mul(a[x], v[y]) IN Near(p[1], q[1], 200) /\ Near(p[2], q[2], 200)
CutResult == /\ O.norm \in (Millionth - 1)..(Millionth + 1)
             /\ Len(E.d) = Len0 - 1 /\ Len(E.lost) = Len0 - 1
             /\ \A b \in 1..(Len0 - 1) : O.bonds[b] = E.d[b] /\ E.d[b] <= E.dmax
Truncate == /\ CutResult
            /\ \A b \in 1..(Len0 - 1) : Splits(psi, DOMAIN psi, b)
            /\ \E R \in Cuts(DOMAIN psi, 1) : psi' = Restrict(psi, R)
            /\ Proportional(psi', Vec(O.amps))
RECURSIVE Left(_, _)
Left(b, p) == IF b = Len0 THEN p ELSE Left(b + 1, (p * (10000 - E.lost[b] \div 100)) \div 10000)
AnyTruncate == /\ CutResult /\ psi' = <<>>
               /\ \A b \in 1..(Len0 - 1) : E.d[b] < E.dmax => E.lost[b] <= E.err * 1010 + 1
               /\ Near(E.overlap, Left(1, 10000), 60)
               /\ (\A b \in 1..(Len0 - 1) : E.lost[b] = 0) => E.overlap = 10000
               /\ (E.err = 0 /\ \A b \in 1..(Len0 - 1) : E.full[b] <= E.dmax) => E.overlap = 10000 /\ \A b \in 1..(Len0 - 1) : E.lost[b] = 0
TReset == IsEvent("reset") /\ dims' = E.dims /\ ch' = E.ch /\ psi' = <<>>
TOp == /\ IsEvent("op") /\ Ok /\ Same
       /\ CASE E.o \in {"product", "zeroproduct"} -> Product
            [] E.o = "add" -> Add
            [] E.o = "random" -> Random
            [] E.o = "truncate" -> Truncate
            [] E.o = "anytruncate" -> AnyTruncate
TInit == l = 1 /\ dims = <<>> /\ psi = <<>> /\ ch = <<>>
TNext == TReset \/ TOp
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
