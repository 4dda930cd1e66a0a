------------------------------- MODULE SymEval -------------------------------
(* Evaluation of the symbolic objects at a random point of the prime field Z_P. Coefficient labels and operator labels    *)
(* (per site) get values; operators on different sites commute, so an operator string is the product of its site values.  *)
(* Equal expressions evaluate equally at every point; different polynomials of degree d agree with probability <= d/P.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC
P == 30011
(* coefficient: sequence of labels (a sum); operator: sequence of <<label, coefficient>> (a weighted sum) *)
CoefVal(c, cv) == FoldLeft(LAMBDA acc, x : (acc + cv[x + 1]) % P, 0, c)
OpVal(o, cv, ov) == FoldLeft(LAMBDA acc, t : (acc + CoefVal(t[2], cv) * ov[t[1] + 1]) % P, 0, o)
Zeros(n) == [i \in 1..n |-> 0]
(* row vector times sparse matrix [r, c, el], el a sequence of <<row, col, operator>> (0-based) *)
RowTimes(v, m, cv, ov) ==
  FoldLeft(LAMBDA w, t : [w EXCEPT ![t[2] + 1] = (@ + v[t[1] + 1] * OpVal(t[3], cv, ov)) % P], Zeros(m.c), m.el)
ChainVec(start, ms, cv, ovs) ==
  FoldLeft(LAMBDA v, i : RowTimes(v, ms[i], cv, ovs[i]), start, [i \in 1..Len(ms) |-> i])
Chained(ms) == \A i \in 1..(Len(ms) - 1) : ms[i].c = ms[i + 1].r
WellFormed(m) == \A i \in 1..Len(m.el) : m.el[i][1] \in 0..(m.r - 1) /\ m.el[i][2] \in 0..(m.c - 1)
==============================================================================
