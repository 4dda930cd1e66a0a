----------------------------- MODULE SparseMatrix ----------------------------
(* C03. Symbolic matrices as their user sees them: dense matrices whose cells hold an element or 0 (empty). One action per  *)
(* editing member function.                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Regs
VARIABLE m                 \* register -> [r |-> rows, c |-> columns, a |-> sequence of rows]
Blank(r, c) == [r |-> r, c |-> c, a |-> [x \in 1..r |-> [y \in 1..c |-> 0]]]
Zero == Blank(0, 0)
Rows(t) == 1..t.r
Cols(t) == 1..t.c
Skip(i, n) == [k \in 1..(n - 1) |-> IF k < i THEN k ELSE k + 1]
PermRows(t, p) == [r |-> Len(p), c |-> t.c, a |-> [x \in 1..Len(p) |-> t.a[p[x]]]]
PermCols(t, p) == [r |-> t.r, c |-> Len(p), a |-> [x \in 1..t.r |-> [y \in 1..Len(p) |-> t.a[x][p[y]]]]]
SwapAt(i, j, n) == [k \in 1..n |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k]
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..Len(p)} = 1..n
RowCount(t, x) == Cardinality({y \in Cols(t) : t.a[x][y] # 0})
ColCount(t, y) == Cardinality({x \in Rows(t) : t.a[x][y] # 0})
Set1(k, v) == m' = [m EXCEPT ![k] = v]
Init == m = [k \in Regs |-> Zero]
New(k, r, c) == Set1(k, Blank(r, c))
Copy(k, s) == Set1(k, m[s])
SetElem(k, x, y, e) == x \in Rows(m[k]) /\ y \in Cols(m[k]) /\ e # 0 /\ m' = [m EXCEPT ![k].a[x][y] = e]
RemoveRow(k, x) == x \in Rows(m[k]) /\ Set1(k, IF m[k].r = 1 THEN Zero ELSE PermRows(m[k], Skip(x, m[k].r)))
RemoveCol(k, y) == y \in Cols(m[k]) /\ Set1(k, IF m[k].c = 1 THEN Zero ELSE PermCols(m[k], Skip(y, m[k].c)))
SwapRows(k, i, j) == {i, j} \subseteq Rows(m[k]) /\ Set1(k, PermRows(m[k], SwapAt(i, j, m[k].r)))
SwapCols(k, i, j) == {i, j} \subseteq Cols(m[k]) /\ Set1(k, PermCols(m[k], SwapAt(i, j, m[k].c)))
TransRows(k, p) == IsPerm(p, m[k].r) /\ Set1(k, PermRows(m[k], p))
TransCols(k, p) == IsPerm(p, m[k].c) /\ Set1(k, PermCols(m[k], p))
(* sorting applies the permutation it returns; afterwards the numbers of non-empty entries do not decrease *)
SortRows(k, p) == TransRows(k, p) /\ \A i \in 1..(Len(p) - 1) : RowCount(m[k], p[i]) <= RowCount(m[k], p[i + 1])
SortCols(k, p) == TransCols(k, p) /\ \A i \in 1..(Len(p) - 1) : ColCount(m[k], p[i]) <= ColCount(m[k], p[i + 1])
==============================================================================
