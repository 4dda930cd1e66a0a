------------------------------ MODULE SparseOps ------------------------------
(* Operators on finite spaces, given by their non-zero elements: a function from pairs <<row, column>> (counted from 0) to *)
(* complex integers <<re, im>>. <row|O|column>.                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CNeg(a) == <<-a[1], -a[2]>>
Conj(a) == <<a[1], -a[2]>>
Zero == <<0, 0>>
OpZero == [x \in {} |-> Zero]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Zero
Trim(f) == LET g == TLCEval(f) IN TLCEval([x \in {y \in DOMAIN g : g[y] # Zero} |-> g[x]])
OpAdd(f, g) == Trim([x \in DOMAIN f \cup DOMAIN g |-> CAdd(At(f, x), At(g, x))])
OpScale(c, f) == Trim([x \in DOMAIN f |-> CMul(c, f[x])])
OpMul(f, g) == LET D == {<<p[1], q[2]>> : p \in DOMAIN f, q \in DOMAIN g}
                   Mid == {p[2] : p \in DOMAIN f}
                   RECURSIVE S(_, _)
                   S(x, M) == IF M = {} THEN Zero ELSE LET k == CHOOSE k \in M : TRUE
                              IN CAdd(CMul(At(f, <<x[1], k>>), At(g, <<k, x[2]>>)), S(x, M \ {k}))
               IN Trim([x \in D |-> S(x, Mid)])
Dagger(f) == TLCEval([x \in {<<y[2], y[1]>> : y \in DOMAIN f} |-> Conj(f[<<x[2], x[1]>>])])
(* f (x) g where g acts on a space of dimension d *)
Kron(f, g, d) == TLCEval([x \in {<<p[1] * d + q[1], p[2] * d + q[2]>> : p \in DOMAIN f, q \in DOMAIN g} |->
                    CMul(f[<<x[1] \div d, x[2] \div d>>], g[<<x[1] % d, x[2] % d>>])])
Ident(d) == [x \in {<<i, i>> : i \in 0..(d - 1)} |-> <<1, 0>>]
One == [x \in {<<0, 0>>} |-> <<1, 0>>]
(* tensor product of one operator per site; dims[k] the dimension of site k *)
RECURSIVE ProdFrom(_, _, _, _)
ProdFrom(acc, k, ops, dims) == IF k > Len(ops) THEN acc ELSE ProdFrom(Kron(acc, ops[k], dims[k]), k + 1, ops, dims)
Product(ops, dims) == ProdFrom(One, 1, ops, dims)
(* from a logged list of <<row, column, re, im>> *)
OpOf(list) == TLCEval([x \in {<<list[i][1], list[i][2]>> : i \in 1..Len(list)} |->
                 LET i == CHOOSE i \in 1..Len(list) : list[i][1] = x[1] /\ list[i][2] = x[2] IN <<list[i][3], list[i][4]>>])
(* the logged list is exactly the operator's non-zero elements; avoids quadratic look-ups *)
SameOp(list, f) == /\ Cardinality(DOMAIN f) = Len(list)
                   /\ \A i \in 1..Len(list) : LET x == <<list[i][1], list[i][2]>> IN x \in DOMAIN f /\ f[x] = <<list[i][3], list[i][4]>>
==============================================================================
