--------------------------- MODULE SymbolicAlgebra ---------------------------
(* C02. Registers holding symbolic coefficients and symbolic operators; one action per public operation.                  *)
(* Denotation: a coefficient is a bag of labels (label 0 is the number one); an operator maps each basis label it contains  *)
(* to a non-empty coefficient. Everything observable is a function of the denotation.                                      *)
EXTENDS Integers, Sequences, FiniteSets, Bags, SequencesExt, Functions, TLC
CONSTANTS CR, OR       \* coefficient and operator register names (1..n)
VARIABLES co, op,      \* register contents
          cf, of       \* registers whose contents are unspecified (never assigned or moved from)
avars == <<co, op, cf, of>>
BagOf(s) == FoldLeft(LAMBDA b, x : b (+) SetToBag({x}), EmptyBag, s)
NoOp == <<>>           \* the empty operator: no basis label
Null == EmptyBag
One == SetToBag({0})
Plus(a, b) == [x \in DOMAIN a \cup DOMAIN b |->
                 IF x \in DOMAIN a THEN (IF x \in DOMAIN b THEN a[x] (+) b[x] ELSE a[x]) ELSE b[x]]
Single(c, x) == [y \in {x} |-> c]
(* list of coefficient/label pairs: repeated labels add up *)
FromPairs(cs, ls) == FoldLeft(LAMBDA acc, i : Plus(acc, Single(cs[i], ls[i])), NoOp, [i \in 1..Len(ls) |-> i])
Coefs(o) == {o[x] : x \in DOMAIN o}
(* common coefficient: unique when all labels carry the same one *)
Separate(o) == IF DOMAIN o = {} THEN <<Null, NoOp>>
               ELSE IF Cardinality(Coefs(o)) = 1 THEN <<CHOOSE c \in Coefs(o) : TRUE, [x \in DOMAIN o |-> One]>>
               ELSE <<One, o>>
Scale(c, o) == [x \in DOMAIN o |-> IF o[x] = One THEN c ELSE o[x]]   \* product with an all-one operator, or by one
Recombine(p) == IF p[1] = One THEN p[2] ELSE Scale(p[1], p[2])
SumVal(c, num) == FoldFunction(LAMBDA x, y : x + y, 0, [l \in DOMAIN c |-> c[l] * num[l + 1]])
OpValue(o, num, mat) == \* componentwise: basis operators are integer vectors
  [k \in 1..Len(mat[1]) |-> FoldFunction(LAMBDA x, y : x + y, 0, [l \in DOMAIN o |-> SumVal(o[l], num) * mat[l + 1][k]])]
Init == co = [r \in CR |-> Null] /\ op = [r \in OR |-> NoOp] /\ cf = CR /\ of = OR
SetC(r, v) == co' = [co EXCEPT ![r] = v] /\ cf' = cf \ {r} /\ UNCHANGED <<op, of>>
SetO(r, v) == op' = [op EXCEPT ![r] = v] /\ of' = of \ {r} /\ UNCHANGED <<co, cf>>
HasC(r) == r \notin cf
HasO(r) == r \notin of
CNew(r, labels) == SetC(r, BagOf(labels))
CCopy(r, s) == HasC(s) /\ SetC(r, co[s])
CMove(r, s) == HasC(s) /\ r # s /\ co' = [co EXCEPT ![r] = co[s], ![s] = Null] /\ cf' = (cf \ {r}) \cup {s} /\ UNCHANGED <<op, of>>
CAdd(r, s, t) == HasC(s) /\ HasC(t) /\ SetC(r, co[s] (+) co[t])
CAddTo(r, s) == HasC(r) /\ HasC(s) /\ SetC(r, co[r] (+) co[s])
OLabels(r, ls) == SetO(r, FromPairs([i \in 1..Len(ls) |-> One], ls))
OTerm(r, c, x) == HasC(c) /\ co[c] # Null /\ SetO(r, Single(co[c], x))
OPairs(r, cs, ls) == (\A i \in 1..Len(cs) : HasC(cs[i]) /\ co[cs[i]] # Null) /\ SetO(r, FromPairs([i \in 1..Len(cs) |-> co[cs[i]]], ls))
OCopy(r, s) == HasO(s) /\ SetO(r, op[s])
OAdd(r, s, t) == HasO(s) /\ HasO(t) /\ SetO(r, Plus(op[s], op[t]))
OAddTo(r, s) == HasO(r) /\ HasO(s) /\ SetO(r, Plus(op[r], op[s]))
OSplit(r, c, s) == HasO(s) /\ co' = [co EXCEPT ![c] = Separate(op[s])[1]] /\ op' = [op EXCEPT ![r] = Separate(op[s])[2]]
                   /\ cf' = cf \ {c} /\ of' = of \ {r}
(* observers *)
CEq(r, s) == co[r] = co[s]
OEq(r, s) == op[r] = op[s]
==============================================================================
