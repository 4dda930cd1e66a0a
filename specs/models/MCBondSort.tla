----------------------------- MODULE MCBondSort ------------------------------
(* The passage from the symbolic chain to symmetric tensors: going from left to right the columns of each matrix are       *)
(* reordered so that equal charges are adjacent, and the rows of the next matrix are reordered in the same way. The        *)
(* represented set of words never changes, equal charges are adjacent on every bond already treated, and every entry obeys *)
(* charge conservation with the charges of its bonds. Chains: any 3 matrices over letters of charge +1, 0, -1 whose words   *)
(* are all neutral.                                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ms,     \* three matrices of sets of letters: 1 x A, A x B, B x 1
          at,     \* next bond to treat: 1, 2 or 3
          qs      \* charges of the columns of bond 1 and 2
Letters == {"i", "p", "q"}
Charge == [i |-> 0, p |-> 1, q |-> -1]
CONSTANTS A, B
Mat(r, c) == [1..r -> [1..c -> SUBSET Letters]]
Words(m) == {<<x, y, z>> \in Letters \X Letters \X Letters : \E a \in 1..A, b \in 1..B : x \in m[1][1][a] /\ y \in m[2][a][b] /\ z \in m[3][b][1]}
(* charge that a column must carry: that of the words up to it *)
Q1(m, a) == IF m[1][1][a] = {} THEN 0 ELSE Charge[CHOOSE x \in m[1][1][a] : TRUE]
Q2(m, b) == LET S == {<<a, y>> \in (1..A) \X Letters : m[1][1][a] # {} /\ y \in m[2][a][b]} IN IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN Q1(m, s[1]) + Charge[s[2]]
Ok(m) == /\ \A a \in 1..A : \A x, y \in m[1][1][a] : Charge[x] = Charge[y]
         /\ \A b \in 1..B : \A a \in 1..A : \A y \in m[2][a][b] : Q1(m, a) + Charge[y] = Q2(m, b)
         /\ \A b \in 1..B : \A z \in m[3][b][1] : Q2(m, b) + Charge[z] = 0
VARIABLE words
Init == /\ at = 1 /\ qs = <<<<>>, <<>>>>
        /\ \E f \in [1..A -> {{"i"}, {"p"}, {"q"}}], g \in [1..A -> [1..B -> {{}, {"i"}, {"p"}, {"q"}}]], h \in [1..B -> {{"i"}, {"p"}, {"q"}}] :
             ms = <<<<f>>, g, [b \in 1..B |-> <<h[b]>>]>> /\ (\A a \in 1..A : \E b \in 1..B : g[a][b] # {}) /\ (\A b \in 1..B : \E a \in 1..A : g[a][b] # {})
        /\ Ok(ms) /\ words = Words(ms)
Perms(n) == {p \in [1..n -> 1..n] : \A x, y \in 1..n : x # y => p[x] # p[y]}
Grouped(q) == \A x, y, z \in 1..Len(q) : (x < y /\ y < z /\ q[x] = q[z]) => q[y] = q[x]
Sort1 == /\ UNCHANGED words /\ at = 1 /\ \E p \in Perms(A) :
              LET q == [a \in 1..A |-> Q1(ms, p[a])] IN
              /\ Grouped(q) /\ qs' = <<q, <<>>>> /\ at' = 2
              /\ ms' = <<<<[a \in 1..A |-> ms[1][1][p[a]]]>>, [a \in 1..A |-> ms[2][p[a]]], ms[3]>>
Sort2 == /\ UNCHANGED words /\ at = 2 /\ \E p \in Perms(B) :
              LET q == [b \in 1..B |-> Q2(ms, p[b])] IN
              /\ Grouped(q) /\ qs' = <<qs[1], q>> /\ at' = 3
              /\ ms' = <<ms[1], [a \in 1..A |-> [b \in 1..B |-> ms[2][a][p[b]]]], [b \in 1..B |-> ms[3][p[b]]]>>
Next == Sort1 \/ Sort2
Spec == Init /\ [][Next]_<<ms, at, qs, words>>
Same == Words(ms) = words
Conserved == /\ at > 1 => \A a \in 1..A : \A x \in ms[1][1][a] : Charge[x] = qs[1][a]
             /\ at > 2 => \A a \in 1..A, b \in 1..B : \A y \in ms[2][a][b] : qs[1][a] + Charge[y] = qs[2][b]
             /\ at > 2 => \A b \in 1..B : \A z \in ms[3][b][1] : qs[2][b] + Charge[z] = 0
==============================================================================
