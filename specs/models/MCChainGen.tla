----------------------------- MODULE MCChainGen ------------------------------
(* every short list of terms over a two-level alphabet, added through all forms of the interface; one program per transition *)
EXTENDS ChainGen, Json
CONSTANTS Len0, MaxTerms
VARIABLE prog
E1(r, c, v) == [x \in {<<r, c>>} |-> <<v, 0>>]
Z == [x \in {<<0, 0>>, <<1, 1>>} |-> IF x[1] = 0 THEN <<1, 0>> ELSE <<-1, 0>>]
Lib == [i |-> Ident(2), z |-> Z, m |-> OpScale(<<-1, 0>>, Z), p |-> E1(0, 1, 1), q |-> E1(1, 0, 1), w |-> E1(1, 0, -2)]
Charge == [i |-> 0, z |-> 0, m |-> 0, p |-> 1, q |-> -1, w |-> -1]
Ops(k) == {o \in [1..k -> DOMAIN Lib] : \E s \in {0} : LET t == [j \in 1..k |-> Charge[o[j]]] IN
             (k = 1 => t[1] = 0) /\ (k = 2 => t[1] + t[2] = 0)}
Coefs == {<<1, 0>>, <<-2, 0>>}
Few == Len(prog) < MaxTerms
R(o) == [j \in 1..Len(o) |-> Lib[o[j]]]
P(x) == prog' = Append(prog, x)
MInit == dims = [s \in 1..Len0 |-> 2] /\ H = OpZero /\ prog = <<>>
One1 == Few /\ \E c \in Coefs, a \in 0..(Len0 - 1), o \in Ops(1) : Add(c, Plain(R(o), <<a>>)) /\ P([n |-> Len0, f |-> "one", c |-> c[1], o |-> o, s |-> <<a>>])
Two == Few /\ \E c \in Coefs, a, b \in 0..(Len0 - 1), o \in Ops(2) : a # b /\ Add(c, Plain(R(o), <<a, b>>)) /\ P([n |-> Len0, f |-> "two", c |-> c[1], o |-> o, s |-> <<a, b>>])
Str == Few /\ \E c \in Coefs, a, b \in 0..(Len0 - 1), o \in Ops(2) : a < b /\ Add(c, WithStrings(R(o), <<a, b>>, <<Z>>, <<>>)) /\ P([n |-> Len0, f |-> "str", c |-> c[1], o |-> o, s |-> <<a, b>>])
Tail2 == Few /\ \E c \in Coefs, a, b \in 0..(Len0 - 1), o \in Ops(2) : a < b /\ Add(c, WithStrings(R(o), <<a, b>>, <<Z, Z>>, <<>>)) /\ P([n |-> Len0, f |-> "tail", c |-> c[1], o |-> o, s |-> <<a, b>>])
MNext == One1 \/ Two \/ Str \/ Tail2
MSpec == MInit /\ [][MNext]_<<gvars, prog>>
View == <<H, Len(prog)>>
Export == PrintT("EXPORT " \o ToJson(prog'))
(* what a generator must satisfy whatever its terms: a neutral Hamiltonian never changes the number of raised sites *)
Bits(n) == LET RECURSIVE B(_) B(m) == IF m = 0 THEN 0 ELSE (m % 2) + B(m \div 2) IN B(n)
Neutral == \A x \in DOMAIN H : Bits(x[1]) = Bits(x[2])
(* only the set of placements matters: the same term given in the opposite order is the same term *)
OrderFree == \A a, b \in 0..(Len0 - 1) : a < b => Term(<<3, 0>>, <<<<a, Lib["p"]>>, <<b, Lib["q"]>>>>) = Term(<<3, 0>>, <<<<b, Lib["q"]>>, <<a, Lib["p"]>>>>)
==============================================================================
