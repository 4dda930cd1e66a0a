-------------------------- MODULE MCSymbolicAlgebra --------------------------
EXTENDS SymbolicAlgebra, Json
CONSTANTS Labels, OpLabels, MaxC, MaxO
VARIABLE prog
L(o) == prog' = Append(prog, o)
SmallC(c) == BagCardinality(c) <= MaxC
SmallO(o) == (Cardinality(DOMAIN o) <= MaxO /\ \A x \in DOMAIN o : BagCardinality(o[x]) <= MaxC)
Bounded == (\A r \in CR : SmallC(co'[r])) /\ (\A r \in OR : SmallO(op'[r]))
MInit == Init /\ prog = <<>>
MCNew == \E r \in CR, s \in {<<>>} \cup {<<x>> : x \in Labels} : CNew(r, s) /\ L(<<"cnew", r, s>>)
MCCopy == \E r, s \in CR : r # s /\ CCopy(r, s) /\ L(<<"ccopy", r, s>>)
MCMove == \E r, s \in CR : CMove(r, s) /\ L(<<"cmove", r, s>>)
MCAdd == \E r, s, t \in CR : CAdd(r, s, t) /\ L(<<"cadd", r, s, t>>)
MCAddTo == \E r, s \in CR : CAddTo(r, s) /\ L(<<"caddto", r, s>>)
MOLabels == \E r \in OR, s \in {<<>>} \cup {<<x>> : x \in OpLabels} \cup {<<x, y>> : x, y \in OpLabels} : OLabels(r, s) /\ L(<<"olabels", r, s>>)
MOTerm == \E r \in OR, c \in CR, x \in OpLabels : OTerm(r, c, x) /\ L(<<"oterm", r, c, x>>)
MOCopy == \E r, s \in OR : r # s /\ OCopy(r, s) /\ L(<<"ocopy", r, s>>)
MOAdd == \E r, s, t \in OR : OAdd(r, s, t) /\ L(<<"oadd", r, s, t>>)
MOAddTo == \E r, s \in OR : OAddTo(r, s) /\ L(<<"oaddto", r, s>>)
MOSplit == \E r, s \in OR, c \in CR : OSplit(r, c, s) /\ L(<<"osplit", r, c, s>>)
MNext == MCNew \/ MCCopy \/ MCMove \/ MCAdd \/ MCAddTo \/ MOLabels \/ MOTerm \/ MOCopy \/ MOAdd \/ MOAddTo \/ MOSplit
MSpec == MInit /\ [][MNext]_<<avars, prog>>
Export == Bounded /\ PrintT("EXPORT " \o ToJson(prog'))
View == avars
Cs == {co[r] : r \in {x \in CR : HasC(x)}}
Os == {op[r] : r \in {x \in OR : HasO(x)}}
(* the algebra behind the denotation: commutative sums, multiplicity matters, splitting loses nothing *)
Laws == /\ \A a, b \in Cs : a (+) b = b (+) a /\ (a # Null => a (+) b # b)
        /\ \A a, b \in Os : Plus(a, b) = Plus(b, a) /\ (a # NoOp => Plus(a, b) # b)
        /\ \A o \in Os : Recombine(Separate(o)) = o /\ (\A x \in DOMAIN o : o[x] # Null)
        /\ \A o \in Os : Separate(Separate(o)[2])[2] = Separate(o)[2]
==============================================================================
