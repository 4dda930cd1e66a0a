------------------------- MODULE TraceSymbolicAlgebra ------------------------
EXTENDS SymbolicAlgebra, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
(* operators are logged as a list of <<basis label, coefficient label list>> with strictly increasing basis labels *)
OpOf(p) == [x \in {p[i][1] : i \in 1..Len(p)} |-> BagOf(p[CHOOSE i \in 1..Len(p) : p[i][1] = x][2])]
Post == /\ \A r \in CR : r \notin cf' => co'[r] = BagOf(E.co[r])
        /\ \A r \in OR : r \notin of' => op'[r] = OpOf(E.op[r]) /\ Len(E.op[r]) = Cardinality(DOMAIN op'[r])
(* printing *)
Letters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Caps == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
CSym(x) == IF x = 0 THEN "1" ELSE Letters[x]
OSym(x) == IF x = 0 THEN "Id" ELSE Caps[((x - 1) % 26) + 1] \o (IF x > 26 THEN ToString((x - 1) \div 26) ELSE "")
(* a printed coefficient is logged split at its plus signs, with a flag for the surrounding parentheses *)
PrintedCoef(p, c) == /\ IF c = Null THEN p.parts = <<"0">>
                        ELSE BagOf(p.parts) = FoldFunction(LAMBDA b, acc : acc (+) b, EmptyBag, [x \in DOMAIN c |-> [y \in {CSym(x)} |-> c[x]]])
                     /\ p.paren = (BagCardinality(c) > 1)
PrintedOp(p, o) == IF o = NoOp THEN p = <<[sym |-> "0", coef |-> [paren |-> FALSE, parts |-> <<"">>]]>>
                   ELSE /\ Len(p) = Cardinality(DOMAIN o)
                        /\ \A x \in DOMAIN o : \E i \in 1..Len(p) : p[i].sym = OSym(x) /\ PrintedCoef(p[i].coef, o[x])
NumOp(p, o, num) == IF o = NoOp THEN p = <<[sym |-> "0", num |-> 0]>>
                    ELSE /\ Len(p) = Cardinality(DOMAIN o)
                         /\ \A x \in DOMAIN o : \E i \in 1..Len(p) : p[i].sym = OSym(x) /\ p[i].num = SumVal(o[x], num)
Step ==
  \/ IsEvent("cnew") /\ CNew(E.r, E.ls)
  \/ IsEvent("ccopy") /\ CCopy(E.r, E.s)
  \/ IsEvent("cmove") /\ CMove(E.r, E.s)
  \/ IsEvent("cadd") /\ CAdd(E.r, E.s, E.t)
  \/ IsEvent("caddto") /\ CAddTo(E.r, E.s)
  \/ IsEvent("olabels") /\ OLabels(E.r, E.ls)
  \/ IsEvent("oterm") /\ OTerm(E.r, E.s, E.t)
  \/ IsEvent("opairs") /\ OPairs(E.r, E.cs, E.ls)
  \/ IsEvent("ocopy") /\ OCopy(E.r, E.s)
  \/ IsEvent("oadd") /\ OAdd(E.r, E.s, E.t)
  \/ IsEvent("oaddto") /\ OAddTo(E.r, E.s)
  \/ IsEvent("osplit") /\ OSplit(E.r, E.s, E.t) /\ E.first = TRUE
Observe ==
  \/ IsEvent("ceq") /\ E.eq = CEq(E.r, E.s) /\ E.ne = ~CEq(E.r, E.s) /\ UNCHANGED avars
  \/ IsEvent("oeq") /\ E.eq = OEq(E.r, E.s) /\ E.ne = ~OEq(E.r, E.s) /\ UNCHANGED avars
  \/ IsEvent("creal") /\ E.val = SumVal(co[E.r], E.num) /\ UNCHANGED avars
  \/ IsEvent("oreal") /\ (IF op[E.r] = NoOp THEN E.val = <<>> ELSE E.val = OpValue(op[E.r], E.num, E.mat)) /\ UNCHANGED avars
  \/ IsEvent("cstr") /\ PrintedCoef(E.p, co[E.r]) /\ E.num = SumVal(co[E.r], E.map) /\ UNCHANGED avars
  \/ IsEvent("ostr") /\ PrintedOp(E.p, op[E.r]) /\ PrintedOp(E.stream, op[E.r]) /\ NumOp(E.n, op[E.r], E.map) /\ UNCHANGED avars
TReset == IsEvent("reset") /\ co' = [r \in CR |-> Null] /\ op' = [r \in OR |-> NoOp] /\ cf' = CR /\ of' = OR
TInit == Init /\ l = 1
TNext == TReset \/ (Step /\ Post) \/ Observe
TSpec == TInit /\ [][TNext]_<<avars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
==============================================================================
