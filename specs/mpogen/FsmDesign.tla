------------------------------ MODULE FsmDesign ------------------------------
(* C01, design level: the automaton construction itself (ready / intermediate / final states before every site, one       *)
(* path per term), its projection on matrices, and the exact polynomial the matrices multiply out to. Checked over all     *)
(* term lists within the bounds; every transition is also exported as an implementation test (Export).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bags, SequencesExt, FiniteSetsExt, Json
CONSTANTS N, Labels, Coefs, MaxTerms
VARIABLES mid, ready, final, paths, hist
vars == <<mid, ready, final, paths, hist>>
Sites == 1..N
Nodes == 1..(N + 1)
(* a term: head, tail, coefficient label on the first operator, operator label per covered site *)
Terms == {[h |-> h, t |-> t, c |-> c, o |-> o] :
            h \in Sites, t \in Sites, c \in Coefs, o \in [1..N -> Labels \cup {0}]}
Valid(tm) == /\ tm.h <= tm.t
             /\ \A i \in 1..N : (i > tm.t - tm.h + 1 => tm.o[i] = 0)
             /\ tm.o[1] # 0 /\ tm.o[tm.t - tm.h + 1] # 0
TermSet == {tm \in Terms : Valid(tm)}
OpAt(tm, i) == IF i < tm.h \/ i > tm.t THEN <<0, 0>> ELSE <<IF i = tm.h THEN tm.c ELSE 0, tm.o[i - tm.h + 1]>>
Init == mid = [x \in Nodes |-> 0] /\ ready = [x \in Nodes |-> FALSE] /\ final = [x \in Nodes |-> FALSE]
        /\ paths = <<>> /\ hist = <<>>
State(tm, x, m) == IF x <= tm.h THEN 0 ELSE IF x > tm.t THEN -1 ELSE m[x] + 1
AddPath(tm) ==
  /\ Len(paths) < MaxTerms
  /\ paths' = Append(paths, [nodes |-> [x \in Nodes |-> State(tm, x, mid)], ops |-> [i \in Sites |-> OpAt(tm, i)]])
  /\ mid' = [x \in Nodes |-> IF x > tm.h /\ x <= tm.t THEN mid[x] + 1 ELSE mid[x]]
  /\ ready' = [x \in Nodes |-> ready[x] \/ x <= tm.h]
  /\ final' = [x \in Nodes |-> final[x] \/ x > tm.t]
  /\ hist' = Append(hist, [h |-> tm.h - 1, c |-> tm.c, o |-> SubSeq(tm.o, 1, tm.t - tm.h + 1)])
Next == \E tm \in TermSet : AddPath(tm)
Spec == Init /\ [][Next]_vars
(* matrix element between two states of neighbouring nodes: a bag of <<coefficient, label>> *)
States(x) == (IF ready[x] THEN {0} ELSE {}) \cup (1..mid[x]) \cup (IF final[x] THEN {-1} ELSE {})
IdLane(a, b) == a = b /\ a \in {0, -1}
Elem(i, a, b) ==
  LET ps == {k \in 1..Len(paths) : paths[k].nodes[i] = a /\ paths[k].nodes[i + 1] = b}
  IN IF ps = {} THEN EmptyBag
     ELSE IF IdLane(a, b) THEN SetToBag({paths[k].ops[i] : k \in ps})         \* shared identities count once
     ELSE FoldSet(LAMBDA k, acc : acc (+) SetToBag({paths[k].ops[i]}), EmptyBag, ps)
(* polynomial = bag of <<sorted coefficient labels without the unit, operator string>> *)
Mul(poly, e) == FoldSet(LAMBDA m, acc : FoldSet(LAMBDA q, ac2 :
                   LET key == <<IF q[1] = 0 THEN m[1] ELSE SortSeq(Append(m[1], q[1]), LAMBDA u, w : u < w), Append(m[2], q[2])>>
                       cnt == poly[m] * e[q]
                   IN ac2 (+) [kk \in {key} |-> cnt], acc, DOMAIN e), EmptyBag, DOMAIN poly)
RECURSIVE Reach(_, _)
Reach(x, s) ==   \* polynomial of all runs from the ready state of node 1 to state s of node x
  IF x = 1 THEN (IF s = 0 THEN SetToBag({<< <<>>, <<>> >>}) ELSE EmptyBag)
  ELSE FoldSet(LAMBDA a, acc : acc (+) Mul(Reach(x - 1, a), Elem(x - 1, a, s)), EmptyBag, States(x - 1))
Sum == FoldSet(LAMBDA k, acc : acc (+) SetToBag({<<IF hist[k].c = 0 THEN <<>> ELSE <<hist[k].c>>,
          [i \in Sites |-> IF i - 1 < hist[k].h \/ i - 1 >= hist[k].h + Len(hist[k].o) THEN 0 ELSE hist[k].o[i - hist[k].h]]>>}),
          EmptyBag, 1..Len(hist))
Faithful == paths # <<>> => Reach(N + 1, -1) = Sum
OneEntryOneExit == paths # <<>> => States(1) = {0} /\ States(N + 1) = {-1}
Export == PrintT("EXPORT " \o ToJson([n |-> N, terms |-> hist']))
==============================================================================
