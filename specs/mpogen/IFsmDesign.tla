------------------------------ MODULE IFsmDesign -----------------------------
(* C06, design level: the periodic automaton with prefix sharing. A term walks along links that already carry its operators *)
(* (never through the final state), then opens new intermediate states, and ends in the final state. The bag of operator    *)
(* strings of all runs from ready to final across a window must be the bag of all translates of the terms in the window.    *)
EXTENDS Integers, Sequences, FiniteSets, Bags, FiniteSetsExt, SequencesExt, TLC, Json
CONSTANTS U, Labels, Coefs, MaxLen, MaxTerms, MaxWin
VARIABLES mid, links, hist
vars == <<mid, links, hist>>
Sites == 0..(U - 1)
Op(c, x) == <<c, x>>
Id == Op(0, 0)
Lens == 2..MaxLen
Nontriv == {Op(c, x) : c \in {0}, x \in Labels}
Heads == {Op(c, x) : c \in Coefs, x \in Labels}
Terms == {[h |-> h, o |-> o] : h \in Sites, o \in UNION {[1..n -> Heads \cup Nontriv \cup {Id}] : n \in Lens}}
ValidTerm(t) == /\ t.o[1] \in Heads /\ t.o[Len(t.o)] \in Nontriv
                /\ \A i \in 2..Len(t.o) : t.o[i] \in Nontriv \cup {Id}
TermSet == {t \in Terms : ValidTerm(t)}
Ready == 0
Final == -1
Nx(s) == (s + 1) % U
(* links: set of <<site, state, operator, next state>> *)
Init == mid = [s \in Sites |-> 0] /\ hist = <<>>
        /\ links = {<<s, Ready, Id, Ready>> : s \in Sites} \cup {<<s, Final, Id, Final>> : s \in Sites}
RECURSIVE Walk(_, _, _, _, _)
(* returns <<links, mid>> after inserting operators o[i..] starting in state st of site s *)
Walk(o, i, s, st, acc) ==
  IF i = Len(o) THEN <<acc[1] \cup {<<s, st, o[i], Final>>}, acc[2]>>
  ELSE LET old == {k \in acc[1] : k[1] = s /\ k[2] = st /\ k[3] = o[i] /\ k[4] # Final}
       IN IF old # {} THEN Walk(o, i + 1, Nx(s), (CHOOSE k \in old : TRUE)[4], acc)
          ELSE LET new == acc[2][Nx(s)] + 1
               IN Walk(o, i + 1, Nx(s), new, <<acc[1] \cup {<<s, st, o[i], new>>}, [acc[2] EXCEPT ![Nx(s)] = new]>>)
Fresh(t) == \A i \in 1..Len(hist) : hist[i] # t
AddPath(t) ==
  /\ Len(hist) < MaxTerms /\ Fresh(t)
  /\ LET w == Walk(t.o, 1, t.h, Ready, <<links, mid>>) IN links' = w[1] /\ mid' = w[2]
  /\ hist' = Append(hist, t)
Next == \E t \in TermSet : AddPath(t)
Spec == Init /\ [][Next]_vars
RECURSIVE Runs(_, _, _)
Runs(i, n, st) ==      \* strings of all runs of length n starting at site i in state st and ending in Final
  IF n = 0 THEN (IF st = Final THEN SetToBag({<<>>}) ELSE EmptyBag)
  ELSE FoldSet(LAMBDA k, acc : acc (+) LET r == Runs(Nx(i), n - 1, k[4]) IN [x \in {<<k[3]>> \o y : y \in DOMAIN r} |-> r[Tail(x)]],
               EmptyBag, {k \in links : k[1] = i /\ k[2] = st})
Pad(n) == [i \in 1..n |-> Id]
Fits(t, c, n) == c * U + t.h + Len(t.o) <= n
Translates(n) ==
  FoldSet(LAMBDA p, acc : LET t == hist[p[1]] a == p[2] * U + t.h IN
            IF Fits(t, p[2], n) THEN acc (+) SetToBag({Pad(a) \o t.o \o Pad(n - a - Len(t.o))}) ELSE acc,
          EmptyBag, (1..Len(hist)) \X (0..(MaxWin - 1)))
Faithful == \A w \in 1..MaxWin : Runs(0, w * U, Ready) = Translates(w * U)
Monotone == [][links \subseteq links']_vars
Export == PrintT("EXPORT " \o ToJson([u |-> U, terms |-> hist']))
==============================================================================
