------------------------------- MODULE MCLanczos -------------------------------
(* C21, design: the Krylov iteration of the local solvers and who owns which vector at every moment.                          *)
(* The start lies in an invariant subspace of dimension kd; at most lim vectors may be used; conv = n: the stop rule fires    *)
(* for the first time after n vectors (0: never). Vector 0 is the start handed over by the caller, vector k the k-th basis    *)
(* vector, "image" the last product, "result" what the caller gets, "mix"/"mix2" the coefficient buffers.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDim, MaxLim
VARIABLES kind, kd, lim, conv, pc, n, live, freed, used, imgOf, out
vars == <<kind, kd, lim, conv, pc, n, live, freed, used, imgOf, out>>
Kinds == {"two", "one", "dmrg", "exp2", "exp1"}
Exp == kind \in {"exp2", "exp1"}
Least(a, b) == IF a < b THEN a ELSE b
Basis(k) == <<"basis", k>>
Image == <<"image", 0>>
Result == <<"result", 0>>
Buffers == IF Exp THEN {<<"mix", 1>>, <<"mix", 2>>} ELSE {}
Init == /\ kind \in Kinds /\ kd \in 1..MaxDim /\ lim \in 1..MaxLim
        /\ conv \in {0} \cup 2..Least(kd, lim)
        /\ pc = "start" /\ n = 0 /\ live = {Basis(0)} /\ freed = {} /\ used = {} /\ imgOf = -1 /\ out = 0
Keep == UNCHANGED <<kind, kd, lim, conv>>
(* the start is normalised in place and multiplied *)
Begin == /\ pc = "start" /\ used' = {Basis(0)} /\ live' = live \cup {Image} \cup Buffers /\ n' = 1 /\ imgOf' = 0 /\ pc' = "reduce"
         /\ Keep /\ UNCHANGED <<freed, out>>
(* the product loses its components along the last two basis vectors; what is left decides *)
Reduce(next) == /\ used' = {Image, Basis(n - 1)} \cup (IF n > 1 THEN {Basis(n - 2)} ELSE {}) /\ pc' = next /\ Keep /\ UNCHANGED <<n, live, freed, imgOf, out>>
Exhausted == pc = "reduce" /\ n = kd /\ Reduce("combine")
Limit == pc = "reduce" /\ n < kd /\ n = lim /\ Reduce("combine")
Extend == pc = "reduce" /\ n < kd /\ n < lim /\ Reduce("extend")
(* the remainder becomes the next basis vector and is multiplied *)
Multiply == /\ pc = "extend" /\ n' = n + 1 /\ live' = (live \ {Image}) \cup {Basis(n), Image} /\ used' = {Basis(n)} /\ imgOf' = n /\ pc' = "estimate"
            /\ Keep /\ UNCHANGED <<freed, out>>
Converged == /\ pc = "estimate" /\ (n = conv \/ n = lim) /\ pc' = "combine" /\ used' = {} /\ Keep /\ UNCHANGED <<n, live, freed, imgOf, out>>
Continue == /\ pc = "estimate" /\ n # conv /\ n # lim /\ pc' = "reduce" /\ used' = {} /\ Keep /\ UNCHANGED <<n, live, freed, imgOf, out>>
Combine == /\ pc = "combine" /\ used' = {Basis(k) : k \in 0..(n - 1)} \cup Buffers /\ live' = live \cup {Result} /\ out' = n /\ pc' = "release"
           /\ Keep /\ UNCHANGED <<n, freed, imgOf>>
Release == /\ pc = "release" /\ \E v \in live \ {Result} : live' = live \ {v} /\ freed' = freed \cup {v}
           /\ used' = {} /\ Keep /\ UNCHANGED <<pc, n, imgOf, out>>
Return == /\ pc = "release" /\ live = {Result} /\ pc' = "done"
          /\ PrintT("EXPORT " \o ToJson([kind |-> kind, kd |-> kd, lim |-> lim, stop |-> conv]))
          /\ used' = {} /\ Keep /\ UNCHANGED <<n, live, freed, imgOf, out>>
Next == Begin \/ Exhausted \/ Limit \/ Extend \/ Multiply \/ Converged \/ Continue \/ Combine \/ Release \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ---- properties ---- *)
NoUseAfterFree == used \cap freed = {}
FreedOnce == live \cap freed = {}
WithinLimit == n <= lim /\ n <= kd
OnlyResult == pc = "done" => live = {Result}
Everything == pc = "done" => Cardinality(freed) = n + 1 + Cardinality(Buffers)
(* the last product belongs to the last basis vector *)
Fresh == pc = "reduce" => imgOf = n - 1
Stops == pc = "done" => out = Least(IF conv = 0 THEN kd ELSE conv, Least(kd, lim))
Terminates == <>(pc = "done")
================================================================================
