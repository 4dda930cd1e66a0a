----------------------------- MODULE MCStatePrep -------------------------------
(* Programs: start from a product state, add further ones, truncate bond after bond.                                       *)
EXTENDS StatePrep, Json
CONSTANTS Dims, Family, Weights, MaxTerms, Limits, Errs
VARIABLES prog, bond, lim, lost, psi0
vars == <<dims, psi, prog, bond, lim, lost, psi0>>
D4 == <<2, 2, 2, 2>>
D6 == <<2, 2, 3, 2, 2>>
L1 == {<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<4, 2>>}
L2 == L1 \cup {<<3, 3>>, <<6, 4>>}
(* families of configurations whose sums split into rank-one blocks across every bond: the right half mirrors the left one *)
Mirrored == {lab \in [1..Len(Dims) -> 0..2] : \A i \in 1..Len(Dims) : lab[i] < Dims[i] /\ lab[i] = (IF Family = "flip" THEN (IF 2 * i <= Len(Dims) THEN lab[i] ELSE IF 2 * i = Len(Dims) + 1 THEN 0 ELSE 1 - lab[Len(Dims) + 1 - i])
                                                                              ELSE IF 2 * i <= Len(Dims) + 1 THEN lab[i] ELSE lab[Len(Dims) + 1 - i])}
Mirrors == TLCEval(Mirrored)
Configs == {[i \in 1..Len(Dims) |-> lab[i]] : lab \in Mirrors}
Terms(v) == Cardinality(DOMAIN v)
Init == dims = Dims /\ psi = <<>> /\ prog = <<>> /\ bond = 0 /\ lim = <<0, 0, 0>> /\ lost = 0 /\ psi0 = <<>>
Product == /\ psi = <<>>
           /\ \E lab \in Configs : psi' = Basis(lab) /\ prog' = <<<<"product", lab, 1>>>>
           /\ UNCHANGED <<dims, bond, lim, lost, psi0>>
Add == /\ psi # <<>> /\ bond = 0 /\ Terms(psi) < MaxTerms
       /\ \E lab \in Configs, w \in Weights : LET u == Number(lab) :> <<w, 0>> IN
            (\A x \in DOMAIN psi : x < Number(lab)) /\ psi' = Plus(psi, u) /\ prog' = Append(prog, <<"add", lab, w>>)
       /\ UNCHANGED <<dims, bond, lim, lost, psi0>>
Start == /\ psi # <<>> /\ bond = 0
         /\ \E x \in Limits, e \in Errs : lim' = <<x[1], x[2], e>> /\ prog' = Append(prog, <<"truncate", <<x[1], x[2], e>>, 0>>)
         /\ bond' = 1 /\ psi0' = psi /\ UNCHANGED <<dims, psi, lost>>
Cut == /\ bond > 0 /\ bond < Len0
       /\ Assert(Splits(psi, DOMAIN psi, bond), "family not split")
       /\ \E d \in 1..lim[1] : d <= Cardinality(Blocks(DOMAIN psi, bond)) /\ \E R \in Trunc(psi, DOMAIN psi, bond, d, lim[1], lim[2], lim[3]) :
             psi' = Restrict(psi, R) /\ lost' = (IF R = DOMAIN psi THEN lost ELSE 1)
       /\ bond' = bond + 1 /\ UNCHANGED <<dims, lim, prog, psi0>>
Next == Product \/ Add \/ Start \/ Cut
Spec == Init /\ [][Next]_vars
View == <<psi, bond, lim, lost, psi0>>
Export == prog' # prog => PrintT("EXPORT " \o ToJson([dims |-> Dims, prog |-> prog']))
(* ---- design properties ---- *)
NeverEmpty == bond > 0 => psi # <<>>
Cuttable == \A d \in 1..1 : bond > 0 /\ bond < Len0 => \E k \in 1..lim[1] : Trunc(psi, DOMAIN psi, bond, k, lim[1], lim[2], lim[3]) # {}
(* cut bonds stay within the limit: later cuts never raise an earlier bond's rank *)
Bounded == \A b \in 1..(bond - 1) : Cardinality(Blocks(DOMAIN psi, b)) <= lim[1]
ExactIfRoom == bond = Len0 /\ lim[3] = 0 /\ (\A b \in 1..(Len0 - 1) : Cardinality(Blocks(DOMAIN psi0, b)) <= lim[1]) => psi = psi0
OnlyRestricts == bond > 0 => \A x \in DOMAIN psi : x \in DOMAIN psi0 /\ psi[x] = psi0[x]
(* every cut keeps at least the share of the heaviest min(dmax, rank) blocks of the uncut state, or all but err of it *)
Fidelity == bond > 0 /\ lim[1] >= 1 => LET bs == {WeightOf(psi0, B) : B \in Blocks(DOMAIN psi0, 1)} IN bond = 2 => \A w \in bs : WeightOf(psi, DOMAIN psi) >= w
================================================================================
