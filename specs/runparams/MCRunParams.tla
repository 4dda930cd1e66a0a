----------------------------- MODULE MCRunParams -----------------------------
(* every constructor with every number of optional arguments, and copies/assignments/edits between the objects *)
EXTENDS RunParams, Json
CONSTANTS Names, MaxOps
VARIABLE prog
MDef == [error |-> "e*", max_iter |-> "n*", mps |-> "m*", temp |-> "t*", initial |-> "i*", measure |-> "s*",
         max_noise |-> "x*", increase |-> "u*", decrease |-> "d*", alpha |-> "a*"]
Op(o) == prog' = Append(prog, o)
Few == Len(prog) < MaxOps
O(k) == SubSeq(<<"o1", "o2", "o3", "o4", "o5", "o6">>, 1, k)
LZ == <<"l1", "l2">>
Noises == {<<>>, <<"z">>, <<"z", "z">>, <<"p">>, <<"z", "p">>, <<"p", "z">>, <<"z", "z", "q">>}
MInit == objs = <<>> /\ prog = <<>>
MLanczos == Few /\ \E n \in Names, k \in 0..2 : MakeLanczos(n, O(k)) /\ Op(<<"lanczos", n, k, 0, <<>>>>)
MPlain == Few /\ \E n \in Names, k \in 0..2 : MakePlain(n, <<"a1", "a2", "a3", "a4">>, LZ, O(k)) /\ Op(<<"plain", n, k, 0, <<>>>>)
MNoisy == Few /\ \E n \in Names, k \in 0..6, ns \in Noises : MakeNoisy(n, <<"a1", "a2", "a3", "a4">>, LZ, ns, O(k)) /\ Op(<<"noisy", n, k, 0, ns>>)
MEvolve == Few /\ \E n \in Names, k \in 0..4 : MakeEvolve(n, <<"b1", "b2", "b3", "b4", "b5", "b6", "b7">>, <<"w", "x", "y", "v">>, LZ, O(k)) /\ Op(<<"evolve", n, k, 0, <<>>>>)
MCopy == Few /\ \E n, m \in Names : Copy(n, m) /\ Op(<<"copy", n, 0, m, <<>>>>)
MAssign == Few /\ \E n, m \in Names : Assign(n, m) /\ Op(<<"assign", n, 0, m, <<>>>>)
MConvert == Few /\ \E n, m \in Names : Convert(n, m) /\ Op(<<"convert", n, 0, m, <<>>>>)
MSetTrunc == Few /\ \E n \in Names : SetTrunc(n, "c1") /\ Op(<<"settrunc", n, 0, 0, <<>>>>)
MSetError == Few /\ \E n \in Names : SetError(n, "c2") /\ Op(<<"seterror", n, 0, 0, <<>>>>)
MNext == MLanczos \/ MPlain \/ MNoisy \/ MEvolve \/ MCopy \/ MAssign \/ MConvert \/ MSetTrunc \/ MSetError
MSpec == MInit /\ [][MNext]_<<objs, prog>>
View == <<objs, Len(prog)>>
Export == PrintT("EXPORT " \o ToJson(prog'))
Independent == [][\A n \in DOMAIN objs : objs'[n] # objs[n] => prog'[Len(prog')][2] = n]_objs
==============================================================================
