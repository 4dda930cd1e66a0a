------------------------------ MODULE MCMpsCanon ------------------------------
(* All histories within the bounds; every transition is exported: a shortest program to its source state, then the step.   *)
EXTENDS MpsCanon, Json
CONSTANTS MaxLen, MaxK
VARIABLE prog
Op(o) == Len(prog) < MaxLen /\ prog' = Append(prog, o)
Abs(x) == IF x < 0 THEN -x ELSE x
Room(f) == Abs(k * f) <= MaxK
MInit == Init /\ prog = <<>>
MCentralize == \E c \in Sites : Centralize(c) /\ Op(<<"centralize", c, 0>>)
MLeft == \E i \in Sites : Left(i) /\ Op(<<"left", i, 0>>)
MRight == \E i \in Sites : Right(i) /\ Op(<<"right", i, 0>>)
MLeftOne == \E i \in Sites : LeftOne(i) /\ Op(<<"left1", i, 0>>)
MRightOne == \E i \in Sites, v \in 0..1 : RightOne(i) /\ Op(<<"right1", i, v>>)
MReplace == \E i \in Sites, w \in {"write", "load", "realloc"} : Room(-2) /\ Replace(i, -2) /\ Op(<<w, i, -2>>)
MReload == \E i \in Sites, v \in 0..1 : Reload(i) /\ Op(<<"reload", i, v>>)
MCopied == \E w \in {"copy", "move"}, v \in 0..1 : Copied /\ Op(<<w, v, 0>>)
MReverse == ~rev /\ Reverse /\ Op(<<"reverse", 0, 0>>)
MEntropy == ~rev /\ \E n \in 1..2 : Entropy /\ Op(<<"entropy", n, 0>>)
MTruncate == ~rev /\ Truncate /\ Op(<<"truncate", 0, 0>>)
MAdded == ~rev /\ Room(2) /\ \E i \in {0, N - 1} : Added(1) /\ Op(<<"add", i, 1>>)
MNext == MCentralize \/ MLeft \/ MRight \/ MLeftOne \/ MRightOne \/ MReplace \/ MReload \/ MCopied \/ MReverse \/ MEntropy \/ MTruncate \/ MAdded
MSpec == MInit /\ [][MNext]_<<cvars, prog>>
View == cvars
Export == PrintT("EXPORT " \o ToJson([n |-> N, prog |-> prog']))
(* a claim never appears for a tensor that was not touched by an operation making it *)
================================================================================
