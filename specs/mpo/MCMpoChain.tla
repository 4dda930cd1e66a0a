------------------------------ MODULE MCMpoChain -------------------------------
(* All histories within the bounds; every transition is exported as a program for the real code.                          *)
EXTENDS MpoChain, Json
CONSTANTS MaxLen, MaxDeg, MaxC
VARIABLE prog
Op(o) == Len(prog) < MaxLen /\ prog' = Append(prog, o)
Small(p) == Len(p) <= MaxDeg + 1 /\ \A k \in 1..Len(p) : p[k] \in (0 - MaxC)..MaxC
MInit == Init /\ prog = <<>>
MCentralize == \E c \in Sites : Centralize(c) /\ Op(<<"centralize", c, 0>>)
MLeft == \E i \in Sites : Left(i) /\ Op(<<"left", i, 0>>)
MRight == \E i \in Sites : Right(i) /\ Op(<<"right", i, 0>>)
MOne == \/ \E i \in Sites : LeftOne(i) /\ Op(<<"left1", i, 0>>)
        \/ \E i \in Sites : RightOne(i) /\ Op(<<"right1", i, 0>>)
MWrite == \E i \in Sites : Write(i, -2) /\ Small(val') /\ Op(<<"write", i, -2>>)
MScale == \E f \in {-1, 2} : Scale(f) /\ Small(val') /\ Op(<<"scale", f, 0>>)
MAllScale == AllScale(-1) /\ Op(<<"allscale", -1, 0>>)
MNormalize == Normalize /\ Op(<<"normalize", 0, 0>>)
MTrace == Trace /\ Op(<<"trace", 0, 0>>)
MAdd == \E s \in 0..1 : Add(IF s = 0 THEN H ELSE val) /\ Small(val') /\ Op(<<"add", s, 0>>)
MProduct == \E s \in 0..1, w \in {"simple", "product"} : Product(IF s = 0 THEN H ELSE val) /\ val # <<0>> /\ Small(val') /\ Op(<<w, s, 0>>)
MFit == \E s \in 0..1 : Fit(IF s = 0 THEN H ELSE val) /\ val # <<0>> /\ Small(val') /\ Op(<<"fit", s, 0>>)
MSquare == \E w \in {"square", "squarenorm"} : (IF w = "square" THEN Square ELSE SquareNorm) /\ val # <<0>> /\ Small(val') /\ Op(<<w, 0, 0>>)
MTruncate == val # <<0>> /\ Truncate /\ Op(<<"truncate", 0, 0>>)
MIdentity == Identity /\ Op(<<"identity", 0, 0>>)
MCopied == \E w \in {"copy", "move"}, v \in 0..1 : Copied /\ Op(<<w, v, 0>>)
MConverted == Converted /\ Op(<<"convert", 0, 0>>)
MDump == Dump /\ Op(<<"dump", 0, 0>>)
MLoad == \E v \in 0..1 : Load /\ Op(<<"load", v, 0>>)
MReload == \E i \in Sites : Reload(i) /\ Op(<<"reload", i, 0>>)
MNext == MCentralize \/ MLeft \/ MRight \/ MOne \/ MWrite \/ MScale \/ MAllScale \/ MNormalize \/ MTrace \/ MAdd \/ MProduct \/ MFit \/ MSquare \/ MTruncate
         \/ MIdentity \/ MCopied \/ MConverted \/ MDump \/ MLoad \/ MReload
MSpec == MInit /\ [][MNext]_<<cvars, prog>>
View == cvars
Export == prog' # prog => PrintT("EXPORT " \o ToJson([n |-> N, prog |-> prog']))
================================================================================
