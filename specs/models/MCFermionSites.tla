---------------------------- MODULE MCFermionSites ---------------------------
(* Consistency of the definitions: local commutation and anticommutation relations, and: the named operators joined by the *)
(* parity string reproduce the electron operators of the whole chain, for every pair of sites. Systems are built up by      *)
(* adding builder terms; H stays Hermitian and conserves particle number and spin.                                          *)
EXTENDS FermionSites
CONSTANTS NS, MaxTerms
VARIABLES model, H, k
vars == <<model, H, k>>
Basis(m) == CASE m = "spin" -> <<2, 1>> [] m = "tj" -> <<2, 1, 0>> [] m = "hubbard" -> <<3, 2, 1, 0>>
B == Basis(model)
Comm(a, b) == OpAdd(OpMul(a, b), Neg(OpMul(b, a)))
Anti(a, b) == OpAdd(OpMul(a, b), OpMul(b, a))
Sz2 == Named("sz")
Relations ==
  /\ Anti(cup, cupc) = id /\ Anti(cdn, cdnc) = id /\ Anti(cup, cdn) = OpZero /\ Anti(cup, cdnc) = OpZero /\ Anti(cup, cup) = OpZero /\ Anti(cdn, cdn) = OpZero
  /\ Comm(spl, smi) = Sz2 /\ Comm(Sz2, spl) = Two(spl) /\ Comm(Sz2, smi) = Neg(Two(smi))
  /\ Anti(f, cup) = OpZero /\ Anti(f, cdn) = OpZero /\ OpMul(f, f) = id
  /\ Comm(nf, cupc) = cupc /\ Comm(nf, cdn) = Neg(cdn)
  /\ Comm(Named("sx"), Named("sy")) = OpScale(<<0, 2>>, Sz2)        \* [sx, sy] = i sz, times 4
  /\ OpMul(bdnc, bupa) = OpScale(<<1, 0>>, [x \in {<<1, 2>>} |-> <<1, 0>>])
String(a, mid, b, i, j, n) == Product([s \in 1..n |-> IF s = i THEN InBasis(a, B) ELSE IF s = j THEN InBasis(b, B) ELSE IF i < s /\ s < j THEN InBasis(mid, B) ELSE Ident(Len(B))], [s \in 1..n |-> Len(B)])
Strings == \A i, j \in 1..NS : i < j =>
  IF model = "hubbard" THEN
    /\ String(OpMul(bupc, f), f, bupa, i, j, NS) = HopOp(i, j, "up", NS, B)
    /\ Neg(String(OpMul(bupa, f), f, bupc, i, j, NS)) = HopOp(j, i, "up", NS, B)
    /\ String(bdnc, f, OpMul(f, bdna), i, j, NS) = HopOp(i, j, "dn", NS, B)
    /\ Neg(String(bdna, f, OpMul(f, bdnc), i, j, NS)) = HopOp(j, i, "dn", NS, B)
  ELSE model = "tj" =>
    /\ String(bupc, f, bupa, i, j, NS) = HopOp(i, j, "up", NS, B)
    /\ String(bupa, f, bupc, i, j, NS) = HopOp(j, i, "up", NS, B)
    /\ String(bdnc, f, bdna, i, j, NS) = HopOp(i, j, "dn", NS, B)
    /\ String(bdna, f, bdnc, i, j, NS) = HopOp(j, i, "dn", NS, B)
Init == model \in {"spin", "tj", "hubbard"} /\ H = OpZero /\ k = 0
AddHeis == \E i, j \in 1..NS : i # j /\ H' = OpAdd(H, Heisenberg8(3, i, j, NS, B))
AddHop == model # "spin" /\ \E i, j \in 1..NS, im \in {0, 1} : i # j /\ (model = "hubbard" => im = 0) /\ H' = OpAdd(H, Hopping8(<<2, im>>, i, j, NS, B))
AddU == model = "hubbard" /\ \E i \in 1..NS : H' = OpAdd(H, OnSite8(4, "Uterm", i, NS, B))
MHeis == k < MaxTerms /\ AddHeis /\ k' = k + 1 /\ UNCHANGED model
MHop == k < MaxTerms /\ AddHop /\ k' = k + 1 /\ UNCHANGED model
MU == k < MaxTerms /\ AddU /\ k' = k + 1 /\ UNCHANGED model
Next == MHeis \/ MHop \/ MU
Spec == Init /\ [][Next]_vars
Hermitian == Dagger(H) = H
Tot(c, w(_)) == LET RECURSIVE T(_) T(m) == IF m = 0 THEN 0 ELSE w(c[m]) + T(m - 1) IN T(Len(c))
Conserving == \A x \in DOMAIN H : LET r == Conf(x[1], NS, B) c == Conf(x[2], NS, B) IN
                 Tot(r, LAMBDA s : Up(s)) = Tot(c, LAMBDA s : Up(s)) /\ Tot(r, LAMBDA s : Dn(s)) = Tot(c, LAMBDA s : Dn(s))
ASSUME Relations
==============================================================================
