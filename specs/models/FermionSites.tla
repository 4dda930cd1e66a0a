----------------------------- MODULE FermionSites ----------------------------
(* Local spaces and named operators of the spin-1/2, t-J and Hubbard sites, defined from electrons: a local state is the    *)
(* pair of occupations <<up, down>>, created as c+_up c+_down |0>. The t-J site has no double occupancy, the spin site      *)
(* exactly one electron. Everything is scaled by 2 (spin operators have half-integer elements).                            *)
EXTENDS SparseOps
Code(u, d) == 2 * u + d
States(model) == CASE model = "spin" -> {2, 1} [] model = "tj" -> {2, 1, 0} [] model = "hubbard" -> {3, 2, 1, 0}
StateOf(name) == CASE name = "up" -> 2 [] name = "down" -> 1 [] name = "empty" -> 0 [] name = "double" -> 3
Up(s) == s \div 2
Dn(s) == s % 2
(* documented quantum numbers: particle number and twice Sz *)
ChargeOf(qn, s) == CASE qn = "U1U1" -> <<Up(s) + Dn(s), Up(s) - Dn(s)>> [] qn = "U1" -> <<Up(s) - Dn(s)>> [] qn = "trivial" -> <<>>
S4 == 0..3
Diag(f(_)) == Trim([x \in {<<s, s>> : s \in S4} |-> <<f(x[1]), 0>>])
bupa == Trim([x \in {<<s - 2, s>> : s \in {2, 3}} |-> <<1, 0>>])
bdna == Trim([x \in {<<s - 1, s>> : s \in {1, 3}} |-> <<1, 0>>])
bupc == Dagger(bupa)
bdnc == Dagger(bdna)
id == Diag(LAMBDA s : 1)
f == Diag(LAMBDA s : IF (Up(s) + Dn(s)) % 2 = 0 THEN 1 ELSE -1)
fup == Diag(LAMBDA s : IF Up(s) = 0 THEN 1 ELSE -1)
cup == bupa
cdn == OpMul(fup, bdna)          \* true annihilators of one site
cupc == Dagger(cup)
cdnc == Dagger(cdn)
nup == OpMul(cupc, cup)
ndn == OpMul(cdnc, cdn)
nf == OpAdd(nup, ndn)
nupndn == OpMul(nup, ndn)
spl == OpMul(cupc, cdn)
smi == OpMul(cdnc, cup)
Two(o) == OpScale(<<2, 0>>, o)
Neg(o) == OpScale(<<-1, 0>>, o)
(* twice the operator of that name *)
Named(n) ==
  CASE n = "sz" -> OpAdd(nup, Neg(ndn)) [] n = "sp" -> Two(spl) [] n = "sm" -> Two(smi) [] n = "id" -> Two(id)
    [] n = "sx" -> OpAdd(spl, smi) [] n = "sy" -> OpScale(<<0, -1>>, OpAdd(spl, Neg(smi)))
    [] n = "f" -> Two(f) [] n = "bupc" -> Two(bupc) [] n = "bupa" -> Two(bupa) [] n = "bdnc" -> Two(bdnc) [] n = "bdna" -> Two(bdna)
    [] n = "bupcF" -> Two(OpMul(bupc, f)) [] n = "bupaF" -> Two(OpMul(bupa, f)) [] n = "Fbdnc" -> Two(OpMul(f, bdnc)) [] n = "Fbdna" -> Two(OpMul(f, bdna))
    [] n = "cupccdnc" -> Two(OpMul(cupc, cdnc)) [] n = "cdnacupa" -> Two(OpMul(cdn, cup))
    [] n = "cupccdna" -> Two(OpMul(cupc, cdn)) [] n = "cdnccupa" -> Two(OpMul(cdnc, cup))
    [] n = "nupndn" -> Two(nupndn) [] n = "Uterm" -> Two(nupndn) [] n = "nf" -> Two(nf) [] n = "nfsquare" -> Two(OpMul(nf, nf))
    [] n = "nup" -> Two(nup) [] n = "ndn" -> Two(ndn)
    [] n = "bdnc_multi_bupa" -> Two(OpMul(bdnc, bupa)) [] n = "bupc_multi_bdna" -> Two(OpMul(bupc, bdna))
(* the same operator in the basis order of a site: basis[k] is the k-th state *)
InBasis(o, basis) == LET n == Len(basis) IN
   Trim([x \in {<<i, j>> : i, j \in 0..(n - 1)} |-> At(o, <<basis[x[1] + 1], basis[x[2] + 1]>>)])
(* what every site must provide *)
SpinNames == {"sz", "sp", "sm", "id"}
NamesOf(model, qn, el) ==
  CASE model = "spin" -> SpinNames \cup (IF qn = "trivial" THEN {"sx"} \cup (IF el = "complex" THEN {"sy"} ELSE {}) ELSE {})
    [] model = "tj" -> SpinNames \cup {"f", "bupc", "bupa", "bdnc", "bdna", "nf", "nup", "ndn", "bdnc_multi_bupa", "bupc_multi_bdna"}
    [] model = "hubbard" -> SpinNames \cup {"f", "bupc", "bupa", "bdnc", "bdna", "bupcF", "bupaF", "Fbdnc", "Fbdna", "cupccdnc", "cdnacupa",
                             "cupccdna", "cdnccupa", "nupndn", "Uterm", "nf", "nfsquare", "nup", "ndn"}
                             \cup (IF qn = "trivial" THEN {"sx"} \cup (IF el = "complex" THEN {"sy"} ELSE {}) ELSE {})

(* ---- many sites: configurations are sequences of local states, site-major, up before down within a site ---- *)
Before(c, i, sp_) == LET RECURSIVE Cnt(_) Cnt(k) == IF k = 0 THEN 0 ELSE Up(c[k]) + Dn(c[k]) + Cnt(k - 1)
                     IN Cnt(i - 1) + (IF sp_ = "dn" THEN Up(c[i]) ELSE 0)
Sgn(n) == IF n % 2 = 0 THEN 1 ELSE -1
Occ(c, i, sp_) == IF sp_ = "up" THEN Up(c[i]) ELSE Dn(c[i])
Bit(sp_) == IF sp_ = "up" THEN 2 ELSE 1
(* <<configuration, sign>>, sign 0 when annihilated *)
Ann(cs, i, sp_) == IF cs[2] = 0 \/ Occ(cs[1], i, sp_) = 0 THEN <<cs[1], 0>>
                   ELSE <<[cs[1] EXCEPT ![i] = @ - Bit(sp_)], cs[2] * Sgn(Before(cs[1], i, sp_))>>
Cre(cs, i, sp_) == IF cs[2] = 0 \/ Occ(cs[1], i, sp_) = 1 THEN <<cs[1], 0>>
                   ELSE <<[cs[1] EXCEPT ![i] = @ + Bit(sp_)], cs[2] * Sgn(Before(cs[1], i, sp_))>>
Hop(c, i, j, sp_) == Cre(Ann(<<c, 1>>, j, sp_), i, sp_)       \* c+_i c_j
(* index <-> configuration, first site most significant *)
Conf(x, n, basis) == LET d == Len(basis) RECURSIVE Pow(_) Pow(k) == IF k = 0 THEN 1 ELSE d * Pow(k - 1)
                     IN [k \in 1..n |-> basis[((x \div Pow(n - k)) % d) + 1]]
Pos(s, basis) == CHOOSE k \in 0..(Len(basis) - 1) : basis[k + 1] = s
Index(c, basis) == LET d == Len(basis) RECURSIVE Go(_) Go(k) == IF k = 0 THEN 0 ELSE Go(k - 1) * d + Pos(c[k], basis) IN Go(Len(c))
Dim(n, d) == LET RECURSIVE Pow(_) Pow(k) == IF k = 0 THEN 1 ELSE d * Pow(k - 1) IN Pow(n)
InSpace(c, basis) == \A k \in 1..Len(c) : \E m \in 1..Len(basis) : basis[m] = c[k]
(* matrix whose column x is the (at most one) configuration Act(x) = <<configuration, amplitude>>; amplitude <<0,0>> = none *)
FromAction(Act(_), n, basis) ==
  LET D == Dim(n, Len(basis))
      im == TLCEval([x \in 0..(D - 1) |-> LET r == Act(Conf(x, n, basis)) IN IF r[2] = Zero \/ ~InSpace(r[1], basis) THEN <<-1, Zero>> ELSE <<Index(r[1], basis), r[2]>>])
  IN TLCEval([p \in {<<im[x][1], x>> : x \in {y \in 0..(D - 1) : im[y][1] >= 0}} |-> im[p[2]][2]])
HopOp(i, j, sp_, n, basis) == FromAction(LAMBDA c : LET r == Hop(c, i, j, sp_) IN <<r[1], <<r[2], 0>>>>, n, basis)
Flip(i, j, n, basis) ==   \* S+_i S-_j
  FromAction(LAMBDA c : IF c[i] = 1 /\ c[j] = 2 THEN <<[c EXCEPT ![i] = 2, ![j] = 1], <<1, 0>>>> ELSE <<c, Zero>>, n, basis)
SzSz4(i, j, n, basis) == FromAction(LAMBDA c : <<c, <<(Up(c[i]) - Dn(c[i])) * (Up(c[j]) - Dn(c[j])), 0>>>>, n, basis)
(* documented builders, times 8, for J = j2/2 and t = <<re, im>>/2 *)
Heisenberg8(j2, i, j, n, basis) == OpAdd(OpScale(<<j2, 0>>, SzSz4(i, j, n, basis)),
                                         OpScale(<<2 * j2, 0>>, OpAdd(Flip(i, j, n, basis), Flip(j, i, n, basis))))
Hopping8(t2, i, j, n, basis) ==
  OpAdd(OpScale(<<-4 * t2[1], -4 * t2[2]>>, OpAdd(HopOp(i, j, "up", n, basis), HopOp(i, j, "dn", n, basis))),
        OpScale(<<-4 * t2[1], 4 * t2[2]>>, OpAdd(HopOp(j, i, "up", n, basis), HopOp(j, i, "dn", n, basis))))
OnSite8(c2, name, i, n, basis) ==     \* c2/2 times the named operator (given twice): 8 * c2/2 * Named/2 = 2 * c2 * Named
  OpScale(<<2 * c2, 0>>, Product([k \in 1..n |-> IF k = i THEN InBasis(Named(name), basis) ELSE Ident(Len(basis))], [k \in 1..n |-> Len(basis)]))
==============================================================================
