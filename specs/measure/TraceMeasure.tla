----------------------------- MODULE TraceMeasure ------------------------------
(* C11. Recorded measurements against exact integer expectation values. psi: the integer state; ops: matrices by tag, as       *)
(* lists <<row, col, re, im>>; tag 0 is the identity. A measurement is a word, a sequence of <<site, tag>>.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, dims, psi
vars == <<l, dims, psi>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
N == Len(dims)
Vec(list) == TLCEval([x \in {list[i][1] : i \in 1..Len(list)} |-> LET i == CHOOSE i \in 1..Len(list) : list[i][1] = x IN <<list[i][2], list[i][3]>>])
RECURSIVE Prod(_, _)
Prod(i, j) == IF i > j THEN 1 ELSE dims[i] * Prod(i + 1, j)
Add2(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Mul(p, q) == <<p[1] * q[1] - p[2] * q[2], p[1] * q[2] + p[2] * q[1]>>
Conj(p) == <<p[1], -p[2]>>
RECURSIVE SumSeq(_, _)
SumSeq(f, k) == IF k = 0 THEN <<0, 0>> ELSE Add2(SumSeq(f, k - 1), f[k])
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in S : TRUE IN Add2(f[x], SumSet(f, S \ {x}))
(* the operator m (list of elements) on site s (from 0) applied to v *)
Apply(v, s, m) ==
  LET st == Prod(s + 2, N) dig(x) == (x \div st) % dims[s + 1]
      ys == {p[1] + (m[p[2]][1] - m[p[2]][2]) * st : p \in {p \in (DOMAIN v) \X (1..Len(m)) : dig(p[1]) = m[p[2]][2]}}
      at(y) == LET terms == [k \in 1..Len(m) |-> LET x == y + (m[k][2] - m[k][1]) * st IN
                     IF dig(y) = m[k][1] /\ x \in DOMAIN v THEN Mul(<<m[k][3], m[k][4]>>, v[x]) ELSE <<0, 0>>] IN SumSeq(terms, Len(m))
  IN TLCEval([y \in ys |-> at(y)])
RECURSIVE ApplyAll(_, _, _)
ApplyAll(v, w, ops) == IF w = <<>> THEN v ELSE ApplyAll(IF w[1][2] = 0 THEN v ELSE Apply(v, w[1][1], ops[w[1][2]]), Tail(w), ops)
Braket(v) == LET both == DOMAIN v \cap DOMAIN psi IN SumSet([x \in both |-> Mul(Conj(psi[x]), v[x])], both)
Value(w) == Braket(ApplyAll(psi, w, E.ops))
(* ---- words ---- *)
String(a, b, tag) == [i \in 1..(b - a - 1) |-> <<a + i, tag>>]              \* strictly between a and b
Line(a, tags) == [i \in 1..Len(tags) |-> <<a + i, tags[i]>>]
RECURSIVE Uniform(_, _, _)
Uniform(s, p, q) == IF Len(s) = 1 THEN << <<s[1], p[1]>> >> ELSE << <<s[1], p[1]>> >> \o String(s[1], s[2], q[1]) \o Uniform(Tail(s), Tail(p), Tail(q))
RECURSIVE Listed(_, _, _)
Listed(s, p, q) == << <<s[1], p[1]>> >> \o (IF q = <<>> THEN <<>> ELSE Line(s[1], q[1])) \o (IF Len(s) = 1 THEN <<>> ELSE Listed(Tail(s), Tail(p), IF q = <<>> THEN q ELSE Tail(q)))
Sites0(r) == r.sites
Near(x, y) == x = y
Right(r, w) == r.exact /\ r.v = Value(w)
(* the k-th result belongs to the k-th request *)
Each(res, n, s(_), w(_)) == Len(res) = n /\ \A k \in 1..n : res[k].sites = s(k) /\ Right(res[k], w(k))
Results ==
  LET A == E.args IN
  CASE E.fn = "one" -> \A j \in 1..Len(A.tags) : Each(E.res[j], N, LAMBDA k : <<k - 1>>, LAMBDA k : << <<k - 1, A.tags[j]>> >>)
    [] E.fn = "onesites" -> \A j \in 1..Len(A.tags) : Each(E.res[j], Len(A.sites), LAMBDA k : <<A.sites[k]>>, LAMBDA k : << <<A.sites[k], A.tags[j]>> >>)
    [] E.fn = "uniform" -> Each(E.res[1], Len(A.sites), LAMBDA k : A.sites[k], LAMBDA k : Uniform(A.sites[k], A.phys[k], A.inst[k]))
    [] E.fn = "listed" -> Each(E.res[1], Len(A.sites), LAMBDA k : A.sites[k], LAMBDA k : Listed(A.sites[k], A.phys[k], A.inst[k]))
    [] E.fn = "two" -> Each(E.res[1], Len(A.todo), LAMBDA k : <<A.ref[1], A.todo[k]>>, LAMBDA k : Uniform(<<A.ref[1], A.todo[k]>>, A.tags, <<A.inst>>))
    [] E.fn = "four" -> LET res == E.res[1] IN
         /\ Len(res) = Len(A.todo) /\ \A k \in 1..Len(res) : \E j \in 1..Len(A.todo) : res[k].sites = A.ref \o A.todo[j]
         /\ \A j \in 1..Len(A.todo) : \E k \in 1..Len(res) : res[k].sites = A.ref \o A.todo[j]
         /\ \A k \in 1..Len(res) : Right(res[k], Uniform(res[k].sites, A.tags, <<A.inst, 0, A.inst>>))
(* results written to files are those returned *)
Files == \A j \in 1..Len(E.files) : E.files[j] = [k \in 1..Len(E.res[j]) |-> [sites |-> E.res[j][k].sites, v |-> E.res[j][k].v]]
Kept == IF E.disk THEN E.empty /\ E.unchanged ELSE E.obs.exact /\ Vec(E.obs.psi) = psi
(* ---- entanglement: the reduced operator left of the cut, its powers, and flat blocks ---- *)
Row(x, b) == x \div Prod(b + 1, N)
Col(x, b) == x % Prod(b + 1, N)
RECURSIVE Power(_, _, _)
Gram(b) == LET rows == {Row(x, b) : x \in DOMAIN psi}
               el(i, j) == LET S == {x \in DOMAIN psi : Row(x, b) = i} st == Prod(b + 1, N)
                               T == {x \in S : (x - i * st) + j * st \in DOMAIN psi} IN
                           SumSet([x \in T |-> Mul(psi[x], Conj(psi[x + (j - i) * st]))], T)
           IN TLCEval([p \in rows \X rows |-> el(p[1], p[2])])
MatMul(f, g, rows) == TLCEval([p \in rows \X rows |-> SumSet([k \in rows |-> Mul(f[<<p[1], k>>], g[<<k, p[2]>>])], rows)])
Power(g, rows, n) == IF n = 1 THEN g ELSE MatMul(Power(g, rows, n - 1), g, rows)
Moment(b, n) == LET rows == {Row(x, b) : x \in DOMAIN psi} p == Power(Gram(b), rows, n) IN SumSet([k \in rows |-> p[<<k, k>>]], rows)
RECURSIVE PowerOf(_, _)
PowerOf(a, n) == IF n = 0 THEN 1 ELSE a * PowerOf(a, n - 1)
Weight(S) == LET s == SumSet([x \in S |-> Mul(psi[x], Conj(psi[x]))], S) IN s[1]
Block(b, x) == LET cols == {Col(y, b) : y \in {z \in DOMAIN psi : Row(z, b) = Row(x, b)}} IN {z \in DOMAIN psi : Col(z, b) \in cols}
RECURSIVE ProdSet(_)
ProdSet(Bs) == IF Bs = {} THEN 1 ELSE LET B == CHOOSE B \in Bs : TRUE w == Weight(B) IN PowerOf(w, w) * ProdSet(Bs \ {B})
Entropy == IF E.n = 1 THEN \A b \in 1..(N - 1) : E.val[b] = ProdSet({Block(b, x) : x \in DOMAIN psi})      \* exp(-T S) T^T for the weights w: product of w^w
           ELSE \A b \in 1..(N - 1) : <<E.val[b], 0>> = Moment(b, E.n)
RECURSIVE ProdSeq(_)
ProdSeq(ws) == IF ws = <<>> THEN 1 ELSE PowerOf(ws[1], ws[1]) * ProdSeq(Tail(ws))
TReset == IsEvent("reset") /\ dims' = E.dims /\ psi' = Vec(E.obs.psi) /\ E.obs.exact /\ psi' # <<>>
TMeasure == IsEvent("measure") /\ E.out = "ok" /\ Results /\ Files /\ Kept /\ UNCHANGED <<dims, psi>>
TEntropy == IsEvent("entropy") /\ E.out = "ok" /\ Len(E.val) = N - 1 /\ E.exact /\ Entropy /\ E.obs.exact /\ Vec(E.obs.psi) = psi /\ UNCHANGED <<dims, psi>>
TSpectrum == IsEvent("spectrum") /\ E.exact /\ E.val = ProdSeq(E.ws) /\ UNCHANGED <<dims, psi>>
TInit == l = 1 /\ dims = <<>> /\ psi = <<>>
TNext == TReset \/ TMeasure \/ TEntropy \/ TSpectrum
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
