---------------------------- MODULE TraceMpoChain -----------------------------
(* C12. Events recorded from FiniteMPO. op is the represented operator, exactly: element <<re, im>> at row * D + col. Each    *)
(* event carries the represented operator of the object (rescaled by the norms it returned), its claims, and the Gram       *)
(* matrices (scaled by 100000) of every tensor a claim is about.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, dims, op, cen, disk
vars == <<l, dims, op, cen, disk>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
O == E.obs
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
N == Len(dims)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Vec(list) == TLCEval([x \in {list[i][1] : i \in 1..Len(list)} |-> LET i == CHOOSE i \in 1..Len(list) : list[i][1] = x IN <<list[i][2], list[i][3]>>])
Add2(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Mul(p, q) == <<p[1] * q[1] - p[2] * q[2], p[1] * q[2] + p[2] * q[1]>>
Conj(p) == <<p[1], -p[2]>>
At(v, x) == IF x \in DOMAIN v THEN v[x] ELSE <<0, 0>>
NonZero(f) == TLCEval([x \in {y \in DOMAIN f : f[y] # <<0, 0>>} |-> f[x]])
Plus(v, u) == LET s == TLCEval([x \in DOMAIN v \cup DOMAIN u |-> Add2(At(v, x), At(u, x))]) IN NonZero(s)
ScaledBy(f, v) == LET s == TLCEval([x \in DOMAIN v |-> Mul(f, v[x])]) IN NonZero(s)
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in S : TRUE IN Add2(f[x], SumSet(f, S \ {x}))
(* matrix product in dimension d *)
Times(v, u, d) ==
  LET row == TLCEval([k \in {x \div d : x \in DOMAIN u} |-> {x % d : x \in {y \in DOMAIN u : y \div d = k}}])
      mid == TLCEval([r \in {x \div d : x \in DOMAIN v} |-> {x % d : x \in {y \in DOMAIN v : y \div d = r}}])
      cells == UNION {{r * d + c : c \in UNION {row[k] : k \in mid[r] \cap DOMAIN row}} : r \in DOMAIN mid}
      at(x) == LET r == x \div d c == x % d ks == {k \in mid[r] : k \in DOMAIN row /\ c \in row[k]} IN
               SumSet([k \in ks |-> Mul(v[r * d + k], u[k * d + c])], ks)
      s == TLCEval([x \in cells |-> at(x)])
  IN NonZero(s)
One(d) == [x \in {r * (d + 1) : r \in 0..(d - 1)} |-> <<1, 0>>]
TraceOf(v, d) == LET S == {x \in DOMAIN v : x \div d = x % d} IN SumSet(v, S)
Frob2(v) == LET s == SumSet([x \in DOMAIN v |-> Mul(v[x], Conj(v[x]))], DOMAIN v) IN s[1]
D == Prod(dims)
(* ---- claims ---- *)
Unit == 100000
IsIdentity(d, g) == /\ \A i \in 1..Len(g) : IF g[i][1] = g[i][2] THEN g[i][3] \in (Unit - 1)..(Unit + 1) /\ g[i][4] \in -1..1
                                            ELSE g[i][3] \in -1..1 /\ g[i][4] \in -1..1
                    /\ \A x \in 0..(d - 1) : \E i \in 1..Len(g) : g[i][1] = x /\ g[i][2] = x
ClaimsTrue(o) == /\ \A i \in 1..Len(o.s) : (o.s[i].f = "L" => IsIdentity(o.s[i].ld, o.s[i].l)) /\ (o.s[i].f = "R" => IsIdentity(o.s[i].rd, o.s[i].r))
                 /\ o.c # -1 => \A i \in 1..Len(o.s) : (i < o.c + 1 => IsIdentity(o.s[i].ld, o.s[i].l)) /\ (i > o.c + 1 => IsIdentity(o.s[i].rd, o.s[i].r))
Shows(v) == O.whole /\ O.exact /\ Vec(O.op) = v
F(i) == O.s[i + 1].f
Centre(c) == O.c = c /\ \A i \in 0..(N - 1) : (i < c => F(i) = "L") /\ (i > c => F(i) = "R")
(* ---- operations ---- *)
Other == Vec(E.other)
Million == 1000000
Fits == E.rr \in 0..(Million + 2) /\ E.dot[1] - E.rr \in -3..3 /\ E.dot[2] \in -3..3 /\ \A b \in 1..(N - 1) : O.bonds[b] <= E.dmax
(* the result is the orthogonal projection of the target, and the target itself where the start and the limits leave room for it *)
Fitted(t) == /\ Vec(E.target) = t /\ Fits
             /\ IF E.full THEN op' = t /\ Shows(t) /\ E.rr >= Million - 2 ELSE op' = <<>>
Plain(v) == op' = v /\ Shows(v)
Effect == CASE E.o = "write" -> Plain(ScaledBy(<<E.b, 0>>, op)) /\ F(E.a) = "N" /\ O.c \in {-1, E.a}
            [] E.o = "scale" -> Plain(ScaledBy(E.f, op))
            [] E.o = "allscale" -> LET RECURSIVE go(_, _)
                                       go(v, k) == IF k = 0 THEN v ELSE go(ScaledBy(E.f, v), k - 1) IN Plain(go(op, N))
            [] E.o = "normalize" -> Plain(op) /\ (cen # -1 => E.n2 = Frob2(op) /\ O.norm \in (Million - 1)..(Million + 1))
            [] E.o = "trace" -> Plain(op) /\ E.exact /\ E.v = TraceOf(op, D)
            [] E.o = "add" -> Plain(Plus(op, Other)) /\ E.kept /\ \A b \in 1..(N - 1) : O.bonds[b] <= E.room[b]
            [] E.o \in {"simple", "product"} -> Plain(Times(op, Other, D)) /\ E.kept
            [] E.o = "fit" -> Fitted(Times(op, Other, D)) /\ E.kept /\ O.c = 1
            [] E.o = "square" -> Fitted(Times(op, op, D)) /\ O.c = 1
            [] E.o = "squarenorm" -> Fitted(Times(op, op, D)) /\ O.c = 1 /\ O.norm \in (Million - 1)..(Million + 1)
            [] E.o = "truncate" -> Fitted(op)
            [] E.o = "identity" -> Plain(One(D)) /\ E.kept
            [] E.o = "load" -> Plain(disk[1]) /\ (disk[2] # -1 => Centre(disk[2])) /\ E.good
            [] E.o = "noload" -> Plain(op) /\ ~E.good
            [] E.o = "reload" -> Plain(op) /\ F(E.a) = "N" /\ O.c \in {-1, E.a}
            [] E.o = "centralize" -> Plain(op) /\ Centre(E.a)
            [] E.o = "left" -> Plain(op) /\ \A i \in 0..E.a : F(i) = "L"
            [] E.o = "right" -> Plain(op) /\ \A i \in E.a..(N - 1) : F(i) = "R"
            [] E.o = "left1" -> Plain(op) /\ F(E.a) = "L"
            [] E.o = "right1" -> Plain(op) /\ F(E.a) = "R"
            [] E.o \in {"copy", "move", "convert", "dump"} -> Plain(op)
TReset == IsEvent("reset") /\ dims' = E.dims /\ op' = Vec(O.op) /\ O.whole /\ O.exact /\ ClaimsTrue(O) /\ op' # <<>> /\ cen' = O.c /\ disk' = <<>>
TOp == /\ IsEvent("op") /\ E.out = "ok" /\ Effect /\ ClaimsTrue(O) /\ cen' = O.c /\ O.maxd = E.maxd
       /\ disk' = (IF E.o = "dump" THEN <<op, cen>> ELSE disk) /\ UNCHANGED dims
(* ---- overlaps ---- *)
TInner == /\ IsEvent("inner") /\ E.exact
          /\ LET a == Vec(E.a) b == Vec(E.b) both == DOMAIN a \cap DOMAIN b IN E.v = SumSet([x \in both |-> Mul(Conj(b[x]), a[x])], both)
          /\ UNCHANGED <<dims, op, cen, disk>>
(* ---- exponential: the Taylor sum up to the order at which the even terms have become small, times m! den^m ---- *)
RECURSIVE Fact(_), PowOf(_, _), OpPow(_, _, _)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
PowOf(a, n) == IF n = 0 THEN 1 ELSE a * PowOf(a, n - 1)
OpPow(h, n, d) == IF n = 0 THEN One(d) ELSE Times(OpPow(h, n - 1, d), h, d)
Term(h, n, d) == ScaledBy(<<PowOf(-E.num, n), 0>>, OpPow(h, n, d))     \* times n! den^n
Enough(h, n, d) == n % 2 = 0 /\ TraceOf(Term(h, n, d), d)[1] * 1000 < E.tol * d * Fact(n) * PowOf(E.den, n)
Last(h, d) == LET S == {n \in 1..(E.order - 1) : Enough(h, n, d)} IN IF S = {} THEN E.order - 1 ELSE CHOOSE n \in S : \A k \in S : n <= k
RECURSIVE Sum(_, _, _, _)
Sum(h, n, m, d) == IF n > m THEN <<>> ELSE Plus(ScaledBy(<<(Fact(m) \div Fact(n)) * PowOf(E.den, m - n), 0>>, Term(h, n, d)), Sum(h, n + 1, m, d))
TExp == /\ IsEvent("exp") /\ E.exact
        /\ LET d == Prod(E.dims) h == Vec(E.h) m == Last(h, d) IN
             /\ Vec(E.rho) = Sum(h, 0, m, d) /\ E.m = m
             /\ Len(E.terms) = m /\ \A n \in 1..m : Vec(E.terms[n]) = Term(h, n, d)
        /\ E.unit \in (Million - 1)..(Million + 1) /\ E.maxd <= E.dmax /\ E.kept
        /\ UNCHANGED <<dims, op, cen, disk>>
TInit == l = 1 /\ dims = <<>> /\ op = <<>> /\ cen = -1 /\ disk = <<>>
TNext == TReset \/ TOp \/ TInner \/ TExp
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
