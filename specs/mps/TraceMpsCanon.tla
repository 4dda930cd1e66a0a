---------------------------- MODULE TraceMpsCanon ------------------------------
(* Events recorded from FiniteMPS. Each carries what the object claims, the Gram matrices (scaled by 100000) of all tensors *)
(* a claim is about, and the represented vector as integers. The abstract state: vector psi, dimensions, expected claims.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, psi, dims
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
vars == <<l, psi, dims>>
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
N == Len(dims)
Vec(list) == TLCEval([x \in {list[i][1] : i \in 1..Len(list)} |-> LET i == CHOOSE i \in 1..Len(list) : list[i][1] = x IN <<list[i][2], list[i][3]>>])
Scaled(f, v) == [x \in DOMAIN v |-> <<f * v[x][1], f * v[x][2]>>]
(* mirrored configuration index *)
RECURSIVE Mirror(_, _, _)
Mirror(x, k, acc) == IF k = 0 THEN acc ELSE Mirror(x \div dims[k], k - 1, acc * dims[k] + (x % dims[k]))
Mirrored(v) == LET P == {<<Mirror(x, N, 0), x>> : x \in DOMAIN v} IN TLCEval([y \in {p[1] : p \in P} |-> v[(CHOOSE p \in P : p[1] = y)[2]]])
One == 100000
IsIdentity(d, g) == /\ \A i \in 1..Len(g) : IF g[i][1] = g[i][2] THEN g[i][3] \in (One - 1)..(One + 1) /\ g[i][4] \in -1..1
                                            ELSE g[i][3] \in -1..1 /\ g[i][4] \in -1..1
                    /\ \A x \in 0..(d - 1) : \E i \in 1..Len(g) : g[i][1] = x /\ g[i][2] = x
LeftNorm(s) == s.mem => IsIdentity(s.ld, s.l)
RightNorm(s) == s.mem => IsIdentity(s.rd, s.r)
ClaimsTrue(o) == /\ \A i \in 1..Len(o.s) : (o.s[i].f = "L" => LeftNorm(o.s[i])) /\ (o.s[i].f = "R" => RightNorm(o.s[i]))
                 /\ o.c # -1 => \A i \in 1..Len(o.s) : (i < o.c + 1 => LeftNorm(o.s[i])) /\ (i > o.c + 1 => RightNorm(o.s[i]))
Shows(o, v) == o.all /\ o.exact /\ Vec(o.psi) = v
F(i) == E.obs.s[i + 1].f
Unclaimed(i) == F(i) = "N" /\ E.obs.c \in {-1, i}
(* expected state and promises per operation *)
Effect == CASE E.o \in {"write", "load", "realloc"} -> /\ psi' = Scaled(E.b, psi) /\ dims' = dims /\ Unclaimed(E.a)
            [] E.o = "add" -> psi' = Scaled(1 + E.b, psi) /\ dims' = dims
            [] E.o = "reverse" -> psi' = Mirrored(psi) /\ dims' = [i \in 1..N |-> dims[N + 1 - i]]
            [] OTHER -> UNCHANGED <<psi, dims>>
Promise == CASE E.o = "centralize" -> E.obs.c = E.a /\ \A i \in 0..(N - 1) : (i < E.a => F(i) = "L") /\ (i > E.a => F(i) = "R")
             [] E.o = "left" -> \A i \in 0..E.a : F(i) = "L"
             [] E.o = "right" -> \A i \in E.a..(N - 1) : F(i) = "R"
             [] E.o = "left1" -> F(E.a) = "L"
             [] E.o = "right1" -> F(E.a) = "R"
             [] E.o \in {"entropy", "truncate"} -> E.obs.norm \in 999999..1000001
             [] OTHER -> TRUE
TReset == IsEvent("reset") /\ dims' = E.dims /\ psi' = Vec(E.obs.psi) /\ E.obs.all /\ E.obs.exact /\ ClaimsTrue(E.obs) /\ psi' # <<>>
TOp == IsEvent("op") /\ E.out = "ok" /\ Effect /\ Promise /\ ClaimsTrue(E.obs) /\ Shows(E.obs, psi')
TInit == l = 1 /\ psi = <<>> /\ dims = <<>>
TNext == TReset \/ TOp
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
