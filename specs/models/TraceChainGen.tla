---------------------------- MODULE TraceChainGen ----------------------------
EXTENDS ChainGen, Json, IOUtils
VARIABLES l, charges     \* charges[s][b]: quantum numbers of basis state b of site s
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
tvars == <<gvars, l, charges>>
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Rd(list) == [k \in 1..Len(list) |-> OpOf(list[k])]
NewE == IsEvent("reset") /\ New(E.dims) /\ charges' = E.charges
(* a call of the general form (operators in any order), of the two-operator form, or of a string-inserting form *)
AddE == /\ IsEvent("add") /\ UNCHANGED charges
        /\ LET ops == Rd(E.ops) IN
           \/ E.form = "plain" /\ Add(E.c, Plain(ops, E.sites))
           \/ E.form = "string" /\ Add(E.c, WithStrings(ops, E.sites, Rd(E.strings), E.lists))
(* Bonds: left and right charges of each tensor; interior bonds agree, the outer ones are single and neutral;
   elements: <<left, in, out, right>> positions of all non-zero elements of each tensor *)
QSum(a, b, c, d) == [k \in 1..Len(a) |-> c[k] + d[k] - a[k] - b[k]]
Conserving == \A s \in 1..N : \A i \in 1..Len(E.elems[s]) :
   LET x == E.elems[s][i] q == QSum(E.lq[s][x[1] + 1], charges[s][x[2] + 1], charges[s][x[3] + 1], E.rq[s][x[4] + 1])
   IN \A k \in 1..Len(q) : q[k] = 0
Bonds == /\ Len(E.lq) = N /\ Len(E.rq) = N
         /\ \A s \in 1..(N - 1) : E.lq[s + 1] = E.rq[s]
         /\ Len(E.lq[1]) = 1 /\ Len(E.rq[N]) = 1
         /\ \A k \in 1..Len(E.lq[1][1]) : E.lq[1][1][k] = 0
         /\ \A k \in 1..Len(E.rq[N][1]) : E.rq[N][1][k] = 0
GenE == /\ IsEvent("gen") /\ Gen /\ UNCHANGED charges
        /\ E.exact /\ SameOp(E.m, H)
        /\ E.kind = "tensors" => E.indexes /\ Bonds /\ Conserving
        /\ E.kind = "matrices" => /\ E.shape[1][1] = 1 /\ E.shape[N][2] = 1
                                  /\ \A s \in 1..(N - 1) : E.shape[s][2] = E.shape[s + 1][1]
TInit == dims = <<>> /\ H = OpZero /\ l = 1 /\ charges = <<>>
TNext == NewE \/ AddE \/ GenE
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
==============================================================================
