----------------------------- MODULE TraceModels -----------------------------
EXTENDS FermionSites, Json, IOUtils
VARIABLES l, site, H    \* site: the site object looked at last; H: Hamiltonian of the generator in progress, times 8
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
vars == <<l, site, H>>
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
SameSet(seq, S) == {seq[i] : i \in 1..Len(seq)} = S /\ Len(seq) = Cardinality(S)
(* a site: basis lists the names of its basis states in order *)
Basis(names) == [i \in 1..Len(names) |-> StateOf(names[i])]
SiteE == /\ IsEvent("reset") /\ H' = OpZero
         /\ LET b == Basis(E.basis) IN
            /\ SameSet(b, States(E.model)) /\ E.indexes /\ E.sites
            /\ \A i \in 1..Len(b) : E.charges[i] = ChargeOf(E.qn, b[i])
            /\ site' = [model |-> E.model, qn |-> E.qn, el |-> E.el, b |-> b, n |-> E.n]
(* all operators of the set, looked at directly, in a copy, or in a copy whose source is gone *)
OpsE == /\ IsEvent("ops") /\ UNCHANGED <<site, H>>
        /\ SameSet([i \in 1..Len(E.ops) |-> E.ops[i].name], NamesOf(site.model, site.qn, site.el))
        /\ \A i \in 1..Len(E.ops) : LET o == InBasis(Named(E.ops[i].name), site.b) IN
             /\ SameOp(E.ops[i].m, o) /\ E.ops[i].shape
             /\ \A x \in DOMAIN o : LET r == ChargeOf(site.qn, site.b[x[1] + 1]) c == ChargeOf(site.qn, site.b[x[2] + 1])
                                    IN \A q \in 1..Len(r) : E.ops[i].div[q] = r[q] - c[q]
        /\ E.exact
Build(o) == H' = OpAdd(H, o) /\ UNCHANGED site
HeisE == IsEvent("heisenberg") /\ E.out = "ok" /\ Build(Heisenberg8(E.j2, E.i + 1, E.j + 1, site.n, site.b))
HopE == /\ IsEvent("hopping")
        /\ IF E.i = E.j THEN E.out = "error" /\ UNCHANGED <<site, H>>      \* t-J builder: refused, nothing added
           ELSE E.out = "ok" /\ Build(Hopping8(E.t2, E.i + 1, E.j + 1, site.n, site.b))
OnE == IsEvent("onsite") /\ Build(OnSite8(E.c2, E.name, E.i + 1, site.n, site.b))
GenE == IsEvent("gen") /\ UNCHANGED <<site, H>> /\ E.exact /\ SameOp(E.m, H)
TInit == l = 1 /\ site = <<>> /\ H = OpZero
TNext == SiteE \/ OpsE \/ HeisE \/ HopE \/ OnE \/ GenE
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
==============================================================================
