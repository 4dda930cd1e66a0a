-------------------------- MODULE TraceSparseMatrix --------------------------
EXTENDS SparseMatrix, SymEval, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Plus1(p) == [i \in 1..Len(p) |-> p[i] + 1]
Post == \A k \in Regs : m'[k] = [r |-> E.m[k].r, c |-> E.m[k].c, a |-> E.m[k].a] /\ E.m[k].nullok
Step ==
  \/ IsEvent("new") /\ New(E.k, E.r, E.c)
  \/ IsEvent("copy") /\ Copy(E.k, E.s)
  \/ IsEvent("set") /\ SetElem(E.k, E.x + 1, E.y + 1, E.el)
  \/ IsEvent("rmrow") /\ RemoveRow(E.k, E.x + 1)
  \/ IsEvent("rmcol") /\ RemoveCol(E.k, E.x + 1)
  \/ IsEvent("swaprows") /\ SwapRows(E.k, E.x + 1, E.y + 1)
  \/ IsEvent("swapcols") /\ SwapCols(E.k, E.x + 1, E.y + 1)
  \/ IsEvent("transrows") /\ TransRows(E.k, Plus1(E.p))
  \/ IsEvent("transcols") /\ TransCols(E.k, Plus1(E.p))
  \/ IsEvent("sortrows") /\ SortRows(E.k, Plus1(E.p))
  \/ IsEvent("sortcols") /\ SortCols(E.k, Plus1(E.p))
Observe ==
  \/ IsEvent("row") /\ E.val = m[E.k].a[E.x + 1] /\ UNCHANGED m
  \/ IsEvent("col") /\ E.val = [x \in Rows(m[E.k]) |-> m[E.k].a[x][E.x + 1]] /\ UNCHANGED m
  \/ IsEvent("eq") /\ E.val = (m[E.k] = m[E.s]) /\ UNCHANGED m
(* compression: target and follower before and after, evaluated on two sites *)
Prod(a, b, cv, oa, ob) ==    \* rows of a times b
  [x \in 1..a.r |-> RowTimes(RowTimes([i \in 1..a.r |-> IF i = x THEN 1 ELSE 0], a, cv, oa), b, cv, ob)]
Compressed(left, right, nleft, nright, cv, ol, orr) ==
  /\ left.c = right.r /\ nleft.c = nright.r
  /\ nleft.r = left.r /\ nright.c = right.c /\ nleft.c <= left.c /\ nleft.c > 0
  /\ WellFormed(nleft) /\ WellFormed(nright)
  /\ Prod(nleft, nright, cv, ol, orr) = Prod(left, right, cv, ol, orr)
Compress == IsEvent("compress") /\ Compressed(E.l0, E.r0, E.l1, E.r1, E.cv, E.ol, E.orr) /\ UNCHANGED m
TReset == IsEvent("reset") /\ m' = [k \in Regs |-> Zero]
TInit == Init /\ l = 1
TNext == TReset \/ (Step /\ Post) \/ Observe \/ Compress
TSpec == TInit /\ [][TNext]_<<m, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
==============================================================================
