---------------------------- MODULE MCSparseMatrix ---------------------------
(* The storage scheme (a table of positions into an element store that only grows) next to the dense matrix it stands for: *)
(* the table denotes exactly the dense matrix and no two cells share a position, so overwriting one cell is safe. All       *)
(* transitions are exported as implementation tests.                                                                      *)
EXTENDS SparseMatrix, Json
CONSTANTS MaxR, MaxC, Elems, MaxStore
VARIABLES idx, data, prog
K == CHOOSE k \in Regs : TRUE
D == m[K]
L(o) == prog' = Append(prog, o)
MInit == Init /\ idx = <<>> /\ data = <<>> /\ prog = <<>>
Store(t) == idx' = t /\ UNCHANGED data
PR(p) == [x \in 1..Len(p) |-> idx[p[x]]]
PC(p) == [x \in 1..Len(idx) |-> [y \in 1..Len(p) |-> idx[x][p[y]]]]
MNew == \E r \in 1..MaxR, c \in 1..MaxC : New(K, r, c) /\ idx' = [x \in 1..r |-> [y \in 1..c |-> 0]] /\ data' = <<>> /\ L(<<"new", r, c>>)
MSet == \E x \in 1..MaxR, y \in 1..MaxC, e \in Elems :
          /\ SetElem(K, x, y, e)
          /\ IF idx[x][y] = 0 THEN data' = Append(data, e) /\ idx' = [idx EXCEPT ![x][y] = Len(data) + 1]
             ELSE data' = [data EXCEPT ![idx[x][y]] = e] /\ UNCHANGED idx
          /\ L(<<"set", x, y, e>>)
Cleared == idx' = <<>> /\ data' = <<>>
MRemoveRow == \E x \in 1..MaxR : RemoveRow(K, x) /\ (IF D.r = 1 THEN Cleared ELSE Store(PR(Skip(x, D.r)))) /\ L(<<"rmrow", x>>)
MRemoveCol == \E y \in 1..MaxC : RemoveCol(K, y) /\ (IF D.c = 1 THEN Cleared ELSE Store(PC(Skip(y, D.c)))) /\ L(<<"rmcol", y>>)
MSwapRows == \E i, j \in 1..MaxR : i < j /\ SwapRows(K, i, j) /\ Store(PR(SwapAt(i, j, D.r))) /\ L(<<"swaprows", i, j>>)
MSwapCols == \E i, j \in 1..MaxC : i < j /\ SwapCols(K, i, j) /\ Store(PC(SwapAt(i, j, D.c))) /\ L(<<"swapcols", i, j>>)
Perms(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
MTransRows == \E p \in Perms(D.r) : TransRows(K, p) /\ Store(PR(p)) /\ L(<<"transrows", p>>)
MTransCols == \E p \in Perms(D.c) : TransCols(K, p) /\ Store(PC(p)) /\ L(<<"transcols", p>>)
MSortRows == \E p \in Perms(D.r) : SortRows(K, p) /\ Store(PR(p)) /\ L(<<"sortrows">>)
MSortCols == \E p \in Perms(D.c) : SortCols(K, p) /\ Store(PC(p)) /\ L(<<"sortcols">>)
MNext == MNew \/ MSet \/ MRemoveRow \/ MRemoveCol \/ MSwapRows \/ MSwapCols \/ MTransRows \/ MTransCols \/ MSortRows \/ MSortCols
MSpec == MInit /\ [][MNext]_<<m, idx, data, prog>>
Small == Len(data') <= MaxStore
Export == Small /\ PrintT("EXPORT " \o ToJson(prog'))
View == m
Denotes == /\ Len(idx) = D.r
           /\ \A x \in Rows(D), y \in Cols(D) : D.a[x][y] = IF idx[x][y] = 0 THEN 0 ELSE data[idx[x][y]]
NoSharing == \A x, v \in Rows(D), y, w \in Cols(D) : (idx[x][y] # 0 /\ idx[x][y] = idx[v][w]) => x = v /\ y = w
==============================================================================
