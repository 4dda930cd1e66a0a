---------------------------------- MODULE MCMpi ----------------------------------
(* Every interleaving of a bounded run: any order the run allows, any number of tasks up to MAXT, messages buffered or not.      *)
EXTENDS MpiTasks
CONSTANTS ALG, WS, MAXT, ROUNDS, MAXTERMS
VARIABLE r1          \* orders of those that can be repeated so far
MOrders == {"start", "init", "grow", "ready", "lanczos", "svd", "dynamic", "static", "finish", "right", "left", "growl", "growr", "final"}
Vals == 0..MAXT
Init == /\ alg = ALG /\ w \in WS /\ sync \in BOOLEAN /\ last = "" /\ m = Master0 /\ s = [r \in 1..w |-> Worker0]
        /\ bc = [r \in 1..w |-> <<>>] /\ up = bc /\ down = bc /\ res = {} /\ r1 = 0
Work == {"lanczos", "grow", "static"} \cup (IF Blocks THEN {} ELSE {"dynamic"})
Order(o) == /\ (o \in Work => r1 < ROUNDS) /\ MOrder(o) /\ r1' = IF o \in Work THEN r1 + 1 ELSE r1
Telling2 == last = "lanczos" /\ ~Blocks /\ m.at = 3
Item(x) == /\ (IF m.ph = "items" THEN (IF m.at = Telling(last) \/ Telling2 THEN x >= 1 ELSE x = 0) /\ MItem(Items(last)[m.at], x) ELSE FALSE) /\ UNCHANGED r1
Send(r, k, v) == /\ (m.to # 0 /\ m.left = 0 => v <= MAXTERMS)
                 /\ (m.ph = "init" /\ m.t <= w /\ m.to = 0 => v <= MAXTERMS)
                 /\ (k = "t" \/ m.ph = "sum" => v = 0)
                 /\ (m.to = 0 /\ m.open = {} /\ m.ph # "sum" => v = m.t) /\ MSend(r, k, v) /\ UNCHANGED r1
Recv(r, k) == (IF (IF r <= w THEN up[r] # <<>> ELSE FALSE) THEN MRecv(r, k) ELSE FALSE) /\ UNCHANGED r1
Bcast(r, k) == (IF (IF r <= w THEN bc[r] # <<>> ELSE FALSE) THEN WBcast(r, k) ELSE FALSE) /\ UNCHANGED r1
Put(r, k) == r <= w /\ WSend(r, k) /\ UNCHANGED r1
Get(r, k) == (IF (IF r <= w THEN down[r] # <<>> ELSE FALSE) THEN WRecv(r, k) ELSE FALSE) /\ UNCHANGED r1
Done == Over /\ UNCHANGED <<mvars, r1>>
Ranks == 1..3
Next == \/ \E o \in MOrders : Order(o)
        \/ \E x \in 0..MAXT : Item(x)
        \/ \E r \in Ranks, k \in {"n", "t"}, v \in 0..MAXT : Send(r, k, v)
        \/ \E r \in Ranks, k \in {"n", "t", "d"} : Recv(r, k)
        \/ \E r \in Ranks, k \in {"o", "n", "t", "s"} : Bcast(r, k)
        \/ \E r \in Ranks, k \in {"n", "t", "d"} : Put(r, k)
        \/ \E r \in Ranks, k \in {"n", "t"} : Get(r, k)
        \/ Done
Spec == Init /\ [][Next]_<<mvars, r1>> /\ WF_<<mvars, r1>>(Next)
\* ---- what holds
\* a message at the head of a queue is one its receiver will take there: kinds never meet the wrong receive
Fits == \A r \in Workers : LET x == s[r] IN
          /\ (down[r] # <<>> => Head(down[r]).k = (IF x.ph = "terms" THEN "t" ELSE "n") \/ x.ph \in {"put", "order", "items"})
          /\ (bc[r] # <<>> => (x.ph = "order" => Head(bc[r]).k = "o") /\ (x.ph = "items" => Head(bc[r]).k = Items(x.o)[x.at]))
          /\ (x.ph = "end" => bc[r] = <<>> /\ down[r] = <<>>)
\* what a result is taken for: results of one pool never arrive in another
Own1 == \A r \in Workers : \A i \in 1..Len(up[r]) : up[r][i].k = "t" => m.ph \in {"matvec", "env", "init", "dyn", "static", "ops"}
Ahead == \A r \in Workers : Len(bc[r]) <= 20
NoTaskTwice == \A r, q \in Workers : r # q /\ s[r].ph = "put" /\ s[q].ph = "put" /\ s[r].task >= 0 /\ s[r].pool = s[q].pool /\ m.ph = s[r].pool => s[r].task # s[q].task
Safe == Fits /\ Own1 /\ NoTaskTwice
================================================================================
