--------------------------------- MODULE MpiTasks ---------------------------------
(* The master (rank 0) and its workers 1..w: orders and data that are broadcast, and pools of tasks that are worked off with    *)
(* point-to-point messages.  Channels are queues of typed messages; with sync set a sender goes on when everything it sent has  *)
(* been taken.  Kinds: "o" order, "n" number, "t" tensor, "d" real number, "s" the operands of a decomposition.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT STRICT                                          \* a broadcast goes on when everyone has it
VARIABLES alg, w, sync,
          last,    \* the last order
          m,       \* the master
          s,       \* the workers
          bc, up, down,
          res      \* tasks of this pool whose results arrived
mvars == <<alg, w, sync, last, m, s, bc, up, down, res>>
Workers == 1..w
Min(a, b) == IF a < b THEN a ELSE b
Blocks == alg = "mdmrg"                                  \* block operators; otherwise tensors of blocks
\* ---- the orders of a run
Follow(o) ==
  IF Blocks THEN CASE o = "" -> {"start"} [] o \in {"start", "grow"} -> {"grow", "ready"} [] o = "ready" -> {"lanczos", "final"} [] o = "lanczos" -> {"dynamic"}
                   [] o \in {"dynamic", "static"} -> {"static", "finish"} [] o = "finish" -> {"svd"} [] o = "svd" -> {"growl", "growr"}
                   [] o \in {"growl", "growr"} -> {"lanczos", "final"} [] OTHER -> {}
  ELSE CASE o = "" -> {"start"} [] o = "start" -> {"lanczos", "final"} \cup (IF alg = "mtdvp" THEN {} ELSE {"init"}) [] o \in {"init", "grow"} -> {"grow", "ready"}
         [] o = "ready" -> {"lanczos", "final"} [] o \in {"lanczos", "dynamic"} -> {"dynamic", "finish"}
         [] o = "finish" -> {"svd"} \cup (IF alg = "mnoise" THEN {"right", "left"} ELSE {}) [] o \in {"right", "left"} -> {"svd"}
         [] o = "svd" -> {"growl", "growr"} [] o \in {"growl", "growr"} -> {"lanczos", "final"} [] OTHER -> {}
\* what is broadcast with an order, which of it tells the number of tasks, and the pool it opens
Items(o) ==
  IF Blocks THEN CASE o \in {"grow", "dynamic"} -> <<"n", "t">> [] o = "lanczos" -> <<"n">> [] o \in {"static", "growl", "growr"} -> <<"t">> [] o = "svd" -> <<"s">> [] OTHER -> <<>>
  ELSE CASE o = "grow" -> <<"t", "t", "t">> [] o = "lanczos" -> <<"n", "t", "t", "t">> [] o \in {"dynamic", "growl", "growr"} -> <<"t">>
         [] o \in {"right", "left"} -> <<"t", "n">> [] o = "svd" -> <<"s">> [] OTHER -> <<>>
Telling(o) ==
  IF Blocks THEN IF o \in {"grow", "dynamic"} THEN 1 ELSE 0
  ELSE CASE o = "grow" -> 3 [] o = "lanczos" -> 2 [] o \in {"growl", "growr"} -> 1 [] OTHER -> 0
Pool(o) ==
  IF Blocks THEN CASE o = "grow" -> "init" [] o = "dynamic" -> "dyn" [] o = "static" -> "static" [] o \in {"growl", "growr"} -> "ops" [] OTHER -> "none"
  ELSE CASE o = "start" -> "hello" [] o \in {"lanczos", "dynamic"} -> "matvec" [] o \in {"grow", "right", "left", "growl", "growr"} -> "env" [] OTHER -> "none"
\* ---- starting a pool of t tasks: the master
Own(p, t) == IF p \in {"matvec", "env"} \/ (p = "init" /\ t <= w) THEN 1..Min(t, w) ELSE Workers      \* who takes part
First(p, t) == IF p \in {"matvec", "env"} THEN 0..(Min(t, w) - 1) ELSE {}                           \* tasks begun unasked
Begin(p, t) == [m EXCEPT !.ph = IF p = "none" THEN "cmd" ELSE p, !.t = t, !.open = (0..(t - 1)) \ First(p, t), !.need = Own(p, t),
                         !.free = IF p = "init" THEN Own(p, t) ELSE {}, !.to = 0, !.left = 0, !.groups = 0, !.half = {}, !.busy = IF p \in {"matvec", "env", "dyn"} THEN Own(p, t) ELSE {}]
\* the end of a pool: every task has been done, and done once
Close(x, d) == IF x.ph \in {"matvec", "env", "init", "dyn"} /\ x.need = {} /\ x.to = 0
               THEN IF Assert(d = 0..(x.t - 1) /\ x.open = {}, "tasks left") /\ x.ph = "matvec" /\ x.t > 0
                    THEN [x EXCEPT !.ph = "sum", !.need = Own("matvec", x.t), !.half = {}] ELSE [x EXCEPT !.ph = "cmd"]
               ELSE IF x.ph = "ops" /\ x.open = {} /\ x.to = 0 THEN [x EXCEPT !.ph = "cmd"] ELSE x
\* the master between two pools
Command == m.ph = "cmd"
Quiet == sync => \A r \in Workers : Len(down[r]) = 0 /\ (STRICT => Len(bc[r]) = 0)
\* ---- the master broadcasts an item; x is the number of tasks it tells (0: nothing)
MOrder(o) == /\ Command /\ Quiet /\ o \in Follow(last) /\ last' = o /\ res' = {}
             /\ bc' = [r \in Workers |-> Append(bc[r], [k |-> "o", o |-> o, x |-> 0])]
             /\ m' = IF Items(o) = <<>> THEN Close(Begin(Pool(o), 0), {}) ELSE [m EXCEPT !.ph = "items", !.at = 1]
             /\ UNCHANGED <<alg, w, sync, s, up, down>>
\* the number of tasks is that of the first block for products, that of the block on the other side for expansions to the left
MItem(k, x) == /\ m.ph = "items" /\ Quiet /\ k = Items(last)[m.at]
               /\ bc' = [r \in Workers |-> Append(bc[r], [k |-> k, o |-> "", x |-> x])]
               /\ LET m1 == [m EXCEPT !.at = @ + 1, !.x = IF m.at = Telling(last) THEN x ELSE @, !.x0 = IF last = "lanczos" /\ m.at = 2 THEN x ELSE @,
                                      !.x3 = IF last = "lanczos" /\ m.at = 3 THEN x ELSE @]
                  IN m' = IF m.at < Len(Items(last)) THEN m1
                          ELSE LET t == IF Blocks THEN m1.x ELSE IF last = "left" THEN m1.x3 ELSE IF last \in {"lanczos", "dynamic", "right"} THEN m1.x0 ELSE m1.x
                                   b == Begin(Pool(last), t)
                               IN Close([b EXCEPT !.x = m1.x, !.x0 = m1.x0, !.x3 = m1.x3, !.at = m1.at], {})
               /\ UNCHANGED <<alg, w, sync, last, s, up, down, res>>
\* ---- the master's messages
Give(r, k, v) ==                                         \* hand out a task, or the end of the pool
  IF m.to # 0
  THEN /\ r = m.to
       /\ IF m.left = 0 THEN k = "n" /\ v >= 0 /\ m' = [m EXCEPT !.left = 2 * v, !.groups = @ - 1, !.to = IF v = 0 /\ m.groups = 1 THEN 0 ELSE @]
          ELSE k = "t" /\ m' = [m EXCEPT !.left = @ - 1, !.to = IF m.left = 1 /\ m.groups = 0 THEN 0 ELSE @]
  ELSE /\ r \in m.free /\ k = "n"
       /\ IF m.ph = "init" /\ m.t <= w
          THEN r - 1 \in m.open /\ v >= 0 /\ m' = [m EXCEPT !.open = @ \ {r - 1}, !.free = @ \ {r}, !.busy = @ \cup {r}, !.left = 2 * v, !.to = IF v = 0 THEN 0 ELSE r]
          ELSE IF m.open # {} THEN v \in m.open /\ m' = [m EXCEPT !.open = @ \ {v}, !.free = @ \ {r}, !.busy = @ \cup {r},
                                                                   !.groups = IF m.ph = "init" THEN 1 ELSE IF m.ph = "dyn" THEN 2 ELSE 0, !.to = IF m.ph \in {"init", "dyn"} THEN r ELSE 0]
          ELSE v >= m.t /\ m' = Close([m EXCEPT !.free = @ \ {r}, !.need = @ \ {r}], res)
MSend(r, k, v) == /\ r \in Workers /\ Quiet
                  /\ \/ m.ph \in {"matvec", "env", "init", "dyn"} /\ Give(r, k, v)
                     \/ m.ph = "sum" /\ k = "n" /\ r \in m.need \ m.half /\ m' = [m EXCEPT !.half = @ \cup {r}]
                  /\ down' = [down EXCEPT ![r] = Append(@, [k |-> k, v |-> v])] /\ UNCHANGED <<alg, w, sync, last, s, bc, up, res>>
Back(m1) == IF m1.need = {} THEN [m1 EXCEPT !.ph = "cmd"] ELSE m1
MRecv(r, k) == LET x == Head(up[r]) IN
  /\ r \in Workers /\ Quiet /\ up[r] # <<>> /\ x.k = k /\ up' = [up EXCEPT ![r] = Tail(@)]
  /\ \/ /\ m.ph \in {"matvec", "env", "init", "dyn"} /\ m.to = 0 /\ k = "t" /\ r \in m.busy
        /\ res' = res \cup (IF x.x >= 0 THEN {x.x} ELSE {})
        /\ (x.x >= 0 => Assert(x.x \notin res, "result twice"))
        /\ m' = IF m.ph = "init" /\ m.t <= w THEN Close([m EXCEPT !.busy = @ \ {r}, !.need = @ \ {r}], res') ELSE [m EXCEPT !.busy = @ \ {r}, !.free = @ \cup {r}]
     \/ m.ph = "hello" /\ k = "n" /\ x.v = r /\ r \in m.need /\ m' = Back([m EXCEPT !.need = @ \ {r}]) /\ UNCHANGED res
     \/ m.ph = "sum" /\ k = "d" /\ r \in m.half \cap m.need /\ m' = Back([m EXCEPT !.need = @ \ {r}]) /\ UNCHANGED res
     \/ m.ph = "static" /\ k = "t" /\ r \in m.need \ m.half /\ m' = [m EXCEPT !.half = @ \cup {r}] /\ UNCHANGED res
     \/ m.ph = "static" /\ k = "d" /\ r \in m.half \cap m.need /\ m' = Back([m EXCEPT !.need = @ \ {r}]) /\ UNCHANGED res
     \/ m.ph = "ops" /\ m.to = 0 /\ k = "n" /\ x.v \in m.open /\ m' = [m EXCEPT !.open = @ \ {x.v}, !.to = r] /\ UNCHANGED res
     \/ /\ m.ph = "ops" /\ r = m.to /\ k = "t" /\ res' = res \cup {x.x} /\ Assert(x.x \notin res, "result twice")
        /\ m' = Close([m EXCEPT !.to = 0], res')
  /\ UNCHANGED <<alg, w, sync, last, s, bc, down>>
\* ---- a worker
Free(r) == sync => Len(up[r]) = 0
Start(r, p, t) == LET x == s[r] IN
  CASE p = "none" -> [x EXCEPT !.ph = "order"]
    [] p = "hello" -> [x EXCEPT !.ph = "hello"]
    [] p \in {"matvec", "env"} -> IF r <= t THEN [x EXCEPT !.ph = "put", !.pool = p, !.t = t, !.task = r - 1] ELSE [x EXCEPT !.ph = "order"]
    [] p = "init" -> IF t <= w THEN IF r <= t THEN [x EXCEPT !.ph = "count", !.pool = p, !.t = t, !.task = r - 1, !.groups = 1] ELSE [x EXCEPT !.ph = "order"] ELSE [x EXCEPT !.ph = "ask", !.pool = p, !.t = t]
    [] p = "dyn" -> [x EXCEPT !.ph = "put", !.pool = p, !.t = t, !.task = -1, !.done = <<>>]
    [] p = "static" -> [x EXCEPT !.ph = "put", !.pool = p, !.task = -1]
    [] p = "ops" -> [x EXCEPT !.ph = IF x.done = <<>> THEN "order" ELSE "opn", !.pool = p, !.todo = x.done]
WBcast(r, k) == LET y == Head(bc[r]) x == s[r] IN
  /\ Free(r) /\ bc[r] # <<>> /\ y.k = k /\ bc' = [bc EXCEPT ![r] = Tail(@)]
  /\ \/ x.ph = "order" /\ k = "o" /\ s' = [s EXCEPT ![r] = IF Items(y.o) = <<>> THEN (IF y.o = "final" THEN [x EXCEPT !.ph = "end", !.o = y.o] ELSE [Start(r, Pool(y.o), 0) EXCEPT !.o = y.o])
                                                             ELSE [x EXCEPT !.ph = "items", !.o = y.o, !.at = 1]]
     \/ /\ x.ph = "items" /\ k = Items(x.o)[x.at]
        /\ LET x1 == [x EXCEPT !.at = @ + 1, !.x = IF x.at = Telling(x.o) THEN y.x ELSE @, !.x0 = IF x.o = "lanczos" /\ x.at = 2 THEN y.x ELSE @, !.x3 = IF x.o = "lanczos" /\ x.at = 3 THEN y.x ELSE @]
               t == IF Blocks THEN x1.x ELSE IF x.o = "left" THEN x1.x3 ELSE IF x.o \in {"lanczos", "dynamic", "right"} THEN x1.x0 ELSE x1.x
               z == Start(r, Pool(x.o), t)
           IN s' = [s EXCEPT ![r] = IF x.at < Len(Items(x.o)) THEN x1 ELSE [z EXCEPT !.x = x1.x, !.x0 = x1.x0, !.x3 = x1.x3, !.at = x1.at]]
  /\ UNCHANGED <<alg, w, sync, last, m, up, down, res>>
WSend(r, k) == r \in Workers /\ LET x == s[r] IN
  /\ Free(r)
  /\ \/ /\ x.ph = "hello" /\ k = "n" /\ up' = [up EXCEPT ![r] = Append(@, [k |-> "n", v |-> r, x |-> -1])] /\ s' = [s EXCEPT ![r].ph = "order"]
     \/ /\ x.ph = "put" /\ k = "t" /\ up' = [up EXCEPT ![r] = Append(@, [k |-> "t", v |-> 0, x |-> x.task])]
        /\ s' = [s EXCEPT ![r] = [x EXCEPT !.ph = IF x.pool = "static" THEN "real" ELSE IF x.pool = "init" /\ x.t <= w THEN "order" ELSE "ask",
                                            !.done = IF x.pool = "dyn" /\ x.task >= 0 THEN Append(@, x.task) ELSE @]]
     \/ /\ x.ph = "real" /\ k = "d" /\ up' = [up EXCEPT ![r] = Append(@, [k |-> "d", v |-> 0, x |-> -1])] /\ s' = [s EXCEPT ![r].ph = "order"]
     \/ /\ x.ph = "opn" /\ k = "n" /\ up' = [up EXCEPT ![r] = Append(@, [k |-> "n", v |-> Head(x.todo), x |-> -1])] /\ s' = [s EXCEPT ![r].ph = "opt"]
     \/ /\ x.ph = "opt" /\ k = "t" /\ up' = [up EXCEPT ![r] = Append(@, [k |-> "t", v |-> 0, x |-> Head(x.todo)])]
        /\ s' = [s EXCEPT ![r] = [x EXCEPT !.todo = Tail(@), !.ph = IF Len(x.todo) = 1 THEN "order" ELSE "opn"]]
  /\ UNCHANGED <<alg, w, sync, last, m, bc, down, res>>
WRecv(r, k) == LET y == Head(down[r]) x == s[r] IN
  /\ r \in Workers /\ Free(r) /\ down[r] # <<>> /\ y.k = k /\ down' = [down EXCEPT ![r] = Tail(@)]
  /\ \/ /\ x.ph = "ask" /\ k = "n"
        /\ s' = [s EXCEPT ![r] = IF y.v >= x.t THEN [x EXCEPT !.ph = IF x.pool = "matvec" THEN "last" ELSE "order"]
                                  ELSE [x EXCEPT !.task = y.v, !.ph = IF x.pool \in {"init", "dyn"} THEN "count" ELSE "put", !.groups = IF x.pool = "dyn" THEN 2 ELSE 1]]
     \/ x.ph = "last" /\ k = "n" /\ s' = [s EXCEPT ![r].ph = "real"]
     \/ /\ x.ph = "count" /\ k = "n"
        /\ s' = [s EXCEPT ![r] = [x EXCEPT !.left = 2 * y.v, !.ph = IF y.v > 0 THEN "terms" ELSE IF x.groups = 1 THEN "put" ELSE "count", !.groups = IF y.v > 0 THEN @ ELSE @ - 1]]
     \/ /\ x.ph = "terms" /\ k = "t"
        /\ s' = [s EXCEPT ![r] = [x EXCEPT !.left = @ - 1, !.ph = IF x.left > 1 THEN "terms" ELSE IF x.groups = 1 THEN "put" ELSE "count", !.groups = IF x.left > 1 THEN @ ELSE @ - 1]]
  /\ UNCHANGED <<alg, w, sync, last, m, bc, up, res>>
\* ---- beginnings
Master0 == [ph |-> "cmd", at |-> 1, x |-> 0, x0 |-> 0, x3 |-> 0, t |-> 0, open |-> {}, need |-> {}, free |-> {}, busy |-> {}, half |-> {}, to |-> 0, left |-> 0, groups |-> 0]
Worker0 == [ph |-> "order", pool |-> "", o |-> "", at |-> 1, x |-> 0, x0 |-> 0, x3 |-> 0, t |-> 0, task |-> -1, left |-> 0, groups |-> 0, done |-> <<>>, todo |-> <<>>]
Fresh(a, k, y) == /\ alg' = a /\ w' = k /\ sync' = y /\ last' = "" /\ m' = Master0 /\ s' = [r \in 1..k |-> Worker0]
                  /\ bc' = [r \in 1..k |-> <<>>] /\ up' = [r \in 1..k |-> <<>>] /\ down' = [r \in 1..k |-> <<>>] /\ res' = {}
Over == last = "final" /\ \A r \in Workers : s[r].ph = "end" /\ bc[r] = <<>> /\ up[r] = <<>> /\ down[r] = <<>>
================================================================================
