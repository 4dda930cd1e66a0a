------------------------------ MODULE MCMeasure --------------------------------
(* C11, design: the measurement sweeps over a chain stored on disk. One tensor after the other is read, contracted into the   *)
(* left part and released. word is what has been contracted so far: a sequence of <<site, operator>>.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Size, MaxEvents
VARIABLES fn, ref, todo, phase, cen, mem, left, word, res
vars == <<fn, ref, todo, phase, cen, mem, left, word, res>>
S == 0..(Size - 1)
Sorted(T) == SetToSortSeq(T, <)
Pairs(lo) == {p \in S \X S : p[1] < p[2] /\ p[1] > lo}
Calls == [fn : {"one"}, ref : {<<>>}, todo : {[i \in 1..Len(q) |-> <<q[i]>>] : q \in {Sorted(T) : T \in SUBSET S \ {{}}}}]
   \cup UNION {[fn : {"two"}, ref : {<<r>>}, todo : {[i \in 1..Len(q) |-> <<q[i]>>] : q \in {Sorted(T) : T \in SUBSET {x \in S : x > r}}}] : r \in S}
   \cup UNION {[fn : {"four"}, ref : {r}, todo : {q \in UNION {[1..k -> Pairs(r[2])] : k \in 1..MaxEvents} : \A i, j \in 1..Len(q) : i # j => q[i] # q[j]}] : r \in Pairs(-1)}
Init == \E c \in Calls : /\ fn = c.fn /\ ref = c.ref /\ todo = (IF c.fn = "four" THEN SortSeq(c.todo, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])) ELSE c.todo)
                         /\ PrintT("EXPORT " \o ToJson([n |-> Size, fn |-> c.fn, ref |-> c.ref, todo |-> c.todo]))
                         /\ phase = "centre" /\ cen = 0 /\ mem = {0} /\ left = -1 /\ word = <<>> /\ res = <<>>
Target == IF fn = "one" THEN todo[1][1] ELSE ref[1]
(* the centre moves right: read the next tensor, push the gauge into it, release *)
Move == /\ phase = "centre" /\ (todo # <<>> \/ fn # "one")
        /\ cen < Target /\ mem' = {cen + 1} /\ cen' = cen + 1 /\ UNCHANGED <<fn, ref, todo, phase, left, word, res>>
TakeOne == /\ phase = "centre" /\ fn = "one" /\ todo # <<>> /\ cen = Target
           /\ res' = Append(res, [sites |-> <<cen>>, word |-> << <<cen, "A">> >>]) /\ todo' = Tail(todo)
           /\ mem' = IF Len(todo) = 1 THEN {} ELSE mem
           /\ UNCHANGED <<fn, ref, phase, cen, left, word>>
First == /\ phase = "centre" /\ fn # "one" /\ cen = Target
        /\ word' = << <<cen, "A">> >> /\ left' = cen /\ mem' = {} /\ phase' = (IF fn = "two" THEN "events" ELSE "second")
        /\ UNCHANGED <<fn, ref, todo, cen, res>>
Second == /\ phase = "second" /\ left < ref[2]
          /\ word' = Append(word, <<left + 1, (IF left + 1 = ref[2] THEN "B" ELSE "I")>>) /\ left' = left + 1
          /\ phase' = (IF left' = ref[2] THEN "events" ELSE "second") /\ UNCHANGED <<fn, ref, todo, cen, mem, res>>
(* shared part of the next event *)
Advance == /\ phase = "events" /\ todo # <<>> /\ left < todo[1][1] - 1
           /\ word' = Append(word, <<left + 1, IF fn = "two" THEN "I" ELSE "1">>) /\ left' = left + 1
           /\ UNCHANGED <<fn, ref, todo, phase, cen, mem, res>>
Finish == /\ phase = "events" /\ todo # <<>> /\ left = todo[1][1] - 1
          /\ LET t == todo[1] IN
               /\ res' = Append(res, IF fn = "two" THEN [sites |-> ref \o t, word |-> Append(word, <<t[1], "B">>)]
                                     ELSE [sites |-> ref \o t, word |-> word \o << <<t[1], "C">> >> \o [i \in 1..(t[2] - t[1] - 1) |-> <<t[1] + i, "I">>] \o << <<t[2], "D">> >>])
               /\ mem' = mem
          /\ todo' = Tail(todo) /\ UNCHANGED <<fn, ref, phase, cen, left, word>>
Next == Move \/ TakeOne \/ First \/ Second \/ Advance \/ Finish
Spec == Init /\ [][Next]_vars
(* ---- properties ---- *)
Between(x, a, b) == x > a /\ x < b
Wanted(s, x) == CASE fn = "one" -> "A"
                  [] fn = "two" -> IF x = s[1] THEN "A" ELSE IF x = s[2] THEN "B" ELSE "I"
                  [] OTHER -> IF x = s[1] THEN "A" ELSE IF x = s[2] THEN "B" ELSE IF x = s[3] THEN "C" ELSE IF x = s[4] THEN "D"
                              ELSE IF Between(x, s[2], s[3]) THEN "1" ELSE "I"
(* every site from the first to the last exactly once, in order, with the operator asked for *)
Exact == \A i \in 1..Len(res) : LET r == res[i] s == r.sites w == r.word IN
            /\ Len(w) = s[Len(s)] - s[1] + 1
            /\ \A k \in 1..Len(w) : w[k] = <<s[1] + k - 1, Wanted(s, s[1] + k - 1)>>
Clean == todo = <<>> /\ (fn # "one" => phase = "events") => mem = {}
Progress == todo = <<>> \/ ENABLED Next
AtMostOne == Cardinality(mem) <= 1
================================================================================
