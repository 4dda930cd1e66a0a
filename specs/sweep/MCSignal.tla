-------------------------------- MODULE MCSignal --------------------------------
(* Stop requests to the block-operator optimiser.  A request can arrive between any two steps of a run, between runs, and     *)
(* more than once; a graceful one ends the run after the sweep under way, an emergency after the site update under way.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS LENS, MAXRUNS, MAXSWEEPS, MAXSIGNALS
VARIABLES n, pc, run, sweeps, sweep, p, dir,
          stop, emerg,          \* what the handler has set
          dumped,               \* the sweep was left with every tensor on disk
          disk, mem,            \* site -> file is the tensor of the state; sites in memory
          centre, budget,
          got,                  \* requests that arrived during this run: "stop" / "now"
          after                 \* updates begun since the first emergency request of this run
vars == <<n, pc, run, sweeps, sweep, p, dir, stop, emerg, dumped, disk, mem, centre, budget, got, after>>
Lo == 0
Hi == n - 1
Init == /\ n \in LENS /\ pc = "idle" /\ run = 0 /\ sweeps = 0 /\ sweep = 0 /\ p = 0 /\ dir = "r" /\ stop = FALSE /\ emerg = FALSE /\ dumped = FALSE
        /\ disk = [i \in 0..(n - 1) |-> TRUE] /\ mem = {} /\ centre = 0 /\ budget = MAXSIGNALS /\ got = {} /\ after = 0
(* ---- a request arrives *)
Request(e) == /\ budget > 0 /\ run > 0 /\ budget' = budget - 1 /\ stop' = TRUE /\ emerg' = (emerg \/ e)
              /\ got' = (IF pc = "idle" THEN got ELSE got \cup {IF e THEN "now" ELSE "stop"})
              /\ UNCHANGED <<n, pc, run, sweeps, sweep, p, dir, dumped, disk, mem, centre, after>>
Signal == \E e \in BOOLEAN : Request(e)
(* ---- a run *)
Begin == /\ pc = "idle" /\ run < MAXRUNS /\ centre <= Lo + 1                   \* the state has to be centred again after an emergency
         /\ run' = run + 1 /\ sweeps' \in 1..MAXSWEEPS /\ sweep' = 1 /\ p' = Lo /\ dir' = "r" /\ stop' = FALSE /\ emerg' = FALSE /\ dumped' = FALSE
         /\ mem' = {Lo + 1} /\ centre' = Lo + 1 /\ got' = {} /\ after' = 0 /\ pc' = "load" /\ UNCHANGED <<n, disk, budget>>
Recentre == pc = "idle" /\ run > 0 /\ centre > Lo + 1 /\ centre' = 0 /\ UNCHANGED <<n, pc, run, sweeps, sweep, p, dir, stop, emerg, dumped, disk, mem, budget, got, after>>
Load == /\ pc = "load" /\ mem' = {p, p + 1} /\ pc' = "update" /\ after' = (IF "now" \in got THEN after + 1 ELSE after)
        /\ UNCHANGED <<n, run, sweeps, sweep, p, dir, stop, emerg, dumped, disk, centre, budget, got>>
Update == /\ pc = "update" /\ disk' = [disk EXCEPT ![p] = FALSE, ![p + 1] = FALSE] /\ centre' = (IF dir = "r" THEN p + 1 ELSE p) /\ pc' = "dump"
          /\ UNCHANGED <<n, run, sweeps, sweep, p, dir, stop, emerg, dumped, mem, budget, got, after>>
Dump == LET out == IF dir = "r" THEN p ELSE p + 1 IN
        /\ pc = "dump" /\ disk' = [disk EXCEPT ![out] = TRUE] /\ mem' = mem \ {out} /\ pc' = "check"
        /\ UNCHANGED <<n, run, sweeps, sweep, p, dir, stop, emerg, dumped, centre, budget, got, after>>
\* the emergency is looked for after every update
Check == /\ pc = "check"
         /\ IF emerg THEN /\ disk' = [i \in 0..(n - 1) |-> IF i \in mem THEN TRUE ELSE disk[i]] /\ mem' = {} /\ dumped' = TRUE /\ pc' = "swept" /\ UNCHANGED <<p, dir>>
            ELSE /\ UNCHANGED <<disk, mem, dumped>>
                 /\ IF dir = "r" THEN (IF p < Hi - 2 THEN pc' = "load" /\ p' = p + 1 /\ UNCHANGED dir ELSE pc' = "load" /\ dir' = "l" /\ p' = Hi - 1)
                    ELSE IF p > Lo + 1 THEN pc' = "load" /\ p' = p - 1 /\ UNCHANGED dir ELSE pc' = "swept" /\ UNCHANGED <<p, dir>>
         /\ UNCHANGED <<n, run, sweeps, sweep, stop, emerg, centre, budget, got, after>>
Swept == /\ pc = "swept"
         /\ IF stop \/ emerg \/ sweep = sweeps THEN pc' = "last" /\ UNCHANGED <<sweep, p, dir>> ELSE pc' = "load" /\ sweep' = sweep + 1 /\ p' = Lo /\ dir' = "r"
         /\ UNCHANGED <<n, run, sweeps, stop, emerg, dumped, disk, mem, centre, budget, got, after>>
\* a request that arrives here is too late to be noticed by the sweep: what counts is what the sweep did
Last == /\ pc = "last" /\ pc' = "idle" /\ stop' = FALSE /\ emerg' = FALSE
        /\ IF dumped THEN UNCHANGED <<disk, mem, centre>> ELSE disk' = [i \in 0..(n - 1) |-> IF i \in mem THEN TRUE ELSE disk[i]] /\ mem' = {} /\ centre' = 0
        /\ UNCHANGED <<n, run, sweeps, sweep, p, dir, dumped, budget, got, after>>
Next == Signal \/ Begin \/ Recentre \/ Load \/ Update \/ Dump \/ Check \/ Swept \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Recentre \/ Load \/ Update \/ Dump \/ Check \/ Swept \/ Last)
(* ---- properties *)
Complete == pc = "idle" => mem = {} /\ \A i \in 0..(n - 1) : disk[i]
NothingLost == \A i \in 0..(n - 1) : i \in mem \/ disk[i]
Centred == pc = "idle" /\ run > 0 /\ "now" \notin got => centre = 0
Undisturbed == pc = "idle" /\ run > 0 /\ got = {} => sweep = sweeps /\ ~dumped
Graceful == pc = "idle" /\ run > 0 /\ "now" \notin got => ~dumped
Prompt == after <= 1
Clean == pc = "idle" /\ budget = MAXSIGNALS => ~stop /\ ~emerg
Safe == Complete /\ NothingLost /\ Centred /\ Undisturbed /\ Graceful /\ Prompt /\ Clean
\* a graceful request is obeyed at the end of a sweep: at most one further sweep begins
Obeyed == [][pc = "swept" /\ pc' = "load" => got = {}]_vars
Ends == pc = "load" ~> pc = "idle"
=================================================================================
