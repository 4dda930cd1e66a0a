--------------------------------- MODULE MCNoise ---------------------------------
(* The rules of NoiseSchedule on their own: every plan of a bounded size, every decision of every step.                        *)
EXTENDS NoiseSchedule, TLC
CONSTANTS VALUES, CAPS, SWEEPS, STEPS
VARIABLES plan, s, i, x, z          \* sweep, step in it, running value, last value used
vars == <<plan, s, i, x, z>>
Plans == {[v |-> w, rate |-> r, down |-> d, cap |-> c] : w \in UNION {[1..k -> VALUES] : k \in 1..SWEEPS}, r \in {1, 2}, d \in BOOLEAN, c \in CAPS}
Init == plan \in Plans /\ s = 0 /\ i = STEPS /\ x = [j |-> 0, k |-> 0, v |-> 0] /\ z = None0
\* the program keeps one running value; a listed sweep overwrites it
MSweep == /\ i = STEPS /\ s < SWEEPS /\ s' = s + 1 /\ i' = 0 /\ x' = (IF s + 1 <= Len(plan.v) THEN Preset(plan, s + 1) ELSE x) /\ UNCHANGED <<plan, z>>
Step(y) == /\ i < STEPS /\ i' = i + 1 /\ x' = y /\ z' = (IF y.v = 0 THEN z ELSE [j |-> y.j, k |-> y.k, v |-> y.v, at |-> s, seen |-> z.seen \cup {s}, reads |-> i]) /\ UNCHANGED <<plan, s>>
MKeep == Step(x) /\ TRUE
MLower == Step(Lowered(plan, x)) /\ TRUE
MRaise == ~plan.down /\ Step(Grown(plan, x))
Next == MSweep \/ MKeep \/ MLower \/ MRaise
Spec == Init /\ [][Next]_vars
\* the observer's rule (From, Steps) admits every step of the program
\* nor does the rule for unseen steps refuse one
Reaches == i = STEPS /\ s > 0 /\ x.v > 0 => Within(plan, IF s <= Len(plan.v) THEN Preset(plan, s) ELSE Preset(plan, Len(plan.v)), x, STEPS * s)
Admits == i < STEPS /\ x.v > 0 => LET f == From(plan, z, s) IN Same(f, x) /\ f.v = x.v
\* the running value stays within the cap, unless it was listed above it; a plan without changes keeps each listed value
Capped == x.v <= plan.cap \/ (x.j > 0 /\ x.k <= 0)
Plain == plan.rate = 1 /\ plan.down /\ s > 0 => x.j = Least(s, Len(plan.v)) /\ x.k = 0
Silent == \A t \in 1..(s - 1) : (t <= Len(plan.v) /\ plan.v[Least(t, Len(plan.v))] = 0 => t \notin z.seen) /\ (t <= Len(plan.v) /\ plan.v[Least(t, Len(plan.v))] > 8 => t \in z.seen)
Safe == Admits /\ Reaches /\ Capped /\ Plain /\ Silent
=================================================================================
