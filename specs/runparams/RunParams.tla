------------------------------ MODULE RunParams ------------------------------
(* Parameter objects of the optimisation and evolution runs, as a caller sees them: a table of live objects whose fields   *)
(* are exactly the arguments of the constructor call (documented defaults for trailing arguments that were not passed),    *)
(* a copy has equal fields and is independent, and the noise schedule is active exactly when some entry is not zero.       *)
(* Numbers are opaque tokens (their exact text); Zeros are the tokens that denote zero.                                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zeros,        \* tokens of the number zero
          Def           \* record of documented defaults
VARIABLE objs           \* object name -> record of fields
Put(n, r) == objs' = [x \in DOMAIN objs \cup {n} |-> IF x = n THEN r ELSE objs[x]]
Active(ns) == \E i \in 1..Len(ns) : ns[i] \notin Zeros
(* the i-th trailing argument when given, else the default *)
Arg(a, i, d) == IF i <= Len(a) THEN a[i] ELSE d
LanczosOf(a) == [k |-> "lanczos", error |-> Arg(a, 1, Def.error), max_iter |-> Arg(a, 2, Def.max_iter)]
(* a: <<sweeps, dmin, dmax, trunc>>, lz: lanczos fields, o: the optional arguments given *)
PlainOf(a, lz, o) == [k |-> "sweep", sweeps |-> a[1], dmin |-> a[2], dmax |-> a[3], trunc |-> a[4],
                      error |-> lz[1], max_iter |-> lz[2], mps |-> Arg(o, 1, Def.mps), temp |-> Arg(o, 2, Def.temp),
                      noise_valid |-> FALSE, noises |-> <<>>]
NoisyOf(a, lz, ns, o) == [k |-> "noisy", sweeps |-> a[1], dmin |-> a[2], dmax |-> a[3], trunc |-> a[4],
                          error |-> lz[1], max_iter |-> lz[2],
                          max_noise |-> Arg(o, 1, Def.max_noise), increase |-> Arg(o, 2, Def.increase),
                          decrease |-> Arg(o, 3, Def.decrease), alpha |-> Arg(o, 4, Def.alpha),
                          mps |-> Arg(o, 5, Def.mps), temp |-> Arg(o, 6, Def.temp),
                          noise_valid |-> Active(ns), noises |-> ns]
(* a: <<tau, step, site_0, e0, dmin, dmax, trunc>>; ops: the four operators *)
EvolveOf(a, ops, lz, o) == [k |-> "evolve", tau |-> a[1], step |-> a[2], site_0 |-> a[3], e0 |-> a[4], dmin |-> a[5],
                            dmax |-> a[6], trunc |-> a[7], ops |-> ops, corr |-> TRUE, error |-> lz[1], max_iter |-> lz[2],
                            mps |-> Arg(o, 1, Def.mps), initial |-> Arg(o, 2, Def.initial), temp |-> Arg(o, 3, Def.temp),
                            measure |-> Arg(o, 4, Def.measure)]
(* the sweep parameters of one evolution step *)
AsSweep(r) == [k |-> "sweep", sweeps |-> r.step, dmin |-> r.dmin, dmax |-> r.dmax, trunc |-> r.trunc, error |-> r.error,
               max_iter |-> r.max_iter, mps |-> r.mps, temp |-> r.temp, noise_valid |-> FALSE, noises |-> <<>>]
MakeLanczos(n, a) == Put(n, LanczosOf(a))
MakePlain(n, a, lz, o) == Put(n, PlainOf(a, lz, o))
MakeNoisy(n, a, lz, ns, o) == Put(n, NoisyOf(a, lz, ns, o))
MakeEvolve(n, a, ops, lz, o) == Put(n, EvolveOf(a, ops, lz, o))
Copy(n, m) == m \in DOMAIN objs /\ n # m /\ Put(n, objs[m])
Assign(n, m) == n \in DOMAIN objs /\ m \in DOMAIN objs /\ objs[n].k = objs[m].k /\ Put(n, objs[m])
Convert(n, m) == m \in DOMAIN objs /\ objs[m].k = "evolve" /\ n # m /\ Put(n, AsSweep(objs[m]))
SetTrunc(n, v) == n \in DOMAIN objs /\ objs[n].k # "lanczos" /\ Put(n, [objs[n] EXCEPT !.trunc = v])
SetError(n, v) == n \in DOMAIN objs /\ Put(n, [objs[n] EXCEPT !.error = v])
NoiseMeaning == \A n \in DOMAIN objs : objs[n].k \in {"sweep", "noisy"} => (objs[n].noise_valid = Active(objs[n].noises))

(* ---- memory figures: mega-units of memory, the operating system's answer q = [total, free, buffer] ---- *)
Near(hundredths, mega) == LET d == 1024 * hundredths - 100 * mega IN -513 <= d /\ d <= 513     \* 2 decimals of mega/1024
Figures(q, total, free, used) == total = q.total /\ used + free = total /\ q.free <= free /\ free <= q.total
==============================================================================
