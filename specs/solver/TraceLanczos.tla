------------------------------ MODULE TraceLanczos -----------------------------
(* C21. Recorded solutions of random Hermitian local problems. Energies in units of 1e-6, deviations of 1e-9.                 *)
(* ritz[j]: lowest value in the exact Krylov space of j vectors, kd: its final dimension, least: exact minimum of the whole    *)
(* problem, reach: minimum within the invariant subspace of the start. cls[j-1]: whether what the stop rule looks at after j   *)
(* vectors is above, near or below the error limit.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l, pb, k, seen
vars == <<l, pb, k, seen>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Least(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Exp == pb.kind \in {"exp2", "exp1"}
TReset == /\ IsEvent("reset") /\ seen \in {"none", "done"} /\ E.kd \in 1..E.dim /\ Len(E.ritz) = E.kd /\ Len(E.cls) = E.kd - 1
          /\ pb' = [kind |-> E.kind, dim |-> E.dim, kd |-> E.kd, lim |-> E.lim, stop |-> E.stop, cls |-> E.cls, ritz |-> E.ritz, least |-> E.least, reach |-> E.reach]
          /\ k' = 0 /\ seen' = "open"
(* each product is of the next vector of the one Krylov sequence, normalised, and is the product with the Hamiltonian *)
TMul == /\ IsEvent("mul") /\ seen = "open" /\ pb.kind # "dmrg" /\ E.k = k /\ k < pb.lim
        /\ E.nrm <= 100 /\ E.out <= 10 /\ E.prod <= 100 /\ (k < pb.kd => E.dir <= 100000)
        /\ k' = k + 1 /\ UNCHANGED <<pb, seen>>
TProduct == /\ IsEvent("product") /\ seen = "open" /\ pb.kind = "dmrg" /\ E.out <= 10 /\ E.prod <= 100 /\ UNCHANGED <<pb, k, seen>>
MayStop(n) == IF n = pb.lim \/ n >= pb.kd THEN TRUE ELSE n >= 2 /\ pb.cls[n - 1] # "above"
MustStop(n) == IF n = pb.lim THEN TRUE ELSE IF n < 2 \/ n > pb.kd THEN FALSE ELSE pb.cls[n - 1] = "below"
TDone ==
  /\ IsEvent("done") /\ seen = "open"
  /\ E.iters \in 1..pb.lim /\ (pb.kind # "dmrg" => E.muls = E.iters /\ k = E.iters)
  /\ MayStop(E.iters) /\ \A j \in 1..(E.iters - 1) : ~MustStop(j)
  /\ (pb.stop > 0 => E.iters = Least(pb.stop, pb.lim))
  /\ (pb.stop = 0 => E.iters >= Least(pb.kd, pb.lim))
  /\ E.nrm <= 1000 /\ E.out <= 10 /\ E.same /\ E.left = 0 /\ E.objs = 0
  /\ IF Exp THEN /\ (E.iters <= pb.kd => E.dir <= 10000)
                 /\ (E.iters >= pb.kd => E.exact <= 10000)
     ELSE /\ Abs(E.eng - E.ray) <= 5 /\ E.eng <= pb.ritz[1] + 5 /\ E.eng >= pb.least - 5
          /\ (E.iters <= pb.kd => Abs(E.eng - pb.ritz[E.iters]) <= 5 /\ E.dir <= 100000)
          /\ (E.iters >= pb.kd => E.eng <= pb.reach + 5)
  /\ seen' = "done" /\ UNCHANGED <<pb, k>>
TSpec == l = 1 /\ pb = <<>> /\ k = 0 /\ seen = "none" /\ [][TReset \/ TMul \/ TProduct \/ TDone]_vars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
