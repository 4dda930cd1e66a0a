---------------------------- MODULE TraceChainStore -----------------------------
EXTENDS ChainStore, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
O == E.obs
IsDir(x) == x[2] = 0
(* exactly these files, exactly these directories *)
Files == {i \in 1..Len(O.disk) : ~IsDir(O.disk[i])}
CenOf(t) == CASE t = "-1" -> -1 [] t = "0" -> 0 [] t = "1" -> 1 [] t = "2" -> 2 [] t = "3" -> 3 [] t = "4" -> 4 [] OTHER -> -99
ContentOf(x) == IF x[2] = -2 THEN CenVal(CenOf(x[3])) ELSE x[2]
ShowsDisk == /\ {O.disk[i][1] : i \in Files} = DOMAIN disk'
             /\ \A i \in Files : disk'[O.disk[i][1]] = ContentOf(O.disk[i])
             /\ {O.disk[i][1] : i \in (1..Len(O.disk)) \ Files} = {d \o "/" : d \in dirs'}
ShowsMem == mem' = O.mem /\ Len(O.mem) = N
Untouched == UNCHANGED <<kind, disk, dirs>>
(* a failed load leaves the files alone; every slot is as before, or loaded, or the one whose file is missing *)
Failed(d, is) == /\ Untouched /\ cen' = O.c /\ mem' = O.mem /\ Len(O.mem) = N
                 /\ \A i \in 0..(N - 1) : \/ mem'[i + 1] = mem[i + 1]
                                          \/ i \in is /\ TenFile(d, i) \in DOMAIN disk /\ mem'[i + 1] = disk[TenFile(d, i)]
                                          \/ i \in is /\ TenFile(d, i) \notin DOMAIN disk
Step == CASE E.o = "set" -> Set(E.a, E.val) /\ E.out = "ok"
          [] E.o = "free" -> Free(E.a) /\ E.out = "ok"
          [] E.o = "dump" -> Dump(E.d, E.v = 1) /\ E.out = "ok"
          [] E.o = "load" -> IF Missing(E.d) = {} THEN Load(E.d) /\ E.out = "ok"
                             ELSE E.out # "ok" /\ (kind = "mpo" /\ E.d \notin dirs => E.out = "no" /\ mem' = mem) /\ Failed(E.d, 0..(N - 1))
          [] E.o = "dumpten" -> DumpTen(E.a, E.d, E.v = 1) /\ E.out = "ok"
          [] E.o = "loadten" -> IF TenFile(E.d, E.a) \in DOMAIN disk THEN LoadTen(E.a, E.d) /\ E.out = "ok" ELSE E.out = "error" /\ Failed(E.d, {E.a})
          [] E.o = "readfile" -> /\ UNCHANGED <<svars>>
                                 /\ IF TenFile(E.d, E.a) \in DOMAIN disk THEN E.out = "ok" /\ E.val = disk[TenFile(E.d, E.a)] ELSE E.out = "no"
          [] E.o = "remove" -> Remove(E.a, E.d)
          [] E.o = "centre" -> mem' = O.mem /\ cen' = E.a /\ Untouched
TReset == IsEvent("reset") /\ kind' = E.kind /\ mem' = [i \in 1..E.n |-> 0] /\ disk' = <<>> /\ dirs' = {} /\ cen' = -1 /\ O.mem = mem' /\ O.disk = <<>>
TOp == IsEvent("op") /\ cen' = O.c /\ Step /\ ShowsMem /\ ShowsDisk
TInit == l = 1 /\ kind = "vec" /\ mem = <<>> /\ disk = <<>> /\ dirs = {} /\ cen = -1
TNext == TReset \/ TOp
TSpec == TInit /\ [][TNext]_<<svars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
================================================================================
