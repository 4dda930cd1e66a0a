--------------------------- MODULE TraceContainer ----------------------------
EXTENDS Container, Json, IOUtils
VARIABLES l, maxid
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
tvars == <<cvars, l, maxid>>
IsEvent(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
SlotsOf(p) == [i \in 1..Len(p) |-> p[i][1]]
(* every event logs all containers afterwards: slots as <<id, value>>, and the identities that are alive *)
Post == /\ cs' = [c \in Names |-> IF E.cs[c].alive THEN SlotsOf(E.cs[c].s) ELSE NoC]
        /\ \A c \in Names : \A i \in 1..Len(E.cs[c].s) : E.cs[c].s[i][1] # 0 =>
             E.cs[c].s[i][1] \in DOMAIN val' /\ val'[E.cs[c].s[i][1]] = E.cs[c].s[i][2]
        /\ DOMAIN val' = {E.live[i] : i \in 1..Len(E.live)} /\ Len(E.live) = Cardinality(DOMAIN val')
        /\ E.err = 0
        /\ \A i \in 1..Len(E.ids) : E.ids[i] > maxid          \* a new element never has an old identity
        /\ maxid' = E.maxid
Step ==
  \/ IsEvent("new") /\ New(E.a, E.b)
  \/ IsEvent("copyctor") /\ CopyCtor(E.a, E.b, E.ids)
  \/ IsEvent("copyassign") /\ CopyAssign(E.a, E.b, E.ids)
  \/ IsEvent("movector") /\ MoveCtor(E.a, E.b)
  \/ IsEvent("moveassign") /\ MoveAssign(E.a, E.b)
  \/ IsEvent("write") /\ Write(E.a, E.b, E.v, E.ids)
  \/ IsEvent("touch") /\ Touch(E.a, E.b, E.ids)
  \/ IsEvent("alloc") /\ Alloc(E.a, E.b, E.ids)
  \/ IsEvent("dealloc") /\ Dealloc(E.a, E.b)
  \/ IsEvent("clear") /\ Clear(E.a)
  \/ IsEvent("destroy") /\ Destroy(E.a)
  \/ IsEvent("take") /\ Take(E.a, E.b)
  \/ IsEvent("put") /\ Put(E.a, E.b, E.v)
  \/ IsEvent("free") /\ Free(E.v)
  \/ /\ IsEvent("query")
     /\ E.size = SizeOf(E.a) /\ E.empty = IsEmpty(E.a)
     /\ E.cptr = cs[E.a] /\ E.cdata = cs[E.a]                \* identities seen through the pointer getter and the raw view
     /\ \A i \in 1..Len(cs[E.a]) : cs[E.a][i] # 0 => E.refs[i] = cs[E.a][i]
     /\ (Len(cs[E.a]) > 0 /\ cs[E.a][1] # 0) => E.front = <<cs[E.a][1], cs[E.a][1]>>
     /\ (Len(cs[E.a]) > 0 /\ cs[E.a][Len(cs[E.a])] # 0) => E.back = <<cs[E.a][Len(cs[E.a])], cs[E.a][Len(cs[E.a])]>>
     /\ UNCHANGED cvars
TReset == IsEvent("reset") /\ cs' = [c \in Names |-> NoC] /\ val' = <<>> /\ held' = {} /\ maxid' = E.maxid
          /\ E.live = 0                                       \* nothing survives the previous history
TInit == Init /\ l = 1 /\ maxid = 0
TNext == TReset \/ (Step /\ Post)
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d>>, FALSE)
==============================================================================
