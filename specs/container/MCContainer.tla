----------------------------- MODULE MCContainer -----------------------------
(* All histories within the bounds; each transition is exported as one implementation test: a shortest program to the      *)
(* source state followed by the operation. The program is history, hidden from the state by VIEW.                          *)
EXTENDS Container, Json, SequencesExt
CONSTANTS MaxSize, MaxLive, Vals, MaxHeld
VARIABLE prog
Op(o) == prog' = Append(prog, o)
RECURSIVE Lowest(_, _)
Lowest(n, used) == IF n = 0 THEN <<>> ELSE LET x == CHOOSE y \in 1..(MaxLive + 3) : y \notin used /\ \A z \in 1..(y - 1) : z \in used
                                           IN <<x>> \o Lowest(n - 1, used \cup {x})
Ids(n) == Lowest(n, Live)
Count(c) == IF Alive(c) THEN Cardinality(Occ(cs[c])) ELSE 0
Room(n) == Cardinality(Live) + n <= MaxLive
MInit == Init /\ prog = <<>>
MNew == \E c \in Names, n \in 0..MaxSize : New(c, n) /\ Op(<<"new", c, n, 0>>)
MCopyCtor == \E c, s \in Names : Room(Count(s)) /\ CopyCtor(c, s, Ids(Count(s))) /\ Op(<<"copyctor", c, s, 0>>)
MCopyAssign == \E c, s \in Names : Room(Count(s)) /\ CopyAssign(c, s, IF c = s THEN <<>> ELSE Ids(Count(s))) /\ Op(<<"copyassign", c, s, 0>>)
MMoveCtor == \E c, s \in Names : MoveCtor(c, s) /\ Op(<<"movector", c, s, 0>>)
MMoveAssign == \E c, s \in Names : MoveAssign(c, s) /\ Op(<<"moveassign", c, s, 0>>)
MWrite == \E c \in Names, i \in 1..MaxSize, v \in Vals :
            Room(1) /\ Slot(c, i) /\ Write(c, i, v, IF cs[c][i] = 0 THEN Ids(1) ELSE <<>>) /\ Op(<<"write", c, i, v>>)
MAlloc == \E c \in Names, i \in 1..MaxSize : Room(1) /\ Alloc(c, i, Ids(1)) /\ Op(<<"alloc", c, i, 0>>)
MDealloc == \E c \in Names, i \in 1..MaxSize : Dealloc(c, i) /\ Op(<<"dealloc", c, i, 0>>)
MClear == \E c \in Names : Clear(c) /\ Op(<<"clear", c, 0, 0>>)
MDestroy == \E c \in Names : Destroy(c) /\ Op(<<"destroy", c, 0, 0>>)
MTake == \E c \in Names, i \in 1..MaxSize : Cardinality(held) < MaxHeld /\ Take(c, i) /\ Op(<<"take", c, i, 0>>)
MPut == \E c \in Names, i \in 1..MaxSize, x \in held : Put(c, i, x) /\ Op(<<"put", c, i, 0>>)
MFree == \E x \in held : Free(x) /\ Op(<<"free", 1, 0, 0>>)
MNext == MNew \/ MCopyCtor \/ MCopyAssign \/ MMoveCtor \/ MMoveAssign \/ MWrite \/ MAlloc \/ MDealloc \/ MClear \/ MDestroy
         \/ MTake \/ MPut \/ MFree
MSpec == MInit /\ [][MNext]_<<cvars, prog>>
Export == PrintT("EXPORT " \o ToJson(prog'))
(* identities only matter up to renaming: the view names elements by the slot that owns them *)
View == <<[c \in Names |-> IF Alive(c) THEN [i \in 1..Len(cs[c]) |-> IF cs[c][i] = 0 THEN -1 ELSE val[cs[c][i]]] ELSE NoC],
          {val[x] : x \in held}, Cardinality(held)>>
(* nothing but the named containers changes, and only owners of dropped elements drop them *)
Independent == [][ \A x \in Live \cap DOMAIN val' : (x \in Owned /\ x \in Owned') => (val'[x] # val[x] => prog'[Len(prog')][1] = "write")]_cvars
==============================================================================
