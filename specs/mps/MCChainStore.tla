----------------------------- MODULE MCChainStore ------------------------------
EXTENDS ChainStore, Json
CONSTANTS Size, MaxLen, Vals, Kinds
VARIABLE prog
Dirs == {"A", "B"}
DNum(d) == IF d = "A" THEN 1 ELSE 2
Op(o) == Len(prog) < MaxLen /\ prog' = Append(prog, o)
S == 0..(Size - 1)
MInit == kind \in Kinds /\ mem = [i \in 1..Size |-> 0] /\ disk = <<>> /\ dirs = {} /\ cen = -1 /\ prog = <<>>
MSet == \E i \in S, v \in Vals : mem[i + 1] # v /\ Set(i, v) /\ Op(<<"set", i, 1, v>>)
MFree == \E i \in S : Free(i) /\ Op(<<"free", i, 1, 0>>)
MDump == kind # "vec" /\ \E d \in Dirs, v \in 0..2 : (kind = "mpo" => v = 0) /\ Dump(d, v = 1) /\ Op(<<"dump", 0, DNum(d), v>>)
MLoad == kind # "vec" /\ \E d \in Dirs : Load(d) /\ (kind = "mpo" => CenFile(d) \in DOMAIN disk) /\ Op(<<"load", 0, DNum(d), 0>>)
MLoadFails == kind # "vec" /\ \E d \in Dirs : Missing(d) # {} /\ UNCHANGED svars /\ Op(<<"load", 0, DNum(d), 0>>) /\ Len(prog') = MaxLen
MDumpTen == \E i \in S, d \in Dirs, v \in 0..2 : DumpTen(i, d, v = 1) /\ Op(<<"dumpten", i, DNum(d), v>>)
MLoadTen == \E i \in S, d \in Dirs : LoadTen(i, d) /\ cen' = -1 /\ Op(<<"loadten", i, DNum(d), 0>>)
MRemove == \E i \in S, d \in Dirs : TenFile(d, i) \in DOMAIN disk /\ Remove(i, d) /\ Op(<<"remove", i, DNum(d), 0>>)
MNext == MSet \/ MFree \/ MDump \/ MLoad \/ MLoadFails \/ MDumpTen \/ MLoadTen \/ MRemove
MSpec == MInit /\ [][MNext]_<<svars, prog>>
View == svars
Export == PrintT("EXPORT " \o ToJson([n |-> Size, kind |-> kind, prog |-> prog']))
(* what is dumped comes back: a file never holds anything but a content that was in the slot of its name *)
FilesHold == \A f \in DOMAIN disk : disk[f] > 0 \/ disk[f] <= -9
OneSite == [][(prog' # prog /\ prog'[Len(prog')][1] \in {"dumpten", "loadten", "set", "free"}) =>
                \A i \in S : i # prog'[Len(prog')][2] => mem'[i + 1] = mem[i + 1] /\ \A d \in Dirs : LET f == TenFile(d, i) IN
                   (f \in DOMAIN disk) = (f \in DOMAIN disk') /\ (f \in DOMAIN disk => disk'[f] = disk[f])]_<<svars, prog>>
ReadersWriteNothing == [][(prog' # prog /\ prog'[Len(prog')][1] \in {"load", "loadten", "set", "free"}) => disk' = disk]_<<svars, prog>>
================================================================================
