---- MODULE MCParamParser ----
(* Exhaustive check of the design: all documents over two keys and a pool of values of every kind, all call sequences. *)
EXTENDS ParamParser, Integers
I(t, i32, u64) == [k |-> "int", t |-> t, i32 |-> i32, u64 |-> u64, d |-> t]
F(t) == [k |-> "float", d |-> t]
S(t, c) == [k |-> "str", t |-> t, c |-> c]
B(b) == [k |-> "bool", b |-> b]
A(s) == [k |-> "arr", el |-> s]
Pool == {I("1", TRUE, TRUE), I("-1", TRUE, FALSE), I("2147483648", FALSE, TRUE), F("0.5"), S("", 0), S("x", 120), B(TRUE),
         [k |-> "null"], [k |-> "obj"], A(<<>>), A(<<I("1", TRUE, TRUE)>>), A(<<I("1", TRUE, TRUE), I("-1", TRUE, FALSE)>>),
         A(<<I("2147483648", FALSE, TRUE)>>), A(<<F("0.5"), I("1", TRUE, TRUE)>>), A(<<S("x", 120)>>), A(<<A(<<>>)>>), A(<<B(TRUE)>>)}
Keys == {"a", "b"}
Docs == UNION {[ks -> Pool] : ks \in SUBSET Keys}
Next == \/ \E f \in {"ok", "unopenable", "noobject", "malformed"}, d \in Docs : Open(f, IF f = "ok" THEN d ELSE <<>>)
        \/ \E form \in Forms \cup {"has"}, ty \in Types, key \in Keys \cup {"c"} : Call(form, ty, key, "DEF")
Spec == Init /\ [][Next]_vars
(* Properties *)
FormsAgree == status = "open" => \A ty \in Types, key \in Keys \cup {"c"} :
   LET s == Outcome("strict", ty, key, "DEF") o == Outcome("or", ty, key, "DEF") t == Outcome("try", ty, key, "DEF")
   IN /\ (s.kind = "ret") <=> (t.kind = "true")
      /\ s.kind = "ret" => s.v = t.v
      /\ t.kind = "false" => t.v = "DEF"
      /\ Has(key) => o = s
      /\ ~Has(key) => s.kind = "exit" /\ o.kind = "ret" /\ o.v = "DEF"
NoParserFromBadFile == status = "open" => last.kind # "open" \/ last.out = "ok"
EndedStaysEnded == [][((status = "ended") \/ (status = "failed")) => (vars' = vars)]_vars
DocStable == [][(status = "open") => (doc' = doc)]_vars
View == <<status, doc>>
====
