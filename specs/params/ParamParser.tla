----------------------------- MODULE ParamParser -----------------------------
(* C05. A parser over one parameter file. State: the parameter object of the file (a function from keys to described    *)
(* JSON values) and the status of the process that uses the parser. One action per public call.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES status,     \* "fresh" | "open" | "ended" | "failed" (construction did not deliver a parser)
          doc,        \* key -> described JSON value
          last        \* what the last call produced: observation only
vars == <<status, doc, last>>
Types == {"int", "double", "char", "str", "bool", "ivec", "szvec", "dvec"}
Forms == {"strict", "or", "try"}
IsNumber(v) == v.k \in {"int", "float"}
IsArrOf(v, P(_)) == v.k = "arr" /\ \A i \in 1..Len(v.el) : P(v.el[i])
FitsInt(v) == v.k = "int" /\ v.i32
FitsSize(v) == v.k = "int" /\ v.u64
(* the one notion of "has the requested type" shared by the three forms of parsing *)
Typed(ty, v) ==
  CASE ty = "int" -> FitsInt(v)
    [] ty = "double" -> IsNumber(v)
    [] ty \in {"char", "str"} -> v.k = "str"
    [] ty = "bool" -> v.k = "bool"
    [] ty = "ivec" -> IsArrOf(v, FitsInt)
    [] ty = "szvec" -> IsArrOf(v, FitsSize)
    [] ty = "dvec" -> IsArrOf(v, IsNumber)
Conv(ty, v) ==
  CASE ty = "int" -> v.t
    [] ty = "double" -> v.d
    [] ty = "char" -> v.c
    [] ty = "str" -> v.t
    [] ty = "bool" -> v.b
    [] ty \in {"ivec", "szvec"} -> [i \in 1..Len(v.el) |-> v.el[i].t]
    [] ty = "dvec" -> [i \in 1..Len(v.el) |-> v.el[i].d]
Has(key) == key \in DOMAIN doc
Good(ty, key) == Has(key) /\ Typed(ty, doc[key])
Ret(x) == [kind |-> "ret", v |-> x]
Exit == [kind |-> "exit", code |-> 1, diag |-> TRUE]
Outcome(form, ty, key, def) ==
  CASE form = "strict" -> IF Good(ty, key) THEN Ret(Conv(ty, doc[key])) ELSE Exit
    [] form = "or" -> IF ~Has(key) THEN Ret(def) ELSE IF Good(ty, key) THEN Ret(Conv(ty, doc[key])) ELSE Exit
    [] form = "try" -> IF Good(ty, key) THEN [kind |-> "true", v |-> Conv(ty, doc[key])]
                       ELSE [kind |-> "false", v |-> def]
    [] form = "has" -> Ret(Has(key))
(* file: what the caller's file is.  A parser is delivered for "ok" and (an empty one) may be for "notobject". *)
OpenOutcomes(file) ==
  CASE file = "ok" -> {"ok"}
    [] file \in {"unopenable", "noobject"} -> {"exit"}
    [] file = "notobject" -> {"ok", "exit"}
    [] file = "malformed" -> {"exit", "throw"}
Init == status = "fresh" /\ doc = <<>> /\ last = [kind |-> "none"]
Open(file, d) ==
  /\ status = "fresh"
  /\ \E o \in OpenOutcomes(file) :
       /\ status' = IF o = "ok" THEN "open" ELSE "failed"
       /\ last' = [kind |-> "open", out |-> o]
  /\ doc' = d
Call(form, ty, key, def) ==
  /\ status = "open"
  /\ last' = Outcome(form, ty, key, def)
  /\ status' = IF last'.kind = "exit" THEN "ended" ELSE "open"
  /\ UNCHANGED doc                     \* calls never change what later calls see
==============================================================================
