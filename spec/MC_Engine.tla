------------------------------ MODULE MC_Engine ----------------------------
(* Unambiguity: under the same types, different sequences of parts absorb     *)
(* different strings (with an ideal hash). One state per sequence of types.   *)
EXTENDS Engine

Kinds == {"ser", "opt", "hash", "list", "list2", "map", "merkle", "serE"}
M1 == "ff00000000000000"
M2 == "ffff000000000000"
Vals(k) ==
    CASE k = "ser"  -> {[k |-> "ser", t |-> "U8", v |-> v] : v \in {"00", "01", "02"}}
      [] k = "serE" -> {[k |-> "ser", t |-> "ValE", v |-> v] : v \in {"00", "0100", "0101", "07000000", "07010001"}}
      [] k = "opt"  -> {[k |-> "opt", t |-> "U8", o |-> o] : o \in {<<>>, <<"00">>, <<"01">>}}
      [] k = "hash" -> {[k |-> "hash", t |-> "HashA", v |-> v] : v \in {"0000", "0001", "0100"}}
      [] k = "list" -> {[k |-> "list", t |-> "U8", min |-> 0, max |-> M1, vs |-> vs] : vs \in {<<>>, <<"00">>, <<"01">>, <<"00", "01">>, <<"01", "00">>}}
      [] k = "list2" -> {[k |-> "list", t |-> "U8", min |-> 0, max |-> M2, vs |-> vs] : vs \in {<<>>, <<"00">>, <<"01">>, <<"00", "00">>, <<"02", "00">>}}
      [] k = "map"  -> {[k |-> "map", kt |-> "ValA", t |-> "U8", min |-> 0, max |-> M1, vs |-> vs] :
                            vs \in {<<>>, <<<<"00", "01">>>>, <<<<"01", "00">>>>, <<<<"00", "01">>, <<"01", "00">>>>, <<<<"00", "00">>, <<"01", "01">>>>}}
      [] k = "merkle" -> {[k |-> "merkle", t |-> "BLeaf", b |-> "list0..FF", vs |-> vs] : vs \in {<<>>, <<"00">>, <<"01">>, <<"00", "01">>, <<"00", "01", "01">>}}

VARIABLE schema
Init == schema = <<>>
Next == Len(schema) < 3 /\ \E k \in Kinds : schema' = Append(schema, k)
Spec == Init /\ [][Next]_schema

RECURSIVE All(_)
All(sch) == IF sch = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in Vals(Head(sch)), r \in All(Tail(sch))}
Injective == Cardinality({EngineRun(EngineNew("IdA"), x).a : x \in All(schema)}) = Cardinality(All(schema))

(* The layout depends on the types only, one entry per part, in order.        *)
LayoutOfTypes == /\ Cardinality({EngineRun(EngineNew("IdA"), x).layout : x \in All(schema)}) = 1
                 /\ \A x \in All(schema) : Len(EngineRun(EngineNew("IdA"), x).layout) = Len(schema)
=============================================================================
