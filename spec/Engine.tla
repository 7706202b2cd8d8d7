------------------------------- MODULE Engine ------------------------------
(* The commitment engine (id.rs, vesper.rs): a commitment id is the tagged    *)
(* hash of everything that was committed to, one step after the other, and    *)
(* the layout tells these steps.                                              *)
(*                                                                            *)
(* The state of an engine is what it absorbed and its layout; a step is one   *)
(* of: [k |-> "ser", t, v], [k |-> "opt", t, o], [k |-> "hash", t, v],        *)
(* [k |-> "conc", t, v], [k |-> "merkle", t, vs], [k |-> "list"/"set", t, min,*)
(* max, vs], [k |-> "map", kt, t, min, max, vs]. Values are strict encodings, *)
(* maxima little-endian integers of 8 bytes.                                  *)
EXTENDS Merkle

StrictHashTag == "urn:ubideco:strict-types:value-hash#2024-02-10"
IdTag(id) ==
    CASE id = "IdA" -> "urn:csv-driver:id#a"
      [] id = "IdB" -> "urn:csv-driver:id#ab"
      [] id = "IdE" -> ""
      [] id = "StrictHash" -> StrictHashTag
      [] id = "MerkleHash" -> MerkleTag
      [] id = "Commitment" -> "urn:ubideco:mpc:commitment#2024-01-31"

Lib(t) == CASE t \in {"U8", "U16", "U32", "U64"} -> "_"
            [] t \in {"ReservedBytes47", "Leaf", "StrictHash", "MerkleHash", "Commitment", "MerkleConcealed", "MerkleNode"} -> "CommitVerify"
            [] OTHER -> "CsvDriver"
Name(t) == IF t = "Reserved" THEN "ReservedBytes47" ELSE t
Fqn(t)  == Lib(Name(t)) \o "." \o Name(t)

-----------------------------------------------------------------------------
(* Width of the length prefix of a collection, by its upper bound.            *)
LenWidth(max) == CHOOSE w \in {1, 2, 3, 4, 8} :
    /\ w = 8 \/ BytesAt(max, w, 8) = Rep("00", 8 - w)
    /\ \A u \in {1, 2, 3, 4} : u < w => BytesAt(max, u, 8) # Rep("00", 8 - u)

(* What the values of the driver's types conceal to, and hash to.             *)
ConcealedForm(t, v) == IF t = "Blob" THEN v ELSE IF t = "Sec" THEN BytesAt(v, 4, 6) ELSE "00" \o BytesAt(v, 1, 2)
OwnHash(t, v) == Tagged(StrictHashTag, IF t = "HashB" THEN BytesAt(v, 1, 2) \o BytesAt(v, 0, 1) ELSE v)

Sorted(vs) == SortLex(SetToSeq({vs[i] : i \in 1..Len(vs)}))
ItemsOf(k, vs) == IF k = "set" THEN Sorted(vs) ELSE vs
SortedMap(vs) == SortLex([i \in 1..Len(vs) |-> vs[i][1] \o vs[i][2]])       \* keys are unique, none a prefix of another
IsSetBounds(b) == b \in {"set0..FF", "set0..FFFF", "set1..FFFFFFFF"}

(* What a step absorbs.                                                       *)
Elems(s) == IF "rep" \in DOMAIN s THEN Cat([i \in 1..Len(s.vs) |-> Rep(s.vs[i], s.rep)]) ELSE Cat(ItemsOf(s.k, s.vs))
Count(s) == IF "rep" \in DOMAIN s THEN Len(s.vs) * s.rep ELSE Len(ItemsOf(s.k, s.vs))
Absorbs(s) ==
    CASE s.k = "ser"  -> s.v
      [] s.k = "opt"  -> IF s.o = <<>> THEN "00" ELSE "01" \o s.o[1]
      [] s.k = "hash" -> OwnHash(s.t, s.v)
      [] s.k = "conc" -> ConcealedForm(s.t, s.v)
      [] s.k = "merkle" -> LET vs == IF IsSetBounds(s.b) THEN Sorted(s.vs) ELSE s.vs IN
                           Merklize([i \in 1..Len(vs) |-> MHash(vs[i])])
      [] s.k \in {"list", "set"} -> LE(Count(s), LenWidth(s.max)) \o Elems(s)
      [] s.k = "map"  -> LE(Len(s.vs), LenWidth(s.max)) \o Cat(SortedMap(s.vs))

Collection(s) == s.k \in {"list", "set", "map"}
Reported(s) ==
    CASE s.k \in {"ser", "opt"} -> "serialized " \o Fqn(s.t)
      [] s.k = "hash"   -> "hashed " \o Fqn(s.t)
      [] s.k = "merkle" -> "merklized " \o Fqn(s.t)
      [] s.k = "conc"   -> "concealed " \o Fqn(s.t)
      [] s.k = "map"    -> "map " \o Fqn(s.kt) \o " " \o Fqn(s.t) \o " " \o ToString(s.min) \o " " \o s.max
      [] s.k \in {"list", "set"} -> s.k \o " " \o Fqn(s.t) \o " " \o ToString(s.min) \o " " \o s.max

(* The engine.                                                                *)
EngineNew(id) == [a |-> "", layout |-> <<>>]
EngineStep(e, s) == [a |-> e.a \o Absorbs(s), layout |-> Append(e.layout, Reported(s))]
RECURSIVE EngineRun(_, _)
EngineRun(e, steps) == IF steps = <<>> THEN e ELSE EngineRun(EngineStep(e, Head(steps)), Tail(steps))

CommitIdOf(id, steps) == Tagged(IdTag(id), EngineRun(EngineNew(id), steps).a)

-----------------------------------------------------------------------------
(* The human-readable layout: the id with hasher and tag, then every step     *)
(* with its bounds and what it contains.                                      *)
Upper(max) == CASE max = "ff00000000000000" -> "MAX8"
                [] max = "ffff000000000000" -> "MAX16"
                [] max = "ffffff0000000000" -> "MAX24"
                [] max = "ffffffff00000000" -> "MAX32"
                [] max = "ffffffffffffffff" -> "MAX64"
                [] OTHER -> LEDec(max)
LenText(s) == ", len " \o ToString(s.min) \o ".." \o Upper(s.max)
StepText(s) ==
    CASE s.k \in {"ser", "opt"} -> <<"  serialized " \o Name(s.t)>>
      [] s.k = "hash"   -> <<"  hashed " \o Name(s.t)>>
      [] s.k = "merkle" -> <<"  merklized " \o Name(s.t)>>
      [] s.k = "conc"   -> <<"  concealed " \o Name(s.t) \o ", concealed " \o Name(s.t)>>
      [] s.k \in {"list", "set"} -> <<"  " \o s.k \o " " \o Name(s.t) \o LenText(s), "    element " \o Name(s.t)>>
      [] s.k = "map"    -> <<"  map " \o Name(s.t) \o LenText(s), "    mapKey " \o Name(s.kt), "    mapValue " \o Name(s.t)>>
LayoutText(id, steps) ==
    <<"commitment " \o id \o ", hasher SHA256, tagged " \o IdTag(id)>>
    \o FlattenSeq([i \in 1..Len(steps) |-> StepText(steps[i])])

-----------------------------------------------------------------------------
(* An engine is closed by looking at its layout or by marking it finished: it *)
(* takes no part any more. Values of the types which stand for hashed or      *)
(* merklized data are not taken as serialized ones. (Both by assertions of    *)
(* debug builds.)                                                             *)
Guarded(s) == s.k = "ser" /\ s.t \in {"StrictHash", "MerkleHash"}
Refused(op) == \/ op.late # <<>> /\ \E i \in 1..Len(op.fin) : op.fin[i] \in {"layout", "set"}
               \/ \E i \in 1..Len(op.steps) : Guarded(op.steps[i])
               \/ \E i \in 1..Len(op.late) : Guarded(op.late[i])
LateOut(op) == IF Refused(op) THEN <<"panic">>
               ELSE LET e == EngineRun(EngineNew(op.id), op.steps \o op.late) IN
                    <<Tagged(IdTag(op.id), e.a)>> \o e.layout

(* What the types of the library commit to.                                   *)
LibTypes == [
    MerkleTree      |-> [id |-> "Commitment", step |-> [k |-> "conc", t |-> "MerkleConcealed"]],
    MerkleBlock     |-> [id |-> "Commitment", step |-> [k |-> "conc", t |-> "MerkleConcealed"]],
    MerkleConcealed |-> [id |-> "Commitment", step |-> [k |-> "ser", t |-> "MerkleConcealed"]],
    Leaf            |-> [id |-> "MerkleHash", step |-> [k |-> "ser", t |-> "Leaf"]],
    MerkleNode      |-> [id |-> "MerkleHash", step |-> [k |-> "ser", t |-> "MerkleNode"]],
    ReservedBytes47 |-> [id |-> "StrictHash", step |-> [k |-> "ser", t |-> "ReservedBytes47"]] ]
LibOut(op) == LET t == LibTypes[op.ty] IN
              <<Fqn(t.id), IdTag(t.id), Reported(t.step), "true">> \o LayoutText(t.id, <<t.step>>)

EngineOps == {"e_commit", "e_layout", "e_text", "e_late", "e_lib"}
EngineOut(op) ==
    IF op.op = "e_lib" THEN LibOut(op)
    ELSE IF Len(op.steps) > 255 THEN <<"panic">>       \* a layout has at most 255 steps
    ELSE IF op.op = "e_late" THEN LateOut(op)
    ELSE LET e == EngineRun(EngineNew(op.id), op.steps)
             id == Tagged(IdTag(op.id), e.a) IN
    CASE op.op = "e_commit" -> <<id, id, id, id, "true", "true", "true">> \o e.layout
      [] op.op = "e_layout" -> <<Fqn(op.id), IdTag(op.id)>> \o e.layout
      [] op.op = "e_text"   -> LayoutText(op.id, op.steps) \o <<"true">>
=============================================================================
