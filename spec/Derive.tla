------------------------------- MODULE Derive ------------------------------
(* Derived commitment encodings (commit_verify/derive) of the types of the    *)
(* derive driver: what each commits to, as a function of its strict encoding, *)
(* under which tag, and its layout of one step.                               *)
EXTENDS Merkle

StrictHashTag == "urn:ubideco:strict-types:value-hash#2024-02-10"
IdX == [n |-> "CsvDriver.IdX", t |-> "urn:csv-driver:derive#x"]
IdY == [n |-> "CsvDriver.IdY", t |-> "urn:csv-driver:derive#xy"]
IdZ == [n |-> "CsvDriver.IdZ", t |-> ""]
SHash == [n |-> "CommitVerify.StrictHash", t |-> StrictHashTag]
MHashId == [n |-> "CommitVerify.MerkleHash", t |-> MerkleTag]

(* The declared id and strategy, and the name of the type committed to.       *)
Types == [
    Named       |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.Named"],
    Tuple       |-> [id |-> IdY, by |-> "strict", of |-> "CsvDriver.Tuple"],
    Pathed      |-> [id |-> IdZ, by |-> "strict", of |-> "CsvDriver.Pathed"],
    Hashed      |-> [id |-> SHash, by |-> "strict", of |-> "CsvDriver.Hashed"],
    Collections |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.Collections"],
    Nested      |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.Nested"],
    Prim        |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.Prim"],
    Assoc       |-> [id |-> IdY, by |-> "strict", of |-> "CsvDriver.Assoc"],
    Custom      |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.Custom"],
    GenericU16  |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.Genericu16"],
    GenericNamed |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.GenericNamed"],
    Wheres      |-> [id |-> IdY, by |-> "strict", of |-> "CsvDriver.Wheresu8Assoc"],
    XLeaf       |-> [id |-> MHashId, by |-> "strict", of |-> "CsvDriver.XLeaf"],
    TransU16    |-> [id |-> IdX, by |-> "transparent", of |-> "_.U16"],
    TransNamed  |-> [id |-> IdY, by |-> "transparent", of |-> "CsvDriver.Named"],
    TransAssoc  |-> [id |-> IdX, by |-> "transparent", of |-> "CsvDriver.Assoc"],
    SecretEnum  |-> [id |-> IdX, by |-> "conceal", of |-> "CsvDriver.SecretEnum"],
    SecretStruct |-> [id |-> IdY, by |-> "conceal", of |-> "CsvDriver.SecretStruct"],
    SecretOther |-> [id |-> IdX, by |-> "conceal", of |-> "CsvDriver.Hidden"],
    XTree       |-> [id |-> IdX, by |-> "merklize", of |-> "CsvDriver.XLeaf"],
    Single      |-> [id |-> IdX, by |-> "strict", of |-> "CsvDriver.Single"],
    BoundedU8U16 |-> [id |-> IdZ, by |-> "strict", of |-> "CsvDriver.Boundedu8u16"],
    TransMarked |-> [id |-> IdZ, by |-> "transparent", of |-> "_.U16"],
    TransGen    |-> [id |-> IdX, by |-> "transparent", of |-> "CsvDriver.Assoc"],
    SecretTuple |-> [id |-> IdZ, by |-> "conceal", of |-> "CsvDriver.Hidden"],
    SecretGen   |-> [id |-> IdX, by |-> "conceal", of |-> "CsvDriver.Hidden"],
    XTuple      |-> [id |-> IdY, by |-> "merklize", of |-> "CsvDriver.XLeaf"],
    XEnum       |-> [id |-> IdZ, by |-> "merklize", of |-> "CsvDriver.XLeaf"] ]

(* The concealed forms. *)
Conceals(ty, v) ==
    CASE ty = "SecretEnum"   -> IF BytesAt(v, 0, 1) = "00" THEN "01" \o BytesAt(v, 1, 2) ELSE v
      [] ty = "SecretStruct" -> "0000" \o BytesAt(v, 2, 3)
      [] ty = "SecretOther"  -> BytesAt(v, 4, 6)
      [] ty = "SecretTuple"  -> BytesAt(v, 1, 3)
      [] ty = "SecretGen"    -> BytesAt(v, 8, 10)
(* The leaves of a tree of 16-bit numbers: a count byte, the numbers, a byte  *)
(* which is no leaf.                                                          *)
ListLeaves(v) == [i \in 1..LEInt(BytesAt(v, 0, 1)) |-> BytesAt(v, 2 * i - 1, 2 * i + 1)]
(* One which has either exactly two, or a list and further data.              *)
TreeLeaves(ty, v) ==
    IF ty = "XEnum" THEN IF BytesAt(v, 0, 1) = "00" THEN <<BytesAt(v, 1, 3), BytesAt(v, 3, 5)>>
                         ELSE ListLeaves(BytesAt(v, 1, Len(v) \div 2))
    ELSE ListLeaves(v)

Committed(ty, v) ==
    LET t == Types[ty] IN
    CASE t.by = "strict"      -> v
      [] t.by = "transparent" -> IF ty = "TransMarked" THEN BytesAt(v, 0, 2)   \* what it wraps
                                 ELSE v     \* a plain wrapper is encoded as what it wraps
      [] t.by = "conceal"     -> Conceals(ty, v)
      [] t.by = "merklize"    -> LET ls == TreeLeaves(ty, v) IN Merklize([i \in 1..Len(ls) |-> MHash(ls[i])])

StepOf(t) == (CASE t.by \in {"strict", "transparent"} -> "serialized "
                [] t.by = "conceal" -> "concealed "
                [] t.by = "merklize" -> "merklized ") \o t.of

DeriveOps == {"x_id", "x_layout"}
DeriveOut(op) ==
    LET t == Types[op.ty] IN
    CASE op.op = "x_id" -> LET h == Tagged(t.id.t, Committed(op.ty, op.v)) IN <<h, h, h>>
      [] op.op = "x_layout" -> <<t.id.n, t.id.t, StepOf(t)>>
=============================================================================
