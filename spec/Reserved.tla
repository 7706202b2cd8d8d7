------------------------------ MODULE Reserved -----------------------------
(* Reserved bytes (commit_verify/src/lib.rs): LEN bytes of value VAL.         *)
EXTENDS Bytes

StrictHashTag == "urn:ubideco:strict-types:value-hash#2024-02-10"
ReservedValue(op) == Rep(LE(op.val, 1), op.len)
ReservedOps == {"r_default", "r_from", "r_dec", "r_serde"}
ReservedShow(op) == <<"ok", ReservedValue(op), Tagged(StrictHashTag, ReservedValue(op)), "true">>
ReservedOut(op) ==
    CASE op.op = "r_default" -> ReservedShow(op)
      [] op.op = "r_from"  -> IF op.d = ReservedValue(op) THEN ReservedShow(op) ELSE <<"refused">>
      [] op.op = "r_dec"   -> IF op.d = ReservedValue(op) THEN ReservedShow(op) ELSE <<"err">>
      [] op.op = "r_serde" -> IF op.t \in {"", "null"} THEN ReservedShow(op) ELSE <<"err">>
=============================================================================
