------------------------------- MODULE Digest ------------------------------
(* Tagged digests and length-prefixed input (digest.rs). The state of an      *)
(* engine is the byte string absorbed so far.                                 *)
EXTENDS Bytes

HashOf(h, data) == IF h = "sha256" THEN Sha256(data) ELSE Ripemd160(data)

FromTag(h, tag) == HashOf(h, tag) \o HashOf(h, tag)

(* Declared maxima are written as hexadecimal numerals; the length is a       *)
(* little-endian integer of the smallest of 1, 2, 3, 4 bytes which fits the   *)
(* maximum, by the number of digits of the numeral after the leading zeros.   *)
Digits(max) == Len(max) - 2
PrefixLen(max) == IF Digits(max) <= 2 THEN 1 ELSE IF Digits(max) <= 4 THEN 2
                  ELSE IF Digits(max) <= 6 THEN 3 ELSE IF Digits(max) <= 8 THEN 4 ELSE 0
WithLen(max, data) == LE(NBytes(data), PrefixLen(max)) \o data

Data(op) == IF "rep" \in DOMAIN op THEN Rep(op.d, op.rep) ELSE op.d

(* One step: the new state [h, a] or "panic" for maxima beyond 4 bytes, where *)
(* there is no prefix (the state is unchanged then).                          *)
DigestOps == {"d_new", "d_tag", "d_raw", "d_len"}
DigestStep(st, op) ==
    CASE op.op = "d_new" -> [h |-> op.h, a |-> ""]
      [] op.op = "d_tag" -> [h |-> op.h, a |-> FromTag(op.h, Data(op))]
      [] op.op = "d_raw" -> [st EXCEPT !.a = @ \o Data(op)]
      [] op.op = "d_len" -> IF PrefixLen(op.max) = 0 THEN st ELSE [st EXCEPT !.a = @ \o WithLen(op.max, Data(op))]
DigestOut(st, op) ==
    IF op.op = "d_len" /\ PrefixLen(op.max) = 0 THEN <<"panic">>
    ELSE LET n == DigestStep(st, op) IN <<HashOf(n.h, n.a)>>
=============================================================================
