-------------------------------- MODULE Text -------------------------------
(* Text and serde forms of the 32-byte ids, of proofs, blocks, summaries,     *)
(* statuses and seal witnesses. The exact form is open, except that of ids    *)
(* (hexadecimal digits); whatever it is, reading it back gives the value.     *)
EXTENDS Bytes, Integers

Lower == "0123456789abcdef"
Upper == "0123456789ABCDEF"
Char(s, i) == SubSeq(s, i, i)
Digit(c) == IF \E k \in 1..16 : Char(Lower, k) = c \/ Char(Upper, k) = c
            THEN (CHOOSE k \in 1..16 : Char(Lower, k) = c \/ Char(Upper, k) = c) - 1 ELSE 16
LowerOf(c) == Char(Lower, Digit(c) + 1)
UpperOf(c) == Char(Upper, Digit(c) + 1)

(* The bytes which a text of n bytes denotes; "none" if it does not. *)
ParseHex(t, n) == IF Len(t) = 2 * n /\ \A i \in 1..Len(t) : Digit(Char(t, i)) < 16
                  THEN Cat([i \in 1..Len(t) |-> LowerOf(Char(t, i))]) ELSE "none"
ToUpper(h) == Cat([i \in 1..Len(h) |-> UpperOf(Char(h, i))])

TextOps == {"t_show", "t_parse", "t_slice", "t_array", "t_method", "t_verr", "c_serde", "r_rt"}
Accepted(h) == IF h = "none" THEN <<"err">> ELSE <<"ok", h>>
TextOut(op) ==
    CASE op.op = "t_show"  -> <<op.v, op.v, ToUpper(op.v), "true", "true", "true">>
                              \* Display, lower and upper hex; FromStr, FromHex and serde read back
      [] op.op = "t_parse" -> IF op.via = "bin"
                              THEN Accepted(IF NBytes(op.t) = 32 THEN op.t ELSE "none")
                              ELSE Accepted(ParseHex(op.t, 32))
      [] op.op = "t_slice" -> Accepted(IF NBytes(op.t) = 32 THEN op.t ELSE "none")
      [] op.op = "t_array" -> <<op.v, op.v, op.v, BytesAt(op.v, 0, 1), BytesAt(op.v, 31, 32), BytesAt(op.v, 4, 9)>>
      [] op.op = "t_method" -> <<"true", "true", "true">>
      [] op.op = "t_verr"  -> <<"true", "true">>
      [] op.op = "c_serde" -> <<"ok", op.d, LEDec(BytesAt(op.d, 0, 4)), LEDec(BytesAt(op.d, 4, 6))>>
      [] op.op = "r_rt"    -> <<"true">>
=============================================================================
