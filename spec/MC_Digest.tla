----------------------------- MODULE MC_Digest -----------------------------
(* Unambiguity: under one schema of declared maxima, different sequences of   *)
(* length-prefixed inputs absorb different byte strings, also when the        *)
(* sequences are of different length. One state per (schema, sequence of      *)
(* inputs); the absorbed string determines the inputs.                        *)
EXTENDS Digest, FiniteSets

Maxima == {"0x2", "0x1FF", "0x1FFFF", "0x1FFFFFF"}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE Strings(n - 1) \cup {x \o b : x \in Strings(n - 1), b \in {"00", "01", "02"}}
Inputs == Strings(2)

VARIABLES schema, ins, a
vars == <<schema, ins, a>>
Init == schema \in [1..3 -> Maxima] /\ ins = <<>> /\ a = ""
Next == /\ Len(ins) < 3
        /\ \E d \in Inputs : ins' = Append(ins, d) /\ a' = a \o WithLen(schema[Len(ins) + 1], d)
        /\ UNCHANGED schema
Spec == Init /\ [][Next]_vars

(* Reading the absorbed string back under the schema. *)
RECURSIVE Read(_, _, _)
Read(x, k, acc) ==
    IF x = "" THEN acc
    ELSE LET p == PrefixLen(schema[k])
             n == LEInt(BytesAt(x, 0, p)) IN
         Read(BytesAt(x, p + n, NBytes(x)), k + 1, Append(acc, BytesAt(x, p, p + n)))
Decodable == Read(a, 1, <<>>) = ins
(* and raw input has no such property: two raw inputs can be confused *)
=============================================================================
