------------------------------- MODULE Bytes -------------------------------
(* Byte strings are lowercase hexadecimal TLA+ strings, so that they can be   *)
(* concatenated with \o, compared, and carried through JSON.                  *)
(*                                                                            *)
(* The operators marked OVERRIDE are evaluated by java/ovr/CsvOverrides.java. *)
(* Sha256 and Ripemd160 are the two hash functions the specification is       *)
(* parameterised with: conformance runs use the real functions, design-level  *)
(* model checking replaces Tagged by an ideal (free, injective) one.          *)
EXTENDS Naturals, Sequences, TLC

Sha256(h)    == CHOOSE x \in STRING : TRUE                    \* OVERRIDE
Ripemd160(h) == CHOOSE x \in STRING : TRUE                    \* OVERRIDE
StrHex(s)    == CHOOSE x \in STRING : TRUE                    \* OVERRIDE
HexStr(h)    == CHOOSE x \in STRING : StrHex(x) = h           \* OVERRIDE
LE(n, k)     == CHOOSE x \in STRING : TRUE                    \* OVERRIDE
LEInt(h)     == CHOOSE n \in Nat : LE(n, Len(h) \div 2) = h   \* OVERRIDE
LEDec(h)     == ToString(LEInt(h))                            \* OVERRIDE
Pow2LE(d, k) == LE(2^d, k)                                    \* OVERRIDE
Pow2SubLE(d, c, k) == LE(IF c > 2^d THEN 0 ELSE 2^d - c, k)   \* OVERRIDE
LEMod(h, d, c) == LEInt(h) % (IF c >= 2^d THEN 1 ELSE 2^d - c) \* OVERRIDE
LEModInjective(s, d, c) ==                                    \* OVERRIDE
    \A i, j \in 1..Len(s) : i # j => LEMod(s[i], d, c) # LEMod(s[j], d, c)
NBytes(h)    == Len(h) \div 2                                 \* OVERRIDE
BytesAt(h, i, j) == SubSeq(h, 2 * i + 1, 2 * j)               \* OVERRIDE
Cat(s)       == IF s = <<>> THEN "" ELSE Head(s)              \* OVERRIDE (concatenation of all)
Rep(x, n)    == CHOOSE y \in STRING : TRUE                    \* OVERRIDE (n-fold repetition)
LexLess(a, b) == CHOOSE x \in BOOLEAN : TRUE                  \* OVERRIDE (lexicographic order)
SortLex(s)   == CHOOSE x \in Seq(STRING) : TRUE               \* OVERRIDE (sorted permutation)

-----------------------------------------------------------------------------
(* Tagged hashes: the engine starts with the hash of the tag, twice.          *)
TagPrefix(tag)    == Sha256(StrHex(tag)) \o Sha256(StrHex(tag))
Tagged(tag, data) == Sha256(TagPrefix(tag) \o data)

(* The ideal hash of design-level model checking: injective in tag and data.  *)
FreeTagged(tag, data) == "<" \o tag \o "|" \o data \o ">"

(* Set of byte strings -> sorted sequence; sequence helpers.                  *)
Concat(s) == Cat(s)
Bool(b)   == IF b THEN "true" ELSE "false"

(* Big values are observed through their digest only.                         *)
Obs(h) == IF NBytes(h) <= 4096 THEN h ELSE "sha:" \o Sha256(h)
=============================================================================
