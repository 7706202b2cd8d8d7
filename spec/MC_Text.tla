------------------------------ MODULE MC_Text ------------------------------
(* Every short text over an alphabet with digits of both cases, letters and   *)
(* signs: it denotes bytes only if it has the right length and digits only;   *)
(* the forms shown for bytes denote these bytes, and no other bytes.          *)
EXTENDS Text, FiniteSets

Alphabet == {"0", "9", "a", "f", "A", "F", "g", "G", "x", " ", "-", "/", ":", "@", "`"}
Hex == {"0", "9", "a", "f", "A", "F"}
VARIABLE t
Init == t = ""
Next == Len(t) < 4 /\ \E c \in Alphabet : t' = t \o c
Spec == Init /\ [][Next]_t

Chars == {Char(t, i) : i \in 1..Len(t)}
Right == \A n \in 0..3 :
    LET h == ParseHex(t, n) IN
    /\ h = "none" <=> (Len(t) # 2 * n \/ ~(Chars \subseteq Hex))
    /\ h # "none" => /\ ParseHex(h, n) = h                         \* what is shown reads back
                     /\ ParseHex(ToUpper(h), n) = h
                     /\ Len(h) = 2 * n
                     /\ \A i \in 1..Len(h) : Digit(Char(h, i)) = Digit(Char(t, i))
=============================================================================
