------------------------------ MODULE MC_Place -----------------------------
(* Placement, declaratively: Place gives the least depth not below the        *)
(* requested one, and the least cofactor allowed at it, without collisions;   *)
(* and the tree built from it has every message at its position.              *)
EXTENDS Mpc
P(n) == LE(n, 32)
Span == 9
VARIABLE c                                        \* <<id set, minimal depth>>
Init == c \in (SUBSET (0..Span)) \X (0..3)
Next == UNCHANGED c
Ms(S) == {<<P(n), P(n + 100)>> : n \in S}
(* Independent statement, on integers.                                        *)
W(d, k) == IF k >= 2^d THEN 1 ELSE 2^d - k
Free(S, d, k) == \A a, b \in S : a # b => a % W(d, k) # b % W(d, k)
Allowed(d, mind) == {k \in 0..500 : IF d = mind THEN k <= 1 ELSE 2 * k <= 2^d}
Least == LET S == c[1] mind == c[2] pl == Place(Ms(S), mind) IN
    /\ pl # <<>>
    /\ LET d == pl[1] k == pl[2] IN
       /\ d >= mind /\ k \in Allowed(d, mind) /\ Free(S, d, k)
       /\ \A k2 \in Allowed(d, mind) : k2 < k => ~Free(S, d, k2)
       /\ \A d2 \in mind..(d - 1) : \A k2 \in Allowed(d2, mind) : ~Free(S, d2, k2)
(* No two messages share a leaf and every message has one.                    *)
Placed == LET t == TreeOf(Ms(c[1]), c[2], "0000000000000000") pm == PosMap(t) IN
    /\ \A x \in t.ms : pm[Pos(x[1], t.c, t.d)] = x
    /\ Cardinality(DOMAIN pm) = Cardinality(t.ms)
    /\ DOMAIN pm \subseteq 0..(2^t.d - 1)
=============================================================================
