------------------------------- MODULE MC_Seals ----------------------------
(* Over every medium with three seals, two messages, two derived values: a    *)
(* list of seals is closed exactly if each of its seals is, in any order and  *)
(* multiplicity; the error is that of the first seal that is not.             *)
EXTENDS Seals, FiniteSets

Msgs == 0..1
Tab(X, Y, Z) == {[x \in 1..X |-> [y \in 1..Y |-> f[<<x, y>>]]] : f \in [(1..X) \X (1..Y) -> Z]}
VARIABLES t, list
Init == /\ t \in [incl : Tab(3, 2, {0, 1}), conv : Tab(1, 2, {-1, 0, 1}), acc : Tab(1, 2, {-1, 0})]
        /\ list = <<>>
Next == Len(list) < 3 /\ \E s \in 0..2 : list' = Append(list, s) /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, list>>

One(s, m) == VerifySeals(t, 0, 0, <<s>>, m)
Witnessed(m) == VerifySeals(t, 0, 0, <<>>, m) = "ok"
Exactly == \A m \in Msgs :
    LET v == VerifySeals(t, 0, 0, list, m) IN
    /\ v = "ok" <=> (Witnessed(m) /\ \A i \in 1..Len(list) : One(list[i], m) = "ok")
    /\ \A i \in 1..Len(list) : ~Included(t, list[i], m) =>
           \E j \in 1..i : v = NotIncluded(list[j], 0) /\ \A k \in 1..j - 1 : Included(t, list[k], m)
    /\ (\A i \in 1..Len(list) : Included(t, list[i], m)) => v = VerifySeals(t, 0, 0, <<>>, m)
(* Without witness: as with a client deriving the message itself. *)
NoWitness == \A m \in Msgs :
    VerifyNoWitness(t, 0, list, m) = VerifySeals([t EXCEPT !.conv = <<<<0, 1>>>>], 0, 0, list, m)
=============================================================================
