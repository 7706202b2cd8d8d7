---------------------------- MODULE MC_Validation --------------------------
(* The traversal, step by step, over all small data and resolvers; and the    *)
(* accumulation of statuses.                                                  *)
EXTENDS Validation, FiniteSets

St(n, i, f) == << IF i THEN <<n \o "/i">> ELSE <<>>, IF f THEN <<n \o "f">> ELSE <<>>, <<n \o "w">>, <<n \o "n">> >>
Datas == {[own |-> St("o", b[1], b[2]),
           items |-> [k \in 1..n |-> [name |-> ToString(k), seals |-> [s \in 1..c[k] |-> "s" \o ToString(s) \o "i" \o ToString(k)],
                                      st |-> St(ToString(k), b[2 + k], b[4 + k])]],
           answers |-> a] :
           n \in 0..2, b \in [1..6 -> BOOLEAN], c \in [1..2 -> 0..2], a \in UNION {[1..k -> {"", "e"}] : k \in {0, 2, 4}}}

VARIABLES d, x
Init == d \in Datas /\ x = TravInit
Next == x.pc # "done" /\ x' = TravStep(d, x) /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, x>> /\ WF_<<d, x>>(Next)

(* What the final status must be, by definition.                              *)
AllSeals == FlattenSeq([k \in 1..Len(d.items) |-> d.items[k].seals])
Want(j) == (* list j of the reports, in order of production *)
    d.own[j] \o FlattenSeq([k \in 1..Len(d.items) |->
        (IF j # 1 THEN <<>> ELSE
            LET off == Len(FlattenSeq([q \in 1..k - 1 |-> d.items[q].seals])) IN
            FlattenSeq([s \in 1..Len(d.items[k].seals) |->
                LET a == Answer(d, off + s) IN IF a = "" THEN <<>> ELSE <<d.items[k].seals[s] \o "/" \o a>>]))
        \o d.items[k].st[j]])
WantLog == <<"check own">> \o FlattenSeq([k \in 1..Len(d.items) |->
    [s \in 1..Len(d.items[k].seals) |-> "resolve " \o d.items[k].seals[s]] \o <<"check " \o d.items[k].name>>])

Final == x.pc = "done" => /\ x.st = StatusOf([j \in 1..4 |-> Want(j)])
                          /\ x.log = WantLog
                          /\ x.k - 1 = Len(AllSeals)
                          /\ (Verdict(x.st) = "valid") <=> (Want(2) = <<>> /\ Want(1) = <<>>)
PrefixOk == IsPrefix(x.log, WantLog) /\ IsPrefix(x.st.f, Want(2)) /\ IsPrefix(x.st.i, Want(1))
Rank(v) == CASE v = "valid" -> 0 [] v = "unresolved seal issues" -> 1 [] v = "invalid" -> 2
(* Reports never turn a verdict better; and the traversal always ends. *)
Monotone == [][Rank(Verdict(x'.st)) >= Rank(Verdict(x.st))]_x
Ends == <>(x.pc = "done")

-----------------------------------------------------------------------------
Lists(n) == UNION {[1..k -> {"a", "b"}] : k \in 0..n}
Sts(n) == [i : Lists(n), f : Lists(n), w : Lists(n), n : Lists(n)]
ASSUME \A s, y \in Sts(1) : /\ Rank(Verdict(Plus(s, y))) = (IF Rank(Verdict(s)) > Rank(Verdict(y)) THEN Rank(Verdict(s)) ELSE Rank(Verdict(y)))
                            /\ Plus(s, Empty) = s /\ Plus(Empty, s) = s
Small == {s \in Sts(1) : Len(s.i) + Len(s.f) + Len(s.w) + Len(s.n) <= 2}
ASSUME \A s, y, z \in Small : Plus(Plus(s, y), z) = Plus(s, Plus(y, z))
ASSUME \A s \in Sts(1), k \in {"issue", "failure", "warning", "info"} :
    /\ Rank(Verdict(Add(s, k, "z"))) >= Rank(Verdict(s))
    /\ k \in {"warning", "info"} => Verdict(Add(s, k, "z")) = Verdict(s)
    /\ Add(s, k, "z") = Plus(s, Add(Empty, k, "z"))
=============================================================================
