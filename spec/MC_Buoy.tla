------------------------------ MODULE MC_Buoy ------------------------------
(* Design-level checks of the buoy: the nested algorithm refines the          *)
(* definition by joining on every history of pushes; and over every cut of a  *)
(* tree, pushed in order, the buoy surfaces to the top of a subtree exactly   *)
(* when that subtree is complete (this is what merging of blocks relies on).  *)
EXTENDS Buoy, FiniteSets, TLC
CONSTANTS MaxDepth, MaxLen, CutDepth

VARIABLES s, hist
vars == <<s, hist>>
Init == \E top \in 0..MaxDepth : s = <<top>> /\ hist = <<top>>
Next == /\ Len(hist) <= MaxLen
        /\ \E d \in 0..MaxDepth : s' = Push(s, d).s /\ hist' = Append(hist, d)
Spec == Init /\ [][Next]_vars

Refines == \A d \in 0..MaxDepth : CodedPush(s, d) = Push(s, d)

(* No two neighbours of the stack are joinable, none but the top is the root. *)
Settled == \A i \in 1..Len(s) - 1 : s[i] # s[i + 1] /\ s[i + 1] # 0

(* The weight of the content: a subtree at depth d weighs 2^(K-d). Joining    *)
(* keeps it (as long as nothing is lost at depth zero).                       *)
RECURSIVE Weight(_, _)
Weight(x, k) == IF x = <<>> THEN 0 ELSE 2^(k - Head(x)) + Weight(Tail(x), k)
NoZero(x) == \A i \in 2..Len(x) : x[i] # 0
WeightKept == (hist[1] # 0 /\ Weight(SelectSeq(hist, LAMBDA d : d # 0), MaxDepth) <= 2^MaxDepth)
              => Weight(s, MaxDepth) = Weight(SelectSeq(hist, LAMBDA d : d # 0), MaxDepth)

-----------------------------------------------------------------------------
(* Cuts of a binary tree below a node of depth k, as sequences of depths.     *)
RECURSIVE Cuts(_, _)
Cuts(k, max) == {<<k>>} \cup
    (IF k = max THEN {} ELSE {a \o b : a \in Cuts(k + 1, max), b \in Cuts(k + 1, max)})

RECURSIVE Run(_, _, _)
Run(x, seq, levels) == IF seq = <<>> THEN levels
                       ELSE LET n == Push(x, Head(seq)).s IN Run(n, Tail(seq), Append(levels, Level(n)))

CutCompletes ==
    \A k \in 0..CutDepth - 1 : \A c \in Cuts(k, CutDepth) :
        Len(c) >= 2 =>
        LET ls == Run(<<c[1]>>, Tail(c), <<>>) IN
        /\ ls[Len(ls)] = k
        /\ \A i \in 1..Len(ls) - 1 : ls[i] > k
ASSUME CutCompletes
=============================================================================
