-------------------------------- MODULE Buoy -------------------------------
(* The depth buoy (merkle.rs, MerkleBuoy): it is shown the depths of the      *)
(* nodes of a tree cross-section from left to right and tells at which depth  *)
(* the subtree covered so far is.                                             *)
(*                                                                            *)
(* A buoy is the non-empty sequence of the depths of the subtrees which have  *)
(* no sibling yet; its level is the last one.                                 *)
EXTENDS Naturals, Sequences

Level(s) == s[Len(s)]

(* Definition by joining: append the depth, then join the last two subtrees   *)
(* into their parent as long as they are of the same depth. A subtree of      *)
(* depth zero is the whole tree, there is nothing it could be added to.       *)
RECURSIVE Join(_)
Join(s) ==
    LET n == Len(s) IN
    IF n < 2 THEN s
    ELSE IF s[n] = 0 THEN Join(SubSeq(s, 1, n - 1))
    ELSE IF s[n - 1] = s[n] THEN Join(Append(SubSeq(s, 1, n - 2), s[n] - 1))
    ELSE s

(* Pushing: the new buoy, and whether it surfaced: everything became one       *)
(* subtree by the last join.                                                  *)
RECURSIVE Surfaces(_)
Surfaces(s) ==
    LET n == Len(s) IN
    /\ n >= 2
    /\ s[n] # 0
    /\ s[n - 1] = s[n]
    /\ n = 2 \/ Surfaces(Append(SubSeq(s, 1, n - 2), s[n] - 1))

Push(s, d) == IF d = 0 THEN [s |-> s, surfaced |-> FALSE]
              ELSE [s |-> Join(Append(s, d)), surfaced |-> Surfaces(Append(s, d))]

-----------------------------------------------------------------------------
(* The algorithm as coded: nested buoys, joined from the innermost one.       *)
RECURSIVE CodedPush(_, _)
CodedPush(s, d) ==
    IF d = 0 THEN [s |-> s, surfaced |-> FALSE]
    ELSE IF Len(s) = 1
    THEN IF d = s[1] THEN [s |-> <<s[1] - 1>>, surfaced |-> TRUE]
         ELSE [s |-> <<s[1], d>>, surfaced |-> FALSE]
    ELSE LET r == CodedPush(Tail(s), d) IN
         IF r.surfaced THEN CodedPush(<<s[1]>>, Level(r.s))
         ELSE [s |-> <<s[1]>> \o r.s, surfaced |-> FALSE]
=============================================================================
