------------------------------ MODULE MC_Merkle ----------------------------
(* LNPBP-81 with an ideal hash: the root determines the leaves, their order   *)
(* and their number; and no leaf of a multi-protocol tree is an inner node.   *)
EXTENDS Merkle
CONSTANT MaxLeaves

VARIABLE leaves
Init == leaves = <<>>
Next == Len(leaves) < MaxLeaves /\ \E x \in {"10aa", "10bb"} : leaves' = Append(leaves, x)
Spec == Init /\ [][Next]_leaves

Root(x) == Merklize([i \in 1..Len(x) |-> MHash(x[i])])

(* Checked once, over all lists of leaves at the same time.                   *)
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE Lists(n - 1) \cup {Append(x, y) : x \in {z \in Lists(n - 1) : Len(z) = n - 1}, y \in {"10aa", "10bb"}}
ASSUME Cardinality({Root(x) : x \in Lists(MaxLeaves)}) = Cardinality(Lists(MaxLeaves))

(* The shape: all inner nodes of a tree with n leaves commit to n, and every  *)
(* leaf is at depth ceil(log2 n) or one less (in terms of branchings).        *)
RECURSIVE Depths(_, _)
Depths(n, d) == CASE n = 0 -> <<>>
                  [] n = 1 -> <<d>>
                  [] n = 2 -> <<d + 1, d + 1>>
                  [] OTHER -> Depths((n + 1) \div 2, d + 1) \o Depths(n - (n + 1) \div 2, d + 1)
Log(n) == CHOOSE k \in 0..31 : 2^k >= n /\ (k = 0 \/ 2^(k - 1) < n)
Balanced == LET n == Len(leaves) ds == Depths(n, 0) IN
            n >= 2 => /\ Len(ds) = n
                      /\ \A i \in 1..n : ds[i] \in {Log(n) - 1, Log(n)}

(* Domain separation: the first byte of a leaf is 0x10 or 0x11, of a node 0, 1 or 2 *)
Separated == \A i \in 1..Len(leaves) : BytesAt(leaves[i], 0, 1) \notin {"00", "01", "02"}
=============================================================================
