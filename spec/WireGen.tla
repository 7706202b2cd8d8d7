------------------------------- MODULE WireGen -----------------------------
(* Model-based generation of wire objects: for every job [d, e, ms] the       *)
(* encodings of the tree, its summary, a few cuts of its block and the proofs *)
(* of all protocols. They are the seeds of decoding and malleability runs.    *)
EXTENDS Wire, Json, IOUtils

J(j) == {<<j[3][i][1], j[3][i][2]>> : i \in 1..Len(j[3])}
Item(j) ==
    LET t == TreeOf(J(j), j[1], j[2])
        b == BlockOf(t)
        ps == SortedPids(t.ms)
        half == {ps[i] : i \in {x \in 1..Len(ps) : x % 2 = 1}}
        cuts == <<b, ConcealBlock(b, {}), ConcealBlock(b, half), ConcealBlock(b, {ps[i] : i \in 1..Len(ps)})>>
                \o [i \in 1..(IF Len(ps) > 4 THEN 4 ELSE Len(ps)) |-> ConcealBlock(b, {ps[i]})]
    IN [d |-> t.d, c |-> t.c, id |-> TreeId(t),
        tree |-> TreeEnc(t), concealed |-> ConcealedEnc(t.d, t.c, TreeRoot(t)),
        blocks |-> [i \in 1..Len(cuts) |-> BlockEnc(cuts[i])],
        proofs |-> [i \in 1..Len(ps) |-> ProofEnc(ProofOf(b, ps[i]))],
        pids |-> ps,
        hashes |-> SetToSeq({CutRoot(b.cut, 0, b.d)} \cup UNION {LET q == ProofOf(b, ps[i]) IN {q.path[k] : k \in 1..Len(q.path)} : i \in 1..Len(ps)})]

Jobs == ndJsonDeserialize(IOEnv.JOBS)
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Jobs) |-> Item(Jobs[k])])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME PrintT("DONE")
=============================================================================
