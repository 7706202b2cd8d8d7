------------------------------- MODULE MpcGen ------------------------------
(* Model-based generation of blocks: every cross-section (cut) of given       *)
(* trees, written as pools of encoded blocks for the exhaustive tables of     *)
(* MpcMachine. Jobs: one JSON line [[d, e, ms], ...] per pool.                *)
EXTENDS Wire, Json, IOUtils

RECURSIVE AllCuts(_, _, _)
AllCuts(cut, depth, d) ==
    CASE cut.k = "node" -> {cut}
      [] cut.k = "leaf" -> {cut, Node(InhHash(cut.p, cut.m))}
      [] cut.k = "br"   -> {Br(x[1], x[2]) : x \in AllCuts(cut.l, depth + 1, d) \X AllCuts(cut.r, depth + 1, d)}
                           \cup {Node(CutRoot(cut, depth, d))}

TreeOfJob(j) == TreeOf({<<j[3][i][1], j[3][i][2]>> : i \in 1..Len(j[3])}, j[1], j[2])

PoolOfTree(t) ==
    LET b == BlockOf(t) IN
    <<BlockEnc(b)>> \o SetToSeq({BlockEnc([b EXCEPT !.ent = "", !.cut = c]) : c \in AllCuts(b.cut, 0, b.d)})
    (* a decoder also accepts blocks that are cut and still carry a seed *)
    \o (IF t.d > 2 THEN <<>> ELSE SetToSeq({BlockEnc([b EXCEPT !.cut = c]) : c \in AllCuts(b.cut, 0, b.d)} \ {BlockEnc(b)}))

Jobs == ndJsonDeserialize(IOEnv.JOBS)
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..Len(Jobs) |->
            FlattenSeq([i \in 1..Len(Jobs[k]) |-> PoolOfTree(TreeOfJob(Jobs[k][i]))])])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME PrintT("DONE")
=============================================================================
