------------------------------- MODULE MC_Mpc ------------------------------
(* Design-level model checking of MpcMachine: two trees (which differ as the  *)
(* instance says), blocks derived from them by any sequence of concealing,    *)
(* merging, path merging, proof extraction and block reconstruction, and an   *)
(* adversary who assembles proofs from every hash and position known to him.  *)
(* The hash is ideal (cfg: Tagged <- FreeTagged), so "differs" means differs. *)
EXTENDS MpcMachine

CONSTANTS MsA, DA, EA, MsB, DB, EB,     \* sources of the two trees
          Blocks,                       \* block registers
          AdvDepths, AdvCofactors       \* bounds of the adversary

A == TreeOf(MsA, DA, EA)
B == TreeOf(MsB, DB, EB)
IdA == TreeId(A)
IdB == TreeId(B)
Pids == Protocols(MsA) \cup Protocols(MsB)
Msgs == {x[2] : x \in MsA \cup MsB}
BlkA == BlockOf(A)
BlkB == BlockOf(B)

Q == 9                                  \* register of the proof in transit
Init == /\ reg = [r \in Regs |-> IF r \in Blocks THEN Tag(IF r % 2 = 0 THEN BlkA ELSE BlkB, "block") ELSE None]
        /\ out = <<>>

Ops == [op : {"except"}, x : Blocks, ps : {SetToSeq(s) : s \in SUBSET Pids}, hint : {""}]
  \cup [op : {"merge"}, x : Blocks, y : Blocks]
  \cup [op : {"copy"}, x : Blocks, s : Blocks]
  \cup [op : {"proof"}, x : Blocks, p : Pids, s : {Q}]
  \cup [op : {"with"}, x : {Q}, p : Pids, m : Msgs, s : Blocks]
  \cup [op : {"merge_path"}, x : Blocks, y : {Q}, p : Pids, m : Msgs]

Step == \E op \in Ops : MpcAct(op)
Spec == Init /\ [][Step]_mvars

View == reg

Honest(b) == BlockId(b) \in {IdA, IdB}
MsOf(id)  == IF id = IdA THEN MsA ELSE IF id = IdB THEN MsB ELSE {}
TreeOfId(id) == IF id = IdA THEN A ELSE B

(* A block opened from a wrong message is a commitment to something else; the *)
(* honest ones are those whose id is the id of a tree.                        *)
HonestBlocks == {r \in Blocks : reg[r].t = "block" /\ Honest(reg[r])}

(* C02/C06: a block with the id of a tree reveals only what the tree holds.   *)
Sound == \A r \in HonestBlocks : RevealedPairs(reg[r].cut) \subseteq MsOf(BlockId(reg[r]))

(* C01: whatever was concealed or merged, each revealed protocol's proof is   *)
(* the one of the tree and verifies its message at its position.              *)
Complete == \A r \in HonestBlocks : \A x \in RevealedPairs(reg[r].cut) :
    LET b == reg[r] q == ProofOf(b, x[1]) t == TreeOfId(BlockId(b)) IN
    /\ ProofValid(q, x[1])
    /\ Convolve(q, x[1], x[2]) = BlockId(b)
    /\ [pos |-> q.pos, c |-> q.c, path |-> q.path] = TreeProof(t, x[1])

(* C06: the geometry of a block is the one of its tree.                       *)
Geometry == \A r \in HonestBlocks : LET b == reg[r] t == TreeOfId(BlockId(b)) IN b.d = t.d /\ b.c = t.c

(* Concealed leaves are at full depth, blocks are cuts of the tree.           *)
RECURSIVE IsCut(_, _, _)
IsCut(cut, full, depth) ==
    CASE cut.k = "leaf" -> cut = full
      [] cut.k = "node" -> TRUE
      [] cut.k = "br"   -> full.k = "br" /\ IsCut(cut.l, full.l, depth + 1) /\ IsCut(cut.r, full.r, depth + 1)
Cuts == \A r \in HonestBlocks :
    IsCut(reg[r].cut, BlockOf(TreeOfId(BlockId(reg[r]))).cut, 0)

(* C04: concealment is minimal, idempotent, keeps the id and drops the seed.  *)
RECURSIVE Foldable(_)
Foldable(cut) == cut.k = "br" /\ ((cut.l.k = "node" /\ cut.r.k = "node") \/ Foldable(cut.l) \/ Foldable(cut.r))
Conceals == \A r \in HonestBlocks : \A ps \in SUBSET Revealed(reg[r].cut) :
    LET b == reg[r] n == ConcealBlock(b, ps) IN
    /\ BlockId(n) = BlockId(b) /\ n.ent = ""
    /\ Revealed(n.cut) = ps /\ RevealedPairs(n.cut) \subseteq RevealedPairs(b.cut)
    /\ ~Foldable(n.cut)
    /\ ConcealBlock(n, ps) = n
    /\ ConcealCount(n, ps) = 0
    /\ \A qs \in SUBSET ps : ConcealBlock(n, qs).cut = ConcealBlock(b, qs).cut

(* C05: merging is a join.                                                    *)
Merges == \A r, s \in HonestBlocks : BlockId(reg[r]) = BlockId(reg[s]) =>
    LET a == reg[r] b == reg[s] n == MergeCut(a.cut, b.cut) IN
    /\ BlockId(MergeBlocks(a, b)) = BlockId(a)
    /\ Revealed(n) = Revealed(a.cut) \cup Revealed(b.cut)
    /\ n = MergeCut(b.cut, a.cut)
    /\ MergeCut(n, a.cut) = n /\ MergeCut(n, b.cut) = n
    /\ MergeCut(a.cut, a.cut) = a.cut
    /\ \A t \in HonestBlocks : BlockId(reg[t]) = BlockId(a) =>
         MergeCut(n, reg[t].cut) = MergeCut(a.cut, MergeCut(b.cut, reg[t].cut))

(* C02: the adversary. All hashes of both trees, any position, cofactor and   *)
(* depth.                                                                     *)
RECURSIVE CutHashes(_, _, _)
CutHashes(cut, depth, d) == {CutRoot(cut, depth, d)} \cup
    (IF cut.k = "br" THEN CutHashes(cut.l, depth + 1, d) \cup CutHashes(cut.r, depth + 1, d) ELSE {})
Hashes == CutHashes(BlkA.cut, 0, A.d) \cup CutHashes(BlkB.cut, 0, B.d)
AdvProofs == UNION {[pos : {LE(p, 4) : p \in 0..2^d}, c : AdvCofactors, path : [1..d -> Hashes]] : d \in AdvDepths}
NoForgery == \A q \in AdvProofs, p \in Pids, m \in Msgs :
    ProofValid(q, p) =>
        LET id == Convolve(q, p, m) IN
        /\ id \in {IdA, IdB} => <<p, m>> \in MsOf(id)
        /\ id \in {IdA, IdB} => LET t == TreeOfId(id) IN
              [pos |-> q.pos, c |-> q.c, path |-> q.path] = TreeProof(t, p)
ASSUME NoForgery
ASSUME TreeRoot(A) = BlockRoot(BlkA) /\ TreeRoot(B) = BlockRoot(BlkB)

(* Decoding is the inverse of encoding for everything reachable: C21. Only    *)
(* meaningful with hash values of the right length (real hash).               *)
RoundTrip == /\ \A r \in Blocks : reg[r].t = "block" => Loaded("block", BlockEnc(reg[r])) = reg[r]
             /\ reg[Q].t = "proof" => [Parse("proof", ProofEnc(reg[Q])) EXCEPT !.cid = reg[Q].cid] = reg[Q]
=============================================================================
