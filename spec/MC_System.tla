------------------------------ MODULE MC_System ----------------------------
(* Design-level model checking of System: two protocols, conflicting          *)
(* operations, every transaction anyone could publish over them, and an       *)
(* adversary who shows every anchor he can assemble.                          *)
EXTENDS System

CONSTANTS McOps,        \* the operations: AllOps or SomeOps
          Seals,        \* which may be spent by transactions
          MaxTxs,       \* length of the medium
          Wits          \* anchors exchanged between parties (registers)

PA == LE(0, 32)
PB == LE(1, 32)
Op(p, n, i, o) == [p |-> p, n |-> n, ins |-> i, outs |-> o]
(* Seal 1 and 2 are defined at genesis; 3 and 4 by operations.                *)
AllOps == <<Op(PA, 0, <<1>>, <<3>>), Op(PA, 1, <<1>>, <<4>>),          \* conflict over seal 1
           Op(PA, 2, <<3, 2>>, <<4>>), Op(PA, 3, <<1, 2>>, <<>>),
           Op(PB, 0, <<2>>, <<3>>), Op(PB, 1, <<1>>, <<>>)>>
Genesis == {1, 2}
SomeOps == <<AllOps[1], AllOps[2], AllOps[5]>>

Commit2(S) == TreeOf({<<McOps[k].p, OpId(McOps[k])>> : k \in S}, 1, LE(5, 8))
OpSets == {S \in SUBSET (1..Len(McOps)) :
             \A p \in {PA, PB} : Cardinality({k \in S : McOps[k].p = p}) <= 1}
(* Which sets of operations may be committed: an issuer of B takes part in    *)
(* whatever A does.                                                           *)
TreeOfSet == [S \in OpSets |-> Commit2(S)]
CidOfSet == [S \in OpSets |-> TreeId(TreeOfSet[S])]
BlockOfSet == [S \in OpSets |-> ABlock(BlockOf(TreeOfSet[S]))]

(* The pool of the adversary: every block concealed every way; every path     *)
(* over all hashes of all trees, at every position, and all messages.         *)
RECURSIVE CutHashes(_, _, _)
CutHashes(cut, depth, d) == {CutRoot(cut, depth, d)} \cup
    (IF cut.k = "br" THEN CutHashes(cut.l, depth + 1, d) \cup CutHashes(cut.r, depth + 1, d) ELSE {})
Hashes == UNION {CutHashes(BlockOfSet[S].cut, 0, 1) : S \in OpSets}
Paths == {<<>>} \cup {<<h>> : h \in Hashes}
PoolProofs == {[t |-> "proof", pos |-> LE(q, 4), c |-> c, path |-> h] : q \in 0..1, c \in 0..1, h \in Paths}
PoolBlocks == UNION {{ABlock(ConcealBlock(BlockOfSet[S], ps)) :
                        ps \in SUBSET Revealed(BlockOfSet[S].cut)} : S \in OpSets} \cup {BlockOfSet[S] : S \in OpSets}
Pool == PoolProofs \cup PoolBlocks

(* Which commitments the anchors of the pool derive from an operation.        *)
Reach == [k \in 1..Len(McOps) |-> {d[2] : d \in {Derived(a, McOps[k].p, OpId(McOps[k])) : a \in Pool}
                                                 \cap {<<"ok", CidOfSet[S]>> : S \in OpSets}}]

-----------------------------------------------------------------------------
Init == /\ ops = McOps /\ txs = <<>> /\ out = <<>>
        /\ tree = [i \in 0..3 |-> None] /\ wit = [i \in 0..9 |-> None]

InsOf == {SetToSeq(s) : s \in SUBSET Seals} 
(* Publishing takes the tree into register 0 first.                           *)
PublishAny == /\ Len(txs) < MaxTxs
              /\ \E S \in OpSets, i \in InsOf :
                   txs' = Append(txs, [no |-> Len(txs), ins |-> i, cid |-> CidOfSet[S],
                                       ok |-> i # <<>> /\ RangeOf(i) \cap Spent = {}])
              /\ UNCHANGED <<ops, tree, wit>> /\ out' = <<>>

Exchange == \E x \in Wits :
    \/ \E S \in OpSets, p \in {PA, PB} :
          /\ p \in Revealed(BlockOfSet[S].cut)
          /\ wit' = [wit EXCEPT ![x] = AProof(ProofOf(BlockOfSet[S], p))] /\ UNCHANGED <<ops, tree, txs, out>>
    \/ \E S \in OpSets : wit' = [wit EXCEPT ![x] = BlockOfSet[S]] /\ UNCHANGED <<ops, tree, txs, out>>
    \/ \E ps \in SUBSET {PA, PB} : ConcealAnchor([op |-> "y_conceal", x |-> x, ps |-> SetToSeq(ps)])
    \/ \E y \in Wits : MergeAnchors([op |-> "y_merge", x |-> x, y |-> y])

Next == PublishAny \/ Exchange
View == <<txs, wit>>

Accepted == {i \in 1..Len(txs) : txs[i].ok}
Pids == {PA, PB}

(* Who can show whom the closing of a seal over an operation.                 *)
Closes(i, k, s) == s \in RangeOf(txs[i].ins) /\ txs[i].cid \in Reach[k]
NoDoubleSpend == \A s \in Seals : \A k, j \in 1..Len(McOps) :
    k # j /\ McOps[k].p = McOps[j].p =>
        ~(\E x, y \in Accepted : Closes(x, k, s) /\ Closes(y, j, s))

(* Whatever validates was committed to by the transaction.                    *)
CommittedOnly == \A i \in 1..Len(txs), k \in 1..Len(McOps) :
    txs[i].cid \in Reach[k] => \E S \in OpSets : k \in S /\ CidOfSet[S] = txs[i].cid

(* Honest: whoever has the anchor of a transaction's tree for the protocol.   *)
Honest == \A i \in Accepted : \A S \in OpSets : CidOfSet[S] = txs[i].cid =>
    \A k \in S : \A ps \in SUBSET Pids : McOps[k].p \in ps /\ ps \subseteq Revealed(BlockOfSet[S].cut) =>
       LET b == ABlock(ConcealBlock(BlockOfSet[S], ps))
           q == AProof(ProofOf(b, McOps[k].p)) IN
       \A seals \in SUBSET RangeOf(txs[i].ins) : \A a \in {b, q} :
           VerifyClosing(SetToSeq(seals), McOps[k].p, OpId(McOps[k]), txs[i], a) = "ok"

(* Anchors held by parties are never good for anything which was not          *)
(* committed, and always good for what they reveal of a published tree.       *)
Held == \A x \in Wits :
    CASE wit[x].t = "none"  -> TRUE
      [] wit[x].t = "proof" -> wit[x] \in PoolProofs
      [] wit[x].t = "block" -> \E S \in OpSets : /\ BlockId(wit[x]) = CidOfSet[S]
                                 /\ RevealedPairs(wit[x].cut) \subseteq RevealedPairs(BlockOfSet[S].cut)
HeldGood == \A x \in Wits : wit[x].t = "block" => \A i \in Accepted :
    BlockId(wit[x]) = txs[i].cid => \A k \in 1..Len(McOps) :
        (<<McOps[k].p, OpId(McOps[k])>> \in RevealedPairs(wit[x].cut)) =
        (VerifyClosing(txs[i].ins, McOps[k].p, OpId(McOps[k]), txs[i], wit[x]) = "ok")

(* Histories of up to two items over the medium. To keep it small, an item is *)
(* shown with the best anchor there is: one which reaches the transaction's   *)
(* commitment if any in the pool does, and a useless one otherwise.           *)
Useless == ABlock(BlockOf(Commit2({})))
CidSet == {CidOfSet[S] : S \in OpSets}
Best == [k \in 1..Len(McOps) |-> [c \in CidSet |->
          LET good == {a \in Pool : Derived(a, McOps[k].p, OpId(McOps[k])) = <<"ok", c>>} IN
          IF good = {} THEN Useless ELSE CHOOSE a \in good : TRUE]]
AllItems == {[op |-> McOps[k], tx |-> txs[i], a |-> Best[k][txs[i].cid]] : k \in 1..Len(McOps), i \in 1..Len(txs)}
(* A history with an issue is not valid (MC_Validation): leave those out.      *)
GoodItems == {x \in AllItems : \A s \in RangeOf(x.op.ins) : ResolveAnswer(x, s) = ""}
ValidHistories(p, good) == {h \in {<<x>> : x \in good} \cup {<<x, y>> : x \in good, y \in good} :
                              Verdict(Validated(p, Genesis, h)) = "valid"}

(* Two valid histories never close one seal with different operations, and    *)
(* every seal of a valid history is closed by an accepted transaction which   *)
(* commits to the operation.                                                  *)
OneTruth == \A p \in Pids : LET V == ValidHistories(p, GoodItems) IN
    /\ \A h \in V : \A i \in 1..Len(h) : \A s \in RangeOf(h[i].op.ins) :
          /\ h[i].tx.ok /\ s \in RangeOf(h[i].tx.ins)
          /\ \E S \in OpSets : CidOfSet[S] = h[i].tx.cid
                /\ \E k \in S : McOps[k] = h[i].op
    /\ \A h, g \in V : \A i \in 1..Len(h), j \in 1..Len(g) :
          RangeOf(h[i].op.ins) \cap RangeOf(g[j].op.ins) # {} => h[i].op = g[j].op
    /\ \A h \in V : \A i, j \in 1..Len(h) : i # j => RangeOf(h[i].op.ins) \cap RangeOf(h[j].op.ins) = {}
=============================================================================
