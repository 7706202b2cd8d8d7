------------------------------- MODULE System ------------------------------
(* A client-side-validated system put together from the parts of the library: *)
(*   issuers    define operations of several protocols, each spending seals   *)
(*              and defining new ones, and commit to them in one tree;        *)
(*   the medium publishes transactions: the seals spent and one commitment.   *)
(*              It accepts a transaction if it spends something and nothing   *)
(*              which an accepted one spent before;                           *)
(*   parties    hold anchors (client-side witnesses): multi-protocol proofs   *)
(*              or blocks, which they conceal, merge, exchange and tamper     *)
(*              with;                                                         *)
(*   verifiers  check the closing of seals, and validate whole histories with *)
(*              ClientSideValidate over a resolver which looks transactions   *)
(*              up on the medium.                                             *)
EXTENDS Wire, Validation

VARIABLES ops, tree, txs, wit, out
svars == <<ops, tree, txs, wit, out>>

None == [t |-> "none"]
SInit == /\ ops = <<>> /\ txs = <<>> /\ out = <<>>
         /\ tree = [i \in 0..3 |-> None] /\ wit = [i \in 0..9 |-> None]

OpTag == "urn:csv-driver:operation#2026-01-01"
Nums(s) == LE(Len(s), 1) \o Concat([i \in 1..Len(s) |-> LE(s[i], 4)])
OpEnc(o) == o.p \o LE(o.n, 4) \o Nums(o.ins) \o Nums(o.outs)
OpId(o)  == Tagged(OpTag, OpEnc(o))            \* also the message committed to

RangeOf(s) == {s[i] : i \in 1..Len(s)}
HasOp(k) == k + 1 \in 1..Len(ops)
HasTx(k) == k + 1 \in 1..Len(txs)
HasTree(k) == tree[k].t # "none"
HasWit(k) == wit[k].t # "none"

-----------------------------------------------------------------------------
(* Anchors.                                                                   *)
AnchorEnc(a) == IF a.t = "proof" THEN "00" \o ProofEnc(a) ELSE "01" \o BlockEnc(a)
AProof(q) == [t |-> "proof", pos |-> q.pos, c |-> q.c, path |-> q.path]
ABlock(b) == [t |-> "block", d |-> b.d, c |-> b.c, ent |-> b.ent, cut |-> b.cut]

(* What the anchor derives from the message of the protocol: <<"ok", id>> or  *)
(* the error.                                                                 *)
Derived(a, p, m) ==
    IF a.t = "proof"
    THEN IF ProofValid(a, p) THEN <<"ok", Convolve(a, p, m)>>
         ELSE <<"invalid:" \o p \o ":" \o LEDec(ExpectedPos(a, p)) \o ":" \o LEDec(a.pos) \o ":"
                \o LEDec(WidthLE4(Len(a.path)))>>
    ELSE IF p \in Revealed(a.cut) THEN <<"ok", Convolve(ProofOf(a, p), p, m)>>
         ELSE <<"notknown:" \o p>>

RECURSIVE NotSpent(_, _)
NotSpent(seals, tx) == IF seals = <<>> THEN <<>>
                       ELSE IF Head(seals) \notin RangeOf(tx.ins) THEN <<Head(seals)>>
                       ELSE NotSpent(Tail(seals), tx)

(* Closing of the seals over the message of the protocol by the transaction,  *)
(* shown by the anchor.                                                       *)
VerifyClosing(seals, p, m, tx, a) ==
    LET f == NotSpent(seals, tx) IN
    IF f # <<>> THEN "notincluded:out:" \o ToString(f[1]) \o ":" \o ToString(tx.no)
    ELSE LET d == Derived(a, p, m) IN
         IF d[1] # "ok" THEN d[1]
         ELSE IF d[2] = tx.cid THEN "ok"
         ELSE "published:" \o d[2] \o ":" \o tx.cid

-----------------------------------------------------------------------------
(* Histories: items <<operation, transaction, anchor>>.                       *)
RECURSIVE Inputs(_, _, _, _)
Inputs(i, ins, open, acc) ==                          \* <<failures, still open>>
    IF ins = <<>> THEN <<acc, open>>
    ELSE Inputs(i, Tail(ins), open \ {Head(ins)},
                IF Head(ins) \in open THEN acc
                ELSE Append(acc, ToString(i) \o ":not open " \o ToString(Head(ins))))
RECURSIVE OwnFailures(_, _, _, _)
OwnFailures(p, items, i, open) ==
    IF i > Len(items) THEN <<>>
    ELSE LET o == items[i].op
             r == Inputs(i, o.ins, open, IF o.p = p THEN <<>> ELSE <<ToString(i) \o ":foreign">>)
         IN  r[1] \o OwnFailures(p, items, i + 1, r[2] \cup RangeOf(o.outs))

OnMedium(tx) == \E i \in 1..Len(txs) : txs[i] = tx /\ tx.ok

ResolveAnswer(item, seal) ==
    IF ~OnMedium(item.tx) THEN "unpublished"
    ELSE LET r == VerifyClosing(<<seal>>, item.op.p, OpId(item.op), item.tx, item.a) IN
         IF r = "ok" THEN "" ELSE r

(* The validation of a history in terms of the traversal of Validation.       *)
Answers(items) == FlattenSeq([i \in 1..Len(items) |->
                     [j \in 1..Len(items[i].op.ins) |-> ResolveAnswer(items[i], items[i].op.ins[j])]])
Data(p, genesis, items) ==
    [own |-> <<<<>>, OwnFailures(p, items, 1, genesis), <<>>, <<>>>>,
     answers |-> Answers(items),
     items |-> [i \in 1..Len(items) |->
        [name |-> ToString(i),
         seals |-> [j \in 1..Len(items[i].op.ins) |-> ToString(i) \o ":" \o ToString(items[i].op.ins[j])],
         st |-> <<<<>>, <<>>,
                  IF items[i].op.ins = <<>> THEN <<ToString(i) \o ":closes nothing">> ELSE <<>>,
                  <<ToString(i) \o ":" \o OpId(items[i].op)>>>>]]]
Validated(p, genesis, items) == Traverse(Data(p, genesis, items), TravInit).st

-----------------------------------------------------------------------------
(* Actions.                                                                   *)
DefineOp(a) ==
    /\ a.op = "y_op"
    /\ LET o == [p |-> a.p, n |-> a.n, ins |-> a.ins, outs |-> a.outs] IN
       ops' = Append(ops, o) /\ out' = <<OpId(o)>>
    /\ UNCHANGED <<tree, txs, wit>>

(* extra: <<protocol, message>> pairs which are nobody's operations.          *)
CommitOps(a) ==
    /\ a.op = "y_tree"
    /\ \A k \in RangeOf(a.ops) : HasOp(k)
    /\ LET extra == {<<a.extra[i][1], a.extra[i][2]>> : i \in 1..Len(a.extra)}
           ms == {<<ops[k + 1].p, OpId(ops[k + 1])>> : k \in RangeOf(a.ops)} \cup extra
           fits == ~EmptyError(ms, a.d) /\ Place(ms, a.d) # <<>>
           t == TreeOf(ms, a.d, a.e) IN
       /\ tree' = [tree EXCEPT ![a.s] = IF fits THEN [t |-> "tree"] @@ t ELSE None]
       /\ out' = IF fits THEN <<"ok", TreeId(t)>> ELSE <<"err">>
    /\ UNCHANGED <<ops, txs, wit>>

Spent == UNION {RangeOf(txs[i].ins) : i \in {j \in 1..Len(txs) : txs[j].ok}}
Publish(a) ==
    /\ a.op = "y_pub" /\ HasTree(a.t)
    /\ LET ok == a.ins # <<>> /\ RangeOf(a.ins) \cap Spent = {} IN
       /\ txs' = Append(txs, [no |-> Len(txs), ins |-> a.ins, cid |-> TreeId(tree[a.t]), ok |-> ok])
       /\ out' = <<ToString(Len(txs)), Bool(ok)>>
    /\ UNCHANGED <<ops, tree, wit>>

SetWit(s, x) == wit' = [wit EXCEPT ![s] = x] /\ UNCHANGED <<ops, tree, txs>>

MakeAnchor(a) ==
    /\ a.op = "y_anchor" /\ HasTree(a.t)
    /\ LET b == BlockOf(tree[a.t])
           ps == IF a.k = "proof" THEN {a.p} ELSE RangeOf(a.ps)
           x == IF ~(ps \subseteq Revealed(b.cut)) THEN None
                ELSE IF a.k = "proof" THEN AProof(ProofOf(b, a.p)) ELSE ABlock(ConcealBlock(b, ps)) IN
       SetWit(a.s, x) /\ out' = IF x = None THEN <<"err">> ELSE <<"ok", AnchorEnc(x)>>

ConcealAnchor(a) ==
    /\ a.op = "y_conceal" /\ wit[a.x].t = "block"
    /\ LET b == wit[a.x] ok == RangeOf(a.ps) \subseteq Revealed(b.cut)
           n == IF ok THEN ABlock(ConcealBlock(b, RangeOf(a.ps))) ELSE b IN
       SetWit(a.x, n) /\ out' = <<Bool(ok), AnchorEnc(n)>>

(* ClientSideWitness::merge: blocks of one commitment, or equal proofs.       *)
MergeAnchors(a) ==
    /\ a.op = "y_merge" /\ HasWit(a.x) /\ HasWit(a.y)
    /\ LET x == wit[a.x] y == wit[a.y]
           ok == IF x.t = "block" /\ y.t = "block" THEN BlockId(x) = BlockId(y) ELSE x = y
           n == IF ok /\ x.t = "block" THEN ABlock(MergeBlocks(x, y)) ELSE x IN
       SetWit(a.x, n) /\ out' = <<Bool(ok), AnchorEnc(n)>>

(* Whatever bytes a party is given.                                           *)
ReadAnchor(h) ==
    LET k == BytesAt(h \o "ff", 0, 1)
        o == IF k = "00" THEN Parse("proof", BytesAt(h, 1, NBytes(h)))
             ELSE IF k = "01" THEN Parse("block", BytesAt(h, 1, NBytes(h))) ELSE Bad IN
    CASE o.t = "proof" -> AProof(o)
      [] o.t = "block" -> ABlock(o)
      [] OTHER -> None
LoadAnchor(a) ==
    /\ a.op = "y_load"
    /\ LET x == ReadAnchor(a.h) IN SetWit(a.s, x) /\ out' = IF x = None THEN <<"err">> ELSE <<"ok", a.h>>

VerifyOp(a) ==
    /\ a.op = "y_verify" /\ HasTx(a.tx) /\ HasWit(a.x) /\ HasOp(a.k)
    /\ LET o == ops[a.k + 1] IN
       out' = <<VerifyClosing(a.seals, IF a.p = "" THEN o.p ELSE a.p, OpId(o), txs[a.tx + 1], wit[a.x])>>
    /\ UNCHANGED <<ops, tree, txs, wit>>

ItemOf(x) == [op |-> ops[x[1] + 1], tx |-> txs[x[2] + 1], a |-> wit[x[3]]]
ValidateOp(a) ==
    /\ a.op = "y_validate"
    /\ \A i \in 1..Len(a.items) : HasOp(a.items[i][1]) /\ HasTx(a.items[i][2]) /\ HasWit(a.items[i][3])
    /\ out' = ShowStatus(Validated(a.p, RangeOf(a.genesis), [i \in 1..Len(a.items) |-> ItemOf(a.items[i])]))
    /\ UNCHANGED <<ops, tree, txs, wit>>

NoObjectS(a) ==
    /\ \/ a.op = "y_tree" /\ ~(\A k \in RangeOf(a.ops) : HasOp(k))
       \/ a.op = "y_pub" /\ ~HasTree(a.t)
       \/ a.op = "y_anchor" /\ ~HasTree(a.t)
       \/ a.op = "y_conceal" /\ wit[a.x].t # "block"
       \/ a.op = "y_merge" /\ ~(HasWit(a.x) /\ HasWit(a.y))
       \/ a.op = "y_verify" /\ ~(HasTx(a.tx) /\ HasWit(a.x) /\ HasOp(a.k))
       \/ a.op = "y_validate" /\ ~(\A i \in 1..Len(a.items) :
                                     HasOp(a.items[i][1]) /\ HasTx(a.items[i][2]) /\ HasWit(a.items[i][3]))
    /\ UNCHANGED <<ops, tree, txs, wit>> /\ out' = <<"noobj">>

SysAct(a) == \/ DefineOp(a) \/ CommitOps(a) \/ Publish(a) \/ MakeAnchor(a) \/ ConcealAnchor(a)
             \/ MergeAnchors(a) \/ LoadAnchor(a) \/ VerifyOp(a) \/ ValidateOp(a) \/ NoObjectS(a)
=============================================================================
