----------------------------- MODULE MpcMachine ----------------------------
(* The multi-protocol commitment library as a state machine: registers hold   *)
(* trees, blocks, proofs and other wire objects; every public operation is an *)
(* action which updates the registers and produces an observation `out` (a    *)
(* sequence of strings: the result, and the encoding of what it left behind). *)
EXTENDS Wire

VARIABLES reg, out
mvars == <<reg, out>>

None == [t |-> "none"]
Regs == 0..9

(* Decodable objects that no commitment can give: they are never honest, and  *)
(* the only thing required is that handling them leads to an answer.          *)
Malformed == {"rawblock", "dupblock", "rawtree", "opaque"}

MInit == reg = [r \in Regs |-> None] /\ out = <<>>

Set(s, o)  == reg' = [reg EXCEPT ![s] = o]
Keep       == UNCHANGED reg
Tag(o, ty) == [t |-> ty] @@ o

LeafNotKnown(p) == <<"notknown", p>>
InvalidProof(q, p) == <<"invalid", p, LEDec(ExpectedPos(q, p)), LEDec(q.pos),
                        LEDec(WidthLE4(Len(q.path)))>>
MinLex(S) == SortLex(SetToSeq(S))[1]
Pick(S, hint) == IF hint \in S THEN hint ELSE MinLex(S)
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
Dec(n) == ToString(n)

Usable(o) == o.t \in {"tree", "block", "proof", "concealed"}

-----------------------------------------------------------------------------
(* Construction. op.e is the entropy actually used: the fixed one of the      *)
(* source or, for a source without one, the fresh one taken from the result.  *)
(* A source which states no minimal depth has the default one.                *)
DefaultMinDepth == 3
MinDepth(op) == IF "dflt" \in DOMAIN op THEN DefaultMinDepth ELSE op.d
Ms(op) == {<<op.ms[i][1], op.ms[i][2]>> : i \in 1..Len(op.ms)}
          \cup IF "seq" \in DOMAIN op THEN {<<LE(i, 32), op.m>> : i \in op.from..(op.from + op.seq - 1)} ELSE {}

CommitResult(ms, mind, e) ==
    IF EmptyError(ms, mind) THEN <<"err", "Empty">>
    ELSE IF Place(ms, mind) = <<>> THEN <<"err", "CantFit", Dec(Cardinality(ms))>>
    ELSE <<"ok", Obs(TreeEnc(TreeOf(ms, mind, e)))>>

(* fe: the fixed entropy of the source, "" if it has none; the result then    *)
(* shows the entropy which was drawn.                                         *)
Commit(op) ==
    /\ op.op = "commit"
    /\ LET ms == Ms(op) res == CommitResult(ms, MinDepth(op), op.e) IN
       /\ out' = IF res[1] = "ok" /\ op.fe = "" THEN Append(res, op.e) ELSE res
       /\ Set(op.s, IF res[1] = "ok" THEN Tag(TreeOf(ms, MinDepth(op), op.e), "tree") ELSE None)

(* TryCommitVerify::verify of a tree against a source.                        *)
VerifyTree(op) ==
    /\ op.op = "verify_tree"
    /\ reg[op.x].t \in {"tree", "rawtree"}
    /\ Keep
    /\ LET ms == Ms(op) t == reg[op.x] IN
       out' = IF EmptyError(ms, MinDepth(op)) \/ Place(ms, MinDepth(op)) = <<>> THEN <<"InvalidMessage">>
              ELSE IF TreeEnc(TreeOf(ms, MinDepth(op), op.e)) = Enc(t) THEN <<"ok">>
              ELSE <<"InvalidCommitment">>

TreeInfo(op) ==
    /\ op.op = "tree_info"
    /\ reg[op.x].t \in {"tree", "rawtree"}
    /\ Keep
    /\ LET t == reg[op.x] IN
       out' = <<Dec(t.d), Dec(t.c), t.e, WidthLE4(t.d), FactoredLE4(t.d, t.c),
                LE(Pos(op.p, t.c, t.d), 4)>>

(* Trees whose map disagrees with their messages still have a root, a block   *)
(* and an id, by their map (small ones are computed, others left open).       *)
HasRoot(t) == t.t = "tree" \/ (t.t = "rawtree" /\ t.d <= 10)

TreeRootOp(op) ==
    /\ op.op = "tree_root"
    /\ HasRoot(reg[op.x])
    /\ Keep
    /\ LET t == reg[op.x] r == TreeRoot(t) IN
       out' = IF "only" \in DOMAIN op THEN <<r>> ELSE <<r, IdOf(t.d, t.c, r), ConcealedEnc(t.d, t.c, r)>>

(* into_proofs: in the order of positions.                                    *)
TreeProofs(op) ==
    /\ op.op = "tree_proofs"
    /\ reg[op.x].t = "tree"
    /\ Keep
    /\ LET t == reg[op.x] pm == PosMap(t) ps == SortedPositions(pm) IN
       out' = FlattenSeq([i \in 1..Len(ps) |->
                 <<pm[ps[i]][1], Obs(ProofEnc(TreeProof(t, pm[ps[i]][1])))>>])

-----------------------------------------------------------------------------
(* Blocks.                                                                    *)
ToBlock(op) ==
    /\ op.op = "block"
    /\ HasRoot(reg[op.x])
    /\ LET b == BlockOf(reg[op.x]) IN
       /\ out' = <<Obs(BlockEnc(b))>>
       /\ Set(op.s, IF Cardinality(Revealed(b.cut)) < Len(CutLeaves(b.cut)) THEN Tag(b, "dupblock") ELSE Tag(b, "block"))

Copy(op) ==
    /\ op.op = "copy"
    /\ Set(op.s, reg[op.x])
    /\ out' = <<"true">>

(* Decoding: an object is stored exactly if the bytes are its encoding.       *)
Loaded(kind, h) ==
    LET o == Parse(kind, h) IN
    IF o.t = "block" /\ Cardinality(Revealed(o.cut)) < Len(CutLeaves(o.cut))
    THEN [o EXCEPT !.t = "dupblock"]
    ELSE IF o.t = "rawtree"
    THEN LET t == [d |-> o.d, e |-> o.e, c |-> o.c, ms |-> o.ms] IN
         IF LEModInjective(SortedPids(o.ms), o.d, o.c) /\ TreeEnc(t) = h THEN Tag(t, "tree") ELSE o
    ELSE o

Load(op) ==
    /\ op.op = "load"
    /\ LET o == Loaded(op.k, op.h) IN
       /\ out' = IF o.t = "bad" THEN <<"err">> ELSE <<"ok", Obs(op.h)>>
       /\ Set(op.s, IF o.t = "bad" THEN None ELSE o)

With(op) ==
    /\ op.op = "with"
    /\ reg[op.x].t = "proof" /\ Len(reg[op.x].path) < 32
    /\ LET q == reg[op.x] IN
       IF ~ProofValid(q, op.p) THEN out' = InvalidProof(q, op.p) /\ Keep
       ELSE LET b == BlockWith(q, op.p, op.m) IN
            out' = <<"ok", Obs(BlockEnc(b))>> /\ Set(op.s, Tag(b, "block"))

(* conceal_except: all requested protocols must be revealed, otherwise the    *)
(* error names one of them (the least) and the block stays as it was.         *)
Except(op) ==
    /\ op.op = "except"
    /\ reg[op.x].t = "block"
    /\ LET b == reg[op.x] ps == SetOf(op.ps) missing == ps \ Revealed(b.cut) IN
       IF missing # {}
       THEN out' = LeafNotKnown(Pick(missing, op.hint)) \o <<Obs(BlockEnc(b))>> /\ Keep
       ELSE LET n == ConcealBlock(b, ps) IN
            /\ out' = <<"ok", Dec(ConcealCount(b, ps)), Obs(BlockEnc(n))>>
            /\ Set(op.x, Tag(n, "block"))

Other(op) ==
    /\ op.op = "other"
    /\ reg[op.x].t = "block"
    /\ LET b == reg[op.x] IN
       IF op.p \notin Revealed(b.cut)
       THEN out' = LeafNotKnown(op.p) \o <<Obs(BlockEnc(b))>> /\ Keep
       ELSE LET n == ConcealBlock(b, {op.p}) IN
            /\ out' = <<"ok", Obs(BlockEnc(n))>>
            /\ Set(op.x, Tag(n, "block"))

MergeResult(a, b) ==
    IF BlockId(a) # BlockId(b)
    THEN [o |-> <<"unrelated", BlockId(a), BlockId(b), Obs(BlockEnc(a))>>, n |-> a]
    ELSE LET n == MergeBlocks(a, b) IN
         [o |-> <<"ok", Dec(CutLen(n.cut) % 65536), Obs(BlockEnc(n))>>, n |-> n]

Merge(op) ==
    /\ op.op = "merge"
    /\ reg[op.x].t = "block" /\ reg[op.y].t = "block"
    /\ LET r == MergeResult(reg[op.x], reg[op.y]) IN out' = r.o /\ Set(op.x, r.n)

MergePath(op) ==
    /\ op.op = "merge_path"
    /\ reg[op.x].t = "block" /\ reg[op.y].t = "proof" /\ Len(reg[op.y].path) < 32
    /\ LET b == reg[op.x] q == reg[op.y] IN
       IF ~ProofValid(q, op.p)
       THEN out' = InvalidProof(q, op.p) \o <<Obs(BlockEnc(b))>> /\ Keep
       ELSE LET r == MergeResult(b, BlockWith(q, op.p, op.m)) IN out' = r.o /\ Set(op.x, r.n)

(* to_merkle_proof and into_merkle_proof.                                     *)
ToProof(op) ==
    /\ op.op = "proof"
    /\ reg[op.x].t = "block"
    /\ LET b == reg[op.x] IN
       IF op.p \notin Revealed(b.cut) THEN out' = LeafNotKnown(op.p) /\ Keep
       ELSE LET q == ProofOf(b, op.p) IN
            /\ out' = <<"ok", Obs(ProofEnc(q)), "true">>
            /\ Set(op.s, [t |-> "proof", pos |-> q.pos, c |-> q.c, path |-> q.path, cid |-> BlockId(b)])

Known(op) ==
    /\ op.op = "known"
    /\ reg[op.x].t = "block"
    /\ Keep
    /\ LET b == reg[op.x] ls == CutLeaves(b.cut) IN
       out' = [i \in 1..Len(ls) |-> ls[i][1]] \o <<"|">> \o SortedPairs(RevealedPairs(b.cut))

KnownProofs(op) ==
    /\ op.op = "known_proofs"
    /\ reg[op.x].t = "block"
    /\ Keep
    /\ LET b == reg[op.x] ls == CutLeaves(b.cut) IN
       out' = FlattenSeq([i \in 1..Len(ls) |-> <<ls[i][1], Obs(ProofEnc(ProofOf(b, ls[i][1])))>>])

BlockGeometry(b, p) == <<"Sha256t", Dec(b.d), Dec(b.c), b.ent, WidthLE4(b.d), FactoredLE4(b.d, b.c),
                         LE(Pos(p, b.c, b.d), 4)>>

BlockInfo(op) ==
    /\ op.op = "block_info"
    /\ reg[op.x].t \in {"block", "rawblock", "dupblock"}
    /\ Keep
    /\ out' = BlockGeometry(reg[op.x], op.p)

BlockIdOp(op) ==
    /\ op.op = "block_id"
    /\ reg[op.x].t = "block"
    /\ Keep
    /\ LET b == reg[op.x] IN out' = <<BlockId(b), ConcealedEnc(b.d, b.c, BlockRoot(b))>>

-----------------------------------------------------------------------------
(* Proofs.                                                                    *)
ProofInfo(op) ==
    /\ op.op = "proof_info"
    /\ reg[op.x].t = "proof" /\ Len(reg[op.x].path) < 32
    /\ Keep
    /\ LET q == reg[op.x] d == Len(q.path) IN
       out' = <<"Sha256t", q.pos, Dec(q.c), Dec(d), WidthLE4(d), FactoredLE4(d, q.c),
                ProofTop(q), Obs(Concat(q.path)), "true">>

ConvolveOp(op) ==
    /\ op.op = "convolve"
    /\ reg[op.x].t = "proof" /\ Len(reg[op.x].path) < 32
    /\ Keep
    /\ LET q == reg[op.x] IN
       out' = IF ProofValid(q, op.p) THEN <<"ok", Convolve(q, op.p, op.m)>> ELSE InvalidProof(q, op.p)

(* Two objects of one kind match exactly if their commitment ids are equal.   *)
(* A proof alone does not know its commitment: the register remembers the     *)
(* commitment it was made for (cid), or "" if it was read from the wire.      *)
MatchOf(a, b) ==
    CASE a.t \in {"tree", "rawtree"} -> TreeId(a) = TreeId(b)
      [] a.t = "block" -> BlockId(a) = BlockId(b)
      [] a.t = "proof" -> IF a.cid # "" /\ b.cid # "" THEN a.cid = b.cid ELSE ProofMatchesAsCoded(a, b)

Matches(op) ==
    /\ op.op = "matches"
    /\ \/ reg[op.x].t = reg[op.y].t /\ reg[op.x].t \in {"block", "proof"}
       \/ HasRoot(reg[op.x]) /\ HasRoot(reg[op.y])
    /\ Keep
    /\ LET a == reg[op.x] b == reg[op.y] IN
       out' = <<Bool(MatchOf(a, b)), Bool(MatchOf(b, a)), Bool(Enc(a) = Enc(b))>>

ConcealedOp(op) ==
    /\ op.op = "concealed"
    /\ reg[op.x].t = "concealed"
    /\ Keep
    /\ LET o == reg[op.x] IN out' = <<IdOf(o.d, o.c, o.root), Enc(o)>>

(* Ids of the wire leaves and nodes.                                          *)
LeafId(op) ==
    /\ op.op = "leaf_id"
    /\ reg[op.x].t \in {"leaf", "mnode"}
    /\ Keep
    /\ out' = <<MHash(reg[op.x].enc)>>

-----------------------------------------------------------------------------
(* Exhaustive tables: one row of the table of all results over a pool of      *)
(* blocks, joined and hashed.                                                 *)
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1]
                ELSE Cat([i \in 1..(2 * Len(s) - 1) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] ELSE sep])
Digested(rows) == <<Sha256(StrHex(Cat([i \in 1..Len(rows) |-> Join(rows[i], ",") \o ";"])))>>

MergeRow(pool, i) == Digested([j \in 1..Len(pool) |-> MergeResult(pool[i], pool[j]).o])

ExceptResult(b, ps) ==
    LET missing == ps \ Revealed(b.cut) IN
    IF missing # {} THEN <<"notknown", "one", Obs(BlockEnc(b))>>
    ELSE <<"ok", Dec(ConcealCount(b, ps)), Obs(BlockEnc(ConcealBlock(b, ps)))>>
ExceptRow(pool, i, sets) == Digested([j \in 1..Len(sets) |-> ExceptResult(pool[i], SetOf(sets[j]))])

(* For every protocol: its proof, what this verifies with every message.      *)
ProofRow(pool, i, ps, ms) ==
    LET b == pool[i] IN
    Digested([j \in 1..Len(ps) |->
        IF ps[j] \notin Revealed(b.cut) THEN LeafNotKnown(ps[j])
        ELSE LET q == ProofOf(b, ps[j]) IN
             <<Obs(ProofEnc(q))>> \o
             [k \in 1..Len(ms) |-> Convolve(q, ps[j], ms[k])]]
        \o <<<<BlockId(b)>>>>)

(* Which blocks match, and which encode equally.                              *)
MatchRow(pool, i) == Digested([j \in 1..Len(pool) |->
    <<Bool(BlockId(pool[i]) = BlockId(pool[j])), Bool(BlockEnc(pool[i]) = BlockEnc(pool[j]))>>])

(* Everything a verifier can be shown: proofs of depth d with one position and *)
(* cofactor, and every path over the given hashes, opened with every protocol *)
(* and message.                                                               *)
RECURSIVE Paths(_, _)
Paths(hs, d) == IF d = 0 THEN <<<<>>>>
                ELSE LET r == Paths(hs, d - 1) IN
                     FlattenSeq([i \in 1..Len(hs) |-> [j \in 1..Len(r) |-> <<hs[i]>> \o r[j]]])
ForgeRow(op) ==
    LET paths == Paths(op.hs, op.d) IN
    Digested(FlattenSeq([i \in 1..Len(paths) |->
        LET q == [pos |-> op.pos, c |-> op.c, path |-> paths[i]] IN
        [j \in 1..Len(op.ps) |->
            IF ProofValid(q, op.ps[j]) THEN [k \in 1..Len(op.ms) |-> Convolve(q, op.ps[j], op.ms[k])]
            ELSE InvalidProof(q, op.ps[j])]]))

Row(op, pool) ==
    /\ Keep
    /\ \/ op.op = "merge_row" /\ out' = MergeRow(pool, op.i)
       \/ op.op = "match_row" /\ out' = MatchRow(pool, op.i)
       \/ op.op = "except_row" /\ out' = ExceptRow(pool, op.i, op.sets)
       \/ op.op = "proof_row" /\ out' = ProofRow(pool, op.i, op.ps, op.ms)

-----------------------------------------------------------------------------
(* Which registers an operation reads, and the kinds it works on.             *)
TreeOps  == {"verify_tree", "tree_info", "tree_root", "tree_proofs", "block"}
BlockOps == {"except", "other", "merge", "merge_path", "proof", "known", "known_proofs", "block_info", "block_id"}
ProofOps == {"with", "proof_info", "convolve", "serde_err"}
KindX(op) == CASE op.op \in TreeOps   -> {"tree", "rawtree", "opaque"}
               [] op.op \in BlockOps  -> {"block", "rawblock", "dupblock", "opaque"}
               [] op.op \in ProofOps  -> {"proof", "opaque"}
               [] op.op = "concealed" -> {"concealed"}
               [] op.op = "leaf_id"   -> {"leaf", "mnode"}
KindY(op) == CASE op.op = "merge"      -> {"block", "rawblock", "dupblock", "opaque"}
               [] op.op = "merge_path" -> {"proof", "opaque"}
MatchKind(t) == CASE t \in {"tree", "rawtree"} -> "tree"
                  [] t \in {"block", "rawblock", "dupblock"} -> "block"
                  [] t = "proof" -> "proof"
                  [] t = "opaque" -> "opaque"
                  [] OTHER -> "other"
NoObject(op) ==
    /\ \/ op.op \in TreeOps \cup BlockOps \cup ProofOps \cup {"concealed", "leaf_id"} /\ reg[op.x].t \notin KindX(op)
       \/ op.op \in {"merge", "merge_path"} /\ reg[op.y].t \notin KindY(op)
       \/ op.op = "matches" /\ LET a == MatchKind(reg[op.x].t) b == MatchKind(reg[op.y].t) IN
              /\ a # "opaque" /\ b # "opaque"
              /\ a # b \/ a = "other"
    /\ Keep
    /\ out' = <<"noobj">>

(* Handling a malformed object gives an answer, which one is left open; what  *)
(* such an operation leaves behind is not tracked any further.                *)
Closed == {"block_info", "tree_info", "verify_tree"}     \* determined for malformed objects, too
Free(op) ==
    /\ op.op \notin {"commit", "copy", "load"}
    /\ "x" \in DOMAIN op
    /\ LET kx == reg[op.x].t
           ky == IF "y" \in DOMAIN op THEN reg[op.y].t ELSE "none" IN
       /\ kx \in Malformed \/ ky \in Malformed
       /\ op.op \notin Closed \/ kx = "opaque"
       /\ ~(op.op \in {"tree_root", "block"} /\ HasRoot(reg[op.x]))
       /\ ~(op.op = "matches" /\ HasRoot(reg[op.x]) /\ HasRoot(reg[op.y]))
       /\ op.op \in TreeOps \cup BlockOps \cup ProofOps => kx \in KindX(op)
       /\ op.op \in {"merge", "merge_path"} => ky \in KindY(op)
       /\ op.op = "matches" => MatchKind(kx) = MatchKind(ky) \/ "opaque" \in {kx, ky}
    /\ out' = <<"free">>
    /\ reg' = [r \in Regs |->
                 IF (r = op.x /\ op.op \in {"except", "other", "merge", "merge_path"})
                    \/ ("s" \in DOMAIN op /\ r = op.s)
                 THEN [t |-> "opaque"] ELSE reg[r]]

-----------------------------------------------------------------------------
(* Serialization with serde: reading back gives the object with the same      *)
(* encoding, and the copy behaves like it ever after. With one of its hashes  *)
(* too short, too long or not hexadecimal, or with the end cut off, nothing   *)
(* is read.                                                                   *)
SerdeKinds == {"block", "proof", "concealed"}
Serde(op) ==
    /\ op.op = "serde"
    /\ IF reg[op.x].t \in SerdeKinds
       THEN out' = <<Obs(Enc(reg[op.x])), "true">> /\ Set(op.s, reg[op.x])
       ELSE reg[op.x].t \notin Malformed /\ out' = <<"noobj">> /\ Keep
RECURSIVE NumHashes(_)
NumHashes(x) == CASE x.k = "br" -> NumHashes(x.l) + NumHashes(x.r)
                  [] x.k = "leaf" -> 2
                  [] x.k = "node" -> 1
HashCount(o) == CASE o.t = "block" -> NumHashes(o.cut)
                  [] o.t = "proof" -> Len(o.path)
                  [] o.t = "concealed" -> 1
SerdeBad(op) ==
    /\ op.op = "serde_bad"
    /\ Keep
    /\ IF reg[op.x].t \in SerdeKinds
       THEN out' = IF op.f # "bin" /\ HashCount(reg[op.x]) = 0 THEN <<"none">> ELSE <<"err">>
       ELSE reg[op.x].t \notin Malformed /\ out' = <<"noobj">>
(* The error about an invalid proof, read back.                               *)
SerdeErr(op) ==
    /\ op.op = "serde_err"
    /\ reg[op.x].t = "proof" /\ Len(reg[op.x].path) < 32
    /\ Keep
    /\ LET q == reg[op.x] IN out' = IF ProofValid(q, op.p) THEN <<"ok">> ELSE InvalidProof(q, op.p) \o <<"true">>

(* All paths of one proof shape.                                              *)
Forge(op) == op.op = "forge_row" /\ Keep /\ out' = ForgeRow(op)

MpcAct(op) == \/ Serde(op) \/ SerdeBad(op) \/ SerdeErr(op) \/ Forge(op) \/ Commit(op) \/ VerifyTree(op) \/ TreeInfo(op) \/ TreeRootOp(op) \/ TreeProofs(op)
              \/ ToBlock(op) \/ Copy(op) \/ Load(op) \/ With(op) \/ Except(op) \/ Other(op)
              \/ Merge(op) \/ MergePath(op) \/ ToProof(op) \/ Known(op) \/ KnownProofs(op)
              \/ BlockInfo(op) \/ BlockIdOp(op) \/ ProofInfo(op) \/ ConvolveOp(op) \/ Matches(op)
              \/ ConcealedOp(op) \/ LeafId(op) \/ NoObject(op) \/ Free(op)
=============================================================================
