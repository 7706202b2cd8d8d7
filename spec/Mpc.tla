-------------------------------- MODULE Mpc --------------------------------
(* LNPBP-4 multi-protocol commitments: the data and the functions on them.    *)
(* The state machine over these data is module MpcMachine.                    *)
(*                                                                            *)
(* Representation                                                             *)
(*   tree   [d |-> depth, e |-> entropy (u64 LE), c |-> cofactor,             *)
(*           ms |-> set of <<protocol, message>>]                             *)
(*   block  [d, c, ent |-> "" or u64 LE, cut |-> cut tree]                    *)
(*   cut    a binary tree cut at arbitrary places, i.e. the cross-section:    *)
(*          [k |-> "leaf", p, m]  a revealed leaf (always at depth d)         *)
(*          [k |-> "node", h]     a subtree concealed behind its hash         *)
(*          [k |-> "br", l, r]    an uncut inner node                         *)
(*   proof  [pos |-> u32 LE, c, path |-> sibling hashes, from the root]        *)
EXTENDS Merkle

CommitmentTag == "urn:ubideco:mpc:commitment#2024-01-31"
CofactorAttempts == 500
MaxDepth == 31

LeafInh(p, m)   == "10" \o p \o m
LeafEnt(e, pos) == "11" \o e \o LE(pos, 4)
InhHash(p, m)   == MHash(LeafInh(p, m))
EntHash(e, pos) == MHash(LeafEnt(e, pos))

Pos(p, c, d) == LEMod(p, d, c)
WidthLE4(d)  == Pow2LE(d, 4)
FactoredLE4(d, c) == Pow2SubLE(d, c, 4)
MpcNode(depth, d, a, b) == BranchNode(depth, Pow2LE(d, 32), a, b)

-----------------------------------------------------------------------------
(* Construction of the tree: smallest depth not below the requested one, then *)
(* smallest cofactor, for which no two protocols share a position. Depth 0    *)
(* has cofactor 0 or 1 as any minimal depth has; deeper ones are tried up to  *)
(* half of the width, 500 at most.                                            *)
MaxCofactor(d, mind) == IF d = mind THEN 1
                        ELSE IF d - 1 >= 9 THEN CofactorAttempts ELSE 2^(d - 1)

Protocols(ms) == {x[1] : x \in ms}
SortedPids(ms) == SortLex(SetToSeq(Protocols(ms)))
FitsWidth(n, d) == d >= 30 \/ n <= 2^d

RECURSIVE TryCofactor(_, _, _, _)
TryCofactor(ps, d, c, maxc) ==
    IF c > maxc THEN -1
    ELSE IF LEModInjective(ps, d, c) THEN c
    ELSE TryCofactor(ps, d, c + 1, maxc)

RECURSIVE TryDepth(_, _, _)
TryDepth(ps, d, mind) ==
    IF d > MaxDepth THEN <<>>
    ELSE LET c == IF FitsWidth(Len(ps), d) THEN TryCofactor(ps, d, 0, MaxCofactor(d, mind)) ELSE -1
         IN  IF c >= 0 THEN <<d, c>> ELSE TryDepth(ps, d + 1, mind)

(* <<>> when it can not be placed, <<depth, cofactor>> otherwise.             *)
Place(ms, mind) == TryDepth(SortedPids(ms), mind, mind)

EmptyError(ms, mind) == mind = 0 /\ ms = {}

TreeOf(ms, mind, e) == LET pl == Place(ms, mind) IN [d |-> pl[1], e |-> e, c |-> pl[2], ms |-> ms]

(* The leaves by position. A tree read from the wire has a map of its own     *)
(* (es), which decides, whatever the messages and positions of the protocols. *)
PosMap(t) == IF "es" \in DOMAIN t
             THEN LET at(i) == LEInt(BytesAt(t.es[i], 0, 4))
                      in == {i \in 1..Len(t.es) : BytesAt(t.es[i], 2, 4) = "0000" /\ at(i) < 2^t.d}
                  IN [q \in {at(i) : i \in in} |->
                         LET i == CHOOSE j \in in : at(j) = q IN <<BytesAt(t.es[i], 4, 36), BytesAt(t.es[i], 36, 68)>>]
             ELSE [q \in {Pos(x[1], t.c, t.d) : x \in t.ms} |->
                 CHOOSE x \in t.ms : Pos(x[1], t.c, t.d) = q]

TreeLeafHash(t, pm, q) == IF q \in DOMAIN pm THEN InhHash(pm[q][1], pm[q][2]) ELSE EntHash(t.e, q)

TreeRoot(t) == LET pm == PosMap(t) IN
               Merklize([i \in 1..2^t.d |-> TreeLeafHash(t, pm, i - 1)])

-----------------------------------------------------------------------------
(* Blocks.                                                                    *)
Leaf(p, m)  == [k |-> "leaf", p |-> p, m |-> m]
Node(h)     == [k |-> "node", h |-> h]
Br(l, r)    == [k |-> "br", l |-> l, r |-> r]

RECURSIVE FullCut(_, _, _, _)
FullCut(t, pm, lo, depth) ==
    IF depth = t.d
    THEN IF lo \in DOMAIN pm THEN Leaf(pm[lo][1], pm[lo][2]) ELSE Node(EntHash(t.e, lo))
    ELSE Br(FullCut(t, pm, lo, depth + 1), FullCut(t, pm, lo + 2^(t.d - depth - 1), depth + 1))

BlockOf(t) == [d |-> t.d, c |-> t.c, ent |-> t.e, cut |-> FullCut(t, PosMap(t), 0, 0)]

RECURSIVE CutRoot(_, _, _)
CutRoot(cut, depth, d) ==
    CASE cut.k = "leaf" -> InhHash(cut.p, cut.m)
      [] cut.k = "node" -> cut.h
      [] cut.k = "br"   -> MpcNode(depth, d, CutRoot(cut.l, depth + 1, d), CutRoot(cut.r, depth + 1, d))

(* Leaves in left-to-right order, as <<p, m>>.                                *)
RECURSIVE CutLeaves(_)
CutLeaves(cut) == CASE cut.k = "leaf" -> <<<<cut.p, cut.m>>>>
                    [] cut.k = "node" -> <<>>
                    [] cut.k = "br"   -> CutLeaves(cut.l) \o CutLeaves(cut.r)
Revealed(cut) == LET s == CutLeaves(cut) IN {s[i][1] : i \in 1..Len(s)}
RevealedPairs(cut) == LET s == CutLeaves(cut) IN {s[i] : i \in 1..Len(s)}

RECURSIVE CutLen(_)
CutLen(cut) == IF cut.k = "br" THEN CutLen(cut.l) + CutLen(cut.r) ELSE 1

(* Concealment: hide every leaf not in ps, then fold pairs of concealed       *)
(* siblings as far as possible.                                               *)
RECURSIVE ConcealCut(_, _, _, _)
ConcealCut(cut, ps, depth, d) ==
    CASE cut.k = "node" -> cut
      [] cut.k = "leaf" -> IF cut.p \in ps THEN cut ELSE Node(InhHash(cut.p, cut.m))
      [] cut.k = "br"   ->
           LET l == ConcealCut(cut.l, ps, depth + 1, d)
               r == ConcealCut(cut.r, ps, depth + 1, d)
           IN  IF l.k = "node" /\ r.k = "node" THEN Node(MpcNode(depth, d, l.h, r.h)) ELSE Br(l, r)

HiddenLeaves(cut, ps) == Len(SelectSeq(CutLeaves(cut), LAMBDA x : x[1] \notin ps))

ConcealBlock(b, ps) == [d |-> b.d, c |-> b.c, ent |-> "", cut |-> ConcealCut(b.cut, ps, 0, b.d)]
ConcealCount(b, ps) == HiddenLeaves(b.cut, ps) + CutLen(b.cut) - CutLen(ConcealCut(b.cut, ps, 0, b.d))

(* Merge: at every place the finer of the two.                                *)
RECURSIVE MergeCut(_, _)
MergeCut(a, b) ==
    CASE a.k = "br" /\ b.k = "br" -> Br(MergeCut(a.l, b.l), MergeCut(a.r, b.r))
      [] a.k = "br"               -> a
      [] b.k = "br"               -> b
      [] a.k = "leaf"             -> a
      [] OTHER                    -> b

ConcealedEnc(d, c, root) == LE(d, 1) \o LE(c, 2) \o root
IdOf(d, c, root)   == Tagged(CommitmentTag, ConcealedEnc(d, c, root))
BlockRoot(b)       == CutRoot(b.cut, 0, b.d)
BlockId(b)         == IdOf(b.d, b.c, BlockRoot(b))
TreeId(t)          == IdOf(t.d, t.c, TreeRoot(t))

MergeBlocks(a, b)  == [a EXCEPT !.cut = MergeCut(a.cut, b.cut)]

-----------------------------------------------------------------------------
(* Proofs.                                                                    *)
RECURSIVE CutPath(_, _, _, _)
CutPath(cut, p, depth, d) ==
    IF cut.k # "br" THEN <<>>
    ELSE IF p \in Revealed(cut.l)
         THEN <<CutRoot(cut.r, depth + 1, d)>> \o CutPath(cut.l, p, depth + 1, d)
         ELSE <<CutRoot(cut.l, depth + 1, d)>> \o CutPath(cut.r, p, depth + 1, d)

ProofOf(b, p) == [pos |-> LE(Pos(p, b.c, b.d), 4), c |-> b.c, path |-> CutPath(b.cut, p, 0, b.d)]

(* The proof as computed from the tree, without blocks.                       *)
RECURSIVE TreePath(_, _, _, _, _)
TreePath(hs, q, lo, depth, d) ==
    IF depth = d THEN <<>>
    ELSE LET half == 2^(d - depth - 1)
             sub(x) == IF depth + 1 = d THEN hs[x + 1]
                       ELSE MerkleRec(hs, x + 1, half, depth + 1, Pow2LE(d, 32))
         IN  IF q < lo + half
             THEN <<sub(lo + half)>> \o TreePath(hs, q, lo, depth + 1, d)
             ELSE <<sub(lo)>> \o TreePath(hs, q, lo + half, depth + 1, d)

TreeProof(t, p) == LET pm == PosMap(t)
                       hs == [i \in 1..2^t.d |-> TreeLeafHash(t, pm, i - 1)]
                       q  == Pos(p, t.c, t.d)
                   IN  [pos |-> LE(q, 4), c |-> t.c, path |-> TreePath(hs, q, 0, 0, t.d)]

ExpectedPos(q, p) == LE(Pos(p, q.c, Len(q.path)), 4)
ProofValid(q, p)  == q.pos = ExpectedPos(q, p)

RECURSIVE PathCut(_, _, _, _, _)
PathCut(path, i, pos, p, m) ==
    IF i > Len(path) THEN Leaf(p, m)
    ELSE LET half == 2^(Len(path) - i) IN
         IF pos >= half
         THEN Br(Node(path[i]), PathCut(path, i + 1, pos - half, p, m))
         ELSE Br(PathCut(path, i + 1, pos, p, m), Node(path[i]))

BlockWith(q, p, m) == [d |-> Len(q.path), c |-> q.c, ent |-> "",
                       cut |-> PathCut(q.path, 1, LEInt(q.pos), p, m)]

Convolve(q, p, m) == BlockId(BlockWith(q, p, m))

(* Two proofs of committed messages should match when they lead to the same   *)
(* commitment; what the code compares is its cofactor and topmost partner.    *)
ProofTop(q) == IF q.path = <<>> THEN "none" ELSE q.path[1]
ProofMatchesAsCoded(q, r) == q.c = r.c /\ ProofTop(q) = ProofTop(r)

-----------------------------------------------------------------------------
(* Strict encodings (wire format).                                            *)
SortedPairs(ms) == SortLex(SetToSeq({x[1] \o x[2] : x \in ms}))
SortedPositions(pm) == SetToSortSeq(DOMAIN pm, <)

BE4(n) == LET h == LE(n, 4) IN BytesAt(h, 3, 4) \o BytesAt(h, 2, 3) \o BytesAt(h, 1, 2) \o BytesAt(h, 0, 1)
MapEntries(t) ==
    IF "es" \in DOMAIN t
    THEN LET pm == PosMap(t) ps == SortedPositions(pm) IN
         [i \in 1..Len(ps) |-> LE(ps[i], 4) \o pm[ps[i]][1] \o pm[ps[i]][2]]
    ELSE LET at(q, x) == BE4(q) \o LE(q, 4) \o x[1] \o x[2]
             s == SortLex(SetToSeq({at(Pos(x[1], t.c, t.d), x) : x \in t.ms}))
         IN  [i \in 1..Len(s) |-> BytesAt(s[i], 4, 72)]
TreeEnc(t) == LET es == MapEntries(t) IN
    "00" \o LE(t.d, 1) \o t.e \o LE(t.c, 2)
    \o LE(Cardinality(t.ms), 3) \o Concat(SortedPairs(t.ms))
    \o LE(Len(es), 3) \o Concat(es)

RECURSIVE CutEnc(_, _)
CutEnc(cut, depth) == CASE cut.k = "leaf" -> "01" \o cut.p \o cut.m
                        [] cut.k = "node" -> "00" \o LE(depth, 1) \o cut.h
                        [] cut.k = "br"   -> CutEnc(cut.l, depth + 1) \o CutEnc(cut.r, depth + 1)

OptEnc(ent) == IF ent = "" THEN "00" ELSE "01" \o ent

BlockEnc(b) == "00" \o LE(b.d, 1) \o LE(b.c, 2) \o LE(CutLen(b.cut), 4) \o CutEnc(b.cut, 0)
               \o OptEnc(b.ent)

ProofEnc(q) == "00" \o q.pos \o LE(q.c, 2) \o LE(Len(q.path), 1) \o Concat(q.path)
=============================================================================
