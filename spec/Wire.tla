-------------------------------- MODULE Wire -------------------------------
(* Decoding of the wire format: the inverse of the encodings of module Mpc.   *)
(* Every parser takes the whole byte string and gives an object, or Bad when  *)
(* the bytes are not the encoding of any value: truncated or overlong data,   *)
(* unknown tags, out-of-range depths, unsorted or duplicate keys, counts out  *)
(* of bounds.                                                                 *)
EXTENDS Mpc

Bad == [t |-> "bad"]

RECURSIVE Ascending(_, _)
Ascending(s, i) == i >= Len(s) \/ (LexLess(s[i], s[i + 1]) /\ Ascending(s, i + 1))

(* Fixed-width items: n items of w bytes from offset o.                       *)
Items(h, o, n, w) == [i \in 1..n |-> BytesAt(h, o + (i - 1) * w, o + i * w)]

-----------------------------------------------------------------------------
(* Proof: method, pos u32, cofactor u16, path length u8 (at most 32), hashes. *)
ParseProof(h) ==
    IF NBytes(h) < 8 THEN Bad
    ELSE LET n == LEInt(BytesAt(h, 7, 8)) IN
         IF BytesAt(h, 0, 1) # "00" \/ n > 32 \/ NBytes(h) # 8 + 32 * n THEN Bad
         ELSE [t |-> "proof", pos |-> BytesAt(h, 1, 5), c |-> LEInt(BytesAt(h, 5, 7)),
               path |-> Items(h, 8, n, 32), cid |-> ""]

(* Block. nodes: sequence of [dep |-> depth, x |-> "" or hash, p, m].         *)
RECURSIVE ParseNodes(_, _, _, _, _)
ParseNodes(h, o, n, d, acc) ==                  \* <<nodes, next offset>> or <<>>
    IF n = 0 THEN <<acc, o>>
    ELSE IF o >= NBytes(h) THEN <<>>
    ELSE LET tag == BytesAt(h, o, o + 1) IN
         CASE tag = "00" /\ o + 34 <= NBytes(h) /\ LEInt(BytesAt(h, o + 1, o + 2)) <= 31 ->
                  ParseNodes(h, o + 34, n - 1, d,
                      Append(acc, [dep |-> LEInt(BytesAt(h, o + 1, o + 2)), x |-> BytesAt(h, o + 2, o + 34),
                                   p |-> "", m |-> ""]))
           [] tag = "01" /\ o + 65 <= NBytes(h) ->
                  ParseNodes(h, o + 65, n - 1, d,
                      Append(acc, [dep |-> d, x |-> "", p |-> BytesAt(h, o + 1, o + 33),
                                   m |-> BytesAt(h, o + 33, o + 65)]))
           [] OTHER -> <<>>

(* The cut tree given by a node list: <<cut, next index>>, or <<>> when the   *)
(* list is not the cross-section of a binary tree.                            *)
RECURSIVE ParseCut(_, _, _, _)
ParseCut(nodes, i, depth, d) ==
    IF i > Len(nodes) \/ depth > d \/ nodes[i].dep < depth THEN <<>>
    ELSE IF nodes[i].dep = depth
    THEN <<IF nodes[i].x = "" THEN Leaf(nodes[i].p, nodes[i].m) ELSE Node(nodes[i].x), i + 1>>
    ELSE LET l == ParseCut(nodes, i, depth + 1, d) IN
         IF l = <<>> THEN <<>>
         ELSE LET r == ParseCut(nodes, l[2], depth + 1, d) IN
              IF r = <<>> THEN <<>> ELSE <<Br(l[1], r[1]), r[2]>>

NodeEnc1(n) == IF n.x = "" THEN "01" \o n.p \o n.m ELSE "00" \o LE(n.dep, 1) \o n.x

ParseBlock(h) ==
    IF NBytes(h) < 9 THEN Bad
    ELSE LET d == LEInt(BytesAt(h, 1, 2))
             hi == BytesAt(h, 7, 8)
             n == IF hi # "00" THEN -1 ELSE LEInt(BytesAt(h, 4, 7))
             pn == IF n <= 0 THEN <<>> ELSE ParseNodes(h, 8, n, d, <<>>)
         IN  IF BytesAt(h, 0, 1) # "00" \/ d > 31 \/ pn = <<>> THEN Bad
             ELSE LET o == pn[2]
                      e == IF o < NBytes(h) THEN BytesAt(h, o, o + 1) ELSE "ff"
                      ent == IF e = "01" /\ NBytes(h) = o + 9 THEN BytesAt(h, o + 1, o + 9) ELSE ""
                      ok == (e = "00" /\ NBytes(h) = o + 1) \/ (e = "01" /\ NBytes(h) = o + 9)
                      cut == ParseCut(pn[1], 1, 0, d)
                  IN  IF ~ok THEN Bad
                      ELSE IF cut # <<>> /\ cut[2] = Len(pn[1]) + 1
                      THEN [t |-> "block", d |-> d, c |-> LEInt(BytesAt(h, 2, 4)), ent |-> ent, cut |-> cut[1]]
                      ELSE [t |-> "rawblock", d |-> d, c |-> LEInt(BytesAt(h, 2, 4)), ent |-> ent,
                            nodes |-> pn[1]]

RawBlockEnc(b) == "00" \o LE(b.d, 1) \o LE(b.c, 2) \o LE(Len(b.nodes), 4)
                  \o Concat([i \in 1..Len(b.nodes) |-> NodeEnc1(b.nodes[i])]) \o OptEnc(b.ent)

(* Tree: messages and positions are independent maps on the wire.             *)
ParseTree(h) ==
    IF NBytes(h) < 15 THEN Bad
    ELSE LET d == LEInt(BytesAt(h, 1, 2))
             n == LEInt(BytesAt(h, 12, 15))
             o == 15 + 64 * n
             k == IF o + 3 <= NBytes(h) THEN LEInt(BytesAt(h, o, o + 3)) ELSE -1
         IN  IF BytesAt(h, 0, 1) # "00" \/ d > 31 \/ k < 0 \/ NBytes(h) # o + 3 + 68 * k THEN Bad
             ELSE LET ms == Items(h, 15, n, 64)
                      es == Items(h, o + 3, k, 68)
                      pids == [i \in 1..n |-> BytesAt(ms[i], 0, 32)]
                      \* big-endian rendering of the u32 keys, to compare them as strings
                      be(x) == BytesAt(x, 3, 4) \o BytesAt(x, 2, 3) \o BytesAt(x, 1, 2) \o BytesAt(x, 0, 1)
                      keys == [i \in 1..k |-> be(es[i])]
                  IN  IF ~Ascending(pids, 1) \/ ~Ascending(keys, 1) THEN Bad
                      ELSE [t |-> "rawtree", d |-> d, e |-> BytesAt(h, 2, 10), c |-> LEInt(BytesAt(h, 10, 12)),
                            enc |-> h,
                            ms |-> {<<BytesAt(ms[i], 0, 32), BytesAt(ms[i], 32, 64)>> : i \in 1..n},
                            es |-> es]

ParseConcealed(h) ==
    IF NBytes(h) # 35 \/ LEInt(BytesAt(h, 0, 1)) > 31 THEN Bad
    ELSE [t |-> "concealed", d |-> LEInt(BytesAt(h, 0, 1)), c |-> LEInt(BytesAt(h, 1, 3)), root |-> BytesAt(h, 3, 35)]

ParseLeaf(h) == IF (BytesAt(h \o "ff", 0, 1) = "10" /\ NBytes(h) = 65) \/ (BytesAt(h \o "ff", 0, 1) = "11" /\ NBytes(h) = 13)
                THEN [t |-> "leaf", enc |-> h] ELSE Bad

ParseNode(h) == IF NBytes(h) = 98 /\ LEInt(BytesAt(h, 0, 1)) <= 2 THEN [t |-> "mnode", enc |-> h] ELSE Bad

ParseId(h) == IF NBytes(h) = 32 THEN [t |-> "id", enc |-> h] ELSE Bad

Parse(kind, h) ==
    CASE kind = "proof"     -> ParseProof(h)
      [] kind = "block"     -> ParseBlock(h)
      [] kind = "tree"      -> ParseTree(h)
      [] kind = "concealed" -> ParseConcealed(h)
      [] kind = "leaf"      -> ParseLeaf(h)
      [] kind = "mnode"     -> ParseNode(h)
      [] kind \in {"pid", "msg", "cid", "mhash", "shash"} -> ParseId(h)

Enc(o) ==
    CASE o.t = "proof"     -> ProofEnc(o)
      [] o.t \in {"block", "dupblock"} -> BlockEnc(o)
      [] o.t = "rawblock"  -> RawBlockEnc(o)
      [] o.t = "tree"      -> TreeEnc(o)
      [] o.t = "rawtree"   -> o.enc
      [] o.t = "concealed" -> ConcealedEnc(o.d, o.c, o.root)
      [] o.t \in {"leaf", "mnode", "id"} -> o.enc
=============================================================================
