------------------------------ MODULE MerkleOps ----------------------------
(* Operations on the merklization (merkle.rs) and its leaves.                 *)
EXTENDS Merkle

MinOf(col) == CASE col \in {"vec8", "vec16", "vec32", "set8", "set16", "set32"} -> 0
                [] col \in {"nvec8", "nvec16", "nvec32", "nset8", "nset16", "nset32"} -> 1
                [] OTHER -> 2
MaxOf(col) == CASE col \in {"vec8", "nvec8", "vec8min2", "set8", "nset8"} -> 255
                [] col \in {"vec16", "nvec16", "set16", "nset16", "set16min2"} -> 65535
                [] OTHER -> 2147483647
IsSet(col) == col \in {"set8", "set16", "set32", "nset8", "nset16", "nset32", "set16min2"}

BE8(n) == Rep("00", 4) \o LET h == LE(n, 4) IN
          BytesAt(h, 3, 4) \o BytesAt(h, 2, 3) \o BytesAt(h, 1, 2) \o BytesAt(h, 0, 1)

RootOut(col, leaves) ==
    LET vs == IF IsSet(col) THEN SortLex(SetToSeq({leaves[i] : i \in 1..Len(leaves)})) ELSE leaves IN
    IF Len(vs) < MinOf(col) \/ Len(vs) > MaxOf(col) THEN <<"confined">>
    ELSE <<Merklize([i \in 1..Len(vs) |-> MHash(vs[i])])>>

MerkleOpNames == {"m_root", "m_many", "m_node", "m_leaf"}
MerkleOut(op) ==
    CASE op.op = "m_root" -> RootOut(op.col, op.vs)
      [] op.op = "m_many" -> RootOut(op.col, [i \in 1..op.n |-> BE8(i - 1 + op.from)])
      [] op.op = "m_node" ->
            LET kind == CASE op.k = "void" -> 0 [] op.k = "single" -> 1 [] OTHER -> 2
                enc == NodeEnc(kind, op.depth, op.width,
                               IF kind = 0 THEN VirtualLeaf ELSE op.a, IF kind < 2 THEN VirtualLeaf ELSE op.b)
            IN  <<enc, MHash(enc), MHash(enc), ToString(kind), "true">>
      [] op.op = "m_leaf" ->
            LET enc == IF "pos" \in DOMAIN op THEN "11" \o op.e \o LE(op.pos, 4) ELSE "10" \o op.p \o op.m
            IN  <<enc, MHash(enc)>>
=============================================================================
