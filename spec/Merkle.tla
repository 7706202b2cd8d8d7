------------------------------- MODULE Merkle ------------------------------
(* LNPBP-81 client-side-validation merklization.                              *)
EXTENDS Bytes, SequencesExt, FiniteSetsExt

MerkleTag == "urn:ubideco:merkle:node#2024-01-31"

MHash(data) == Tagged(MerkleTag, data)

VirtualLeaf == Rep("ff", 32)

(* A Merkle node commits to its branching kind, its depth, the width of the   *)
(* whole tree (32-byte little-endian) and its two children.                   *)
NodeEnc(kind, depth, width, a, b) == LE(kind, 1) \o LE(depth, 1) \o width \o a \o b
VoidNode(depth, width)         == MHash(NodeEnc(0, depth, width, VirtualLeaf, VirtualLeaf))
SingleNode(depth, width, a)    == MHash(NodeEnc(1, depth, width, a, VirtualLeaf))
BranchNode(depth, width, a, b) == MHash(NodeEnc(2, depth, width, a, b))

(* Root over the leaf hashes hs[lo..lo+n-1] of a tree of `width` leaves.      *)
RECURSIVE MerkleRec(_, _, _, _, _)
MerkleRec(hs, lo, n, depth, width) ==
    CASE n = 0 -> VoidNode(depth, width)
      [] n = 1 -> SingleNode(depth, width, hs[lo])
      [] n = 2 -> BranchNode(depth, width, hs[lo], hs[lo + 1])
      [] OTHER -> LET div == (n + 1) \div 2 IN
                  BranchNode(depth, width,
                             MerkleRec(hs, lo, div, depth + 1, width),
                             MerkleRec(hs, lo + div, n - div, depth + 1, width))

Merklize(hs) == IF Len(hs) = 1 THEN hs[1]
                ELSE MerkleRec(hs, 1, Len(hs), 0, LE(Len(hs), 32))
=============================================================================
