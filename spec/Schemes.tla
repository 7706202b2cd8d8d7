------------------------------- MODULE Schemes -----------------------------
(* The three commitment schemes (commit.rs, embed.rs, convolve.rs) over       *)
(* abstract commitment functions, which are given as tables. Numbers are      *)
(* 0-based in the tables; negative entries are errors.                        *)
EXTENDS Integers, Sequences, Bytes

At(t, i) == t[i + 1]

(* Equality of the values: plain, by class, or any relation (table t.veq).    *)
Same(eq, t, a, b) == CASE eq = "plain" -> a = b
                       [] eq = "class" -> a \div 2 = b \div 2
                       [] eq = "table" -> At(At(t.veq, a), b) = 1

(* Committing may depend on history: the k-th call uses table number k.       *)
CommitNow(t, k, m) == At(At(t.fs, IF k < Len(t.fs) THEN k ELSE Len(t.fs) - 1), m)

(* C11: accepted exactly if committing now gives an equal commitment.         *)
CommitVerify(eq, t, cm, m, k) ==
    LET c == CommitNow(t, k, m) IN
    IF Same(eq, t, c, cm) THEN "ok" ELSE "InvalidCommitment"
TryVerify(eq, t, cm, m, k) ==
    LET c == CommitNow(t, k, m) IN
    IF c < 0 THEN "InvalidMessage" ELSE IF Same(eq, t, c, cm) THEN "ok" ELSE "InvalidCommitment"

(* C12: restore from the proof, commit again, compare proofs then containers. *)
EmbedError(x) == CASE x = -1 -> "CommitmentMismatch" [] x = -2 -> "InvalidProof"
                   [] x = -3 -> "ProofMismatch" [] OTHER -> "InvalidMessage " \o ToString(x)
EmbedVerify(eq, t, cont, m, proof) ==
    LET c0 == At(At(t.restore, proof), cont) IN
    IF c0 < 0 THEN EmbedError(c0)
    ELSE LET r == At(At(t.embed, c0), m) IN
         IF At(r, 0) < 0 THEN "InvalidMessage " \o ToString(At(r, 0))
         ELSE IF ~Same(eq, t, At(r, 1), proof) THEN "ProofMismatch"
         ELSE IF ~Same(eq, t, cont, At(r, 0)) THEN "CommitmentMismatch"
         ELSE "ok"

(* C13: restore, take the supplement, convolve again, compare proofs then     *)
(* commitments.                                                               *)
ConvolveVerify(eq, t, com, m, proof) ==
    LET src == At(At(t.restore, proof), com)
        r == At(At(At(t.conv, src), At(t.suppl, proof)), m) IN
    IF At(r, 0) < 0 THEN "ImpossibleMessage"
    ELSE IF ~Same(eq, t, proof, At(r, 1)) THEN "InvalidProof"
    ELSE IF ~Same(eq, t, com, At(r, 0)) THEN "CommitmentMismatch"
    ELSE "ok"

SchemeOps == {"s_commit", "s_try", "s_embed", "s_convolve"}
SchemeOut(op) ==
    [i \in 1..Len(op.cases) |->
        LET c == op.cases[i] IN
        CASE op.op = "s_commit"   -> CommitVerify(op.eq, op.t, c[1], c[2], c[3])
          [] op.op = "s_try"      -> TryVerify(op.eq, op.t, c[1], c[2], c[3])
          [] op.op = "s_embed"    -> EmbedVerify(op.eq, op.t, c[1], c[2], c[3])
          [] op.op = "s_convolve" -> ConvolveVerify(op.eq, op.t, c[1], c[2], c[3])]
=============================================================================
