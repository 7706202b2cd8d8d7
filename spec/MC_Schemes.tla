------------------------------ MODULE MC_Schemes ---------------------------
(* Over every scheme with two containers, messages and proofs: verification   *)
(* accepts what honest committing gives (completeness), and only what         *)
(* committing to that message gives again (soundness).                        *)
EXTENDS Schemes

S == 0..1
Entry == {<<-9, 0>>} \cup (S \X S)
Tab2(X) == {<<<<a, b>>, <<c, d>>>> : a \in X, b \in X, c \in X, d \in X}

VARIABLE t
Embeds    == [restore : Tab2({-2, 0, 1}), embed : Tab2(Entry)]
(* the source is all of (restored, supplement); the supplement is the proof   *)
Convolves == [restore : Tab2(S), conv : {<<<<x, y>>, <<y, x>>>> : x \in {<<a, b>> : a \in Entry, b \in Entry}, y \in {<<a, b>> : a \in Entry, b \in Entry}},
              suppl : {<<0, 1>>, <<0, 0>>, <<1, 0>>}]
Commits   == [fs : {<<f, g>> : f \in {<<a, b>> : a \in -1..1, b \in -1..1}, g \in {<<a, b>> : a \in -1..1, b \in -1..1}}]
Init == t \in Embeds \cup Convolves \cup Commits
Next == FALSE /\ UNCHANGED t
Spec == Init /\ [][Next]_t

EV(c, m, p) == EmbedVerify("plain", t, c, m, p)
CV(c, m, p) == ConvolveVerify("plain", t, c, m, p)

(* Embedding: a scheme is consistent if the proof of each commitment restores *)
(* the container it was made from.                                            *)
EConsistent == \A c, m \in S : LET r == At(At(t.embed, c), m) IN
                   At(r, 0) >= 0 => At(At(t.restore, At(r, 1)), At(r, 0)) = c
EmbedOk == t \in Embeds =>
    /\ EConsistent => \A c, m \in S : LET r == At(At(t.embed, c), m) IN
           At(r, 0) >= 0 => EV(At(r, 0), m, At(r, 1)) = "ok"
    /\ \A c, m, p \in S : EV(c, m, p) = "ok" =>
           \E c0 \in S : /\ At(At(t.restore, p), c) = c0
                         /\ At(At(t.embed, c0), m) = <<c, p>>
    (* two messages under one container and proof: they commit alike *)
    /\ \A c, p \in S : (EV(c, 0, p) = "ok" /\ EV(c, 1, p) = "ok") =>
           LET c0 == At(At(t.restore, p), c) IN At(At(t.embed, c0), 0) = At(At(t.embed, c0), 1)

Conv(src, s, m) == At(At(At(t.conv, src), s), m)
ConvolveOk == t \in Convolves =>
    /\ \A src, s, m \in S : LET r == Conv(src, s, m) IN
           /\ At(r, 0) >= 0
           /\ At(At(t.restore, At(r, 1)), At(r, 0)) = src
           /\ At(t.suppl, At(r, 1)) = s
           => CV(At(r, 0), m, At(r, 1)) = "ok"
    /\ \A c, m, p \in S : CV(c, m, p) = "ok" =>
           Conv(At(At(t.restore, p), c), At(t.suppl, p), m) = <<c, p>>

CommitOk == t \in Commits =>
    \A m \in S, k \in 0..2 :
        LET now == CommitNow(t, k, m) IN
        /\ \A cm \in S : (TryVerify("plain", t, cm, m, k) = "ok") <=> (now = cm)
        /\ (TryVerify("plain", t, 0, m, k) = "InvalidMessage") <=> (now < 0)
=============================================================================
