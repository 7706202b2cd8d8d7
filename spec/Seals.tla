-------------------------------- MODULE Seals ------------------------------
(* Closing of single-use seals over a message (single_use_seals/src/lib.rs),  *)
(* over abstract seals, media and witnesses given as tables:                  *)
(*   t.incl[seal][message] = 1   the seal is included in the witness          *)
(*   t.conv[client][message]     what the client witness derives, or < 0      *)
(*   t.acc[published][derived]   < 0: not committed to by the publication     *)
EXTENDS Integers, Sequences, Bytes

TAt(t, i) == t[i + 1]

Included(t, s, m) == TAt(TAt(t.incl, s), m) = 1
NotIncluded(s, p) == "NotIncluded seal<" \o ToString(s) \o "> " \o ToString(p + 1000)

RECURSIVE FirstMissing(_, _, _)
FirstMissing(t, seals, m) == IF seals = <<>> THEN <<>>
                             ELSE IF ~Included(t, Head(seals), m) THEN <<Head(seals)>>
                             ELSE FirstMissing(t, Tail(seals), m)

Publish(t, p, derived) == LET r == TAt(TAt(t.acc, p), derived) IN
                          IF r < 0 THEN "Published pub error " \o ToString(r) ELSE "ok"

(* With a client-side witness. *)
VerifySeals(t, p, c, seals, m) ==
    LET f == FirstMissing(t, seals, m) IN
    IF f # <<>> THEN NotIncluded(f[1], p)
    ELSE LET d == TAt(TAt(t.conv, c), m) IN
         IF d < 0 THEN "Client cli error " \o ToString(d) ELSE Publish(t, p, d)

(* Without one the message itself must be published. *)
VerifyNoWitness(t, p, seals, m) ==
    LET f == FirstMissing(t, seals, m) IN
    IF f # <<>> THEN NotIncluded(f[1], p) ELSE Publish(t, p, m)

(* A list given as runs <<count, seal>> closes as the list of the seals which occur. *)
Occurring(runs) == LET s == SelectSeq(runs, LAMBDA x: x[1] > 0) IN [i \in 1..Len(s) |-> s[i][2]]

SealOps == {"c_runs", "c_seals", "c_nowit", "c_now", "c_enc"}
SealOut(op) ==
    CASE op.op = "c_seals" -> [i \in 1..Len(op.cases) |-> VerifySeals(op.t, op.p, op.c, op.cases[i][1], op.cases[i][2])]
      [] op.op = "c_runs"  -> [i \in 1..Len(op.cases) |-> VerifySeals(op.t, op.p, op.c, Occurring(op.cases[i][1]), op.cases[i][2])]
      [] op.op = "c_nowit" -> [i \in 1..Len(op.cases) |-> VerifyNoWitness(op.t, op.p, op.cases[i][1], op.cases[i][2])]
      [] op.op = "c_now"   -> <<"true", "true", ToString(op.m)>>
      [] op.op = "c_enc"   ->          \* published u32, then client u16
            IF NBytes(op.d) # 6 THEN <<"err">>
            ELSE <<"ok", op.d, op.d, LEDec(BytesAt(op.d, 0, 4)), LEDec(BytesAt(op.d, 4, 6))>>
=============================================================================
