------------------------------ MODULE TraceLib -----------------------------
(* Validation of recorded executions of the library parts other than the      *)
(* multi-protocol commitments. Every trace is one initial state; each         *)
(* recorded call takes the step of its name from the current state, and the   *)
(* recorded observation must be the one the step gives.                       *)
EXTENDS Bytes, Json, IOUtils, SequencesExt, FiniteSetsExt

B == INSTANCE Buoy
D == INSTANCE Digest
M == INSTANCE MerkleOps
E == INSTANCE Engine
S == INSTANCE Schemes
C == INSTANCE Seals
V == INSTANCE Validation
R == INSTANCE Reserved
X == INSTANCE Derive
Tx == INSTANCE Text

Traces == ndJsonDeserialize(IOEnv.TRACES)     \* each: [id, ev |-> sequence of [a |-> op, o |-> observation]]

VARIABLES st, out, tr, l, bad
tvars == <<st, out, tr, l, bad>>

(* State of a trace: the buoy, the digest engine, the status registers.       *)
TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = <<>> /\ out = <<>>
         /\ st = [buoy |-> <<0>>, dig |-> [h |-> "sha256", a |-> ""], reg |-> [i \in 1..4 |-> V!Empty]]

-----------------------------------------------------------------------------
BuoyAct(op) ==
    /\ op.op \in {"b_new", "b_push", "b_row"}
    /\ CASE op.op = "b_new"  -> LET t == IF "top" \in DOMAIN op THEN op.top ELSE 0 IN
                                /\ st' = [st EXCEPT !.buoy = <<t>>] /\ out' = <<ToString(t)>>
         [] op.op = "b_push" -> LET r == B!Push(st.buoy, op.d) IN
                                /\ st' = [st EXCEPT !.buoy = r.s]
                                /\ out' = <<Bool(r.surfaced), ToString(B!Level(r.s))>>
         [] op.op = "b_row"  -> UNCHANGED st /\ out' =
               LET base == op.max + 1
                   digit(i, k) == (i \div base^(op.len - 1 - k)) % base
                   RECURSIVE run(_, _, _)
                   run(s, seq, acc) == IF seq = <<>> THEN acc ELSE
                       LET r == B!Push(s, Head(seq)) IN
                       run(r.s, Tail(seq), acc \o (IF r.surfaced THEN "!" ELSE ".") \o ToString(B!Level(r.s)))
               IN  [j \in 1..base^op.len |->
                       run(<<IF "top" \in DOMAIN op THEN op.top ELSE 0>>,
                           op.pre \o [k \in 1..op.len |-> digit(j - 1, k - 1)], "")]

DigestAct(op) == /\ op.op \in D!DigestOps
                 /\ st' = [st EXCEPT !.dig = D!DigestStep(@, op)] /\ out' = D!DigestOut(st.dig, op)
MerkleAct(op) == op.op \in M!MerkleOpNames /\ UNCHANGED st /\ out' = M!MerkleOut(op)
EngineAct(op) == op.op \in E!EngineOps /\ UNCHANGED st /\ out' = E!EngineOut(op)
SchemeAct(op) == op.op \in S!SchemeOps /\ UNCHANGED st /\ out' = S!SchemeOut(op)
SealAct(op)   == op.op \in C!SealOps /\ UNCHANGED st /\ out' = C!SealOut(op)
ValidationAct(op) == /\ op.op \in V!ValidationOps
                     /\ st' = [st EXCEPT !.reg = V!ValidationStep(@, op)] /\ out' = V!ValidationOut(st.reg, op)
ReservedAct(op) == op.op \in R!ReservedOps /\ UNCHANGED st /\ out' = R!ReservedOut(op)

DeriveAct(op) == op.op \in X!DeriveOps /\ UNCHANGED st /\ out' = X!DeriveOut(op)
TextAct(op) == op.op \in Tx!TextOps /\ UNCHANGED st /\ out' = Tx!TextOut(op)
LibAct(op) == \/ TextAct(op) \/ BuoyAct(op) \/ DigestAct(op) \/ MerkleAct(op) \/ EngineAct(op) \/ SchemeAct(op)
              \/ SealAct(op) \/ ValidationAct(op) \/ ReservedAct(op) \/ DeriveAct(op)

Ev == Traces[tr].ev[l]
(* Long answers are shown from where they differ.                             *)
Diff(a, b) == IF Len(a) = Len(b) /\ Len(a) > 8
              THEN LET i == CHOOSE j \in 1..Len(a) : a[j] # b[j] /\ \A k \in 1..j - 1 : a[k] = b[k] IN
                   <<"#" \o ToString(i), a[i]>>
              ELSE a
Step == /\ l <= Len(Traces[tr].ev) /\ bad = <<>>
        /\ LibAct(Ev.a)
        /\ bad' = IF out' = Ev.o THEN <<>>
                  ELSE IF PrintT("MISMATCH " \o ToJson([id |-> Traces[tr].id, l |-> l,
                                       expected |-> Diff(out', Ev.o), observed |-> Diff(Ev.o, out')]))
                  THEN <<l>> ELSE <<>>
        /\ l' = l + 1 /\ UNCHANGED tr

Done  == (l > Len(Traces[tr].ev) \/ bad # <<>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step]_tvars
TSpecD == TInit /\ [][Step \/ Done]_tvars
=============================================================================
