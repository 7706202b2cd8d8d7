------------------------------ MODULE TraceMpc -----------------------------
(* Validation of recorded executions of the library against MpcMachine.       *)
(* Every trace is one initial state; each recorded call takes the action of   *)
(* its name, and the recorded observation must be the one the action gives.   *)
EXTENDS MpcMachine, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)     \* each: [id, ev |-> sequence of [a |-> op, o |-> observation]]

VARIABLES tr, l, bad
tvars == <<reg, out, tr, l, bad>>

TInit == MInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>

(* Known deviations of the implementation (see known_findings.json): named,   *)
(* with the exact observation they lead to; anything else is a mismatch.      *)
Deviation(op, o) ==
    \/ /\ op.op = "matches" /\ reg[op.x].t = "proof"
       /\ LET a == reg[op.x] b == reg[op.y] IN
          /\ o = <<Bool(ProofMatchesAsCoded(a, b)), Bool(ProofMatchesAsCoded(b, a)), Bool(Enc(a) = Enc(b))>>
          /\ PrintT("KNOWN proof-matches-compares-top-partner")

(* A proof with a path of 32 hashes is decodable but deeper than any tree;    *)
(* it must be answered by an error, not by a panic.                           *)
LongProof(op) ==
    /\ op.op \in {"with", "convolve", "merge_path", "proof_info"}
    /\ LET q == IF op.op = "merge_path" THEN reg[op.y] ELSE reg[op.x] IN
       /\ q.t = "proof" /\ Len(q.path) = 32
       /\ op.op = "merge_path" => reg[op.x].t = "block"
    /\ Keep
    /\ out' = <<"invalid">>
LongProofDeviation(op, o) ==
    /\ op.op \in {"with", "convolve", "merge_path", "proof_info"}
    /\ o = <<"panic">> /\ out' = <<"invalid">>
    /\ PrintT("KNOWN proof-with-32-path-elements-panics")

(* Folding a block that is not a cross-section, or proving a protocol which a *)
(* block reveals twice, panics.                                               *)
FoldOps == {"block_id", "except", "other", "merge", "merge_path", "proof", "known_proofs", "matches"}
Kinds(op) == {reg[op.x].t} \cup (IF "y" \in DOMAIN op THEN {reg[op.y].t} ELSE {})
MalformedDeviation(op, o) ==
    /\ o = <<"panic">> /\ out' = <<"free">>
    /\ \/ op.op \in FoldOps /\ "rawblock" \in Kinds(op) /\ PrintT("KNOWN malformed-block-" \o op.op)
       \/ op.op \in {"proof", "known_proofs"} /\ "dupblock" \in Kinds(op) /\ PrintT("KNOWN duplicate-protocol-" \o op.op)
       \/ op.op = "tree_proofs" /\ "rawtree" \in Kinds(op) /\ PrintT("KNOWN malformed-tree-tree_proofs")
       \/ "opaque" \in Kinds(op) /\ PrintT("KNOWN malformed-block-left-behind")

(* Seeds drawn for sources without a fixed one, in one and in other processes: *)
(* as many as asked for, no two equal, and every bit is balanced (within six  *)
(* standard deviations).                                                      *)
BitOf(h, b) == (LEInt(BytesAt(h, b \div 8, b \div 8 + 1)) \div 2^(b % 8)) % 2
Balanced(o, b) == LET n == Len(o) k == FoldSeq(LAMBDA h, acc : acc + BitOf(h, b), 0, o)
                  IN (2 * k - n) * (2 * k - n) <= 36 * n
FreshOk(op, o) ==
    /\ Len(o) = op.n * (1 + op.procs)
    /\ \A i \in 1..Len(o) : Len(o[i]) = 16
    /\ Cardinality(SetOf(o)) = Len(o)
    /\ op.n >= 256 => \A b \in 0..63 : Balanced(o, b)
Fresh(op, o) == op.op = "fresh" /\ Keep /\ out' = IF FreshOk(op, o) THEN o ELSE <<"fresh entropies">>

Conforms(o) == out' = o \/ (out' = <<"free">> /\ o \notin {<<"panic">>, <<"crash">>, <<"hang">>})

(* Pools of blocks for exhaustive tables, in their own file.                  *)
Pools == IF "POOLS" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.POOLS) ELSE <<>>
Pool == [k \in 1..Len(Pools) |-> [i \in 1..Len(Pools[k]) |-> ParseBlock(Pools[k][i])]]
RowOp(op) == op.op \in {"merge_row", "except_row", "proof_row", "match_row"} /\ Row(op, Pool[op.k])
LoadPool(op) == op.op = "pool" /\ Keep /\ out' = <<Dec(Len(Pool[op.k]))>>

RawEv == Traces[tr].ev[l]

(* What the specification leaves open is taken from the observation: the fresh *)
(* entropy of a source without fixed one, and which of several missing        *)
(* protocols an error names.                                                  *)
Hint(o) == IF Len(o) >= 2 THEN o[2] ELSE ""
Ev == [a |-> RawEv.a @@ [hint |-> Hint(RawEv.o)]
             @@ (IF "fe" \in DOMAIN RawEv.a
                 THEN [e |-> IF RawEv.a.fe = "" /\ Len(RawEv.o) = 3 THEN RawEv.o[3] ELSE RawEv.a.fe]
                 ELSE <<>>),
       o |-> RawEv.o]

Step == /\ l <= Len(Traces[tr].ev) /\ bad = <<>>
        /\ \/ MpcAct(Ev.a) \/ LongProof(Ev.a) \/ RowOp(Ev.a) \/ LoadPool(Ev.a) \/ Fresh(Ev.a, Ev.o)
        /\ bad' = IF Conforms(Ev.o) THEN <<>>
                  ELSE IF Deviation(Ev.a, Ev.o) \/ LongProofDeviation(Ev.a, Ev.o) \/ MalformedDeviation(Ev.a, Ev.o) THEN <<>>
                  ELSE IF PrintT("MISMATCH " \o ToJson([id |-> Traces[tr].id, l |-> l, expected |-> out', observed |-> Ev.o]))
                  THEN <<l>> ELSE <<>>
        /\ l' = l + 1 /\ UNCHANGED tr

Done  == (l > Len(Traces[tr].ev) \/ bad # <<>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step]_tvars

(* The execution conforms if no mismatch was printed and every recorded call  *)
(* has been consumed (a mismatch ends its trace): checked by the caller as    *)
(* distinct states = number of traces + number of events.                     *)

(* For finding an event without an action (a defect of the machinery).        *)
TSpecD == TInit /\ [][Step \/ Done]_tvars
=============================================================================
