----------------------------- MODULE TraceSystem ---------------------------
(* Validation of recorded executions of the composed system against System.   *)
EXTENDS System, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)     \* each: [id, ev |-> sequence of [a |-> op, o |-> observation]]

VARIABLES tr, l, bad
tvars == <<ops, tree, txs, wit, out, tr, l, bad>>

TInit == SInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
Ev == Traces[tr].ev[l]
(* What the generator meant a step to show must be so in the specification.   *)
Meant(a, o) == /\ "honest" \in DOMAIN a /\ a.honest => Last(o) \in {"valid", "ok"}
               /\ "attack" \in DOMAIN a /\ a.attack => Last(o) \notin {"valid", "ok"}
Step == /\ l <= Len(Traces[tr].ev) /\ bad = <<>>
        /\ SysAct(Ev.a)
        /\ bad' = IF out' = Ev.o /\ Meant(Ev.a, out') THEN <<>>
                  ELSE IF PrintT("MISMATCH " \o ToJson([id |-> Traces[tr].id, l |-> l,
                                       expected |-> out', observed |-> Ev.o]))
                  THEN <<l>> ELSE <<>>
        /\ l' = l + 1 /\ UNCHANGED tr
Done  == (l > Len(Traces[tr].ev) \/ bad # <<>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][Step]_tvars
TSpecD == TInit /\ [][Step \/ Done]_tvars
=============================================================================
