----------------------------- MODULE Validation ----------------------------
(* Client-side validation (src/api.rs): the status and its verdict, and the   *)
(* traversal of the data.                                                     *)
EXTENDS Integers, Sequences, Bytes, SequencesExt

(* A status: issues "seal/text", failures, warnings, infos.                   *)
Empty == [i |-> <<>>, f |-> <<>>, w |-> <<>>, n |-> <<>>]
StatusOf(x) == [i |-> x[1], f |-> x[2], w |-> x[3], n |-> x[4]]
Plus(a, b) == [i |-> a.i \o b.i, f |-> a.f \o b.f, w |-> a.w \o b.w, n |-> a.n \o b.n]

Verdict(s) == IF s.f # <<>> THEN "invalid" ELSE IF s.i # <<>> THEN "unresolved seal issues" ELSE "valid"

Text(q) == Cat([k \in 1..Len(q) |-> q[k] \o ";"])
ShowStatus(s) == <<Text(s.i), Text(s.f), Text(s.w), Text(s.n), Verdict(s)>>

-----------------------------------------------------------------------------
(* The traversal as a state machine. Data: own status, items with seals and a *)
(* status; the resolver answers its k-th question with answers[k] ("" or past *)
(* the end: closed). State: what is next, the status and the log of calls.    *)
TravInit == [pc |-> "own", it |-> 1, sl |-> 1, k |-> 1, st |-> Empty, log |-> <<>>]

Answer(d, k) == IF k <= Len(d.answers) THEN d.answers[k] ELSE ""

TravStep(d, x) ==
    CASE x.pc = "own" ->
            [x EXCEPT !.pc = "item", !.st = Plus(@, StatusOf(d.own)), !.log = Append(@, "check own")]
      [] x.pc = "item" ->
            IF x.it > Len(d.items) THEN [x EXCEPT !.pc = "done"]
            ELSE LET item == d.items[x.it] IN
                 IF x.sl <= Len(item.seals)
                 THEN LET a == Answer(d, x.k) IN
                      [x EXCEPT !.sl = @ + 1, !.k = @ + 1,
                                !.st = IF a = "" THEN @ ELSE [@ EXCEPT !.i = Append(@, item.seals[x.sl] \o "/" \o a)],
                                !.log = Append(@, "resolve " \o item.seals[x.sl])]
                 ELSE [x EXCEPT !.it = @ + 1, !.sl = 1, !.st = Plus(@, StatusOf(item.st)),
                                !.log = Append(@, "check " \o item.name)]

RECURSIVE Traverse(_, _)
Traverse(d, x) == IF x.pc = "done" THEN x ELSE Traverse(d, TravStep(d, x))

ValidateOut(op) == LET x == Traverse(op, TravInit) IN ShowStatus(x.st) \o <<Text(x.log)>>

-----------------------------------------------------------------------------
(* Registers of statuses.                                                     *)
ValidationOps == {"v_validate", "v_new", "v_add", "v_merge", "v_serde", "v_eq"}
NewStatus(op) ==
    CASE op.how \in {"new", "default"} -> Empty
      [] op.how = "failure" -> [Empty EXCEPT !.f = <<op.x>>]
      [] op.how = "iter" -> [Empty EXCEPT !.f = op.xs]
      [] op.how = "raw" -> StatusOf(op.st)
Add(s, k, x) ==
    CASE k = "issue"   -> [s EXCEPT !.i = Append(@, x)]
      [] k = "failure" -> [s EXCEPT !.f = Append(@, x)]
      [] k = "warning" -> [s EXCEPT !.w = Append(@, x)]
      [] k = "info"    -> [s EXCEPT !.n = Append(@, x)]

(* The registers after the operation (numbered from 0 in operations).         *)
ValidationStep(reg, op) ==
    CASE op.op \in {"v_validate", "v_eq", "v_serde"} -> reg
      [] op.op = "v_new"   -> [reg EXCEPT ![op.s + 1] = NewStatus(op)]
      [] op.op = "v_add"   -> [reg EXCEPT ![op.s + 1] = Add(@, op.k, op.x)]
      [] op.op = "v_merge" -> [reg EXCEPT ![op.s + 1] = Plus(@, reg[op.y + 1])]
ValidationOut(reg, op) ==
    CASE op.op = "v_validate" -> ValidateOut(op)
      [] op.op = "v_eq" -> <<Bool(reg[op.s + 1] = reg[op.y + 1])>>
      [] OTHER -> ShowStatus(ValidationStep(reg, op)[op.s + 1])
=============================================================================
