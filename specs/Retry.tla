------------------------------- MODULE Retry -------------------------------
(* C21: a retried operation.  Calls nest (the operation may call itself) and follow one another.
   cfg: [max, pause, pred]   pause in ms;  pred: whether a predicate selects the failures eligible for retry
   Events: [e |-> "call", w]                          the wrapped operation is called
           [e |-> "try", w, args]                     the operation itself begins (args: it got the caller's arguments)
           [e |-> "out", k, v, w]                     it ends: k: "ok" | "elig" | "inel" | "base" (not an ordinary error), v: identity of value or error
           [e |-> "ret", how, v, w]                   the wrapped operation ends: "value" | "raise"
   st: stack of [n (attempts made), k, v, w (how and when the last one ended), run (an attempt is running)]                          *)
EXTENDS Integers, Sequences, TLC
Slack == 3
RInit == <<>>
R(st, errs) == [st |-> st, errs |-> errs]
Fresh(w) == [n |-> 0, k |-> "none", v |-> 0, w |-> w, run |-> FALSE]
MayRetry(c, f) == f.n > 0 /\ f.k = "elig" /\ f.n <= c.max
Step(c, st, e) ==
  LET d == Len(st) IN
  CASE e.e = "call" -> R(Append(st, Fresh(e.w)), {})
    [] d = 0 -> R(st, {"attempt_outside_call"})
    [] e.e = "try" ->
         LET f == st[d] IN
         R([st EXCEPT ![d].n = @ + 1, ![d].run = TRUE],
           (IF f.run THEN {"attempts_overlap"} ELSE {})
           \cup (IF f.n > 0 /\ f.k = "ok" THEN {"repeated_after_success"} ELSE {})
           \cup (IF f.n > 0 /\ f.k \in {"inel", "base"} THEN {"retried_ineligible"} ELSE {})
           \cup (IF f.n > c.max THEN {"too_many_attempts"} ELSE {})
           \cup (IF f.n > 0 /\ e.w < f.w + c.pause - Slack THEN {"pause_too_short"} ELSE {})
           \cup (IF f.n > 0 /\ e.w > f.w + c.pause + Slack THEN {"pause_too_long"} ELSE {})
           \cup (IF f.n = 0 /\ e.w > f.w + Slack THEN {"first_attempt_late"} ELSE {})
           \cup (IF ~e.args THEN {"arguments"} ELSE {}))
    [] e.e = "out" -> R([st EXCEPT ![d].run = FALSE, ![d].k = e.k, ![d].v = e.v, ![d].w = e.w], {})
    [] e.e = "ret" ->
         LET f == st[d] IN
         R(SubSeq(st, 1, d - 1),
           IF f.n = 0 THEN {"never_attempted"}
           ELSE IF f.k = "ok" THEN (IF e.how # "value" \/ e.v # f.v THEN {"success_not_returned"} ELSE IF e.w > f.w + Slack THEN {"success_late"} ELSE {})
           ELSE (IF MayRetry(c, f) THEN {"gave_up_early"} ELSE {})
                \cup (IF e.how # "raise" \/ e.v # f.v THEN {"failure_not_raised"} ELSE {}))
=============================================================================
