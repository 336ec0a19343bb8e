------------------------------ MODULE Writers ------------------------------
(* C13: several strategies append requests to one day's order and cancel file.  A round is: every writer serves its requests, the writers'
   steps on the files interleaved; somebody else may hold the lock of the file.
   r.ops    : sequence of [w, f ("order"|"cancel"), ret, want, ms, st]: ret: id of an accepted order, "" if refused, "?" unknown (cancellations);
              want: the cells the line must have;  ms: how long the request took;  st: status shown for the order afterwards
   r.files  : f |-> [intact: what was there before is unchanged and everything behind it is whole lines, was: lines before,
              heads: positions of header lines in the file, lines: the new lines other than headers]
   r.hold   : [kind |-> "none" | "kept" | "until", f, ms]: the lock of file f is held by somebody else: throughout | until ms after the start
   r.fair   : no writer is left behind by more than a moment, so that nobody holds the lock for long
   r.timeout, r.interval: of the waiting for the lock, in ms                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Count(S, P(_)) == Cardinality({ k \in 1..Len(S) : P(S[k]) })
OpsOn(r, f) == { k \in 1..Len(r.ops) : r.ops[k].f = f }
Held(r, f) == r.hold.kind # "none" /\ r.hold.f = f
\* must this request succeed (TRUE), fail (FALSE), or is either right
MustPass(r, k) == LET o == r.ops[k] IN r.fair /\ (~Held(r, o.f) \/ (r.hold.kind = "until" /\ r.hold.ms + 4 * r.interval <= r.timeout))
MustFail(r, k) == Held(r, r.ops[k].f) /\ r.hold.kind = "kept"
LinesOf(r, o) == Count(r.files[o.f].lines, LAMBDA l : l = o.want)
FileErrs(r, f) ==
  LET x == r.files[f]
      n == x.was + Len(x.lines) IN
  (IF ~x.intact THEN {"torn_or_overwritten"} ELSE {}) \cup
  (IF x.was = 0 /\ Len(x.lines) = 0 THEN (IF Len(x.heads) > 1 THEN {"header_repeated"} ELSE {})
   ELSE IF Len(x.heads) = 0 THEN {"header_missing"} ELSE IF Len(x.heads) > 1 THEN {"header_repeated"} ELSE IF x.heads[1] # 1 THEN {"header_not_first"} ELSE {})
  \cup UNION { IF \E k \in OpsOn(r, f) : r.ops[k].want = x.lines[j] /\ r.ops[k].ret # "" THEN {} ELSE
               {IF \E k \in OpsOn(r, f) : r.ops[k].want = [x.lines[j] EXCEPT !.id = r.ops[k].want.id] /\ r.ops[k].ret = "" THEN "failed_but_written" ELSE "line_nobody_requested"}
               : j \in 1..Len(x.lines) }
OpErrs(r, k) ==
  LET o == r.ops[k] IN
  (IF o.ret = "" THEN
      (IF MustPass(r, k) THEN {"not_waited_for"} ELSE IF o.ms + 2 * r.interval < r.timeout THEN {"gave_up_early"} ELSE {})
      \cup (IF o.f = "order" /\ o.st \notin {"rejected", ""} THEN {"failed_not_reported"} ELSE {})
   ELSE IF o.ret = "?" THEN
      (IF MustPass(r, k) /\ LinesOf(r, o) < Count(r.ops, LAMBDA p : p.f = o.f /\ p.want = o.want) THEN {"request_lost"} ELSE {})
      \cup (IF LinesOf(r, o) > Count(r.ops, LAMBDA p : p.f = o.f /\ p.want = o.want) THEN {"request_doubled"} ELSE {})
      \cup (IF MustFail(r, k) /\ LinesOf(r, o) > 0 THEN {"lock_ignored"} ELSE {})
   ELSE (IF LinesOf(r, o) = 0 THEN {"request_lost"} ELSE IF LinesOf(r, o) > 1 THEN {"request_doubled"} ELSE {})
      \cup (IF MustFail(r, k) THEN {"lock_ignored"} ELSE {}))
  \cup (IF o.ms > r.timeout + 10 * r.interval + 100 THEN {"waits_too_long"} ELSE {})
RoundErrs(r) == UNION { FileErrs(r, f) : f \in {"order", "cancel"} } \cup UNION { OpErrs(r, k) : k \in 1..Len(r.ops) } \cup (IF r.hung THEN {"hung"} ELSE {})
=============================================================================
