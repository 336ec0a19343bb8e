------------------------------ MODULE Balance ------------------------------
(* C17: one synchronisation of cash and positions with the terminal's two files, which the terminal keeps rewriting.
   Times in ms since the synchronisation began; attempts to read a file are made at once and after every pause.
   r: [max, pause, acct, av, pv, at, pt, before, after, took]
     av / pv : versions of the asset / position file: sequences of rows (strings as shown by the portfolio)
               asset row [acct, exch, tot, free, lock]     position row [acct, code, qty, avail, cost, last, val]
     at / pt : what was in place since when: sequences of [w, s, v], s: "missing" | "cut" (incomplete) | "tail" (only a part of the mark of the end is
               missing: complete or not) | "ok";  the first entry is in place at the beginning (w = -1);  w equal to the time of an attempt: changed while being read
     before / after : [cash |-> [tot, free, lock], pos |-> set of [code, qty, avail, cost, last, val]] as the portfolio shows it
     took : how long it lasted (-1: not known)                                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slack == 3
\* what an attempt at time t may find
Found(tl, t) ==
  LET old == { k \in 1..Len(tl) : tl[k].w < t }
      now == { k \in 1..Len(tl) : tl[k].w = t }
      last == CHOOSE k \in old : \A j \in old : j <= k
  IN { [s |-> tl[k].s, v |-> tl[k].v] : k \in {last} \cup now } \cup (IF now # {} THEN {[s |-> "cut", v |-> 0]} ELSE {})
Good(t, v) == [ok |-> TRUE, t |-> t, v |-> v]
Bad(t) == [ok |-> FALSE, t |-> t, v |-> 0]
RECURSIVE Reads(_, _, _, _)
\* the outcomes of reading a file with attempts from the k-th on
Reads(r, tl, t, k) ==
  UNION { (IF x.s \in {"ok", "tail"} THEN {Good(t, x.v)} ELSE {})
          \cup (IF x.s # "ok" THEN (IF k >= r.max THEN {Bad(t)} ELSE Reads(r, tl, t + r.pause, k + 1)) ELSE {})
          \cup (IF x.s = "missing" THEN {Bad(t)} ELSE {})
          : x \in Found(tl, t) }
Totals(r, v) == { k \in 1..Len(r.av[v]) : r.av[v][k].acct = r.acct /\ r.av[v][k].exch = "" }
Cash(r, v) == LET S == Totals(r, v) k == CHOOSE k \in S : \A j \in S : j <= k IN [tot |-> r.av[v][k].tot, free |-> r.av[v][k].free, lock |-> r.av[v][k].lock]
Pos(r, v) == { [code |-> x.code, qty |-> x.qty, avail |-> x.avail, cost |-> x.cost, last |-> x.last, val |-> x.val] :
               x \in { y \in { r.pv[v][k] : k \in 1..Len(r.pv[v]) } : y.acct = r.acct /\ y.qty # "0" } }
\* outcome of the whole: when it ends and what is shown then
Fail(r, t) == [t |-> t, shown |-> r.before, good |-> FALSE]
Both(r, a, p, t) == IF Totals(r, a) = {} THEN Fail(r, t) ELSE [t |-> t, shown |-> [cash |-> Cash(r, a), pos |-> Pos(r, p)], good |-> TRUE]
AssetFirst(r) == UNION { IF ~o.ok THEN {Fail(r, o.t)} ELSE (IF Totals(r, o.v) = {} THEN {Fail(r, o.t)} ELSE {}) \cup
                         { IF q.ok THEN Both(r, o.v, q.v, q.t) ELSE Fail(r, q.t) : q \in Reads(r, r.pt, o.t, 0) } : o \in Reads(r, r.at, 0, 0) }
PosFirst(r) == UNION { IF ~o.ok THEN {Fail(r, o.t)} ELSE { IF q.ok THEN Both(r, q.v, o.v, q.t) ELSE Fail(r, q.t) : q \in Reads(r, r.at, o.t, 0) } : o \in Reads(r, r.pt, 0, 0) }
Outcomes(r) == AssetFirst(r) \cup PosFirst(r)
Near(x, y) == x - y <= Slack /\ y - x <= Slack
Complete(tl) == { tl[k].v : k \in { j \in 1..Len(tl) : tl[j].s \in {"ok", "tail"} } }
SyncErrs(r) ==
  LET O == Outcomes(r) IN
  IF \E o \in O : o.shown = r.after /\ (r.took = 0 - 1 \/ Near(o.t, r.took)) THEN {}
  ELSE IF \E o \in O : o.shown = r.after THEN (IF \A o \in O : o.t < r.took THEN {"more_attempts"} ELSE IF \A o \in O : o.t > r.took THEN {"fewer_attempts"} ELSE {"attempt_times"})
  ELSE IF r.after = r.before THEN {"not_taken_over"}
  ELSE IF \A o \in O : ~o.good THEN {"changed_by_failed_sync"}
  ELSE (IF \E v \in Complete(r.at) : Totals(r, v) # {} /\ Cash(r, v) = r.after.cash THEN {} ELSE {"cash_of_no_version"})
       \cup (IF \E v \in Complete(r.pt) : Pos(r, v) = r.after.pos THEN {} ELSE {"positions_of_no_version"})
       \cup {"wrong_portfolio"}
=============================================================================
