------------------------------- MODULE Output -------------------------------
(* C22: what a strategy logs and prints is kept.
   Places: "log" (the file given at start), "out" (standard output). Text of earlier lives and of other programs stays in them.
   Events: [e |-> "start", log, debug]                         a life begins; whether a log file was given, whether --debug was
           [e |-> "say", i, kind, lvl, to, t]                  call i begins. kind: "log" (lvl: its level) | "print";  to: "" | "elsewhere" (a file of its own, or not printable)
           [e |-> "ret", i, how, t]                            it returns ("ok") or raises
           [e |-> "other", i, t]                               another program appends text i to the log file
           [e |-> "look", log, out]                            what the places hold: sequences of [i, whole, lvl, t, pid]
   t: ms.  Text i is known by its number; whole: it is there unchanged; lvl, t, pid (the process is named rightly): what the line says of itself (log calls only)
   st: due[place]: entries in the order of the calls, open: the call that has not returned, maybe: calls cut off by the death of the process                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
OInit == [log |-> <<>>, out |-> <<>>, open |-> 0, maybe |-> {}, file |-> FALSE, debug |-> FALSE]
R(st, errs) == [st |-> st, errs |-> errs]
Lowest(debug) == IF debug THEN 10 ELSE 20
Heard(st, e) == e.to = "" /\ (e.kind = "log" => e.lvl >= Lowest(st.debug))
Place(st) == IF st.file THEN "log" ELSE "out"
Entry(e, kind) == [i |-> e.i, kind |-> kind, lvl |-> IF kind = "log" THEN e.lvl ELSE 0, from |-> e.t, till |-> -1]
Ids(s) == { s[k].i : k \in 1..Len(s) }
At(s, i) == CHOOSE k \in 1..Len(s) : s[k].i = i
Slack == 2
\* what one place shows against what is due there
Judge(due, free, found) ==
  LET d == Ids(due)  f == Ids(found) IN
  (IF \E i \in d \ free : i \notin f THEN {IF due[At(due, CHOOSE i \in d \ free : i \notin f)].kind = "other" THEN "other_text_lost" ELSE "lost"} ELSE {})
  \cup (IF Cardinality(f) < Len(found) THEN {"twice"} ELSE {})
  \cup (IF \E i \in f : i \notin d THEN {"unexpected"} ELSE {})
  \cup (IF f \subseteq d /\ \E j, k \in 1..Len(found) : j < k /\ At(due, found[j].i) > At(due, found[k].i) THEN {"out_of_order"} ELSE {})
  \cup (IF \E k \in 1..Len(found) : ~found[k].whole /\ found[k].i \in d \ free THEN {"mangled"} ELSE {})
  \cup UNION { LET x == found[k] IN
               IF x.i \notin d \/ ~x.whole THEN {}
               ELSE LET y == due[At(due, x.i)] IN
                    IF y.kind # "log" THEN {}
                    ELSE (IF x.lvl # y.lvl THEN {"wrong_level"} ELSE {}) \cup (IF ~x.pid THEN {"wrong_process"} ELSE {})
                         \cup (IF x.t < y.from - Slack \/ (y.till >= 0 /\ x.t > y.till + Slack) THEN {"wrong_time"} ELSE {}) : k \in 1..Len(found) }
Free(st) == st.maybe \cup (IF st.open = 0 THEN {} ELSE {st.open})
LookErrs(st, log, out) == Judge(st.log, Free(st), log) \cup Judge(st.out, Free(st), out)
Close(s, i, t) == [k \in 1..Len(s) |-> IF s[k].i = i THEN [s[k] EXCEPT !.till = t] ELSE s[k]]
Step(st, e) ==
  CASE e.e = "start" -> R([st EXCEPT !.maybe = Free(st), !.open = 0, !.file = e.log, !.debug = e.debug], {})
    [] e.e = "say" -> R(IF ~Heard(st, e) THEN st
                        ELSE IF Place(st) = "log" THEN [st EXCEPT !.log = Append(@, Entry(e, e.kind)), !.open = e.i]
                        ELSE [st EXCEPT !.out = Append(@, Entry(e, e.kind)), !.open = e.i], {})
    [] e.e = "ret" -> R([st EXCEPT !.log = Close(@, e.i, e.t), !.out = Close(@, e.i, e.t), !.open = 0], IF e.how = "raise" THEN {"call_failed"} ELSE {})
    [] e.e = "other" -> R([st EXCEPT !.log = Append(@, [Entry(e, "other") EXCEPT !.till = e.t])], {})
    [] e.e = "look" -> R(st, LookErrs(st, e.log, e.out))
=============================================================================
