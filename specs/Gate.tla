-------------------------------- MODULE Gate --------------------------------
(* C14, C15, C16: orders of the built-in gate, the broker's files, restarts and days.
   A trace is the life of one strategy on one machine: processes start ("life"), die ("dead") and start again, the broker appends to the
   day's update and result files, the strategy submits, cancels and synchronises.  Every event carries  d  (day when it began) and
   d1 (day when it ended): the two differ when midnight passes in between.  After each event the strategy's view of its orders is recorded.

   line  [f |-> "upd"|"res", k, id, v, m]: the broker has written (part of) a line:
           k: "upd" (values v for order id), "rej" (order id rejected with message m), "none" (no effect: header, blank, accepted, refused cancel), "bad"
   flush [f, n, tail]: the first n lines of the day's file f are complete;  tail: "none" | "part" | "full" (all but the line end)
   touch [f]: the file exists
   sub   [ret, code, amt, act, style, price, wrote]: order(): ret: id or "" ;  wrote: what was added to order and cancel files meanwhile
   (fault: the disk was full meanwhile)
   can   [id, wrote]    sync [auto]    view
   view entries: [id, b (what was ordered), v (state), code, amt, act, style, price]
   v: [st, f, c, a, d, e, t]: status, filled, cancelled, average price, amount of money, message, time of entrustment                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ToSet(s) == {s[k] : k \in 1..Len(s)}
NoDay == [lines |-> [upd |-> <<>>, res |-> <<>>], n |-> [upd |-> 0, res |-> 0], tail |-> [upd |-> "none", res |-> "none"], ex |-> {}]
\* seen: how many lines of each file the process's last synchronisation has read (ok: it is certain)
NotSeen == [ok |-> FALSE, upd |-> 0, res |-> 0]
GInit == [day |-> "", files |-> NoDay, known |-> {}, maybe |-> {}, book |-> {}, seen |-> NotSeen, alive |-> FALSE, cfg |-> [ignore |-> TRUE]]
G(st, errs) == [st |-> st, errs |-> errs]
-----------------------------------------------------------------------------
\* the lines that count: the complete ones, and possibly a last one of which only the line end is missing
Lines(fs, f, full) == SubSeq(fs.lines[f], 1, fs.n[f] + (IF full /\ fs.tail[f] = "full" THEN 1 ELSE 0))
HasBad(L) == \E k \in 1..Len(L) : L[k].k = "bad"
LastOf(L, id, kind) == LET S == { k \in 1..Len(L) : L[k].k = kind /\ L[k].id = id } IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
\* the states an order may show given result lines R and update lines U
Values(o, R, U) ==
  LET r == LastOf(R, o.id, "rej")
      u == LastOf(U, o.id, "upd")
      upd == IF u = 0 THEN o.v ELSE U[u].v
      rej == [upd EXCEPT !.st = "rejected", !.e = R[r].m]
  IN IF r = 0 THEN {upd} ELSE IF u = 0 THEN {rej} ELSE {upd, rej}
Mine(st, day) == { o \in st.known : o.day = day }
\* ... in a process that has synchronised before: only what arrived since then counts, so a rejection that arrives after an update stays shown until
\* the next update (within one synchronisation, and after a restart, the order of lines of different files is not known)
Now(st, o, R, U) ==
  LET was == { x \in st.book : x.id = o.id }
      r == LastOf(R, o.id, "rej")
      u == LastOf(U, o.id, "upd")
      newR == r > st.seen.res
      newU == u > st.seen.upd IN
  IF ~st.seen.ok \/ was = {} \/ (newR /\ newU) THEN Values(o, R, U)
  ELSE LET x == CHOOSE y \in was : TRUE IN
       IF newR THEN {[x.v EXCEPT !.st = "rejected", !.e = R[r].m]} ELSE IF newU THEN {U[u].v} ELSE {x.v}
Seen(fs) == IF fs.tail.upd # "full" /\ fs.tail.res # "full" /\ fs.ex = {"upd", "res"} THEN [ok |-> TRUE, upd |-> fs.n.upd, res |-> fs.n.res] ELSE NotSeen
Same(o, x) == o.b = x.b
-----------------------------------------------------------------------------
(* what an order synchronisation may lead to                                                                                           *)
\* every known order of the day shows an admissible value; everything else shown before is unchanged
Applied(st, day, fs, view, full) ==
  LET R == Lines(fs, "res", full)
      U == Lines(fs, "upd", full)
      mine == Mine(st, day) IN
  /\ \A o \in mine : \E x \in view : x.id = o.id /\ x.b = o.b /\ x.v \in Now(st, o, R, U)
  /\ \A x \in st.book : x.id \notin {o.id : o \in mine} => x \in view
  /\ \A x \in view : x.id \in {o.id : o \in mine} \/ x \in st.book \/ (\E m \in st.maybe : m.day = day /\ m.b = x.b /\ x.v.st = "new")
Must(fs, full, cfg) == fs.ex = {"upd", "res"} /\ (cfg.ignore \/ ~HasBad(Lines(fs, "res", full) \o Lines(fs, "upd", full)))
\* why a view is not the outcome of a successful synchronisation
Blame(st, day, fs, view) ==
  LET R == Lines(fs, "res", FALSE)
      U == Lines(fs, "upd", FALSE)
      mine == Mine(st, day)
      shown(o) == { x \in view : x.id = o.id } IN
  IF \E o \in mine : shown(o) = {} THEN {IF st.book = {} THEN "order_unknown_after_restart" ELSE "order_lost"}
  ELSE IF \E o \in mine : \A x \in shown(o) : x.b # o.b THEN {"order_changed"}
  ELSE IF \E o \in mine : \A x \in shown(o) : x.v \notin Now(st, o, R, U) THEN
       LET o == CHOOSE p \in mine : \A x \in shown(p) : x.v \notin Now(st, p, R, U)
           x == CHOOSE y \in shown(o) : TRUE IN
       IF LastOf(R, o.id, "rej") > 0 /\ (LastOf(U, o.id, "upd") = 0 \/ \A w \in Now(st, o, R, U) : w.st = "rejected") THEN {"rejection_not_shown"}
       ELSE IF LastOf(U, o.id, "upd") = 0 THEN {"changed_without_update"}
       ELSE IF \E k \in 1..Len(U) : U[k].k = "upd" /\ U[k].id # o.id /\ U[k].v = x.v THEN {"misattributed"}
       ELSE IF x.v = o.v \/ \E k \in 1..Len(U) : U[k].k = "upd" /\ U[k].id = o.id /\ U[k].v = x.v THEN {"update_lost"}
       ELSE {"half_applied"}
  ELSE IF \E x \in st.book : x.id \notin {o.id : o \in mine} /\ x \notin view THEN {"other_order_changed"}
  ELSE {"unknown_order_shown"}
SyncStep(st, e) ==
  LET view == ToSet(e.view)
      fs == st.files
      okFull == Must(fs, TRUE, st.cfg) /\ Applied(st, st.day, fs, view, TRUE)
      okPlain == Must(fs, FALSE, st.cfg) /\ Applied(st, st.day, fs, view, FALSE)
      failed == view = st.book
      \* an order that died half-way may turn up after a restart
      found == { [id |-> x.id, day |-> st.day, b |-> x.b, v |-> x.v, csv |-> FALSE] : x \in { y \in view : y.v.st = "new" /\ (~\E o \in st.known : o.id = y.id)
                                                                              /\ \E m \in st.maybe : m.day = st.day /\ m.b = y.b } }
      st2 == [st EXCEPT !.book = view, !.known = @ \cup found, !.seen = IF okPlain \/ okFull THEN Seen(fs) ELSE NotSeen]
  IN IF okPlain \/ okFull THEN G(st2, {})
     ELSE IF ~Must(fs, FALSE, st.cfg) \/ ~Must(fs, TRUE, st.cfg)
          THEN (IF failed THEN G(st2, {}) ELSE G(st2, {IF Must(fs, FALSE, st.cfg) \/ Must(fs, TRUE, st.cfg) THEN "half_read" ELSE "failed_sync_changed_orders"}))
     ELSE G(st2, IF failed /\ \E o \in Mine(st, st.day) : \E x \in view : x.id = o.id /\ x.v \notin Now(st, o, Lines(fs, "res", FALSE), Lines(fs, "upd", FALSE))
                 THEN {"update_lost"} ELSE Blame(st, st.day, fs, view))
\* midnight passes during the synchronisation: each order shows what it showed, or what the old day's files say
SyncAcross(st, e) ==
  LET view == ToSet(e.view)
      fs == st.files
      old == Mine(st, e.d)
      new == Mine(st, e.d1) IN
  G([st EXCEPT !.book = view],
    IF (\A x \in view : x \in st.book \/ (\E o \in old : o.id = x.id /\ o.b = x.b /\ x.v \in (Values(o, Lines(fs, "res", FALSE), Lines(fs, "upd", FALSE))
                                                                                \cup Values(o, Lines(fs, "res", FALSE), <<>>) \cup Values(o, <<>>, Lines(fs, "upd", FALSE)) \cup {o.v}))
                              \/ (\E o \in new : o.id = x.id /\ o.b = x.b /\ x.v = o.v))
       /\ \A x \in st.book : \E y \in view : y.id = x.id
    THEN {} ELSE {"midnight_sync"})
-----------------------------------------------------------------------------
(* what a submission or a cancellation writes:  wrote: sequence of [f |-> "order"|"cancel", day, head, lines, intact]
   head: a header line precedes;  lines: sequences of fields;  first: the file was empty before                                       *)
Writes(e, f) == SelectSeq(e.wrote, LAMBDA w : w.f = f)
OneLine(e, f, id) ==
  LET W == Writes(e, f) IN
  IF Len(W) = 0 THEN {"request_not_written"}
  ELSE IF Len(W) > 1 \/ Len(W[1].lines) # 1 THEN {"request_written_twice"}
  ELSE IF ~W[1].intact THEN {"line_not_intact"}
  ELSE IF W[1].first # W[1].head THEN {"header"}
  ELSE IF W[1].day \notin {e.d, e.d1} THEN {"wrong_days_file"}
  ELSE IF W[1].lines[1].id # id THEN {"line_content"} ELSE {}
SideOf(act) == IF act = "open" THEN "1" ELSE "2"
LineOk(e, w) ==
  LET x == w.lines[1] IN
  /\ x.symbol = e.symbol /\ x.side = SideOf(e.act) /\ x.qty = e.qty /\ x.acct = e.acct /\ x.type = e.type /\ x.algo = e.algo
  /\ IF e.style = "market" THEN x.ptype = (IF e.act = "open" THEN "P6" ELSE "P7") ELSE x.ptype = "AT" /\ x.high = e.price /\ x.low = e.price
SubStep(st, e) ==
  LET view == ToSet(e.view)
      fresh == { x \in view : ~\E y \in st.book : y.id = x.id }
      W == Writes(e, "order") IN
  IF e.ret = "" THEN
     \* (refused because the disk is full: what was saved before may turn up after a restart)
     G([st EXCEPT !.book = view, !.maybe = @ \cup (IF e.fault THEN {[day |-> e.d, b |-> [code |-> e.code, amt |-> e.amt, act |-> e.act, side |-> e.side, style |-> e.style, price |-> e.price]]}
                                                  ELSE {})],
       (IF e.wrote # <<>> THEN {"refused_but_written"} ELSE {}) \cup (IF st.book \subseteq view THEN {} ELSE {"order_lost"})
       \cup (IF \E x \in fresh : x.v.st # "rejected" THEN {"refused_but_alive"} ELSE {}))
  ELSE LET errs == OneLine(e, "order", e.ret)
           mine == { x \in fresh : x.id = e.ret }
           day == IF Len(W) > 0 THEN W[1].day ELSE e.d IN
       IF mine = {} \/ fresh # mine THEN G([st EXCEPT !.book = view], {"submitted_order_not_shown"})
       ELSE LET x == CHOOSE y \in mine : TRUE IN
            G([st EXCEPT !.book = view, !.known = @ \cup {[id |-> x.id, day |-> day, b |-> x.b, v |-> x.v, csv |-> TRUE]}],
              errs \cup (IF errs = {} /\ ~LineOk(e, W[1]) THEN {"line_content"} ELSE {}) \cup (IF Writes(e, "cancel") # <<>> THEN {"cancel_written"} ELSE {})
              \cup (IF x.v.st # "new" THEN {"submitted_order_not_new"} ELSE {}) \cup (IF st.book \subseteq view THEN {} ELSE {"order_lost"}))
CanStep(st, e) ==
  LET known == \E x \in st.book : x.id = e.id IN
  G([st EXCEPT !.book = ToSet(e.view)],
    (IF ToSet(e.view) # st.book THEN {"cancel_changed_orders"} ELSE {}) \cup (IF Writes(e, "order") # <<>> THEN {"order_written"} ELSE {})
    \cup (IF known THEN (IF e.fault /\ Writes(e, "cancel") = <<>> THEN {} ELSE OneLine(e, "cancel", e.id)) ELSE IF Writes(e, "cancel") # <<>> THEN {"cancel_for_unknown"} ELSE {}))
-----------------------------------------------------------------------------
(* a process died: the files show which requests got through.  e.orders: complete lines of the day's order file as [id, b];
   st.req: the request being served when it died, as [day, b]                                                                         *)
DeadStep(st, e) ==
  LET got == { x \in ToSet(e.orders) : ~\E o \in st.known : o.id = x.id } IN
  G([st EXCEPT !.alive = FALSE,
       !.known = @ \cup { [id |-> x.id, day |-> x.day, b |-> x.b, v |-> e.fresh, csv |-> TRUE] : x \in got },
       !.maybe = @ \cup (IF e.req # <<>> THEN {e.req[1]} ELSE {})],
    (IF \E x \in got : e.req = <<>> \/ x.b # e.req[1].b THEN {"foreign_line"} ELSE {})
    \cup (IF \E i, j \in 1..Len(e.orders) : i # j /\ e.orders[i].id = e.orders[j].id THEN {"request_written_twice"} ELSE {})
    \cup (IF \E o \in st.known : o.csv /\ ~\E x \in ToSet(e.orders) : x.id = o.id /\ x.day = o.day THEN {"request_lost_from_file"} ELSE {}))
Roll(st, day) == IF day = st.day THEN st ELSE [st EXCEPT !.day = day, !.files = NoDay, !.seen = NotSeen]
Step(st0, e) ==
  LET st == Roll(st0, e.d)
      r == CASE e.e = "life" -> G([st EXCEPT !.alive = TRUE, !.book = {}, !.cfg = e.cfg, !.seen = NotSeen], {})
             [] e.e = "line" -> G([st EXCEPT !.files.lines[e.f] = Append(@, [k |-> e.k, id |-> e.id, v |-> e.v, m |-> e.m])], {})
             [] e.e = "flush" -> G([st EXCEPT !.files.n[e.f] = e.n, !.files.tail[e.f] = e.tail, !.files.ex = @ \cup {e.f}], {})
             [] e.e = "sub" -> SubStep(st, e)
             [] e.e = "can" -> CanStep(st, e)
             [] e.e = "sync" -> IF e.d # e.d1 THEN SyncAcross(st, e) ELSE SyncStep(st, e)
             [] e.e = "view" -> G(st, IF ToSet(e.view) # st.book THEN {"orders_changed_by_themselves"} ELSE {})
             [] e.e = "dead" -> DeadStep(st, e)
             [] OTHER -> G(st, {"unexpected_" \o e.e})
  IN [r EXCEPT !.st = Roll(@, e.d1)]
=============================================================================
