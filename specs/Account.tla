------------------------------ MODULE Account ------------------------------
(* What a strategy may rely on from the account module: portfolio (C07), order book and queries (C08), snapshots (C09),
   submissions (C10), reservations (C11), cancels (C12).

   Transition relation  Step(st, e)  over the abstract account.  An event e is one call of the strategy API together with the calls it made to
   the trade gate, its return value and what the strategy can see afterwards:
      e.e     "order" | "batch" | "cancel" | "cancels" | "query" | "snap" | "balance" | "orders"
      e.calls the calls that reached the trade gate:  [k, id, code, amt, act, side, style, price, out]
      e.orders, e.port, e.snaps   what get_orders(), context.portfolio and the kept order objects show after the call
   Opaque values (prices, cash) are texts; quantities are integers.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == { s[i] : i \in 1..Len(s) }
Ids(S) == { o.id : o \in S }
Get(S, id) == CHOOSE o \in S : o.id = id
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Max0(x) == IF x > 0 THEN x ELSE 0

Dead == {"rejected", "canceled", "partly_canceled"}
Statuses == {"new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"}

-----------------------------------------------------------------------------
(* requests *)
ValidCode(cs) == /\ Len(cs) > 5
                 /\ SubSeq(cs, Len(cs) - 4, Len(cs)) \in { <<".", "X", "S", "H", "E">>, <<".", "X", "S", "H", "G">> }
                 /\ \A i \in 1..(Len(cs) - 5) : cs[i] \in Digits
ValidReq(r) == /\ r.codek = "text" /\ ValidCode(r.chars)
               /\ r.amtk = "int" /\ r.amt # 0
               /\ r.style \in {"none", "market", "limit"}
               /\ r.side \in {"none", "long", "short"}
Abs(x) == IF x < 0 THEN -x ELSE x
ReqSide(r) == IF r.side = "short" THEN "short" ELSE "long"
ReqAct(r) == IF r.amt < 0 THEN "close" ELSE "open"
ReqStyle(r) == IF r.style = "limit" THEN "limit" ELSE "market"

(* the gate call that a valid request must cause *)
CallOK(r, g) == /\ g.k = "order" /\ g.code = r.code /\ g.amt = Abs(r.amt) /\ g.act = ReqAct(r) /\ g.side = ReqSide(r)
                /\ g.style = ReqStyle(r) /\ (r.style = "none" \/ g.price = r.price)
(* the order that is visible after its submission *)
NewOK(r, o) == /\ o.code = r.code /\ o.amt = Abs(r.amt) /\ o.act = ReqAct(r) /\ o.side = ReqSide(r)
               /\ o.style = ReqStyle(r) /\ (r.style = "none" \/ o.price = r.price)
               /\ o.status = "new" /\ o.filled = 0 /\ o.canceled = 0

Reserve(P, code, n) == { IF p.code = code THEN [p EXCEPT !.avail = Max0(@ - n)] ELSE p : p \in P }
ReserveIn(port, r) ==
  IF r.amt > 0 THEN port
  ELSE IF ReqSide(r) = "long" THEN [port EXCEPT !.long = Reserve(@, r.code, -r.amt)]
  ELSE [port EXCEPT !.short = Reserve(@, r.code, -r.amt)]

(* one request with the gate call made for it (k = "nothing" when there was none) and its return value *)
One(x, r, g, ret, after) ==
  IF ~ValidReq(r)
    THEN [x EXCEPT !.errs = @ \cup (IF g.k # "nothing" THEN {"C10:invalid_request_submitted"} ELSE {})
                              \cup (IF ret.k = "id" THEN {"C10:invalid_request_accepted"} ELSE {})]
  ELSE IF g.k = "nothing"
    THEN [x EXCEPT !.errs = @ \cup {"C10:not_submitted"}]
  ELSE LET bad == (IF ~CallOK(r, g) THEN {"C10:submitted_differently"} ELSE {})
                  \cup (IF g.id \in Ids(x.orders) THEN {"C10:id_reused"} ELSE {}) IN
    IF g.out = "ok"
      THEN [x EXCEPT !.errs = @ \cup bad \cup
              (IF ret.k # "id" THEN {"C10:no_id_returned"}
               ELSE (IF ret.v # g.id THEN {"C10:other_id_returned"} ELSE {}) \cup
                    (IF ret.v \notin Ids(after) THEN {"C10:not_queryable"}
                     ELSE IF ~NewOK(r, Get(after, ret.v)) THEN {"C10:shown_differently"} ELSE {})),
              !.orders = { o \in @ : o.id # g.id } \cup { o \in after : o.id = g.id },
              !.port = ReserveIn(@, r)]
      ELSE [x EXCEPT !.errs = @ \cup bad \cup
              (IF ret.k # "none" THEN {"C10:refusal_not_reported"} ELSE {}) \cup
              (IF \E o \in after : o.id = g.id /\ o.id \notin Ids(x.orders) /\ o.status \notin Dead THEN {"C10:refused_order_alive"} ELSE {}),
              !.orders = @ \cup { o \in after : o.id = g.id /\ o.id \notin Ids(x.orders) /\ o.status \in Dead }]

NoCall == [k |-> "nothing"]
(* requests are served in order; the gate calls are handed to the valid ones in order *)
RECURSIVE Serve(_, _, _, _, _, _)
Serve(x, reqs, calls, rets, after, i) ==
  IF i > Len(reqs) THEN [x EXCEPT !.errs = @ \cup (IF calls # <<>> THEN {"C10:surplus_gate_call"} ELSE {})]
  ELSE LET v == ValidReq(reqs[i])
           g == IF v /\ calls # <<>> THEN Head(calls) ELSE NoCall
           rest == IF v /\ calls # <<>> THEN Tail(calls) ELSE calls IN
       Serve(One(x, reqs[i], g, rets[i], after), reqs, rest, rets, after, i + 1)

OrderCalls(e) == SelectSeq(e.calls, LAMBDA c : c.k = "order")
CancelCalls(e) == SelectSeq(e.calls, LAMBDA c : c.k = "cancel")
OtherCalls(e, ks) == \E c \in Range(e.calls) : c.k \notin ks

-----------------------------------------------------------------------------
(* C07 *)
PosOf(p) == [code |-> p.code, amt |-> p.amt, avail |-> p.avail, cost |-> p.cost, last |-> p.last, val |-> p.val]
(* a cash figure the report leaves out ("?") stays what it was *)
Kept(old, x) == IF x = "?" THEN old ELSE x
ReportPort(old, rep) == [total |-> Kept(old.total, rep.total), cash |-> Kept(old.cash, rep.cash), locked |-> Kept(old.locked, rep.locked),
                         long |-> { PosOf(p) : p \in { q \in Range(rep.pos) : q.side # "short" } },
                         short |-> { PosOf(p) : p \in { q \in Range(rep.pos) : q.side = "short" } }]
RECURSIVE SumVal(_)
SumVal(s) == IF s = <<>> THEN 0 ELSE Head(s).vali + SumVal(Tail(s))
(* what the strategy sees, from the recorded projection *)
Seen(p) == [total |-> p.total, cash |-> p.cash, locked |-> p.locked, long |-> Range(p.long), short |-> Range(p.short)]
SeenErrs(p) == (IF ~p.alias THEN {"C07:attributes_disagree"} ELSE {}) \cup
               (IF (\A q \in Range(p.long) : q.hasval) /\ p.sum # SumVal(p.long)
                THEN {"C07:position_value"} ELSE {})
Strip(port) == [port EXCEPT !.long = { PosOf(p) : p \in @ }, !.short = { PosOf(p) : p \in @ }]
NoAvail(port) == [port EXCEPT !.long = { [p EXCEPT !.avail = 0] : p \in @ }, !.short = { [p EXCEPT !.avail = 0] : p \in @ }]

(* C08: an order as reported; a field the report leaves out ("?") is not judged *)
Same(a, b) == a = "?" \/ a = b
Reported(r, o) == /\ o.id = r.id /\ o.code = r.code /\ o.amt = r.amt /\ o.price = r.price /\ o.act = r.act /\ o.side = r.side
                  /\ o.status = r.status /\ (r.filledk = "?" \/ o.filled = r.filled) /\ (r.canceledk = "?" \/ o.canceled = r.canceled)
                  /\ Same(r.deal, o.deal) /\ Same(r.comm, o.comm) /\ Same(r.avg, o.avg) /\ Same(r.err, o.err) /\ Same(r.ent, o.ent)
(* the last line of a report about an order counts *)
LastOf(reps, id) == LET K == { k \in 1..Len(reps) : reps[k].id = id } IN reps[CHOOSE k \in K : \A j \in K : j <= k]

(* queries *)
Match(q, o) == /\ (q.idk = "none" \/ o.id = q.id)
               /\ (q.codek = "none" \/ o.code = q.code)
               /\ (q.statusk = "none" \/ o.status = q.status)
QueryDefined(q) == /\ q.codek \in {"none", "valid"} /\ q.statusk \in {"none", "text", "enum"}

-----------------------------------------------------------------------------
(* snapshots: kept objects show what they showed when they were taken *)
SnapErrs(st, e) == IF \E k \in 1..Len(st.snaps) : k > Len(e.snaps) \/ e.snaps[k] # st.snaps[k] THEN {"C09:snapshot_changed"} ELSE {}
KeyErrs(e) == (IF \E o \in Range(e.orders) : o.key # o.id THEN {"C08:wrong_key"} ELSE {}) \cup
              (IF Cardinality(Ids(Range(e.orders))) # Len(e.orders) THEN {"C08:order_twice"} ELSE {})
Bare(S) == { [o EXCEPT !.key = ""] : o \in S }

SInit == [ up |-> FALSE, orders |-> {}, port |-> [total |-> "0.0", cash |-> "0.0", locked |-> "0.0", long |-> {}, short |-> {}], snaps |-> <<>> ]

OrderStep(st, e) ==
  LET after == Bare(Range(e.orders))
      reqs == IF e.e = "order" THEN <<e.req>> ELSE e.reqs
      rets == IF e.e = "order" THEN <<e.ret>> ELSE e.rets
      okshape == e.e = "order" \/ (e.ret.k = "list" /\ Len(rets) = Len(reqs))
      x == IF okshape THEN Serve([orders |-> st.orders, port |-> st.port, errs |-> {}], reqs, OrderCalls(e), rets, after, 1)
           ELSE [orders |-> after, port |-> Strip(Seen(e.port)), errs |-> {"C10:batch_result"}]
      seen == Strip(Seen(e.port)) IN
  [ st |-> [st EXCEPT !.orders = x.orders, !.port = x.port],
    errs |-> x.errs \cup
      (IF OtherCalls(e, {"order"}) THEN {"C10:surplus_gate_call"} ELSE {}) \cup
      (IF e.e = "order" /\ ~ValidReq(e.req) /\ e.ret.k # "raise" THEN {"C10:invalid_request_not_refused"} ELSE {}) \cup
      (IF e.e = "order" /\ ValidReq(e.req) /\ e.ret.k = "raise" THEN {"C10:raised"} ELSE {}) \cup
      (IF \E o \in after : o.id \notin Ids(x.orders) THEN {"C10:recorded_without_submission"} ELSE {}) \cup
      (IF \E o \in st.orders : o \notin after THEN {"C08:order_changed_or_lost", "C10:other_order_affected"} ELSE {}) \cup
      (IF seen # x.port THEN {"C11:reservation"} \cup (IF NoAvail(seen) # NoAvail(x.port) THEN {"C07:changed_without_report"} ELSE {}) ELSE {}) ]

CancelStep(st, e) ==
  LET ids == IF e.e = "cancel" THEN <<e.id>> ELSE e.ids
      want == SelectSeq(ids, LAMBDA i : i \in Ids(st.orders))
      got == CancelCalls(e) IN
  [ st |-> st,
    errs |-> (IF e.ret.k = "raise" THEN {"C12:raised"} ELSE {}) \cup
      (* which of several orders is cancelled first does not matter *)
      (IF \E i \in Range(want) \cup { c.id : c \in Range(got) } :
            Cardinality({ k \in 1..Len(got) : got[k].id = i }) # Cardinality({ k \in 1..Len(want) : want[k] = i })
         THEN (IF \E k \in 1..Len(got) : got[k].id \notin Range(want) THEN {"C12:unknown_cancelled"}
               ELSE IF Len(got) > Len(want) THEN {"C12:cancelled_twice"} ELSE {"C12:not_cancelled"}) ELSE {}) \cup
      (IF OtherCalls(e, {"cancel"}) THEN {"C12:surplus_gate_call"} ELSE {}) \cup
      (IF Bare(Range(e.orders)) # st.orders THEN {"C12:order_changed", "C08:order_changed_or_lost"} ELSE {}) \cup
      (IF Strip(Seen(e.port)) # st.port THEN {"C11:changed_by_cancel", "C07:changed_without_report"} ELSE {}) ]

BalanceStep(st, e) ==
  LET good == e.rep.ok
      want == IF good THEN ReportPort(st.port, e.rep) ELSE st.port
      seen == Strip(Seen(e.port)) IN
  [ st |-> [st EXCEPT !.port = want],
    errs |-> (IF e.ret.k = "raise" THEN {"C06:failing_sync_raised", "C07:failing_sync_raised"} ELSE {}) \cup
      (IF seen # want THEN (IF good THEN {"C07:not_as_reported"} \cup (IF NoAvail(seen) = NoAvail(want) THEN {"C11:not_as_reported"} ELSE {})
                            ELSE {"C07:failed_sync_changed"} \cup (IF NoAvail(seen) = NoAvail(want) THEN {"C11:failed_sync_changed"} ELSE {})) ELSE {}) \cup
      (IF Bare(Range(e.orders)) # st.orders THEN {"C08:order_changed_or_lost"} ELSE {}) ]

OrdersStep(st, e) ==
  LET after == Bare(Range(e.orders))
      reps == e.rep.lines
      rids == { reps[k].id : k \in 1..Len(reps) }
      untouched == { o \in st.orders : o.id \notin rids }
      errs ==
        IF e.rep.ok
        THEN (IF \E o \in untouched : o \notin after THEN {"C08:order_changed_or_lost"} ELSE {}) \cup
             (IF \E i \in rids : i \notin Ids(after) THEN {"C08:reported_order_missing"}
              ELSE IF \E i \in rids : ~Reported(LastOf(reps, i), Get(after, i)) THEN {"C08:not_as_reported"} ELSE {}) \cup
             (IF \E o \in after : o.id \notin Ids(st.orders) \cup rids THEN {"C08:order_from_nowhere"} ELSE {})
        ELSE (* a failing synchronisation: every order is as before, or as reported in it; none is lost *)
             (IF \E o \in st.orders : o \notin after /\ ~\E k \in 1..Len(reps) : reps[k].id = o.id /\ (\E p \in after : p.id = o.id /\ Reported(reps[k], p))
                THEN {"C08:order_changed_or_lost"} ELSE {}) \cup
             (IF \E o \in after : o \notin st.orders /\ ~\E k \in 1..Len(reps) : reps[k].id = o.id /\ Reported(reps[k], o)
                THEN {"C08:order_from_nowhere"} ELSE {}) IN
  [ st |-> [st EXCEPT !.orders = after],
    errs |-> errs \cup (IF e.ret.k = "raise" THEN {"C06:failing_sync_raised", "C08:failing_sync_raised"} ELSE {}) \cup
      (IF Strip(Seen(e.port)) # st.port THEN {"C11:changed_by_order_sync", "C07:changed_without_report"} ELSE {}) ]

QueryStep(st, e) ==
  LET want == { o \in st.orders : Match(e.q, o) }
      got == Bare(Range(e.got)) IN
  [ st |-> st,
    errs |-> (IF QueryDefined(e.q)
                THEN (IF e.ret.k = "raise" THEN {"C08:query_raised"}
                      ELSE IF got # want THEN {"C08:query"} ELSE {}) \cup
                     (IF e.ret.k # "raise" /\ \E o \in Range(e.got) : o.key # o.id THEN {"C08:wrong_key"} ELSE {})
                ELSE {}) \cup
      (IF e.calls # <<>> THEN {"C08:query_reaches_gate"} ELSE {}) \cup
      (IF Bare(Range(e.orders)) # st.orders THEN {"C08:order_changed_or_lost"} ELSE {}) ]

(* the state at the beginning: start-up may already have synchronised *)
BeginStep(st, e) ==
  [ st |-> [st EXCEPT !.up = TRUE, !.port = Strip(Seen(e.port)), !.orders = Bare(Range(e.orders))],
    errs |-> (IF e.balk = "good" /\ Strip(Seen(e.port)) # ReportPort(st.port, e.bal) THEN {"C07:not_as_reported"} ELSE {}) \cup
             (IF e.balk # "good" /\ (Range(e.port.long) # {} \/ Range(e.port.short) # {}) THEN {"C07:positions_from_nowhere"} ELSE {}) ]

Step(st, e) ==
  LET r == CASE e.e = "begin" -> BeginStep(st, e)
             [] e.e \in {"order", "batch"} -> OrderStep(st, e)
             [] e.e \in {"cancel", "cancels"} -> CancelStep(st, e)
             [] e.e = "balance" -> BalanceStep(st, e)
             [] e.e = "orders" -> OrdersStep(st, e)
             [] e.e = "query" -> QueryStep(st, e)
             [] e.e = "snap" -> [st |-> [st EXCEPT !.snaps = e.snaps], errs |->
                                   IF Bare(Range(e.orders)) # st.orders THEN {"C08:order_changed_or_lost"} ELSE {}]
             [] OTHER -> [st |-> st, errs |-> {"C05:ended_abnormally", "C07:ended_abnormally", "C08:ended_abnormally", "C09:ended_abnormally",
                                               "C10:ended_abnormally", "C11:ended_abnormally", "C12:ended_abnormally"}] IN
  IF e.e = "end" THEN r
  ELSE [ st |-> r.st,
         errs |-> r.errs \cup SnapErrs(st, e) \cup KeyErrs(e) \cup SeenErrs(e.port) ]
=============================================================================
