------------------------------- MODULE Events -------------------------------
(* C20: the event bus, the message queue and the event loop.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
-----------------------------------------------------------------------------
(* The bus.  A subscription: [n, cls, cb, pr];  n grows with every subscription.
   An emission in progress: [id, todo (ordered subscriptions of the moment of the emission), done]; emissions nest.
   Events: [e |-> "reg", cls, cb, pr, ret]   [e |-> "unreg", cls, cb, ret]
           [e |-> "emit", id, cls]   [e |-> "call", id, cb, same]   [e |-> "emitted", id, ret]
   anc: class -> its classes (itself and all base classes).                                                                         *)
BInit == [subs |-> <<>>, n |-> 0, em |-> <<>>]
Matching(anc, subs, cls) == SelectSeq(subs, LAMBDA s : \E k \in 1..Len(anc[cls]) : anc[cls][k] = s.cls)
Before(a, b) == a.pr > b.pr \/ (a.pr = b.pr /\ a.n < b.n)
Ordered(S) == SortSeq(S, Before)
Alive(st, s) == \E k \in 1..Len(st.subs) : st.subs[k].n = s.n
(* entries that need not be delivered (any more): unsubscribed since, or a further subscription of a callback that has had the event  *)
Spare(st, cur, s) == ~Alive(st, s) \/ s.cb \in cur.had
RECURSIVE DropSpare(_, _, _, _)
DropSpare(st, cur, todo, cb) == IF todo = <<>> \/ ~Spare(st, cur, Head(todo)) \/ (Alive(st, Head(todo)) /\ Head(todo).cb = cb) THEN todo
                               ELSE DropSpare(st, cur, Tail(todo), cb)
B(st, errs) == [st |-> st, errs |-> errs]
BCall(anc, st, e) ==
  IF st.em = <<>> \/ st.em[Len(st.em)].id # e.id THEN B(st, {"callback_without_emission"})
  ELSE LET k == Len(st.em)
           cur == st.em[k]
           todo == DropSpare(st, cur, cur.todo, e.cb)
           late == SelectSeq(Matching(anc, st.subs, cur.cls), LAMBDA s : s.n > cur.upto)        \* subscribed during this delivery
       IN IF ~e.same THEN B(st, {"wrong_event_delivered"})
          ELSE IF todo # <<>> /\ Head(todo).cb = e.cb THEN B([st EXCEPT !.em[k].todo = Tail(todo), !.em[k].done = @ \cup {Head(todo).n}, !.em[k].had = @ \cup {e.cb}], {})
          ELSE IF \E j \in 1..Len(late) : late[j].cb = e.cb /\ late[j].n \notin cur.done
               THEN B([st EXCEPT !.em[k].done = @ \cup {late[j].n : j \in {i \in 1..Len(late) : late[i].cb = e.cb}}, !.em[k].had = @ \cup {e.cb}], {})
          ELSE IF \E j \in 1..Len(todo) : todo[j].cb = e.cb THEN B(st, {"delivery_order"})
          ELSE IF \E j \in 1..Len(st.subs) : st.subs[j].cb = e.cb /\ st.subs[j].n \in cur.done THEN B(st, {"delivered_twice"})
          ELSE B(st, {"delivered_to_unsubscribed"})
BusStep(anc, st, e) ==
  CASE e.e = "reg" -> B([st EXCEPT !.n = @ + 1, !.subs = Append(@, [n |-> st.n + 1, cls |-> e.cls, cb |-> e.cb, pr |-> e.pr])],
                        IF e.ret # "ok" THEN {"subscription_refused"} ELSE {})
    [] e.e = "unreg" -> B([st EXCEPT !.subs = SelectSeq(@, LAMBDA s : ~(s.cls = e.cls /\ s.cb = e.cb))], IF e.ret # "ok" THEN {"unsubscription_failed"} ELSE {})
    [] e.e = "emit" -> B([st EXCEPT !.em = Append(@, [id |-> e.id, cls |-> e.cls, upto |-> st.n, done |-> {}, had |-> {}, todo |-> Ordered(Matching(anc, st.subs, e.cls))])], {})
    [] e.e = "call" -> BCall(anc, st, e)
    [] e.e = "emitted" -> B([st EXCEPT !.em = SubSeq(@, 1, Len(@) - 1)],
                            (IF e.ret # "ok" THEN {"emission_failed"} ELSE {})
                            \cup (IF DropSpare(st, st.em[Len(st.em)], st.em[Len(st.em)].todo, 0) # <<>> THEN {"not_delivered"} ELSE {}))
-----------------------------------------------------------------------------
(* Messages and the queue: m = [id, t, p, n], n grows with creation.                                                               *)
Earlier(a, b) == a.t < b.t \/ (a.t = b.t /\ (a.p > b.p \/ (a.p = b.p /\ a.n < b.n)))
First(q) == CHOOSE m \in q : \A o \in q : o = m \/ Earlier(m, o)
(* sl: a deferred message's time is known up to a millisecond (the implementation reads the clock itself) *)
Surely(a, b) == IF (a.sl = 0 /\ b.sl = 0) \/ (a.sl = b.sl /\ a.t = b.t /\ a.w = b.w) THEN Earlier(a, b) ELSE a.t + a.sl < b.t - b.sl
-----------------------------------------------------------------------------
(* The event loop.  cfg: [start, limit]: all times in milliseconds; limit: the exit checker ends the loop instead of waiting past it (-1: none).
   Events: [e |-> "push", id, t, p, w]  [e |-> "defer", id, d, w]  [e |-> "stop", w]
           [e |-> "h", id, s, w, ok]  (a message's callback begins; s: logical time; ok: the right callback with the right data)
           [e |-> "hx", id, w]  [e |-> "fail", w]  (the callback raises)   [e |-> "end", how, w]                                    *)
Slack == 20
LInit(c) == [q |-> {}, n |-> 0, busy |-> 0, free |-> c.start, stopped |-> FALSE, failed |-> FALSE, since |-> <<>>]
LoopPush(st, id, t, p, w, sl) == [st EXCEPT !.q = @ \cup {[id |-> id, t |-> t, p |-> p, n |-> st.n + 1, w |-> w, sl |-> sl]}, !.n = @ + 1]
LoopStep(c, st, e) ==
  CASE e.e = "push" -> B(LoopPush(st, e.id, e.t, e.p, e.w, 0), {})
    [] e.e = "defer" -> B(LoopPush(st, e.id, e.w + e.d, 0, e.w, 1), {})
    [] e.e = "stop" -> B([st EXCEPT !.stopped = TRUE], {})
    [] e.e = "fail" -> B([st EXCEPT !.failed = TRUE], {})
    [] e.e = "h" ->
         IF st.busy # 0 THEN B(st, {"overlapping"})
         ELSE IF st.failed THEN B(st, {"after_failure"})
         ELSE IF st.stopped THEN B(st, {"after_stop"})
         ELSE IF ~\E m \in st.q : m.id = e.id THEN B(st, {"handled_twice_or_unknown"})
         ELSE LET m == CHOOSE x \in st.q : x.id = e.id IN
              B([st EXCEPT !.busy = e.id, !.q = @ \ {m}],
                (IF \E o \in st.q : Surely(o, m) THEN {"queue_order"} ELSE {}) \cup (IF e.w < m.t - m.sl THEN {"early"} ELSE {})
                \cup (IF e.w > MaxOf({m.t, st.free, m.w}) + Slack THEN {"late"} ELSE {})
                \cup (IF e.s - m.t \notin {-1, 0, 1} THEN {"logical_time"} ELSE {}) \cup (IF ~e.ok THEN {"wrong_callback"} ELSE {}))
    [] e.e = "hx" -> B([st EXCEPT !.busy = 0, !.free = e.w], {})
    [] e.e = "end" ->
         IF st.failed THEN B(st, IF e.how # "error" THEN {"failure_swallowed"} ELSE {})
         ELSE IF e.how # "normal" THEN B(st, {"ended_with_" \o e.how})
         ELSE IF st.stopped THEN B(st, IF e.w > st.free + Slack THEN {"stop_late"} ELSE {})
         ELSE IF st.q = {} \/ (c.limit >= 0 /\ First(st.q).t > c.limit) THEN B(st, {})
         ELSE B(st, {"message_lost"})
=============================================================================
