--------------------------- MODULE AccountDesign ---------------------------
(* The mechanism of jqtrade.account: a heap of order objects, the book (id -> object), handles kept by the strategy (which read the object
   they were given), positions and cash; one action per API call, with the answers of the trade gate chosen by the environment.
   Every call is handed to Account!Step as the event the real code would record.
   The constant Defect switches on wrong mechanisms.                                                                  *)
EXTENDS Account, Json
CONSTANTS MaxSteps, MaxOrders, Defect, Ops,
          Sim    \* TRUE: choices are drawn at random (simulation); FALSE: all of them (exhaustive)
VARIABLES heap, book, kept, cash, long, short, hist, st, errs
vars == <<heap, book, kept, cash, long, short, hist, st, errs>>

A == "000001.XSHE"
B == "600000.XSHG"
Chars(c) == IF c = A THEN <<"0","0","0","0","0","1",".","X","S","H","E">> ELSE <<"6","0","0","0","0","0",".","X","S","H","G">>
Req(c, n, s) == [codek |-> "text", code |-> c, chars |-> Chars(c), amtk |-> "int", amt |-> n, style |-> "limit", price |-> "10.0", side |-> s]
BadReq == [codek |-> "text", code |-> "1", chars |-> <<"1">>, amtk |-> "int", amt |-> 100, style |-> "none", price |-> "0.0", side |-> "none"]
Reqs == { Req(A, 100, "none"), Req(A, -100, "none"), Req(B, -300, "long"), Req(A, -100, "short"), BadReq }

Pos(c, n, a, s) == [code |-> c, amt |-> n, avail |-> a, cost |-> "1.0", last |-> "None", val |-> "5.0", side |-> s]
Reports == { [ok |-> TRUE, total |-> "9.0", cash |-> "5.0", locked |-> "1.0", pos |-> << Pos(A, 100, 100, "long") >>],
             [ok |-> TRUE, total |-> "7.0", cash |-> "0.0", locked |-> "?", pos |-> << Pos(B, 500, 400, "long"), Pos(A, 200, 200, "short") >>],
             (* the last position is malformed: the lines before it were fine *)
             [ok |-> FALSE, total |-> "8.0", cash |-> "4.0", locked |-> "2.0", pos |-> << Pos(B, 100, 50, "long") >>] }
Statuses3 == {"open", "filled", "canceled"}
Line(i, s, f) == [id |-> i, code |-> A, amt |-> 100, price |-> "10.0", act |-> "open", side |-> "long", status |-> s, filledk |-> "!", filled |-> f,
                  canceledk |-> "!", canceled |-> 0, deal |-> "?", comm |-> "?", avg |-> "?", err |-> "?", ent |-> "?"]
ExtId == "x"
NewIds == { ToString(k) : k \in 1..(MaxOrders + 1) }
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Obj(id, r, s) == [key |-> "", id |-> id, code |-> r.code, amt |-> Abs(r.amt), price |-> r.price, act |-> ReqAct(r), side |-> ReqSide(r), status |-> s,
                  filled |-> 0, canceled |-> 0, avg |-> "", deal |-> "", comm |-> "", err |-> "", style |-> ReqStyle(r), ent |-> "", rest |-> ""]
Remote(l, old) == [key |-> "", id |-> l.id, code |-> l.code, amt |-> l.amt, price |-> l.price, act |-> l.act, side |-> l.side, status |-> l.status,
                   filled |-> l.filled, canceled |-> l.canceled, avg |-> "", deal |-> "", comm |-> "", err |-> "", style |-> "limit", ent |-> "", rest |-> ""]

-----------------------------------------------------------------------------
(* book: sequence of heap indices in insertion order *)
Known == { heap[book[k]].id : k \in 1..Len(book) }
At(bk, hp, id) == CHOOSE k \in 1..Len(bk) : hp[bk[k]].id = id
ShowO(hp, bk) == [k \in 1..Len(bk) |-> [hp[bk[k]] EXCEPT !.key = @ \o hp[bk[k]].id]]
ShowP(p) == [code |-> p.code, amt |-> p.amt, avail |-> p.avail, cost |-> p.cost, last |-> p.last, val |-> p.val, hasval |-> TRUE, vali |-> 5]
Port(c, lo, sh) == [total |-> c[1], cash |-> c[2], locked |-> c[3], long |-> [k \in 1..Len(lo) |-> ShowP(lo[k])],
                    short |-> [k \in 1..Len(sh) |-> ShowP(sh[k])], sum |-> 5 * Len(lo), alias |-> TRUE]
Snaps(hp, ks) == [k \in 1..Len(ks) |-> ToString(hp[ks[k]])]
Call(id, r, out) == [k |-> "order", id |-> id, code |-> r.code, amt |-> Abs(r.amt), act |-> ReqAct(r), side |-> ReqSide(r),
                     style |-> ReqStyle(r), price |-> r.price, out |-> out]
Sub(p, c, n) == IF p.code = c THEN [p EXCEPT !.avail = IF Defect = "below_zero" THEN @ - n ELSE Max0(@ - n)] ELSE p
SubAll(ps, c, n) == [k \in 1..Len(ps) |-> Sub(ps[k], c, n)]

Init == /\ heap = <<>> /\ book = <<>> /\ kept = <<>> /\ cash = <<"0.0", "0.0", "0.0">> /\ long = <<>> /\ short = <<>> /\ hist = <<>>
        /\ st = [SInit EXCEPT !.up = TRUE] /\ errs = {}

(* one submission on the mechanism's state m; id and gate outcome chosen *)
Submit(m, r, id, out) ==
  IF ~ValidReq(r) THEN [m EXCEPT !.rets = Append(@, [k |-> "raise", v |-> "InvalidParam"])]
  ELSE LET h1 == Append(m.heap, Obj(id, r, "new"))
           bk == IF id \in { m.heap[m.book[k]].id : k \in 1..Len(m.book) }
                 THEN [m.book EXCEPT ![At(m.book, m.heap, id)] = Len(h1)] ELSE Append(m.book, Len(h1))
           res == out = "ok" \/ Defect = "reserve_before_gate"
           cut == res /\ (r.amt < 0 \/ Defect = "reserve_buys")
           lo == IF cut /\ ReqSide(r) = "long" THEN SubAll(m.long, r.code, Abs(r.amt)) ELSE m.long
           sh == IF cut /\ ReqSide(r) = "short" THEN SubAll(m.short, r.code, Abs(r.amt)) ELSE m.short
           c == [m.calls EXCEPT ![Len(m.calls)] = @] IN
    IF out = "ok"
    THEN [m EXCEPT !.heap = h1, !.book = bk, !.long = lo, !.short = sh, !.calls = Append(@, Call(id, r, "ok")), !.rets = Append(@, [k |-> "id", v |-> id])]
    ELSE LET h2 == IF Defect = "keep_alive" THEN h1 ELSE Append(h1, [Obj(id, r, "rejected") EXCEPT !.err = "refused"])
             b2 == IF Defect = "keep_alive" THEN bk ELSE [bk EXCEPT ![At(bk, h1, id)] = Len(h2)] IN
         [m EXCEPT !.heap = h2, !.book = b2, !.long = lo, !.short = sh, !.calls = Append(@, Call(id, r, "raise")), !.rets = Append(@, [k |-> "none", v |-> ""])]

M == [heap |-> heap, book |-> book, long |-> long, short |-> short, calls |-> <<>>, rets |-> <<>>]
Free(m, n) == IF Defect = "id_clash" THEN NewIds ELSE NewIds \ { m.heap[m.book[k]].id : k \in 1..Len(m.book) }

(* finish a call: new mechanism state, judged event, history entry *)
Emit(ev, m, c, ks, h) ==
  LET e == ev @@ [orders |-> ShowO(m.heap, m.book), port |-> Port(c, m.long, m.short), snaps |-> Snaps(m.heap, ks), calls |-> m.calls]
      r == Step(st, e) IN
  /\ heap' = m.heap /\ book' = m.book /\ long' = m.long /\ short' = m.short /\ cash' = c /\ kept' = ks
  /\ st' = r.st /\ errs' = r.errs /\ hist' = Append(hist, h)

Order == "order" \in Ops /\ Len(book) < MaxOrders /\ \E r \in Pick(Reqs) : \E out \in (IF ValidReq(r) THEN Pick({"ok", "raise"}) ELSE {"ok"}), id \in (IF ValidReq(r) THEN Pick(Free(M, 1)) ELSE {"1"}) :
           /\ LET m == Submit(M, r, id, out) IN
              Emit([e |-> "order", req |-> r, ret |-> m.rets[1]], m, cash, kept, [op |-> "order", req |-> r, out |-> out])
Batch == "batch" \in Ops /\ Len(book) + 1 < MaxOrders /\ \E r1 \in Pick(Reqs), r2 \in Pick(Reqs) :
           \E o1 \in (IF ValidReq(r1) THEN Pick({"ok", "raise"}) ELSE {"ok"}), o2 \in (IF ValidReq(r2) THEN Pick({"ok", "raise"}) ELSE {"ok"}) :
           /\ LET i1 == IF Free(M, 1) = {} THEN "1" ELSE CHOOSE i \in Free(M, 1) : TRUE
                  m1 == Submit(M, r1, i1, o1)
                  i2 == IF Free(m1, 1) = {} THEN "1" ELSE CHOOSE i \in Free(m1, 1) : TRUE
                  m2 == IF Defect = "batch_stops" /\ m1.rets[1].k # "id" THEN [m1 EXCEPT !.rets = Append(@, [k |-> "none", v |-> ""])] ELSE Submit(m1, r2, i2, o2)
                  rets == [k \in 1..2 |-> IF m2.rets[k].k = "raise" THEN [k |-> "none", v |-> ""] ELSE m2.rets[k]] IN
              Emit([e |-> "batch", reqs |-> <<r1, r2>>, rets |-> rets, ret |-> [k |-> "list", v |-> ""]], m2, cash, kept,
                   [op |-> "batch", reqs |-> <<r1, r2>>, outs |-> <<o1, o2>>])

CancelCall(i, out) == [k |-> "cancel", id |-> i, out |-> out, code |-> "", amt |-> 0, act |-> "", side |-> "", style |-> "", price |-> ""]
Cancel == "cancel" \in Ops /\ \E i \in Pick(Known \cup {"zz"}), out \in Pick({"ok", "raise"}) :
            /\ i # "zz" \/ out = "ok"
            /\ LET calls == IF i \in Known \/ Defect = "cancel_unknown" THEN <<CancelCall(i, out)>> ELSE <<>>
                   twice == IF Defect = "cancel_twice" /\ i \in Known THEN calls \o calls ELSE calls
                   m == [M EXCEPT !.calls = twice,
                                  !.heap = IF Defect = "mark_canceling" /\ i \in Known THEN [@ EXCEPT ![book[At(book, heap, i)]].status = "canceling"] ELSE @] IN
               Emit([e |-> "cancel", id |-> i, ret |-> [k |-> "none", v |-> ""]], m, cash, kept,
                    [op |-> "cancel", id |-> i, known |-> i \in Known, nth |-> IF i \in Known THEN At(book, heap, i) - 1 ELSE 0, out |-> out])

SidePos(rep, s) == SelectSeq(rep.pos, LAMBDA p : p.side = s)
Balance == "balance" \in Ops /\ \E rep \in Pick(Reports) :
             LET good == rep.ok
                 c2 == IF good THEN <<rep.total, IF Defect = "zero_cash_kept" /\ rep.cash = "0.0" THEN cash[2] ELSE rep.cash,
                                     IF Defect = "left_out_zeroed" /\ rep.locked = "?" THEN "0.0" ELSE Kept(cash[3], rep.locked)>>
                       ELSE IF Defect = "partial_report" THEN <<rep.total, rep.cash, rep.locked>> ELSE cash
                 lo == IF good \/ Defect = "partial_report" THEN SidePos(rep, "long") ELSE long
                 keepOld == SelectSeq(long, LAMBDA p : \A q \in Range(SidePos(rep, "long")) : q.code # p.code)
                 lo2 == IF good /\ Defect = "positions_merged" THEN lo \o keepOld ELSE lo
                 m == [M EXCEPT !.long = lo2, !.short = IF good THEN SidePos(rep, "short") ELSE @] IN
             Emit([e |-> "balance", rep |-> rep, ret |-> [k |-> "none", v |-> ""]], m, c2, kept, [op |-> "balance", rep |-> rep])

(* a report of one or two lines about known orders or a foreign one; the second line may be malformed *)
Upd(m, l) ==
  LET ids == { m.heap[m.book[k]].id : k \in 1..Len(m.book) } IN
  IF l.id \notin ids THEN [m EXCEPT !.heap = Append(@, Remote(l, 0)), !.book = Append(@, Len(m.heap) + 1)]
  ELSE LET k == At(m.book, m.heap, l.id)
           old == m.heap[m.book[k]]
           new == [Remote(l, 0) EXCEPT !.code = old.code, !.act = old.act, !.side = old.side] IN
       IF Defect = "equal_ignores_filled" /\ old.status = l.status THEN m
       ELSE IF Defect = "mutate_in_place" THEN [m EXCEPT !.heap = [@ EXCEPT ![m.book[k]] = new]]
       ELSE [m EXCEPT !.heap = Append(@, new), !.book = [@ EXCEPT ![k] = Len(m.heap) + 1]]
Fit(l) == IF l.id \in Known THEN LET o == heap[book[At(book, heap, l.id)]] IN [l EXCEPT !.code = o.code, !.act = o.act, !.side = o.side] ELSE l
Orders == "orders" \in Ops /\ Len(book) < MaxOrders /\ \E i \in Pick(Known \cup {ExtId}), s \in Pick(Statuses3), f \in Pick({0, 100}), ok \in Pick(BOOLEAN) :
            LET l == Fit(Line(i, s, f))
                dropped == IF Defect = "drop_unreported" THEN [M EXCEPT !.book = SelectSeq(@, LAMBDA b : heap[b].id = i)] ELSE M
                m == IF ok \/ TRUE THEN Upd(dropped, l) ELSE M IN
            Emit([e |-> "orders", rep |-> [ok |-> ok, lines |-> <<l>>], ret |-> [k |-> "none", v |-> ""]], m, cash, kept,
                 [op |-> "orders", ok |-> ok, line |-> l, known |-> i \in Known, nth |-> IF i \in Known THEN At(book, heap, i) - 1 ELSE 0])

Snap == "snap" \in Ops /\ Len(kept) = 0 /\ Len(book) > 0 /\ Emit([e |-> "snap"], M, cash, book, [op |-> "snap"])

Next == /\ errs = {} /\ Len(hist) < MaxSteps
        /\ (Order \/ Batch \/ Cancel \/ Balance \/ Orders \/ Snap)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
(* the heap behind handles and book, without the order in which it was filled *)
View == <<[k \in 1..Len(book) |-> heap[book[k]]], [k \in 1..Len(kept) |-> <<kept[k], heap[kept[k]]>>], cash, long, short, st, errs, Len(hist)>>
Scenario == Len(hist) = MaxSteps => PrintT(ToJson(hist))
=============================================================================
