------------------------------ MODULE AcctSync ------------------------------
(* C06: when the account is synchronised. Step relation over recorded calls of the trade gate (sb: balance, so: orders),
   tasks (busy time) and the end of the run.  cfg: i, im: interval (seconds, milliseconds); win: windows of the day, empty for "all day"; bal, ord:
   the two switches; st: start.                                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

DAY == 86400
TOL == 50
Max(a, b) == IF a > b THEN a ELSE b

InWin(c, s) == c.win = <<>> \/ \E k \in 1..Len(c.win) : LET d == s % DAY IN c.win[k][1] <= d /\ d <= c.win[k][2]

(* starts and ends of all windows of the day of s and the next one *)
Wins(c, s) == { <<(s \div DAY) * DAY + j * DAY + c.win[k][1], (s \div DAY) * DAY + j * DAY + c.win[k][2]>> :
                  k \in 1..Len(c.win), j \in 0..2 }
(* the latest instant at which the synchronisation after one at s has to be scheduled;
   fractional intervals are rounded up, the timer has a resolution of one second *)
Gap(c) == IF c.im > 0 THEN c.i + 1 ELSE c.i
NextReq(c, s) ==
  IF c.win = <<>> THEN s + Gap(c)
  ELSE LET W == Wins(c, s)
           here == { w \in W : w[1] <= s /\ s <= w[2] }
           later == { w[1] : w \in { x \in W : x[1] > s } } IN
       IF \E w \in here : s + Gap(c) <= w[2] THEN s + Gap(c)
       ELSE CHOOSE a \in later : \A b \in later : a <= b

SInit(c) == [ boot |-> <<>>, up |-> FALSE, last |-> c.st, half |-> "", busy |-> c.st, busym |-> 999 ]

Late(w, wm, b, bm) == w > b + 2 \/ (w >= b /\ (w - b) * 1000 + wm - bm > TOL)
Lt(a, am, b, bm) == a < b \/ (a = b /\ am < bm)

BootStep(c, st, e) ==
  [ st |-> [st EXCEPT !.boot = Append(@, e.e)],
    errs |-> (IF e.e = "sb" /\ ~c.bal THEN {"balance_though_off"} ELSE {}) \cup
             (IF e.e = "so" /\ ~c.ord THEN {"orders_though_off"} ELSE {}) ]
UpStep(c, st, e) ==
  LET want == (IF c.bal THEN <<"sb">> ELSE <<>>) \o (IF c.ord THEN <<"so">> ELSE <<>>) IN
  [ st |-> [st EXCEPT !.up = TRUE, !.busy = e.w, !.busym = e.wm],
    errs |-> IF st.boot # want THEN {"startup_sync"} ELSE {} ]
NewTick(c, st, e) ==
  LET req == NextReq(c, st.last)
      lim == Max(req, st.busy)
      due == IF Lt(st.busy, st.busym, e.s, 0) THEN <<e.s, 0>> ELSE <<st.busy, st.busym>> IN
  [ st |-> [st EXCEPT !.last = e.s, !.half = e.e, !.busy = e.x, !.busym = e.xm],
    errs |-> (IF e.e = "sb" /\ ~c.bal THEN {"balance_though_off"} ELSE {}) \cup
             (IF e.e = "so" /\ ~c.ord THEN {"orders_though_off"} ELSE {}) \cup
             (IF e.e = "so" /\ c.bal THEN {"orders_without_balance"} ELSE {}) \cup
             (IF st.half = "sb" /\ c.ord THEN {"balance_without_orders"} ELSE {}) \cup
             (IF ~InWin(c, e.s) THEN {"outside_period"} ELSE {}) \cup
             (IF e.s > lim THEN {"gap"} ELSE {}) \cup
             (IF e.s < st.last THEN {"back_in_time"} ELSE {}) \cup
             (IF Lt(e.w, e.wm, e.s, 0) THEN {"early"} ELSE {}) \cup
             (IF Late(e.w, e.wm, due[1], due[2]) THEN {"late"} ELSE {}) ]
SecondHalf(c, st, e) ==
  [ st |-> [st EXCEPT !.half = "so", !.busy = e.x, !.busym = e.xm],
    errs |-> (IF ~c.ord THEN {"orders_though_off"} ELSE {}) \cup
             (IF e.s # st.last THEN {"orders_apart_from_balance"} ELSE {}) ]
ExitStep(c, st, e) ==
  [ st |-> st,
    errs |-> IF e.how = "horizon"
               THEN (IF ~st.up THEN {"did_not_start"} ELSE {}) \cup
                    (IF (c.bal \/ c.ord) /\ st.busy < e.w /\ Lt(NextReq(c, st.last), 100, e.w, e.wm) THEN {"gap"} ELSE {}) \cup
                    (IF st.half = "sb" /\ c.ord /\ ~e.cut THEN {"balance_without_orders"} ELSE {})
               ELSE {"process_ended"} ]

Step(c, st, e) ==
  CASE e.e = "opt" -> UpStep(c, st, e)
    [] e.e \in {"sb", "so"} /\ ~st.up -> BootStep(c, st, e)
    [] e.e = "so" /\ st.half = "sb" /\ c.bal -> SecondHalf(c, st, e)
    [] e.e \in {"sb", "so"} -> NewTick(c, st, e)
    [] e.e = "task" -> [st |-> [st EXCEPT !.busy = e.x, !.busym = e.xm], errs |-> {}]
    [] e.e = "exit" -> ExitStep(c, st, e)

Traces == TLCEval(JsonDeserialize("traces.json"))
VARIABLES t, l, st, errs
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = SInit(Traces[t].cfg) /\ errs = {}
Next == /\ errs = {} /\ l <= Len(Traces[t].ev)
        /\ LET r == Step(Traces[t].cfg, st, Traces[t].ev[l]) IN st' = r.st /\ errs' = r.errs
        /\ l' = l + 1 /\ t' = t
Verdict == (errs # {} \/ l > Len(Traces[t].ev)) => PrintT(ToJson([id |-> Traces[t].id, at |-> l - 1, n |-> Len(Traces[t].ev), errs |-> errs]))
Spec == Init /\ [][Next]_<<t, l, st, errs>>
=============================================================================
