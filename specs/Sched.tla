------------------------------- MODULE Sched -------------------------------
(* What a user of jqtrade may rely on from the scheduler: which occurrences a set of registered daily tasks has
   (time expressions, trading periods), which of them is the next to run, when it may run, what stops the process.
   The module has no variables of its own: it is the transition relation  Step(cfg, offs, st, event)  over an abstract
   scheduler state, together with the set of clauses the event violates.  SchedTrace applies it to executions recorded
   from the real process; SchedDesign checks exhaustively that the mechanism (event sources, queue, loop) never
   produces an event that violates a clause.

   Times are seconds since midnight of the day the process started, with milliseconds kept separately (TLC integers
   are 32-bit).                                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

DAY == 86400

-----------------------------------------------------------------------------
(* C03: the meaning of time expressions *)
OpenT(per)  == per[1][1]
CloseT(per) == per[Len(per)][2]
Shift(x) == x.sg * (x.h * 3600 + x.m * 60 + x.s)
MinuteSteps(p) == { p[1] + 60 * k : k \in 0..((p[2] - p[1]) \div 60) }
Offsets(x, per) ==
  CASE x.k = "clock"       -> { x.h * 3600 + x.m * 60 + x.s }
    [] x.k = "open"        -> { OpenT(per) + Shift(x) }
    [] x.k = "close"       -> { CloseT(per) + Shift(x) }
    [] x.k = "before_open" -> { OpenT(per) - 1800 }
    [] x.k = "after_close" -> { CloseT(per) + 1800 }
    [] x.k = "minute"      -> UNION { MinuteSteps(per[i]) : i \in 1..Len(per) }
OffsetSeq(x, per) == SetToSortSeq(Offsets(x, per), <)
CfgOffs(c) == [i \in 1..Len(c.regs) |-> TLCEval(OffsetSeq(c.regs[i], c.per))]

Prio(r) == IF r.k = "minute" THEN 1 ELSE 0      \* account synchronisation has 2, see the "sync" event

-----------------------------------------------------------------------------
Occ(o, k) == (k \div Len(o)) * DAY + o[(k % Len(o)) + 1]

Lt(a, am, b, bm) == a < b \/ (a = b /\ am < bm)
Le(a, am, b, bm) == ~Lt(b, bm, a, am)

(* index of the first occurrence of o that is not before (s, sm) *)
RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(o, k, s, sm) == IF Lt(Occ(o, k), 0, s, sm) THEN FirstFrom(o, k + 1, s, sm) ELSE k
FirstIdx(o, s, sm) == FirstFrom(o, IF s > 2 * DAY THEN ((s \div DAY) - 2) * Len(o) ELSE 0, s, sm)

(* Occurrences that fall while the initialisation function is still running may or may not be run: the first call
   observed decides. *)
FirstCall(i, c, ev) ==
  LET S == { k \in 1..Len(ev) : ev[k].e = "call" /\ ev[k].f = c.regs[i].f } IN
  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
InitPtr(i, c, o, ev) ==
  LET k == FirstCall(i, c, ev) IN
  IF k # 0 /\ Le(c.ini, c.inim, ev[k].s, ev[k].sm) THEN FirstIdx(o, c.ini, c.inim)
  ELSE IF k = 0 THEN FirstIdx(o, c.ini, c.inim)
  ELSE FirstIdx(o, c.st, c.stm)

SInit(c, offs, ev) ==
  [ ptr   |-> [i \in 1..Len(c.regs) |-> InitPtr(i, c, offs[i], ev)],
    busy  |-> c.ini, busym |-> c.inim,       \* end of the latest activity
    last  |-> -1000000000, lastsync |-> TRUE, \* scheduled time and kind of the latest activity
    dead  |-> "" ]                            \* "raise" after a failed task, "cut" when the run was cut inside a task

Nx(offs, st, i) == Occ(offs[i], st.ptr[i])
SameDay(offs, i, k) == LET o == offs[i][(k % Len(offs[i])) + 1] IN 0 <= o /\ o < DAY

(* i is due strictly before j *)
Before(c, offs, st, i, j) ==
  LET a == Nx(offs, st, i)  b == Nx(offs, st, j) IN
  \/ a < b
  \/ a = b /\ Prio(c.regs[i]) > Prio(c.regs[j])
  \/ a = b /\ Prio(c.regs[i]) = Prio(c.regs[j]) /\ i < j
     /\ SameDay(offs, i, st.ptr[i]) /\ SameDay(offs, j, st.ptr[j])

(* the registration this call belongs to: the earliest pending one of that function *)
Least(c, offs, st, S) ==
  CHOOSE i \in S : \A j \in S \ {i} :
     LET a == Nx(offs, st, i)  b == Nx(offs, st, j) IN
     a < b \/ (a = b /\ (Prio(c.regs[i]) > Prio(c.regs[j]) \/ (Prio(c.regs[i]) = Prio(c.regs[j]) /\ i < j)))

IsOcc(o, s) == \E j \in 1..Len(o) : (s - o[j]) % DAY = 0
Max2(a, am, b, bm) == IF Lt(a, am, b, bm) THEN <<b, bm>> ELSE <<a, am>>
(* (w, wm) is later than (b, bm) by more than tol milliseconds *)
LateBy(w, wm, b, bm, tol) == w > b + 2 \/ (w >= b /\ (w - b) * 1000 + wm - bm > tol)
TOL == 50
(* the strategy's current time is the wall clock, up to the millisecond rounding of the implementation *)
CurrentOK(e) == \/ e.c = e.w /\ e.cm - e.wm \in -2..2
                \/ e.c = e.w - 1 /\ e.cm >= 998 /\ e.wm <= 1

StopBefore(c, w, wm) == \E k \in 1..Len(c.sigs) : Lt(c.sigs[k].w, c.sigs[k].wm, w, wm)
StopAtOrBefore(c, w, wm) == \E k \in 1..Len(c.sigs) : Le(c.sigs[k].w, c.sigs[k].wm, w, wm)
FirstStop(c) == CHOOSE s \in { <<c.sigs[k].w, c.sigs[k].wm>> : k \in 1..Len(c.sigs) } :
                  \A k \in 1..Len(c.sigs) : Le(s[1], s[2], c.sigs[k].w, c.sigs[k].wm)

CallStep(c, offs, st, e) ==
  LET S == { i \in 1..Len(c.regs) : c.regs[i].f = e.f } IN
  IF S = {} THEN [st |-> st, errs |-> {"C01:unregistered_function"}]
  ELSE
  LET i    == Least(c, offs, st, S)
      nx   == Nx(offs, st, i)
      due  == Max2(st.busy, st.busym, nx, 0)
      seqbad == ~(e.s = nx /\ e.sm = 0)
      isocc  == \E j \in S : IsOcc(offs[j], e.s)
      errs ==
        (IF st.dead = "raise" THEN {"C04:task_after_failure"} ELSE {}) \cup
        (IF StopBefore(c, e.w, e.wm) THEN {"C04:task_after_stop"} ELSE {}) \cup
        (IF seqbad /\ e.s > nx /\ isocc THEN {"C01:occurrence_lost", "C03:occurrence_lost"} ELSE {}) \cup
        (IF seqbad /\ e.s < nx /\ isocc /\ Lt(e.s, e.sm, c.st, c.stm) THEN {"C01:before_start"} ELSE {}) \cup
        (IF seqbad /\ e.s < nx /\ isocc /\ ~Lt(e.s, e.sm, c.st, c.stm) THEN {"C01:occurrence_repeated"} ELSE {}) \cup
        (IF seqbad /\ ~isocc THEN {"C03:not_an_occurrence"} ELSE {}) \cup
        (IF seqbad THEN {"C02:strategy_dt"} ELSE {}) \cup
        (IF Lt(e.w, e.wm, nx, 0) THEN {"C02:early"} ELSE {}) \cup
        (IF ~seqbad /\ LateBy(e.w, e.wm, due[1], due[2], TOL) THEN {"C02:late"} ELSE {}) \cup
        (IF \E j \in 1..Len(c.regs) : j # i /\ c.regs[j].f # e.f /\ Before(c, offs, st, j, i)
           THEN {"C02:order"} \cup (IF \E j \in 1..Len(c.regs) : Nx(offs, st, j) < nx THEN {"C01:overtaken"} ELSE {})
           ELSE {}) \cup
        (IF e.s < st.last THEN {"C02:time_went_back"} ELSE {}) \cup
        (IF ~CurrentOK(e) THEN {"C02:current_dt"} ELSE {})
  IN [ st |-> [st EXCEPT !.ptr[i] = @ + 1, !.busy = e.x, !.busym = e.xm, !.last = e.s, !.lastsync = FALSE,
                         !.dead = IF e.out = "ok" THEN "" ELSE e.out],
       errs |-> errs ]

(* an account synchronisation between the tasks; its own times are the business of AcctSync *)
SyncStep(c, st, e) ==
  [ st |-> [st EXCEPT !.busy = e.x, !.busym = e.xm, !.last = e.s, !.lastsync = TRUE],
    errs |-> (IF st.dead = "raise" THEN {"C04:task_after_failure"} ELSE {}) \cup
             (IF e.new /\ StopBefore(c, e.w, e.wm) THEN {"C04:sync_after_stop"} ELSE {}) \cup
             (IF e.s < st.last THEN {"C02:time_went_back"} ELSE {}) \cup
             (IF e.s = st.last /\ ~st.lastsync THEN {"C02:sync_after_task"} ELSE {}) \cup
             (IF Lt(e.w, e.wm, e.s, 0) THEN {"C02:early"} ELSE {}) ]

(* the end of the run: the harness cuts it at a horizon, or the process ended *)
ExitStep(c, offs, st, e) ==
  LET missed == { i \in 1..Len(c.regs) : Lt(Nx(offs, st, i), 100, e.w, e.wm) }
      stopped == StopAtOrBefore(c, e.w, e.wm)
      from == IF stopped THEN LET s == FirstStop(c) IN Max2(s[1], s[2], st.busy, st.busym) ELSE <<0, 0>>
      errs ==
        CASE e.how = "horizon" ->
               (IF st.dead = "raise" THEN {"C04:survived_failure"} ELSE {}) \cup
               (IF stopped /\ LateBy(e.w, e.wm, from[1], from[2], TOL) /\ st.dead # "cut" THEN {"C04:stop_ignored"} ELSE {}) \cup
               (IF st.dead = "" /\ ~stopped /\ missed # {} THEN {"C01:occurrence_lost", "C03:occurrence_lost"} ELSE {})
          [] e.how = "normal" ->
               (IF st.dead = "raise" THEN {"C04:failure_swallowed"} ELSE {}) \cup
               (IF ~stopped /\ st.dead = "" THEN {"C01:ended_early", "C04:ended_without_request"} ELSE {}) \cup
               (IF stopped /\ LateBy(e.w, e.wm, from[1], from[2], TOL) THEN {"C04:stopped_late"} ELSE {}) \cup
               (* nothing that was due before the stop may have been dropped while the process was idle *)
               (IF stopped /\ \E i \in 1..Len(c.regs) :
                     LET due == Max2(st.busy, st.busym, Nx(offs, st, i), 0) IN
                     LateBy(FirstStop(c)[1], FirstStop(c)[2], due[1], due[2], TOL)
                THEN {"C01:occurrence_lost"} ELSE {})
          [] e.how = "error" ->
               (IF st.dead # "raise" THEN {"C04:unexpected_error"} ELSE {}) \cup
               (IF st.dead = "raise" /\ ~e.same THEN {"C04:other_error"} ELSE {}) \cup
               (IF st.dead = "raise" /\ LateBy(e.w, e.wm, st.busy, st.busym, TOL) THEN {"C04:stopped_late"} ELSE {})
          [] e.how = "signal" -> {"C04:killed_by_signal"}
          [] OTHER -> {"C04:ended_abnormally", "C01:ended_early"}
  IN [st |-> st, errs |-> errs]

Step(c, offs, st, e) ==
  CASE e.e = "call" -> CallStep(c, offs, st, e)
    [] e.e = "sync" -> SyncStep(c, st, e)
    [] e.e = "exit" -> ExitStep(c, offs, st, e)
    [] OTHER -> [st |-> st, errs |-> {}]
=============================================================================
