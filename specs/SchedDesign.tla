---------------------------- MODULE SchedDesign ----------------------------
(* The mechanism of jqtrade's scheduler, one action per step of the code:
     - an event source per registration generates the events of one day at a time from a batch of days
       (EventSource.gen_events/_get_days) and keeps exactly one message of its own in the queue;
     - the queue hands out the message with the least (time, -priority, insertion number);
     - the loop either handles it, or waits for it; a stop request is only noticed when the loop polls.
   Every observable step is handed to Sched!Step; the invariant is that no clause is ever violated.
   The constant Defect switches on known wrong mechanisms, to show that the invariant notices them.               *)
EXTENDS Sched, Json

CONSTANTS NReg,        \* number of registrations
          Ticks,       \* ticks a day is divided into
          Batch,       \* days generated at a time (EVENT_DAYS_COUNT)
          Horizon,     \* ticks after which the run is cut
          Durs,        \* possible task durations, in ticks
          Kinds,       \* subset of {"clock", "minute"}
          WithStop,    \* BOOLEAN: a stop request may arrive
          WithFail,    \* BOOLEAN: a task may fail
          Defect       \* "none" or the name of a wrong mechanism

T == DAY \div Ticks
Secs(k) == k * T

VARIABLES regs, start, stop,           \* the scenario (fixed in Init)
          clock, src, queue, seq,      \* the mechanism
          phase, noticed, calls,
          st, errs, durs               \* history: abstract state, violated clauses, durations chosen
vars == <<regs, start, stop, clock, src, queue, seq, phase, noticed, calls, st, errs, durs>>

Exprs == { [f |-> "", k |-> k, h |-> Secs(o) \div 3600, m |-> 0, s |-> 0, sg |-> 1] : k \in {"clock"} \cap Kinds, o \in 0..(Ticks-1) }
         \cup { [f |-> "", k |-> "minute", h |-> 0, m |-> 0, s |-> 0, sg |-> 1] : k \in {"minute"} \cap Kinds }
(* the single trading period has one whole minute: two every-minute steps within the first tick *)
Per == << <<Secs(1), Secs(1) + 60>> >>

Cfg == [regs |-> regs, per |-> Per, st |-> Secs(start), stm |-> 0, ini |-> Secs(start), inim |-> 0,
        sigs |-> IF stop < 0 THEN <<>> ELSE << [w |-> Secs(stop) + 1, wm |-> 0] >>]
O == [i \in 1..NReg |-> OffsetSeq(regs[i], Per)]

(* ---- event source: generation of events ---- *)
DayEvents(o, d, from) == SelectSeq([j \in 1..Len(o) |-> d * DAY + o[j]], LAMBDA x : x >= from)
NewBatch(s) == IF Defect = "regen_today" THEN [j \in 1..Batch |-> (clock \div DAY) + j - 1]
               ELSE [j \in 1..Batch |-> s.last + j]
RECURSIVE Gen(_, _)
Gen(s, o) == IF s.events # <<>> THEN s
             ELSE IF s.days = <<>> THEN Gen([s EXCEPT !.days = NewBatch(s)], o)
             ELSE Gen([s EXCEPT !.events = DayEvents(o, Head(s.days), Secs(start)), !.last = Head(s.days), !.days = Tail(s.days)], o)

Msg(i, s, n) == [time |-> Head(s.events), prio |-> Prio(regs[i]), seq |-> n, src |-> i]
MsgLess(a, b) == \/ a.time < b.time
                 \/ a.time = b.time /\ Defect # "no_priority" /\ a.prio > b.prio
                 \/ a.time = b.time /\ (Defect = "no_priority" \/ a.prio = b.prio) /\ (IF Defect = "lifo" THEN a.seq > b.seq ELSE a.seq < b.seq)
MinMsg == CHOOSE m \in queue : \A x \in queue \ {m} : MsgLess(m, x)

Init == /\ \E f \in [1..NReg -> Exprs] : regs = [i \in 1..NReg |-> [f[i] EXCEPT !.f = "f" \o ToString(i)]]
        /\ start \in 0..(Ticks - 1)
        /\ stop \in {-1} \cup (IF WithStop THEN start..(Horizon - 1) ELSE {})
        /\ clock = Secs(start)
        /\ src = [i \in 1..NReg |-> Gen([events |-> <<>>, days |-> [j \in 1..Batch |-> j - 1], last |-> -1], O[i])]
        /\ queue = { Msg(i, src[i], i) : i \in 1..NReg }
        /\ seq = NReg
        /\ phase = "loop" /\ noticed = FALSE /\ calls = 0
        /\ st = SInit(Cfg, O, <<>>)
        /\ errs = {} /\ durs = <<>>

Raised(w) == stop >= 0 /\ Secs(stop) + 1 <= w      \* the signal has been delivered by w
Judge(e) == LET r == Step(Cfg, O, st, e) IN st' = r.st /\ errs' = r.errs
Ends(how) == /\ phase' = "done"
             /\ Judge([e |-> "exit", how |-> how, w |-> clock, wm |-> 0, same |-> TRUE])
             /\ UNCHANGED <<regs, start, stop, clock, src, queue, seq, noticed, calls, durs>>

(* poll: a delivered signal is turned into a stop request *)
Poll == /\ phase = "poll"
        /\ noticed' = (noticed \/ Raised(clock))
        /\ phase' = "loop"
        /\ UNCHANGED <<regs, start, stop, clock, src, queue, seq, calls, st, errs, durs>>

Stop == phase = "loop" /\ noticed /\ Ends("normal")

(* wait for the first message: the clock jumps to it, or to the signal, or to the end of the run *)
Wait == /\ phase = "loop" /\ ~noticed
        /\ MinMsg.time > clock
        /\ LET t == MinMsg.time
               e == Secs(Horizon) + 10 IN
           IF stop >= 0 /\ Secs(stop) + 1 > clock /\ Secs(stop) + 1 < t /\ Secs(stop) + 1 < e
             THEN /\ clock' = Secs(stop) + 1 /\ phase' = "poll"
                  /\ UNCHANGED <<st, errs>>
             ELSE IF t > e
             THEN /\ clock' = e /\ phase' = "done"
                  /\ Judge([e |-> "exit", how |-> "horizon", w |-> e, wm |-> 0, same |-> TRUE])
             ELSE /\ clock' = t /\ phase' = "poll" /\ UNCHANGED <<st, errs>>
        /\ UNCHANGED <<regs, start, stop, src, queue, seq, noticed, calls, durs>>

Handle(d, fails) ==
  /\ phase = "loop" /\ ~noticed
  /\ MinMsg.time <= clock
  /\ clock < Secs(Horizon)
  /\ LET m == MinMsg
         i == m.src
         s1 == [src[i] EXCEPT !.events = Tail(@)]
         e == [e |-> "call", f |-> regs[i].f, s |-> m.time, sm |-> 0, w |-> clock, wm |-> 0, c |-> clock, cm |-> 0,
               x |-> clock + Secs(d), xm |-> 0, out |-> IF fails THEN "raise" ELSE "ok"] IN
     /\ clock' = clock + Secs(d)
     /\ calls' = calls + 1
     /\ durs' = Append(durs, <<i, d, fails>>)
     /\ Judge(e)
     /\ IF fails
          THEN /\ phase' = "failed" /\ UNCHANGED <<src, queue, seq, noticed>>
          ELSE LET s2 == Gen(IF Defect = "drop_overdue"
                               THEN [s1 EXCEPT !.events = SelectSeq(@, LAMBDA x : x >= clock')] ELSE s1, O[i]) IN
               /\ src' = [src EXCEPT ![i] = s2]
               /\ seq' = seq + 1
               /\ queue' = (queue \ {m}) \cup { Msg(i, s2, seq') }
               /\ phase' = IF Defect = "drain_backlog" THEN "loop" ELSE "poll"
               /\ noticed' = noticed
  /\ UNCHANGED <<regs, start, stop>>

Fail == phase = "failed" /\ Ends(IF Defect = "swallow" THEN "normal" ELSE "error")
Cut == phase = "loop" /\ clock >= Secs(Horizon) /\ ~noticed /\ MinMsg.time <= clock /\ phase' = "done"
       /\ UNCHANGED <<regs, start, stop, clock, src, queue, seq, noticed, calls, st, errs, durs>>

Next == \/ Poll \/ Stop \/ Wait \/ Fail \/ Cut
        \/ \E d \in Durs : \E f \in (IF WithFail THEN BOOLEAN ELSE {FALSE}) : Handle(d, f)
Spec == Init /\ [][Next]_vars

NoClauseViolated == errs = {}
(* one message per source, never more and never none while running *)
OneMessageEach == phase \in {"loop", "poll"} => \A i \in 1..NReg : Cardinality({ m \in queue : m.src = i }) = 1
View == <<regs, start, stop, clock, src, queue, phase, noticed, st, errs>>

(* scenarios for replay against the real process *)
Scenario == phase = "done" =>
  PrintT(ToJson([regs |-> [i \in 1..NReg |-> [k |-> regs[i].k, h |-> regs[i].h]], start |-> start, stop |-> stop, durs |-> durs, ticks |-> Ticks,
                 horizon |-> Horizon]))
=============================================================================
