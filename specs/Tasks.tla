------------------------------- MODULE Tasks -------------------------------
(* C18: what starting, listing and stopping tasks must do, given the process table during the request.
   A table is a set of entries  Known([id, pid, ppid, cmd, span, read, sig, dead]):
     cmd   sequence of words (a word is a sequence of characters)
     span  "stay": live during the whole request;  "part": it appeared or ended meanwhile
     read  "ok" | "hidden" (no access to the command line, some other program) | "denied" (no access, a python process)
     sig   "ok" | "denied" (this user may not signal it)
     dead  ended but not yet waited for
   An entry is a task when its command line runs jqtrade's start_task. A task that is another task's parent is only its wrapper (sudo, timeout,
   a launcher): the task is the process it started.                                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- command lines
JQ == <<"j","q","t","r","a","d","e">>
ST == <<"s","t","a","r","t","_","t","a","s","k">>
Long == [name |-> <<"-","-","n","a","m","e">>, code |-> <<"-","-","c","o","d","e">>, out |-> <<"-","-","o","u","t">>,
         env |-> <<"-","-","e","n","v">>, config |-> <<"-","-","c","o","n","f","i","g">>, debug |-> <<"-","-","d","e","b","u","g">>,
         help |-> <<"-","-","h","e","l","p">>]
Short == [n |-> "name", c |-> "code", o |-> "out", e |-> "env"]
At(w, i, s) == i + Len(s) - 1 <= Len(w) /\ \A j \in 1..Len(s) : w[i + j - 1] = s[j]
Contains(w, s) == \E i \in 1..Len(w) : At(w, i, s)
TaskAt(cmd) == { i \in 1..(Len(cmd) - 1) : Contains(cmd[i], JQ) /\ cmd[i + 1] = ST }
IsTask(cmd) == TaskAt(cmd) # {}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

\* -n v   -nv   -n=v   --name v   --name=v   and unambiguous abbreviations of the long forms; the last one counts
EqAt(w) == LET S == { i \in 1..Len(w) : w[i] = "=" } IN IF S = {} THEN 0 ELSE First(S)
Opt(w) ==
  IF Len(w) < 2 \/ w[1] # "-" THEN [o |-> "", has |-> FALSE, v |-> <<>>]
  ELSE IF w[2] = "-" THEN
    LET q == EqAt(w)  p == IF q = 0 THEN w ELSE SubSeq(w, 1, q - 1)
        exact == { k \in DOMAIN Long : Long[k] = p }
        abbr == { k \in DOMAIN Long : At(Long[k], 1, p) }
        c == IF exact # {} THEN exact ELSE abbr IN
    IF Cardinality(c) = 1 THEN [o |-> CHOOSE k \in c : TRUE, has |-> q # 0, v |-> IF q = 0 THEN <<>> ELSE SubSeq(w, q + 1, Len(w))]
    ELSE [o |-> "", has |-> FALSE, v |-> <<>>]
  ELSE IF w[2] \in DOMAIN Short THEN
    [o |-> Short[w[2]], has |-> Len(w) > 2, v |-> IF Len(w) > 2 THEN SubSeq(w, IF w[3] = "=" THEN 4 ELSE 3, Len(w)) ELSE <<>>]
  ELSE [o |-> "", has |-> FALSE, v |-> <<>>]

None == <<"N","o","n","e">>
RECURSIVE Read(_, _)
Read(ws, acc) ==
  IF ws = <<>> THEN acc
  ELSE LET t == Opt(Head(ws)) IN
       IF t.o = "debug" THEN Read(Tail(ws), [acc EXCEPT !.debug = TRUE])
       ELSE IF t.o \in {"", "help"} THEN Read(Tail(ws), acc)
       ELSE IF t.has THEN Read(Tail(ws), [acc EXCEPT ![t.o] = t.v])
       ELSE IF Len(ws) = 1 THEN acc
       ELSE Read(Tail(Tail(ws)), [acc EXCEPT ![t.o] = ws[2]])
Nothing == [name |-> None, code |-> None, out |-> None, env |-> None, config |-> None, debug |-> FALSE]
Info(cmd) == Read(SubSeq(cmd, First(TaskAt(cmd)) + 2, Len(cmd)), Nothing)

\* ---------------------------------------------------------------- who is a task
Known(p) == LET t == IsTask(p.cmd) IN p @@ [task |-> t, info |-> IF t THEN Info(p.cmd) ELSE Nothing]
Live(r) == { p \in r.procs : ~p.dead /\ p.read = "ok" /\ p.task }
Kids(r, p) == { c \in Live(r) : c.ppid = p.pid /\ c.id # p.id }
Never(r, p) == \E c \in Kids(r, p) : c.span = "stay"
Sure(r) == { p \in Live(r) : p.span = "stay" /\ Kids(r, p) = {} }
Maybe(r) == { p \in Live(r) : ~Never(r, p) }
Denied(r) == \E p \in r.procs : p.read = "denied" /\ ~p.dead          \* nobody can tell what this python process is

\* ---------------------------------------------------------------- the three requests
ShownOk(x, p) == LET i == p.info IN
  x.pid = p.pid /\ x.name = i.name /\ x.code = i.code /\ x.out = i.out /\ x.env = i.env /\ x.debug = i.debug
ListErrs(r) ==
  IF r.err THEN IF Denied(r) THEN {} ELSE {"list_fails"}
  ELSE (IF \E p \in Sure(r) : ~\E k \in 1..Len(r.shown) : r.shown[k].pid = p.pid THEN {"task_not_listed"} ELSE {})
    \cup (IF \E k \in 1..Len(r.shown) : ~\E p \in Maybe(r) : p.pid = r.shown[k].pid THEN {"listed_what_is_no_task"} ELSE {})
    \cup (IF \E k \in 1..Len(r.shown) : LET c == { p \in Maybe(r) : p.pid = r.shown[k].pid } IN c # {} /\ ~\E p \in c : ShownOk(r.shown[k], p)
            THEN {"listed_wrongly"} ELSE {})
    \cup (IF \E j, k \in 1..Len(r.shown) : j # k /\ r.shown[j].pid = r.shown[k].pid THEN {"listed_twice"} ELSE {})

Twin(r, p) == p.pid \notin {r.self, r.parent} /\ p.info.name = r.name
StartErrs(r) ==
  (IF r.accepted /\ \E p \in Sure(r) : Twin(r, p) THEN {"started_beside_a_live_task_of_that_name"} ELSE {})
  \cup (IF ~r.accepted /\ ~Denied(r) /\ ~\E p \in Maybe(r) : Twin(r, p) THEN {"refused_without_a_live_task_of_that_name"} ELSE {})

Match(r, p) == CASE r.sel = "all" -> TRUE [] r.sel = "pid" -> p.pid = r.selpid [] r.sel = "name" -> p.info.name = r.name [] OTHER -> FALSE
Got(r, p) == { k \in 1..Len(r.sigs) : r.sigs[k].id = p.id }
StopErrs(r) ==
  LET want == IF r.force THEN 9 ELSE 15
      hit == { p \in Maybe(r) : Match(r, p) }  due == { p \in Sure(r) : Match(r, p) /\ p.sig = "ok" } IN
  (IF ~(r.err /\ Denied(r)) /\ \E p \in due : Got(r, p) = {} THEN {"task_not_signalled"} ELSE {})
  \cup (IF \E k \in 1..Len(r.sigs) : ~\E p \in hit : r.sigs[k].id = p.id THEN {"signalled_another_process"} ELSE {})
  \cup (IF \E p \in hit : Cardinality(Got(r, p)) > 1 THEN {"signalled_twice"} ELSE {})
  \cup (IF \E k \in 1..Len(r.sigs) : r.sigs[k].sig # want THEN {"wrong_signal"} ELSE {})
  \cup (IF r.err /\ r.sel # "none" /\ ~Denied(r) /\ ~\E p \in hit : p.sig = "denied" THEN {"stop_fails"} ELSE {})
  \cup (IF ~r.err /\ r.sel = "none" THEN {"stop_of_nothing_accepted"} ELSE {})

Errs(r) == CASE r.op = "list" -> ListErrs(r) \cup (IF Len(r.sigs) > 0 THEN {"list_signals"} ELSE {})
             [] r.op = "start" -> StartErrs(r) \cup (IF Len(r.sigs) > 0 THEN {"start_signals"} ELSE {})
             [] OTHER -> StopErrs(r)
=============================================================================
