---------------------------- MODULE TasksDesign ----------------------------
(* The mechanism: a starting strategy, a listing or a stop request reads the process table one process at a time while processes come and go;
   a starting strategy is visible in the table (with its name) before it begins to read. Each request is judged by Tasks.tla at its end.    *)
EXTENDS Tasks, Integers, Json
CONSTANTS NTasks, NOps, Defect, Sim
Name(n) == IF n = "a" THEN <<"a">> ELSE <<"a","b">>
T == 1..NTasks
Dash == <<"-","n">>
Cmd(n) == << <<"x">> \o JQ, ST, Dash, Name(n) >>
OtherCmd == << <<"v","i">>, JQ \o <<"/">> \o ST >>
\* process ids: wrapper of task t is 2t-1, the task 2t; one unrelated process has id 0
Pids == 0..(2 * NTasks)
VARIABLES ini,   \* [t -> [name, wrapped]]
          st,    \* [t -> "none"|"wrap" (only the wrapper runs)|"read"|"run"|"refused"|"gone"]
          alive, \* pids in the table
          req,   \* requests under way: function from requester (task id, or 0 for the operator) to a record
          nops, errs, log
vars == <<ini, st, alive, req, nops, errs, log>>
Idle == [on |-> FALSE, op |-> "", sel |-> "", name |-> "a", pid |-> 0, todo |-> {}, seen |-> {}, was |-> {}, ever |-> {}, sigs |-> <<>>, phase |-> "", left |-> {}]
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ ini \in Pick([T -> [name : {"a","b"}, wrapped : BOOLEAN]])
        /\ st = [t \in T |-> "none"] /\ alive = {0} /\ req = [k \in 0..NTasks |-> Idle] /\ nops = 0 /\ errs = {} /\ log = <<>>

CmdOf(p) == IF p = 0 THEN OtherCmd ELSE Cmd(ini[(p + 1) \div 2].name)
Ppid(p) == IF p # 0 /\ p % 2 = 0 /\ ini[p \div 2].wrapped THEN p - 1 ELSE 0
\* every table change is noted by the requests under way
Noted(q, al) == [k \in 0..NTasks |-> IF q[k].on THEN [q[k] EXCEPT !.was = @ \cap al, !.ever = @ \cup al] ELSE q[k]]
Begin(op, sel, n, pid) == [Idle EXCEPT !.on = TRUE, !.op = op, !.sel = sel, !.name = n, !.pid = pid, !.todo = alive, !.was = alive, !.ever = alive, !.phase = "read"]
Entry(q, p) == Known([id |-> p, pid |-> p + 100, ppid |-> Ppid(p) + 100, cmd |-> CmdOf(p), span |-> IF p \in q.was THEN "stay" ELSE "part", read |-> "ok", sig |-> "ok", dead |-> FALSE])
Rec(k, q, accepted, shown) ==
  [op |-> q.op, self |-> 2 * k + 100, parent |-> Ppid(2 * k) + 100, name |-> Name(q.name), sel |-> q.sel, selpid |-> q.pid + 100, force |-> FALSE,
   procs |-> { Entry(q, p) : p \in q.ever }, accepted |-> accepted, err |-> FALSE, shown |-> shown, sigs |-> q.sigs]

\* ---------------------------------------------------------------- processes
Exec(t) == /\ st[t] \in {"none", "wrap"}
           /\ IF st[t] = "none" /\ ini[t].wrapped
              THEN /\ st' = [st EXCEPT ![t] = "wrap"] /\ alive' = alive \cup {2 * t - 1} /\ req' = Noted(req, alive')
              ELSE /\ st' = [st EXCEPT ![t] = "read"] /\ alive' = alive \cup {2 * t}
                   /\ LET q == Noted(req, alive') IN req' = [q EXCEPT ![t] = [Begin("start", "", ini[t].name, 0) EXCEPT !.todo = alive', !.was = alive', !.ever = alive']]
           /\ UNCHANGED <<ini, nops, errs, log>>
Ends(t) == /\ st[t] \in {"run", "refused"} /\ st' = [st EXCEPT ![t] = "gone"] /\ alive' = alive \ {2 * t} /\ req' = Noted(req, alive') /\ UNCHANGED <<ini, nops, errs, log>>
WrapperEnds(t) == /\ st[t] = "gone" /\ 2 * t - 1 \in alive /\ alive' = alive \ {2 * t - 1} /\ req' = Noted(req, alive') /\ UNCHANGED <<ini, st, nops, errs, log>>

\* ---------------------------------------------------------------- reading
Reads(k) == LET q == req[k] IN
  /\ q.on /\ q.phase = "read" /\ q.todo # {}
  /\ LET p == CHOOSE x \in q.todo : \A y \in q.todo : x <= y
         hidden == Defect = "nosee" /\ p # 0 /\ p % 2 = 0 /\ st[p \div 2] = "read" IN
     req' = [req EXCEPT ![k] = [q EXCEPT !.todo = @ \ {p}, !.seen = IF p \in alive /\ IsTask(CmdOf(p)) /\ ~hidden THEN @ \cup {p} ELSE @]]
  /\ UNCHANGED <<ini, st, alive, nops, errs, log>>
Found(q) == { p \in q.seen : Defect = "listwrap" \/ ~\E c \in q.seen : Ppid(c) = p /\ p # 0 }
Decide(t) == LET q == req[t]  me == {2 * t, Ppid(2 * t)}
                 twins == { p \in Found(q) \ (IF Defect = "self" THEN {} ELSE me) : ini[(p + 1) \div 2].name = q.name }
                 ok == twins = {} IN
  /\ t # 0 /\ q.on /\ q.phase = "read" /\ q.todo = {}
  /\ st' = [st EXCEPT ![t] = IF ok THEN "run" ELSE "refused"]
  /\ errs' = Errs(Rec(t, q, ok, <<>>)) /\ req' = [req EXCEPT ![t] = Idle]
  /\ log' = IF Sim THEN Append(log, [k |-> "start", t |-> t, ever |-> q.ever, was |-> q.was]) ELSE log
  /\ UNCHANGED <<ini, alive, nops>>

\* ---------------------------------------------------------------- the operator
Ask == /\ ~req[0].on /\ nops < NOps /\ nops' = nops + 1
       /\ \E o \in Pick({<<"list","">>, <<"stop","all">>, <<"stop","name">>, <<"stop","pid">>}) : \E n \in Pick({"a","b"}) : \E p \in Pick(Pids) :
            /\ (o[2] # "name" => n = "a" \/ Sim) /\ (o[2] # "pid" => p = 0 \/ Sim)
            /\ req' = [req EXCEPT ![0] = Begin(o[1], o[2], n, p)]
       /\ UNCHANGED <<ini, st, alive, errs, log>>
Hit(q, p) == CASE q.sel = "all" -> TRUE [] q.sel = "pid" -> p = q.pid
               [] OTHER -> LET n == ini[(p + 1) \div 2].name IN n = q.name \/ (Defect = "prefix" /\ q.name = "a")
Chosen == LET q == req[0] IN
  /\ q.on /\ q.phase = "read" /\ q.todo = {} /\ q.op = "stop"
  /\ req' = [req EXCEPT ![0] = [q EXCEPT !.phase = "send", !.left = { p \in Found(q) : Hit(q, p) }]]
  /\ UNCHANGED <<ini, st, alive, nops, errs, log>>
Send == LET q == req[0] IN
  /\ q.on /\ q.phase = "send" /\ q.left # {}
  /\ LET p == CHOOSE x \in q.left : TRUE IN
     /\ req' = [req EXCEPT ![0] = [q EXCEPT !.left = IF Defect = "abort" /\ p \notin alive THEN {} ELSE @ \ {p}, !.sigs = IF p \in alive THEN Append(@, [id |-> p, sig |-> 15]) ELSE @]]
  /\ UNCHANGED <<ini, st, alive, nops, errs, log>>
Shown(q) == LET f == Found(q) IN [k \in 1..Cardinality(f) |-> LET p == CHOOSE x \in f : Cardinality({ y \in f : y < x }) = k - 1  i == Info(CmdOf(p)) IN
              [pid |-> p + 100, name |-> i.name, code |-> i.code, out |-> i.out, env |-> i.env, debug |-> i.debug]]
Answer == LET q == req[0] IN
  /\ q.on /\ ((q.phase = "send" /\ q.left = {}) \/ (q.phase = "read" /\ q.todo = {} /\ q.op = "list"))
  /\ errs' = Errs(Rec(0, q, FALSE, IF q.op = "list" THEN Shown(q) ELSE <<>>)) /\ req' = [req EXCEPT ![0] = Idle]
  /\ log' = IF Sim THEN Append(log, [k |-> IF q.op = "list" THEN "list" ELSE q.sel, t |-> q.pid, n |-> q.name, ever |-> q.ever, was |-> q.was]) ELSE log
  /\ UNCHANGED <<ini, st, alive, nops>>

Next == errs = {} /\ ((\E t \in T : Exec(t) \/ Ends(t) \/ WrapperEnds(t) \/ Decide(t)) \/ (\E k \in 0..NTasks : Reads(k)) \/ Ask \/ Chosen \/ Send \/ Answer)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
NeverTwoOfAName == \A t, u \in T : t # u /\ st[t] = "run" /\ st[u] = "run" => ini[t].name # ini[u].name
Finished == \A t \in T : st[t] = "gone"
Scenario == (Sim /\ Finished /\ nops = NOps /\ ~req[0].on) => PrintT(ToJson([ini |-> ini, log |-> log]))
=============================================================================
