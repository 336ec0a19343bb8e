----------------------------- MODULE Lifecycle -----------------------------
(* C05: which calls are accepted when.  Step relation over the calls a strategy makes.
   st.ph: "boot" | "init" | "run" | "dead";  st.acct: "unset" | "on" | "off".
   Events:  [e |-> "init"]                    the initialisation function begins
            [e |-> "opts", want, ret]         set_options;  want: "on" | "off" | "noacct" (on, without an account) | "default"
            [e |-> "reg", ret]                run_daily
            [e |-> "api", name, ret, gates]   trading call, query, synchronisation or portfolio access with the number of trade gate calls
            [e |-> "up"]                      the initialisation function has returned
            [e |-> "task"]                    a task begins
            [e |-> "exit", how]               "error" | "normal" | "horizon" | ...
   cfg: hasinit, def (account support when set_options does not say: "on" | "off")                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SInit == [ph |-> "boot", acct |-> "unset", doomed |-> FALSE]
Names == {"order", "cancel", "batch", "batchcancel", "query", "sync_balance", "sync_orders", "portfolio"}
Refused(e) == e.ret = "raise" \/ (e.name = "batch" /\ e.ret = "noids")
Wanted(c, w) == IF w = "default" THEN c.def ELSE IF w = "noacct" THEN "on" ELSE w

OptsStep(c, st, e) ==
  IF st.ph = "run" THEN [st |-> st, errs |-> IF e.ret # "raise" THEN {"options_accepted_late"} ELSE {}]
  ELSE IF e.want = "noacct" THEN [st |-> [st EXCEPT !.doomed = TRUE], errs |-> IF e.ret # "raise" THEN {"no_account_accepted"} ELSE {}]
  ELSE [st |-> [st EXCEPT !.acct = Wanted(c, e.want)], errs |-> IF e.ret # "ok" THEN {"options_refused"} ELSE {}]
RegStep(c, st, e) ==
  IF st.ph = "run" THEN [st |-> st, errs |-> IF e.ret # "raise" THEN {"task_accepted_late"} ELSE {}]
  ELSE [st |-> st, errs |-> IF e.ret # "ok" THEN {"task_refused"} ELSE {}]
ApiStep(c, st, e) ==
  [st |-> st,
   errs |-> IF st.acct = "on" THEN (IF e.ret = "raise" THEN {"refused_though_on"} ELSE {})
            ELSE (IF ~Refused(e) THEN {"accepted_though_off"} ELSE {}) \cup (IF e.gates > 0 THEN {"gate_reached_though_off"} ELSE {})]
Step(c, st, e) ==
  CASE e.e = "init" -> [st |-> [st EXCEPT !.ph = "init"], errs |-> {}]
    [] e.e = "opts" -> OptsStep(c, st, e)
    [] e.e = "reg" -> RegStep(c, st, e)
    [] e.e = "api" -> ApiStep(c, st, e)
    [] e.e = "up" -> [st |-> [st EXCEPT !.ph = "run"], errs |-> IF st.doomed THEN {"started_without_account"} ELSE {}]
    [] e.e = "task" -> [st |-> st, errs |-> IF st.ph # "run" THEN {"task_before_start"} ELSE {}]
    [] e.e = "exit" -> [st |-> [st EXCEPT !.ph = "dead"],
                        errs |-> IF ~c.hasinit THEN (IF e.how # "error" THEN {"started_without_initialisation"} ELSE {})
                                 ELSE IF st.doomed THEN (IF e.how # "error" THEN {"started_without_account"} ELSE {})
                                 ELSE IF e.how # "horizon" THEN {"ended"} ELSE {}]
=============================================================================
