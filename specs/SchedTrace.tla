----------------------------- MODULE SchedTrace -----------------------------
(* Conformance of executions recorded from the real process to Sched. Every trace is a chain of states; the verdict is
   total: the first event that violates clauses ends its trace and names them. *)
EXTENDS Sched, Json

Traces == TLCEval(JsonDeserialize("traces.json"))
Offs == TLCEval([x \in 1..Len(Traces) |-> TLCEval(CfgOffs(Traces[x].cfg))])

VARIABLES t, l, st, errs
vars == <<t, l, st, errs>>

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = SInit(Traces[t].cfg, Offs[t], Traces[t].ev)
        /\ errs = {}

Next == /\ errs = {}
        /\ l <= Len(Traces[t].ev)
        /\ LET r == Step(Traces[t].cfg, Offs[t], st, Traces[t].ev[l]) IN
             /\ st' = r.st
             /\ errs' = r.errs
        /\ l' = l + 1
        /\ t' = t

Done == errs # {} \/ l > Len(Traces[t].ev)
(* prints one verdict per trace *)
Verdict == Done => PrintT(ToJson([id |-> Traces[t].id, at |-> l - 1, n |-> Len(Traces[t].ev), errs |-> errs]))

Spec == Init /\ [][Next]_vars
=============================================================================
