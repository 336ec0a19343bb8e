----------------------------- MODULE RetryTrace -----------------------------
EXTENDS Retry, FiniteSets, Json
Traces == TLCEval(JsonDeserialize("traces.json"))
VARIABLES t, l, st, errs
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = RInit /\ errs = {}
Next == /\ errs = {} /\ l <= Len(Traces[t].ev)
        /\ LET r == Step(Traces[t].cfg, st, Traces[t].ev[l]) IN st' = r.st /\ errs' = r.errs
        /\ l' = l + 1 /\ t' = t
Ends == IF l > Len(Traces[t].ev) /\ errs = {} /\ st # <<>> THEN {"call_never_ends"} ELSE errs
Verdict == (errs # {} \/ l > Len(Traces[t].ev)) => PrintT(ToJson([id |-> Traces[t].id, at |-> l - 1, n |-> Len(Traces[t].ev), errs |-> Ends]))
Spec == Init /\ [][Next]_<<t, l, st, errs>>
=============================================================================
