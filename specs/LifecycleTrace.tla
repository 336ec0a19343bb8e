--------------------------- MODULE LifecycleTrace ---------------------------
EXTENDS Lifecycle, Json
Traces == TLCEval(JsonDeserialize("traces.json"))
VARIABLES t, l, st, errs
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = SInit /\ errs = {}
Next == /\ errs = {} /\ l <= Len(Traces[t].ev)
        /\ LET r == Step(Traces[t].cfg, st, Traces[t].ev[l]) IN st' = r.st /\ errs' = r.errs
        /\ l' = l + 1 /\ t' = t
Verdict == (errs # {} \/ l > Len(Traces[t].ev)) => PrintT(ToJson([id |-> Traces[t].id, at |-> l - 1, n |-> Len(Traces[t].ev), errs |-> errs]))
Spec == Init /\ [][Next]_<<t, l, st, errs>>
=============================================================================
