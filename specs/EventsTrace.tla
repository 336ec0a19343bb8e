---------------------------- MODULE EventsTrace ----------------------------
EXTENDS Events, Json
Traces == TLCEval(JsonDeserialize("traces.json"))
VARIABLES t, l, st, errs
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = (IF Traces[t].k = "bus" THEN BInit ELSE LInit(Traces[t].cfg)) /\ errs = {}
Next == /\ errs = {} /\ l <= Len(Traces[t].ev)
        /\ LET r == IF Traces[t].k = "bus" THEN BusStep(Traces[t].cfg.anc, st, Traces[t].ev[l]) ELSE LoopStep(Traces[t].cfg, st, Traces[t].ev[l])
           IN st' = r.st /\ errs' = r.errs
        /\ l' = l + 1 /\ t' = t
Verdict == (errs # {} \/ l > Len(Traces[t].ev)) => PrintT(ToJson([id |-> Traces[t].id, at |-> l - 1, n |-> Len(Traces[t].ev), errs |-> errs]))
Spec == Init /\ [][Next]_<<t, l, st, errs>>
=============================================================================
