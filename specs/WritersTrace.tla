---------------------------- MODULE WritersTrace ----------------------------
EXTENDS Writers, Json
VARIABLE i
Traces == JsonDeserialize("traces.json")
Init == i = 1
Next == i <= Len(Traces) /\ PrintT(ToJson([id |-> Traces[i].id, errs |-> RoundErrs(Traces[i])])) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
