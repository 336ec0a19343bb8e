---------------------------- MODULE ConfigTrace ----------------------------
EXTENDS Config, Json
Recs == TLCEval(JsonDeserialize("traces.json"))
SetOf(S) == { S[k] : k \in 1..Len(S) }
Rec(k) == [Recs[k] EXCEPT !.open = SetOf(@), !.close = SetOf(@), !.minutes = SetOf(@), !.dirs = SetOf(@)]
VARIABLE i
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
ASSUME \A k \in 1..Len(Recs) : PrintT(ToJson([id |-> Recs[k].id, errs |-> Errs(Rec(k))]))
Spec == Init /\ [][Next]_i
=============================================================================
