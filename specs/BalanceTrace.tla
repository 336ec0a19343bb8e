---------------------------- MODULE BalanceTrace ----------------------------
EXTENDS Balance, Json
Recs == TLCEval(JsonDeserialize("traces.json"))
SetOf(S) == { S[k] : k \in 1..Len(S) }
View(x) == [cash |-> x.cash, pos |-> SetOf(x.pos)]
Rec(k) == [Recs[k] EXCEPT !.before = View(@), !.after = View(@)]
VARIABLE i
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
Dup(k) == Cardinality(SetOf(Recs[k].after.pos)) # Len(Recs[k].after.pos)
ASSUME \A k \in 1..Len(Recs) : PrintT(ToJson([id |-> Recs[k].id, errs |-> SyncErrs(Rec(k)) \cup (IF Dup(k) THEN {"position_twice"} ELSE {}),
                                              n |-> Cardinality(Outcomes(Rec(k)))]))
Spec == Init /\ [][Next]_i
=============================================================================
