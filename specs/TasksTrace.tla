----------------------------- MODULE TasksTrace -----------------------------
(* judges recorded requests; words.json is the table of words, commands are sequences of indices into it *)
EXTENDS Tasks, Json
Recs == TLCEval(JsonDeserialize("traces.json"))
Words == TLCEval(JsonDeserialize("words.json"))
SetOf(S) == { S[k] : k \in 1..Len(S) }
Proc(p) == TLCEval(Known([p EXCEPT !.cmd = [k \in 1..Len(p.cmd) |-> Words[p.cmd[k]]]]))
Rec(k) == TLCEval([Recs[k] EXCEPT !.procs = { Proc(p) : p \in SetOf(Recs[k].procs) }])
VARIABLE i
Init == i \in 1..Len(Recs)
Next == FALSE /\ i' = i
ASSUME \A k \in 1..Len(Recs) : LET r == Rec(k) IN
         PrintT(ToJson([id |-> Recs[k].id, errs |-> Errs(r), sure |-> Cardinality(Sure(r)), maybe |-> Cardinality(Maybe(r))]))
Spec == Init /\ [][Next]_i
=============================================================================
