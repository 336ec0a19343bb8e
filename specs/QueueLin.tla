------------------------------ MODULE QueueLin ------------------------------
(* Linearisability of recorded concurrent histories of the message queue: a history is accepted iff every operation can take effect at
   one instant between its invocation and its response such that the results are those of the sequential queue of Events.
   History events: [k |-> "inv", th, op, id, t, p]  [k |-> "res", th, ret];  op: "new" | "push" | "pop" | "top" | "empty";
   ret: the message's id, 0 for an empty queue, 1/0 for "empty", -1 for an unexpected error.                                       *)
EXTENDS Events, Json
Traces == TLCEval(JsonDeserialize("traces.json"))
NT == 6
VARIABLES t, l, q, made, n, pend
vars == <<t, l, q, made, n, pend>>
H == Traces[t].ev
Init == t \in 1..Len(Traces) /\ l = 1 /\ q = {} /\ made = <<>> /\ n = 0 /\ pend = [i \in 1..NT |-> [s |-> "idle"]]
Invoke == /\ l <= Len(H) /\ H[l].k = "inv"
          /\ pend' = [pend EXCEPT ![H[l].th] = [s |-> "pending", op |-> H[l].op, id |-> H[l].id, t |-> H[l].t, p |-> H[l].p]]
          /\ l' = l + 1 /\ UNCHANGED <<t, q, made, n>>
\* operations take effect only when the next event is a response: no behaviour is lost by being that lazy
Lin(i) ==
  /\ l <= Len(H) /\ H[l].k = "res" /\ pend[i].s = "pending"
  /\ LET o == pend[i]
         Ret(r) == pend' = [pend EXCEPT ![i] = [s |-> "done", ret |-> r]] IN
     CASE o.op = "new" -> made' = Append(made, [id |-> o.id, t |-> o.t, p |-> o.p, n |-> n + 1]) /\ n' = n + 1 /\ Ret(0) /\ UNCHANGED q
       [] o.op = "push" -> q' = q \cup {made[CHOOSE k \in 1..Len(made) : made[k].id = o.id]} /\ Ret(0) /\ UNCHANGED <<made, n>>
       [] o.op = "pop" -> IF q = {} THEN Ret(0) /\ UNCHANGED <<q, made, n>> ELSE Ret(First(q).id) /\ q' = q \ {First(q)} /\ UNCHANGED <<made, n>>
       [] o.op = "top" -> Ret(IF q = {} THEN 0 ELSE First(q).id) /\ UNCHANGED <<q, made, n>>
       [] o.op = "empty" -> Ret(IF q = {} THEN 1 ELSE 0) /\ UNCHANGED <<q, made, n>>
  /\ UNCHANGED <<t, l>>
Respond == /\ l <= Len(H) /\ H[l].k = "res" /\ pend[H[l].th].s = "done" /\ pend[H[l].th].ret = H[l].ret
           /\ pend' = [pend EXCEPT ![H[l].th] = [s |-> "idle"]] /\ l' = l + 1 /\ UNCHANGED <<t, q, made, n>>
Next == Invoke \/ Respond \/ \E i \in 1..NT : Lin(i)
Spec == Init /\ [][Next]_vars
Verdict == (l > Len(H)) => PrintT(ToJson([id |-> Traces[t].id]))
=============================================================================
