----------------------------- MODULE BusDesign -----------------------------
(* The mechanism of the bus: subscriptions by class and priority, a delivery list drawn up when an event is emitted, and callbacks that
   subscribe, unsubscribe and emit while they run.  Explores all scripts up to a length against BusStep; TLC's simulator writes scripts
   (top-level operations, and what the k-th callback call does) that are replayed in the real code.                                  *)
EXTENDS Events, Json
CONSTANTS MaxOps, MaxCalls, NCb, Defect, Sim
VARIABLES subs, n, stack, ops, acts, calls, emits, st, errs
vars == <<subs, n, stack, ops, acts, calls, emits, st, errs>>
Anc == <<<<1>>, <<2, 1>>, <<3, 1>>>>        \* class 1 is the base class of 2 and 3
Cls == {1, 2, 3}
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Init == /\ subs = <<>> /\ n = 0 /\ stack = <<>> /\ ops = <<>> /\ acts = <<>> /\ calls = 0 /\ emits = 0 /\ st = BInit /\ errs = {}
Judge(e) == LET r == BusStep(Anc, st, e) IN st' = r.st /\ errs' = r.errs
Room == IF stack = <<>> THEN Len(ops) < MaxOps ELSE stack[Len(stack)].may
Log(o) == IF stack = <<>> THEN ops' = Append(ops, o) /\ acts' = acts ELSE acts' = [acts EXCEPT ![stack[Len(stack)].call] = Append(@, o)] /\ ops' = ops
\* what a callback may still do in this call: one thing
Spend(s) == IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)].may = FALSE]
Related(a, b) == \E k \in 1..Len(Anc[a]) : Anc[a][k] = b
Reg == /\ Room /\ \E cls \in Pick(Cls), cb \in Pick(1..NCb), pr \in Pick({-1, 0, 2}) :
            /\ ~\E k \in 1..Len(subs) : subs[k].cb = cb /\ (subs[k].cls # cls \/ subs[k].pr = pr) /\ (Related(cls, subs[k].cls) \/ Related(subs[k].cls, cls))
            /\ n' = n + 1 /\ subs' = Append(subs, [n |-> n + 1, cls |-> cls, cb |-> cb, pr |-> pr])
            /\ stack' = Spend(stack) /\ Log([k |-> "reg", cls |-> cls, cb |-> cb, pr |-> pr])
            /\ Judge([e |-> "reg", cls |-> cls, cb |-> cb, pr |-> pr, ret |-> "ok"]) /\ UNCHANGED <<calls, emits>>
Unreg == /\ Room /\ \E cls \in Pick(Cls), cb \in Pick(1..NCb) :
            /\ Sim => \E k \in 1..Len(subs) : subs[k].cls = cls /\ subs[k].cb = cb
            /\ subs' = SelectSeq(subs, LAMBDA s : ~(s.cb = cb /\ (s.cls = cls \/ Defect = "unregister_everywhere")
                                               /\ (Defect = "unregister_one" => ~\E k \in 1..Len(subs) : subs[k].cb = cb /\ subs[k].cls = cls /\ subs[k].n < s.n)))
            /\ n' = n /\ stack' = Spend(stack) /\ Log([k |-> "unreg", cls |-> cls, cb |-> cb, pr |-> 0])
            /\ Judge([e |-> "unreg", cls |-> cls, cb |-> cb, ret |-> "ok"]) /\ UNCHANGED <<calls, emits>>
List(cls) == IF Defect = "no_base" THEN Ordered(SelectSeq(subs, LAMBDA s : s.cls = cls))
             ELSE IF Defect = "by_class" THEN SortSeq(Matching(Anc, subs, cls), LAMBDA a, b : a.cls < b.cls \/ (a.cls = b.cls /\ Before(a, b)))
             ELSE IF Defect = "by_subscription" THEN Matching(Anc, subs, cls)
             ELSE Ordered(Matching(Anc, subs, cls))
Emit == /\ Room /\ Len(stack) < 4 /\ \E cls \in Pick(Cls) :
            /\ emits' = emits + 1 /\ Log([k |-> "emit", cls |-> cls, cb |-> 0, pr |-> 0])
            /\ stack' = Append(Spend(stack), [id |-> emits + 1, cls |-> cls, todo |-> List(cls), idx |-> 1, may |-> FALSE, call |-> 0, in |-> FALSE])
            /\ Judge([e |-> "emit", id |-> emits + 1, cls |-> cls]) /\ UNCHANGED <<subs, n, calls>>
Top == stack[Len(stack)]
Now == IF Defect = "live_list" THEN List(Top.cls) ELSE Top.todo
\* the loop of the delivery: call the next callback that is still subscribed, or end
Deliver ==
  /\ stack # <<>>
  /\ LET L == Now
         alive(s) == \E k \in 1..Len(subs) : subs[k].n = s.n
         skip == Defect # "no_recheck" IN
     IF Top.idx > Len(L) THEN /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Judge([e |-> "emitted", id |-> Top.id, ret |-> "ok"])
                              /\ UNCHANGED <<subs, n, ops, acts, calls, emits>>
     ELSE IF skip /\ ~alive(L[Top.idx]) THEN stack' = [stack EXCEPT ![Len(stack)].idx = @ + 1] /\ errs' = {} /\ UNCHANGED <<subs, n, ops, acts, calls, emits, st>>
     ELSE /\ calls < MaxCalls
          /\ calls' = calls + 1 /\ acts' = Append(acts, <<>>)
          /\ stack' = [stack EXCEPT ![Len(stack)].idx = @ + 1, ![Len(stack)].may = TRUE, ![Len(stack)].call = calls + 1]
          /\ Judge([e |-> "call", id |-> Top.id, cb |-> L[Top.idx].cb, same |-> TRUE])
          /\ UNCHANGED <<subs, n, ops, emits>>
Next == errs = {} /\ (Reg \/ Unreg \/ Emit \/ Deliver)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
View == <<subs, n, stack, Len(ops), calls, emits, st, errs>>
Done == stack = <<>> /\ Len(ops) = MaxOps
Scenario == Done => PrintT(ToJson([ops |-> ops, acts |-> acts]))
=============================================================================
