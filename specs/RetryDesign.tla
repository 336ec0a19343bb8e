---------------------------- MODULE RetryDesign ----------------------------
(* The mechanism: a loop with a counter of its own for every call.  All outcome scripts up to MaxLen are explored;
   an outcome is what one attempt does: "ok", "elig", "inel", "base", or "nest" (call the wrapped operation again, then go on to the next outcome).
   Every complete behaviour is printed and replayed in the real code.                                                              *)
EXTENDS Retry, Json
CONSTANTS MaxLen, Maxes, Defect
VARIABLES cfg, now, stack, script, shared, st, errs
vars == <<cfg, now, stack, script, shared, st, errs>>
Init == /\ cfg \in { [max |-> m, pause |-> 10, pred |-> p] : m \in Maxes, p \in BOOLEAN }
        /\ now = 0 /\ stack = <<>> /\ script = <<>> /\ shared = 0 /\ st = RInit /\ errs = {}
Judge(e) == LET r == Step(cfg, st, e) IN st' = r.st /\ errs' = r.errs
D == Len(stack)
Call == /\ stack = <<>> /\ Len(script) < MaxLen
        /\ stack' = <<[at |-> "begin", tries |-> 0, k |-> "", v |-> 0]>> /\ shared' = (IF Defect = "counter_kept" THEN shared ELSE 0)
        /\ Judge([e |-> "call", w |-> now]) /\ UNCHANGED <<cfg, now, script>>
Try == /\ D > 0 /\ stack[D].at = "begin" /\ stack' = [stack EXCEPT ![D].at = "running"]
       /\ Judge([e |-> "try", w |-> now, args |-> TRUE]) /\ UNCHANGED <<cfg, now, script, shared>>
Out == /\ D > 0 /\ stack[D].at = "running" /\ Len(script) < MaxLen
       /\ \E k \in {"ok", "elig", "inel", "base"} :
            /\ (~cfg.pred => k # "inel")
            /\ script' = Append(script, k) /\ stack' = [stack EXCEPT ![D].at = "ended", ![D].k = k, ![D].v = Len(script) + 1]
            /\ Judge([e |-> "out", k |-> k, v |-> Len(script) + 1, w |-> now])
       /\ UNCHANGED <<cfg, now, shared>>
\* a script that is used up goes on with successes
OutEnd == /\ D > 0 /\ stack[D].at = "running" /\ Len(script) >= MaxLen
          /\ stack' = [stack EXCEPT ![D].at = "ended", ![D].k = "ok", ![D].v = 0] /\ Judge([e |-> "out", k |-> "ok", v |-> 0, w |-> now])
          /\ UNCHANGED <<cfg, now, script, shared>>
Nest == /\ D > 0 /\ D < 3 /\ stack[D].at = "running" /\ Len(script) < MaxLen
        /\ script' = Append(script, "nest") /\ stack' = Append(stack, [at |-> "begin", tries |-> 0, k |-> "", v |-> 0])
        /\ Judge([e |-> "call", w |-> now]) /\ UNCHANGED <<cfg, now, shared>>
Tries == IF Defect = "counter_kept" THEN shared ELSE stack[D].tries
Again == /\ stack[D].k = "elig" \/ (Defect = "retries_all" /\ stack[D].k = "inel")
         /\ IF Defect = "one_more" THEN Tries <= cfg.max ELSE IF Defect = "one_less" THEN Tries < cfg.max - 1 ELSE Tries < cfg.max
End == /\ D > 0 /\ stack[D].at = "ended"
       /\ IF Again THEN /\ now' = now + (IF Defect = "no_pause" THEN 0 ELSE cfg.pause)
                        /\ stack' = [stack EXCEPT ![D].at = "begin", ![D].tries = @ + 1] /\ shared' = shared + 1 /\ st' = st /\ errs' = {}
          ELSE /\ stack' = SubSeq(stack, 1, D - 1) /\ now' = now /\ UNCHANGED shared
               /\ Judge([e |-> "ret", how |-> IF stack[D].k = "ok" \/ (Defect = "swallow" /\ Tries >= cfg.max) THEN "value" ELSE "raise", v |-> stack[D].v, w |-> now])
       /\ UNCHANGED <<cfg, script>>
Next == errs = {} /\ (Call \/ Try \/ Out \/ OutEnd \/ Nest \/ End)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
Scenario == (stack = <<>> /\ Len(script) = MaxLen) => PrintT(ToJson([max |-> cfg.max, pred |-> cfg.pred, script |-> script]))
=============================================================================
