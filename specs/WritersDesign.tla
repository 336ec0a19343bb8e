--------------------------- MODULE WritersDesign ---------------------------
(* The append mechanism at the level of system calls: open, lock, (look whether the file is empty), write, unlock, close; a lock that is taken
   is asked for again after a pause until the time-out.  N writers serve K requests each, a foreign holder may have the lock.
   Every reachable final state is judged by Writers!RoundErrs.  Simulated interleavings are replayed in real processes.               *)
EXTENDS Writers, Json
CONSTANTS N, K, MaxTry, Hold, Defect, Sim
VARIABLES file, lock, pc, req, buf, at, tries, res, foreign, script, ended
vars == <<file, lock, pc, req, buf, at, tries, res, foreign, script, ended>>
W == 1..N
Line(p, k) == [id |-> <<p, k>>]
Header == [id |-> <<0, 0>>]
Init == /\ file = <<>> /\ lock = {} /\ pc = [p \in W |-> "open"] /\ req = [p \in W |-> 1] /\ buf = [p \in W |-> <<>>] /\ at = [p \in W |-> 0]
        /\ tries = [p \in W |-> 0] /\ res = [p \in W |-> <<>>] /\ foreign = (Hold # "none") /\ script = <<>> /\ ended = FALSE
Go(p, next) == pc' = [pc EXCEPT ![p] = next]
Say(p) == script' = (IF Sim THEN Append(script, p) ELSE <<>>)
Free(p) == ~foreign /\ (IF Defect = "shared" THEN TRUE ELSE lock \subseteq {p})
\* write b at position q: behind the end, or over what is there
Put(q, b) == [ k \in 1..(IF q + Len(b) > Len(file) THEN q + Len(b) ELSE Len(file)) |-> IF k > q /\ k <= q + Len(b) THEN b[k - q] ELSE file[k] ]
Text(p, empty) == (IF empty THEN <<Header>> ELSE <<>>) \o <<Line(p, req[p])>>
Open(p) == /\ pc[p] = "open" /\ Go(p, "lock") /\ at' = [at EXCEPT ![p] = Len(file)]
           /\ file' = (IF Defect = "truncate" THEN <<>> ELSE file)
           /\ UNCHANGED <<lock, req, buf, tries, res, foreign, ended>>
Lock(p) == /\ pc[p] = "lock"
           /\ IF Free(p) \/ Defect = "no_lock"
              THEN /\ lock' = lock \cup {p} /\ Go(p, "write")
                   /\ buf' = [buf EXCEPT ![p] = Text(p, IF Defect = "empty_before_lock" THEN at[p] = 0 ELSE file = <<>>)]
                   /\ UNCHANGED tries
              ELSE /\ tries' = [tries EXCEPT ![p] = @ + 1]
                   /\ Go(p, IF tries[p] >= MaxTry THEN (IF Defect = "write_anyway" THEN "write" ELSE "give_up") ELSE "sleep")
                   /\ buf' = [buf EXCEPT ![p] = Text(p, file = <<>>)] /\ UNCHANGED lock
           /\ UNCHANGED <<file, req, at, res, foreign, ended>>
Write(p) == /\ pc[p] = "write" /\ Go(p, "unlock")
            /\ file' = (IF Defect = "no_flush" THEN file ELSE IF Defect = "offset_before_lock" THEN Put(at[p], buf[p]) ELSE file \o buf[p])
            /\ UNCHANGED <<lock, req, buf, at, tries, res, foreign, ended>>
Unlock(p) == /\ pc[p] = "unlock" /\ Go(p, "close") /\ lock' = lock \ {p} /\ UNCHANGED <<file, req, buf, at, tries, res, foreign, ended>>
Finish(p, r) == /\ res' = [res EXCEPT ![p] = Append(@, r)] /\ req' = [req EXCEPT ![p] = @ + 1] /\ tries' = [tries EXCEPT ![p] = 0]
                /\ Go(p, IF req[p] = K THEN "done" ELSE "open")
Close(p) == /\ pc[p] = "close" /\ file' = (IF Defect = "no_flush" THEN file \o buf[p] ELSE file)
            /\ Finish(p, "ok") /\ UNCHANGED <<lock, buf, at, foreign, ended>>
Sleep(p) == pc[p] = "sleep" /\ Go(p, "open") /\ UNCHANGED <<file, lock, req, buf, at, tries, res, foreign, ended>>
GiveUp(p) == pc[p] = "give_up" /\ Finish(p, "failed") /\ UNCHANGED <<file, lock, buf, at, foreign, ended>>
Release == foreign /\ Hold = "until" /\ foreign' = FALSE /\ UNCHANGED <<file, lock, pc, req, buf, at, tries, res, ended>>
AllDone == \A p \in W : pc[p] = "done"
End == AllDone /\ ~ended /\ ended' = TRUE /\ UNCHANGED <<file, lock, pc, req, buf, at, tries, res, foreign, script>>
Step(p) == ~AllDone /\ (Open(p) \/ Lock(p) \/ Write(p) \/ Unlock(p) \/ Close(p) \/ Sleep(p) \/ GiveUp(p)) /\ Say(p)
Next == (\E p \in (IF Sim /\ ~AllDone THEN {RandomElement({q \in W : pc[q] # "done"})} ELSE W) : Step(p)) \/ (Release /\ Say(0)) \/ End
Spec == Init /\ [][Next]_vars
Ops == { <<p, k>> : p \in W, k \in 1..K }
OpSeq == [ j \in 1..(N * K) |-> LET p == ((j - 1) \div K) + 1  k == ((j - 1) % K) + 1 IN
           [w |-> p, f |-> "order", ret |-> IF res[p][k] = "ok" THEN "id" ELSE "", want |-> Line(p, k), ms |-> IF res[p][k] = "ok" THEN 0 ELSE 1000, st |-> ""] ]
Heads(s) == SelectSeq([ k \in 1..Len(s) |-> IF s[k] = Header THEN k ELSE 0 ], LAMBDA k : k > 0)
Round == [ ops |-> OpSeq, fair |-> FALSE, timeout |-> 1000, interval |-> 50, hung |-> FALSE,
           hold |-> [kind |-> Hold, f |-> "order", ms |-> 0],
           files |-> [ order |-> [intact |-> TRUE, was |-> 0, heads |-> Heads(file), lines |-> SelectSeq(file, LAMBDA l : l # Header)],
                       cancel |-> [intact |-> TRUE, was |-> 0, heads |-> <<>>, lines |-> <<>>] ] ]
NoClauseViolated == AllDone => RoundErrs(Round) = {}
\* nobody waits for ever: somebody can always take a step until all are done
Progress == AllDone \/ \E p \in W : ENABLED Step(p)
View == <<file, lock, pc, req, buf, at, tries, res, foreign, ended>>
Scenario == ended => PrintT(ToJson([script |-> script]))
=============================================================================
