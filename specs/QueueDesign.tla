---------------------------- MODULE QueueDesign ----------------------------
(* The mechanism of the thread-safe queue, line by line: a lock around a heap, a counter that numbers messages.
   Each thread runs a short program over  "new" (create a message: read and write the counter),  "push"  and  "pop".
   Explored exhaustively; schedules found by the simulator are replayed as thread switches in the real code.                      *)
EXTENDS Events, Json
CONSTANTS NThreads, NOps, Defect, Sim
VARIABLES prog, pc, at, q, lock, ctr, tmp, mine, got, cnt, sched, errs
vars == <<prog, pc, at, q, lock, ctr, tmp, mine, got, cnt, sched, errs>>
T == 1..NThreads
Ops == {"make", "pop"}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
RECURSIVE Progs(_)
Progs(k) == IF k = 0 THEN {<<>>} ELSE { Append(p, o) : p \in Progs(k - 1), o \in Ops }
Init == /\ prog \in (IF Sim THEN {[i \in T |-> RandomElement(Progs(NOps))]} ELSE [T -> Progs(NOps)])
        /\ pc = [i \in T |-> 1] /\ at = [i \in T |-> "start"] /\ q = {} /\ lock = 0 /\ ctr = 0
        /\ tmp = [i \in T |-> 0] /\ mine = [i \in T |-> [id |-> 0]] /\ got = <<>> /\ cnt = 0 /\ sched = <<>> /\ errs = {}
Go(i, a) == at' = [at EXCEPT ![i] = a]
Done(i) == Go(i, "start") /\ pc' = [pc EXCEPT ![i] = @ + 1]
Free == lock = 0 \/ Defect \in {"no_lock", "no_lock_push"}
Step(i) ==
  /\ pc[i] <= NOps /\ errs = {} /\ sched' = (IF Sim THEN Append(sched, i) ELSE sched)
  /\ CASE at[i] = "start" /\ prog[i][pc[i]] = "make" /\ Defect # "counter_race" ->
            /\ ctr' = ctr + 1 /\ cnt' = cnt + 1 /\ Go(i, "push")
            /\ \E p \in Pick({0, 1}) : mine' = [mine EXCEPT ![i] = [id |-> cnt + 1, t |-> 1, p |-> p, n |-> ctr + 1]]
            /\ UNCHANGED <<pc, q, lock, tmp, got, errs>>
       [] at[i] = "start" /\ prog[i][pc[i]] = "make" /\ Defect = "counter_race" ->
            ctr' = ctr + 1 /\ Go(i, "number") /\ UNCHANGED <<pc, q, lock, tmp, mine, got, cnt, errs>>
       [] at[i] = "number" ->
            /\ cnt' = cnt + 1 /\ Go(i, "push") /\ mine' = [mine EXCEPT ![i] = [id |-> cnt + 1, t |-> 1, p |-> 0, n |-> ctr]]
            /\ UNCHANGED <<pc, q, lock, ctr, tmp, got, errs>>
       [] at[i] = "push" -> /\ (lock = 0 \/ Defect \in {"no_lock", "no_lock_push"}) /\ lock' = i /\ Go(i, "insert") /\ tmp' = [tmp EXCEPT ![i] = q]
                            /\ UNCHANGED <<pc, q, ctr, mine, got, cnt, errs>>
       [] at[i] = "insert" -> /\ errs' = IF \E m \in q : m.t = mine[i].t /\ m.p = mine[i].p /\ m.n = mine[i].n THEN {"uncomparable"} ELSE {}
                              /\ q' = IF Defect = "no_lock_push" THEN tmp[i] \cup {mine[i]} ELSE q \cup {mine[i]}
                              /\ lock' = 0 /\ Done(i) /\ UNCHANGED <<ctr, tmp, mine, got, cnt>>
       [] at[i] = "start" /\ prog[i][pc[i]] = "pop" ->
            /\ (lock = 0 \/ Defect = "no_lock") /\ lock' = i /\ Go(i, "look") /\ UNCHANGED <<pc, q, ctr, tmp, mine, got, cnt, errs>>
       [] at[i] = "look" -> IF q = {} THEN lock' = 0 /\ Done(i) /\ UNCHANGED <<q, ctr, tmp, mine, got, cnt, errs>>
                            ELSE Go(i, "take") /\ tmp' = [tmp EXCEPT ![i] = First(q)] /\ UNCHANGED <<pc, q, lock, ctr, mine, got, cnt, errs>>
       [] at[i] = "take" -> /\ errs' = IF tmp[i] \notin q THEN {"taken_twice"} ELSE IF tmp[i] # First(q) THEN {"not_the_first"} ELSE {}
                            /\ q' = q \ {tmp[i]} /\ got' = Append(got, tmp[i].id) /\ lock' = 0 /\ Done(i) /\ UNCHANGED <<ctr, tmp, mine, cnt>>
  /\ UNCHANGED prog
Next == \E i \in T : Step(i)
Spec == Init /\ [][Next]_vars
Pushed == { m \in {mine[i] : i \in T} : m.id # 0 }
AllDone == \A i \in T : pc[i] > NOps
NothingWrong == errs = {} /\ Cardinality({got[k] : k \in 1..Len(got)}) = Len(got)
NothingLost == AllDone => Cardinality(q) + Len(got) = cnt
View == <<prog, pc, at, q, lock, ctr, tmp, mine, got, cnt, errs>>
Scenario == AllDone => PrintT(ToJson([prog |-> prog, sched |-> sched]))
=============================================================================
