--------------------------- MODULE BalanceDesign ---------------------------
(* The mechanism: read the asset file with attempts, then the position file with attempts, then replace what is shown.
   The terminal rewrites the files (empties, writes rows, ends with the mark) and may remove them, at most K steps in all, at any time, M synchronisations.
   Every synchronisation is judged by Balance!SyncErrs.                                                                               *)
EXTENDS Balance, Json
CONSTANTS K, M, Maxes, Defect, Sim
Pause == 10
Files == {"at", "pt"}
\* version v of the files: own and foreign rows, zero holdings; version 3 of the asset file lacks the total
AV == [ v \in 1..4 |-> <<[acct |-> "o", exch |-> "", tot |-> "77", free |-> "7", lock |-> "0"],
                         [acct |-> "a", exch |-> "SZ", tot |-> "9", free |-> "9", lock |-> "9"]>>
                       \o (IF v = 3 THEN <<>> ELSE <<[acct |-> "a", exch |-> "", tot |-> ToString(v), free |-> "1", lock |-> "0"]>>) ]
P(a, c, q, v) == [acct |-> a, code |-> c, qty |-> q, avail |-> "0", cost |-> ToString(v), last |-> "1", val |-> "1"]
PV == [ v \in 1..4 |-> <<P("o", "c", "5", v), P("a", "x", "5", v)>> \o (IF v = 2 THEN <<>> ELSE <<P("a", "y", "0", v), P("a", "z", "5", v)>>) ]
VARIABLES ini, now, f, tl, left, pc, tries, got, part, shown, before, max, syncs, prev, script, errs
vars == <<ini, now, f, tl, left, pc, tries, got, part, shown, before, max, syncs, prev, script, errs>>
Empty == [cash |-> [tot |-> "0", free |-> "0", lock |-> "0"], pos |-> {}]
Init == /\ now = 0 /\ f \in [Files -> {[s |-> "missing", v |-> 0], [s |-> "ok", v |-> 1]}] /\ ini = f /\ tl = [x \in Files |-> <<>>] /\ left = K /\ pc = "idle" /\ tries = 0
        /\ got = 0 /\ part = 0 /\ shown = Empty /\ before = Empty /\ max \in Maxes /\ syncs = 0 /\ prev = 0 /\ script = <<>> /\ errs = {}
Log(x) == script' = (IF Sim THEN Append(script, x) ELSE script)
Steps(x) == { [s |-> "cut", v |-> f[x].v + 1] : y \in { 1 : z \in { w \in {1} : f[x].v < 4 /\ f[x].s # "cut" } } }
            \cup (IF f[x].s = "cut" THEN {[s |-> "ok", v |-> f[x].v]} ELSE {})
            \cup (IF f[x].s \in {"ok", "cut"} /\ f[x].v < 4 THEN {[s |-> "missing", v |-> f[x].v]} ELSE {})
\* the terminal acts before a synchronisation or between two attempts (at a moment of its own)
Terminal == /\ left > 0 /\ pc \in {"idle", "wait_at", "wait_pt"}
            /\ \E x \in Files : \E n \in Steps(x) :
                 /\ f' = [f EXCEPT ![x] = n] /\ tl' = [tl EXCEPT ![x] = IF pc = "idle" THEN @ ELSE Append(@, [w |-> now + 4, s |-> n.s, v |-> n.v])]
                 /\ Log([k |-> "mod", f |-> x, s |-> n.s, v |-> n.v, w |-> IF pc = "idle" THEN -1 ELSE now \div Pause])
            /\ left' = left - 1 /\ UNCHANGED <<now, pc, tries, got, part, shown, before, max, syncs, prev, errs>>
Start == /\ pc = "idle" /\ syncs < M
         /\ tl' = [x \in Files |-> <<[w |-> 0 - 1, s |-> f[x].s, v |-> f[x].v]>>] /\ now' = 0 /\ pc' = "at" /\ before' = shown /\ syncs' = syncs + 1
         /\ tries' = 0 /\ prev' = (IF got # 0 THEN got ELSE prev) /\ got' = 0 /\ Log([k |-> "sync", f |-> "", s |-> "", v |-> 0, w |-> 0]) /\ UNCHANGED <<f, left, part, shown, max, errs>>
Rec(sh, took) == [max |-> max, pause |-> Pause, acct |-> "a", av |-> AV, pv |-> PV, at |-> tl["at"], pt |-> tl["pt"], before |-> before, after |-> sh, took |-> took]
Finish(sh) == /\ pc' = "idle" /\ shown' = sh /\ errs' = SyncErrs(Rec(sh, now))
Limit == IF Defect = "one_less" THEN max - 1 ELSE IF Defect = "one_more" THEN max + 1 ELSE max
Cut(S) == SubSeq(S, 1, 2)
R0 == Rec(shown, 0)
NewCash == Cash(R0, got)
Usable(x) == f[x].s = "ok" \/ (Defect = "no_check" /\ f[x].s = "cut")
NewPos == IF Defect = "all_accounts" THEN { [code |-> PV[f["pt"].v][k].code, qty |-> PV[f["pt"].v][k].qty, avail |-> "0", cost |-> PV[f["pt"].v][k].cost, last |-> "1", val |-> "1"]
                                            : k \in { j \in 1..Len(PV[f["pt"].v]) : PV[f["pt"].v][j].qty # "0" } }
          ELSE IF f["pt"].s = "cut" THEN { p \in Pos(R0, f["pt"].v) : p.code = "x" }
          ELSE Pos(R0, f["pt"].v)
Give_up == Finish(IF Defect = "clear" THEN [shown EXCEPT !.pos = {}] ELSE IF Defect = "early_cash" /\ pc = "pt" THEN [shown EXCEPT !.cash = NewCash] ELSE shown)
Retry(x) == IF (f[x].s = "missing" /\ tries = 0) \/ tries >= Limit THEN Give_up /\ UNCHANGED <<tries, now>>
            ELSE pc' = "wait_" \o x /\ tries' = tries + 1 /\ UNCHANGED <<now, shown, errs>>
ReadAsset == /\ pc = "at"
             /\ IF Usable("at") THEN /\ got' = f["at"].v
                                     /\ IF Totals(R0, f["at"].v) = {} \/ f["at"].s = "cut" THEN Finish(shown) /\ UNCHANGED <<tries, now>>
                                        ELSE pc' = "pt" /\ tries' = (IF Defect = "carry" THEN tries ELSE 0) /\ UNCHANGED <<now, shown, errs>>
                ELSE Retry("at") /\ UNCHANGED got
             /\ UNCHANGED <<f, tl, left, part, before, max, syncs, prev, script>>
ReadPos == /\ pc = "pt"
           /\ IF Usable("pt") THEN Finish([cash |-> IF Defect = "old_cash" /\ prev # 0 THEN Cash(R0, prev) ELSE NewCash, pos |-> NewPos]) /\ UNCHANGED <<tries, now>> ELSE Retry("pt")
           /\ UNCHANGED <<f, tl, left, got, part, before, max, syncs, prev, script>>
Wait == /\ pc \in {"wait_at", "wait_pt"} /\ now' = now + Pause /\ pc' = (IF pc = "wait_at" THEN "at" ELSE "pt")
        /\ UNCHANGED <<f, tl, left, tries, got, part, shown, before, max, syncs, prev, script, errs>>
Next == errs = {} /\ (Terminal \/ Start \/ ReadAsset \/ ReadPos \/ Wait) /\ UNCHANGED ini
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
Scenario == (pc = "idle" /\ syncs = M) => PrintT(ToJson([max |-> max, init |-> ini, script |-> script]))
=============================================================================
