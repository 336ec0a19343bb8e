---------------------------- MODULE GateDesign ----------------------------
(* The mechanism of the built-in gate: per file the number of lines read so far, the orders of the day in memory and in a saved copy,
   an order saved before it is written, everything started afresh on a new day.  A submission may die between any two of its steps.
   All behaviours up to MaxOps operations are explored and judged by Gate!Step; simulated ones are replayed in the real code.        *)
EXTENDS Gate, Json
CONSTANTS MaxOps, MaxIds, MaxLives, MaxDays, Ignore, Ready, Full, Defect, Sim
VARIABLES st, errs, m, ops, script
vars == <<st, errs, m, ops, script>>
Days == <<"1", "2", "3">>
Ids == <<"a", "b", "c">>
Fresh == [st |-> "new", f |-> 0, c |-> 0, a |-> "", d |-> "", e |-> "", t |-> ""]
NoV == [Fresh EXCEPT !.st = ""]
B(i) == [code |-> Ids[i], amt |-> 100, act |-> "open", side |-> "long", style |-> "limit", price |-> "1"]
None == [off |-> [upd |-> 0, res |-> 0], ords |-> <<>>]
\* ords: sequence of [id, b, v] in the order of submission
\* Ready: the broker's files exist (and are empty) at the start of each day
Ex(x) == IF Ready THEN [x EXCEPT !.files.ex = {"upd", "res"}] ELSE x
Init == /\ st = Ex([GInit EXCEPT !.day = "1"]) /\ errs = {} /\ ops = 0 /\ script = <<>>
        /\ m = [day |-> 1, up |-> FALSE, gday |-> 0, off |-> [upd |-> 0, res |-> 0], ords |-> <<>>, saved |-> [d \in 1..MaxDays |-> <<>>],
                book |-> <<>>, nid |-> 0, lives |-> 0, csv |-> <<>>, nv |-> 0]
D == Days[m.day]
Judge(e) == LET r == Step(st, e @@ [d |-> D, d1 |-> D]) IN st' = r.st /\ errs' = r.errs
Done(op) == ops' = ops + 1 /\ script' = (IF Sim THEN Append(script, op) ELSE <<>>)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Turn(g) == IF g.gday = g.day THEN g
           ELSE [g EXCEPT !.gday = g.day, !.off = IF Defect = "keep_offset" /\ g.gday # 0 THEN @ ELSE [upd |-> 0, res |-> 0],
                          !.ords = IF Defect = "load_first_day" THEN g.saved[1] ELSE g.saved[g.day]]
-----------------------------------------------------------------------------
Start == /\ ~m.up /\ m.lives < MaxLives
         /\ m' = Turn([m EXCEPT !.up = TRUE, !.lives = @ + 1, !.gday = 0, !.book = <<>>, !.ords = <<>>])
         /\ Judge([e |-> "life", cfg |-> [ignore |-> Ignore]]) /\ Done([op |-> "start"])
Lost(g) == [g EXCEPT !.up = FALSE, !.ords = <<>>, !.book = <<>>, !.gday = 0]
DeadEv(req) == [e |-> "dead", orders |-> m'.csv, req |-> req, fresh |-> Fresh]
Die == m.up /\ (Sim => m.lives < MaxLives) /\ m' = Lost(m) /\ Judge(DeadEv(<<>>)) /\ Done([op |-> "die"])
-----------------------------------------------------------------------------
\* the broker
BrokerLine(f, k, id) ==
  /\ Len(st.files.lines[f]) < (IF Sim THEN 9 ELSE 3)
  /\ m' = [m EXCEPT !.nv = @ + 1]
  /\ Judge([e |-> "line", f |-> f, k |-> k, id |-> id, v |-> IF k = "upd" THEN [Fresh EXCEPT !.st = "open", !.f = m.nv + 1] ELSE NoV, m |-> IF k = "rej" THEN "r" ELSE ""])
  /\ Done([op |-> "line", f |-> f, k |-> k, id |-> id])
Line == \E f \in Pick({"upd", "res"}) : \E k \in Pick({IF f = "upd" THEN "upd" ELSE "rej", "bad", "none", IF f = "upd" THEN "upd" ELSE "rej"}) :
          \E i \in Pick(0..Len(m.csv)) :
             (i > 0 \/ k = "bad" \/ k = "none") /\ (~Sim => (k = "none" => i = 0)) /\ BrokerLine(f, k, IF i = 0 THEN "" ELSE m.csv[i].id)
Flush == \E f \in Pick({"upd", "res"}) :
           /\ \E n \in Pick(st.files.n[f]..Len(st.files.lines[f])) : \E t \in Pick({"none", "part", "full"}) :
                /\ (n = Len(st.files.lines[f]) => t = "none")
                /\ (n = st.files.n[f] => ~(st.files.tail[f] = "full" /\ t # "full") /\ ~(st.files.tail[f] = "part" /\ t = "none"))
                /\ (n > st.files.n[f] \/ t # st.files.tail[f] \/ f \notin st.files.ex)
                /\ Judge([e |-> "flush", f |-> f, n |-> n, tail |-> t]) /\ Done([op |-> "flush", f |-> f, n |-> n, tail |-> t])
           /\ m' = m
-----------------------------------------------------------------------------
\* reading the lines that are new since the last time; "ok" or "fail"
Change(ords, ln) ==
  [ k \in 1..Len(ords) |->
      IF ln.k = "upd" /\ (ords[k].id = ln.id \/ (Defect = "misattribute" /\ k = 1 /\ ln.id # ords[k].id)) THEN [ords[k] EXCEPT !.v = ln.v]
      ELSE IF ln.k = "rej" /\ ords[k].id = ln.id /\ (Defect = "entrusted_not_rejected" => ords[k].v.st = "new") THEN [ords[k] EXCEPT !.v.st = "rejected", !.v.e = ln.m]
      ELSE IF ln.k = "bad" /\ ords[k].id = ln.id /\ Defect = "half_apply" THEN [ords[k] EXCEPT !.v.st = "filled"]
      ELSE ords[k] ]
RECURSIVE Read(_, _, _)
Read(L, off, ords) ==
  IF off >= Len(L) THEN [off |-> off, ords |-> ords, ok |-> TRUE]
  ELSE LET ln == L[off + 1] IN
       IF ln.k = "bad" THEN
            IF Ignore \/ Defect = "error_mode_goes_on"
            THEN (IF Defect = "bad_line_stops" THEN [off |-> off, ords |-> ords, ok |-> TRUE] ELSE Read(L, off + 1, Change(ords, ln)))
            ELSE [off |-> off, ords |-> ords, ok |-> FALSE]
       ELSE Read(L, off + 1, Change(ords, ln))
Complete(g, f) == SubSeq(st.files.lines[f], 1, st.files.n[f])
After(r, f) == IF Defect = "eat_tail" /\ st.files.tail[f] # "none" /\ r.ok THEN st.files.n[f] + 1 ELSE r.off
Merge(book, ords) == SelectSeq(book, LAMBDA x : ~\E k \in 1..Len(ords) : ords[k].id = x.id) \o ords
Sync == /\ m.up
        /\ LET g == Turn(m)
               R == Read(Complete(g, "res"), g.off.res, g.ords)
               U == Read(Complete(g, "upd"), g.off.upd, R.ords)
               g2 == IF st.files.ex # {"upd", "res"} THEN g
                     ELSE IF ~R.ok THEN [g EXCEPT !.off.res = R.off, !.ords = R.ords]
                     ELSE IF ~U.ok THEN [g EXCEPT !.off = [res |-> R.off, upd |-> U.off], !.ords = U.ords, !.book = IF Defect = "failed_sync_shows" THEN Merge(@, U.ords) ELSE @]
                     ELSE [g EXCEPT !.off = [res |-> After(R, "res"), upd |-> After(U, "upd")], !.ords = U.ords, !.saved[g.day] = U.ords, !.book = Merge(@, U.ords)] IN
           /\ m' = g2 /\ Judge([e |-> "sync", auto |-> FALSE, view |-> g2.book])
        /\ Done([op |-> "sync"])
-----------------------------------------------------------------------------
OrderLine(id) == [f |-> "order", day |-> D, first |-> ~\E k \in 1..Len(m.csv) : m.csv[k].day = D, head |-> ~\E k \in 1..Len(m.csv) : m.csv[k].day = D,
                  intact |-> TRUE, lines |-> <<[id |-> id, type |-> "UM0", acct |-> "1", symbol |-> "s", side |-> "1", qty |-> "100", algo |-> "DMA", ptype |-> "AT", high |-> "1", low |-> "1"]>>]
Submit == /\ m.up /\ m.nid < MaxIds
          /\ \E p \in Pick(IF Sim /\ m.lives = MaxLives THEN {"none"} ELSE {"none", "start", "middle", "end"}) :      \* where the process dies
               LET g == Turn(m)
                   i == m.nid + 1
                   o == [id |-> Ids[i], b |-> B(i), v |-> Fresh]
                   first == IF Defect = "write_first" THEN "write" ELSE "save"
                   wrote == p \in {"none", "end"} \/ (p = "middle" /\ first = "write")
                   saved == p \in {"none", "end"} \/ (p = "middle" /\ first = "save")
                   g2 == [g EXCEPT !.nid = i, !.ords = Append(@, o), !.book = Append(@, o),
                                   !.saved[g.day] = IF saved THEN Append(g.ords, o) ELSE @,
                                   !.csv = IF wrote THEN Append(@, [id |-> o.id, day |-> D, b |-> o.b]) ELSE @] IN
               IF p = "none" THEN m' = g2 /\ Judge([e |-> "sub", ret |-> o.id, code |-> "x", amt |-> 100, act |-> "open", style |-> "limit", price |-> "1", symbol |-> "s", qty |-> "100",
                                                    acct |-> "1", algo |-> "DMA", type |-> "UM0", fault |-> FALSE, wrote |-> <<OrderLine(o.id)>>, view |-> g2.book])
                                    /\ Done([op |-> "sub"])
               ELSE m' = Lost(g2) /\ Judge(DeadEv(<<[day |-> D, b |-> o.b]>>)) /\ Done([op |-> "subdie", at |-> p])
\* the disk is full: the order is refused, whether or not the saved copy has it already; nothing reaches the order file
Refuse == /\ Full /\ m.up /\ m.nid < MaxIds
          /\ \E s \in Pick({TRUE, FALSE}) :
               LET g == Turn(m)
                   i == m.nid + 1
                   o == [id |-> Ids[i], b |-> B(i), v |-> Fresh]
                   x == [o EXCEPT !.v.st = "rejected"]
                   g2 == [g EXCEPT !.nid = i, !.book = Append(@, IF Defect = "refused_shown_new" THEN o ELSE x),
                                   !.ords = IF Defect = "refused_kept" THEN Append(@, o) ELSE @,
                                   !.saved[g.day] = IF s THEN Append(g.ords, o) ELSE @] IN
               m' = g2 /\ Judge([e |-> "sub", ret |-> "", code |-> o.b.code, amt |-> 100, act |-> "open", side |-> "long", style |-> "limit", price |-> "1", symbol |-> "s", qty |-> "100",
                                  acct |-> "1", algo |-> "DMA", type |-> "UM0", fault |-> TRUE, wrote |-> <<>>, view |-> g2.book])
               /\ Done([op |-> "subfull", saved |-> s])
Midnight == /\ m.day < MaxDays /\ m' = [m EXCEPT !.day = @ + 1] /\ st' = Ex(Roll(st, Days[m.day + 1])) /\ UNCHANGED errs /\ Done([op |-> "midnight"])
Next == errs = {} /\ ops < MaxOps /\ (Start \/ Die \/ Line \/ Flush \/ Sync \/ Submit \/ Refuse \/ Midnight)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
View == <<st, errs, m, ops>>
Scenario == (ops = MaxOps) => PrintT(ToJson([script |-> script]))
=============================================================================
