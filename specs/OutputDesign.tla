---------------------------- MODULE OutputDesign ----------------------------
(* The mechanism: a handle with a buffer on the log file (or standard output) for logged lines, an opening of its own for every printed text,
   death of the process between any two steps, another program that appends to the same file, several lives.
   After every step the places are compared with what is due.                                                                     *)
EXTENDS Output, Json
CONSTANTS MaxSay, MaxLives, MaxOther, Defect, Sim
VARIABLES up, lives, n, others, cur, stage, buf, pbuf, pos, file, out, st, errs, hist
vars == <<up, lives, n, others, cur, stage, buf, pbuf, pos, file, out, st, errs, hist>>
Nobody == [i |-> 0, kind |-> "", lvl |-> 0, to |-> ""]
Init == /\ up = FALSE /\ lives = 0 /\ n = 0 /\ others = 0 /\ cur = Nobody /\ stage = "" /\ buf = <<>> /\ pbuf = <<>> /\ pos = 0 /\ file = <<>> /\ out = <<>>
        /\ st = OInit /\ errs = {} /\ hist = <<>>
Do(e) == LET r == Step(st, e) IN st' = r.st /\ errs' = r.errs
Note(x) == hist' = IF Sim THEN Append(hist, x) ELSE hist
Found(e) == [i |-> e.i, whole |-> TRUE, lvl |-> e.lvl, t |-> 0, pid |-> TRUE]
Start == /\ ~up /\ lives < MaxLives
         /\ \E g \in BOOLEAN, d \in BOOLEAN :
              /\ Do([e |-> "start", log |-> g, debug |-> d]) /\ Note([e |-> "start", log |-> g, debug |-> d])
              /\ file' = (IF g /\ Defect = "truncate" THEN <<>> ELSE file)
         /\ up' = TRUE /\ lives' = lives + 1 /\ buf' = <<>> /\ pbuf' = <<>> /\ cur' = Nobody /\ stage' = "" /\ pos' = Len(file')
         /\ UNCHANGED <<n, others, out>>
Say == /\ up /\ stage = "" /\ n < MaxSay
       /\ \E k \in {"log", "print"}, v \in {10, 20}, x \in {"", "elsewhere"} :
            /\ (k = "print" => v = 20) /\ (k = "log" => x = "")
            /\ LET c == [i |-> n + 1, kind |-> k, lvl |-> IF k = "log" THEN v ELSE 0, to |-> x] IN
               /\ cur' = c /\ Do([e |-> "say", i |-> c.i, kind |-> k, lvl |-> c.lvl, to |-> x, t |-> 0])
               /\ Note([e |-> "say", kind |-> k, lvl |-> c.lvl, to |-> x])
               /\ stage' = (IF x # "" /\ Defect # "not_elsewhere" THEN "ret"
                            ELSE IF k = "log" /\ v < (IF st.debug /\ Defect # "deaf" THEN 10 ELSE 20) THEN "ret" ELSE "put")
       /\ n' = n + 1 /\ UNCHANGED <<up, lives, others, buf, pbuf, pos, file, out>>
Put == /\ up /\ stage = "put"
       /\ IF cur.kind = "print" /\ Defect = "print_later" THEN pbuf' = Append(pbuf, Found(cur)) /\ buf' = buf ELSE buf' = Append(buf, Found(cur)) /\ pbuf' = pbuf
       /\ stage' = (IF Defect = "no_flush" /\ Len(buf') < 2 THEN "ret" ELSE "flush")
       /\ UNCHANGED <<up, lives, n, others, cur, pos, file, out, st, errs, hist>>
\* one write, possibly cut short by death
ToFile == st.file /\ ~(Defect = "print_out" /\ cur.kind = "print")
Written(b) == IF Defect = "own_offset" THEN SubSeq(file, 1, pos) \o b \o SubSeq(file, pos + Len(b) + 1, Len(file)) ELSE file \o b
Write(b) == IF ToFile THEN file' = Written(b) /\ pos' = pos + Len(b) /\ out' = (IF Defect = "both" THEN out \o b ELSE out)
            ELSE out' = out \o b /\ file' = file /\ pos' = pos
Flush == /\ up /\ stage = "flush" /\ Write(IF Defect = "print_later" /\ cur.kind = "log" THEN buf \o pbuf ELSE buf)
         /\ buf' = <<>> /\ pbuf' = (IF cur.kind = "log" THEN <<>> ELSE pbuf) /\ stage' = "ret"
         /\ UNCHANGED <<up, lives, n, others, cur, st, errs, hist>>
Torn == /\ up /\ stage = "flush" /\ buf # <<>> /\ Write([k \in 1..Len(buf) |-> [buf[k] EXCEPT !.whole = k < Len(buf)]])
        /\ up' = FALSE /\ stage' = "" /\ buf' = <<>> /\ pbuf' = <<>> /\ Note([e |-> "die", torn |-> TRUE])
        /\ UNCHANGED <<lives, n, others, cur, st, errs>>
Ret == /\ up /\ stage = "ret" /\ Do([e |-> "ret", i |-> cur.i, how |-> "ok", t |-> 0]) /\ stage' = "" /\ cur' = Nobody
       /\ UNCHANGED <<up, lives, n, others, buf, pbuf, pos, file, out, hist>>
Die == /\ up /\ up' = FALSE /\ stage' = "" /\ buf' = <<>> /\ pbuf' = <<>> /\ Note([e |-> "die", torn |-> FALSE])
       /\ UNCHANGED <<lives, n, others, cur, pos, file, out, st, errs>>
Other == /\ others < MaxOther /\ st.file /\ stage = "" /\ others' = others + 1 /\ Do([e |-> "other", i |-> 100 + others, t |-> 0]) /\ Note([e |-> "other"])
         /\ file' = Append(file, [i |-> 100 + others, whole |-> TRUE, lvl |-> 0, t |-> 0, pid |-> TRUE])
         /\ UNCHANGED <<up, lives, n, cur, stage, buf, pbuf, pos, out>>
Next == errs = {} /\ (Start \/ Say \/ Put \/ Flush \/ Torn \/ Ret \/ Die \/ Other)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {} /\ LookErrs(st, file, out) = {}
Scenario == (n = MaxSay /\ ~up) => PrintT(ToJson(hist))
=============================================================================
