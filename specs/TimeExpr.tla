------------------------------ MODULE TimeExpr ------------------------------
(* C03: the language of time expressions and trading periods, defined on the text itself (a sequence of characters).
   A text is "ok" (it has to be accepted and mean the given offsets of the day), "reject" (the strategy must not start),
   "may" (not promised to be accepted; if it is accepted it means the given offsets) or "gray" (not judged). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

DAY == 86400
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Val(c) == CASE c="0" -> 0 [] c="1" -> 1 [] c="2" -> 2 [] c="3" -> 3 [] c="4" -> 4 [] c="5" -> 5 [] c="6" -> 6 [] c="7" -> 7 [] c="8" -> 8 [] OTHER -> 9
IsNum(s) == Len(s) \in 1..2 /\ \A i \in 1..Len(s) : s[i] \in Digits
Num(s) == IF Len(s) = 1 THEN Val(s[1]) ELSE 10 * Val(s[1]) + Val(s[2])
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
Gray == {" ", "_", "\t", "\n", "?"}         \* "?" stands for every character outside ASCII

RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, cur) == IF s = <<>> THEN <<cur>>
                      ELSE IF Head(s) = c THEN <<cur>> \o SplitAt(Tail(s), c, <<>>)
                      ELSE SplitAt(Tail(s), c, Append(cur, Head(s)))
Split(s, c) == SplitAt(s, c, <<>>)

No == [c |-> "reject", v |-> {}]
Clock(s) ==
  LET p == Split(s, ":") IN
  IF Len(p) \notin {2, 3} THEN No
  ELSE IF \E i \in 1..Len(p) : ~IsNum(p[i]) THEN
       (IF Has(s, "+") \/ Has(s, "-") \/ (\E i \in 1..Len(p) : Len(p[i]) > 2 /\ \A j \in 1..Len(p[i]) : p[i][j] \in Digits)
          THEN [c |-> "gray", v |-> {}] ELSE No)
  ELSE LET h == Num(p[1])  m == Num(p[2])  sec == IF Len(p) = 3 THEN Num(p[3]) ELSE 0 IN
       IF h > 23 \/ m > 59 \/ sec > 59 THEN No
       ELSE [c |-> IF \A i \in 1..Len(p) : Len(p[i]) = 2 THEN "ok" ELSE "may", v |-> {h * 3600 + m * 60 + sec}]

Unit(c) == CASE c = "h" -> 3600 [] c = "m" -> 60 [] OTHER -> 1
(* one to three groups of one or two digits and a distinct unit; -1 when malformed *)
RECURSIVE Off(_, _)
Off(s, used) ==
  IF s = <<>> THEN (IF used = {} THEN -1 ELSE 0)
  ELSE IF Len(s) >= 2 /\ s[1] \in Digits /\ s[2] \in {"h","m","s"} /\ s[2] \notin used
    THEN LET r == Off(SubSeq(s, 3, Len(s)), used \cup {s[2]}) IN IF r < 0 THEN -1 ELSE Val(s[1]) * Unit(s[2]) + r
  ELSE IF Len(s) >= 3 /\ s[1] \in Digits /\ s[2] \in Digits /\ s[3] \in {"h","m","s"} /\ s[3] \notin used
    THEN LET r == Off(SubSeq(s, 4, Len(s)), used \cup {s[3]}) IN IF r < 0 THEN -1 ELSE Num(SubSeq(s, 1, 2)) * Unit(s[3]) + r
  ELSE -1
OPEN == <<"o","p","e","n">>
CLOSE == <<"c","l","o","s","e">>
Base(b, per) == IF b = OPEN THEN per[1][1] ELSE per[Len(per)][2]
Shifted(s, per) ==
  LET n == IF Len(s) >= 4 /\ SubSeq(s, 1, 4) = OPEN THEN 4 ELSE IF Len(s) >= 5 /\ SubSeq(s, 1, 5) = CLOSE THEN 5 ELSE 0 IN
  IF n = 0 THEN No
  ELSE LET b == Base(SubSeq(s, 1, n), per)  r == SubSeq(s, n + 1, Len(s)) IN
    IF r = <<>> THEN [c |-> "ok", v |-> {b}]
    ELSE IF r[1] \notin {"+", "-"} THEN No
    ELSE LET o == Off(Tail(r), {}) IN
      IF o < 0 THEN No ELSE [c |-> "ok", v |-> {IF r[1] = "+" THEN b + o ELSE b - o}]
Steps(per) == UNION { { per[i][1] + 60 * k : k \in 0..((per[i][2] - per[i][1]) \div 60) } : i \in 1..Len(per) }

BEFORE_OPEN == <<"b","e","f","o","r","e","_","o","p","e","n">>
AFTER_CLOSE == <<"a","f","t","e","r","_","c","l","o","s","e">>
EVERY_MINUTE == <<"e","v","e","r","y","_","m","i","n","u","t","e">>
Meaning(s, per) ==
  CASE s = BEFORE_OPEN -> [c |-> "ok", v |-> {Base(OPEN, per) - 1800}]
    [] s = AFTER_CLOSE -> [c |-> "ok", v |-> {Base(CLOSE, per) + 1800}]
    [] s = EVERY_MINUTE -> [c |-> "ok", v |-> Steps(per)]
    [] \E i \in 1..Len(s) : s[i] \in Gray -> [c |-> "gray", v |-> {}]
    [] Has(s, ":") -> Clock(s)
    [] OTHER -> Shifted(s, per)

(* trading periods: each a pair of times; a text time is HH:MM:SS *)
PTime(s) == LET p == Split(s, ":") IN
  IF \E i \in 1..Len(s) : s[i] \in Gray THEN [c |-> "gray", v |-> {}]
  ELSE IF Len(p) # 3 THEN No ELSE Clock(s)
PTimes(per) == { PTime(per[i][j]) : i \in 1..Len(per), j \in 1..2 }
Only(r) == CHOOSE x \in r.v : TRUE
(* the class of a list of periods given as texts, and its value *)
PClass(per) ==
  IF \E i \in 1..Len(per) : Len(per[i]) # 2 THEN No
  ELSE LET S == { PTime(per[i][j]) : i \in 1..Len(per), j \in 1..2 } IN
    IF \E r \in S : r.c = "gray" THEN [c |-> "gray", v |-> {}]
    ELSE IF \E r \in S : r.c = "reject" THEN No
    ELSE IF \E i \in 1..Len(per) : Only(PTime(per[i][1])) > Only(PTime(per[i][2])) THEN No
    ELSE [c |-> IF \A r \in S : r.c = "ok" THEN "ok" ELSE "may",
          v |-> {[i \in 1..Len(per) |-> <<Only(PTime(per[i][1])), Only(PTime(per[i][2]))>>]}]

-----------------------------------------------------------------------------
(* cases: x: text of the expression; per: the periods (texts); sper: the account's periods of synchronisation; started; calls: times of the calls observed in the first
   two days of a process started at midnight; days: number of whole days observed *)
Cases == JsonDeserialize("cases.json")
Default == << <<34200, 41400>>, <<46800, 54000>> >>
Judge(k) ==
  LET p == IF k.per = <<>> THEN [c |-> "ok", v |-> {Default}] ELSE PClass(k.per)
      q == IF k.sper = <<>> THEN "ok" ELSE PClass(k.sper).c IN
  IF p.c = "gray" \/ q = "gray" THEN {}
  ELSE IF q = "reject" THEN (IF k.started THEN {"bad_sync_period_accepted"} ELSE {})
  ELSE IF p.c = "reject" THEN (IF k.started THEN {"bad_period_accepted"} ELSE {})
  ELSE LET m == Meaning(k.x, Only(p)) IN
    IF m.c = "gray" THEN {}
    ELSE IF m.c = "reject" THEN (IF k.started THEN {"bad_expression_accepted"} ELSE {})
    ELSE IF ~k.started THEN (IF m.c = "ok" /\ p.c = "ok" /\ q = "ok" THEN {"good_expression_refused"} ELSE {})
    ELSE LET want == { o + d * DAY : o \in m.v, d \in (-1)..(k.days + 1) }
             must == { w \in { o + d * DAY : o \in m.v, d \in 0..(k.days + 1) } : w >= 0 /\ w < k.days * DAY }
             got  == { k.calls[i] : i \in 1..Len(k.calls) } IN
         (IF \E g \in got : g \notin want THEN {"wrong_time"} ELSE {}) \cup
         (IF \E w \in must : w \notin got THEN {"missing_time"} ELSE {}) \cup
         (IF Cardinality(got) # Len(k.calls) THEN {"repeated"} ELSE {})

VARIABLES i, errs
Init == i \in 1..Len(Cases) /\ errs = Judge(Cases[i])
Next == FALSE /\ UNCHANGED <<i, errs>>
Class(k) == IF k.per # <<>> /\ PClass(k.per).c # "ok" THEN PClass(k.per).c
            ELSE Meaning(k.x, IF k.per = <<>> THEN Default ELSE Only(PClass(k.per))).c
Verdict == PrintT(ToJson([id |-> i, errs |-> errs, c |-> Class(Cases[i])]))
Spec == Init /\ [][Next]_<<i, errs>>
=============================================================================
