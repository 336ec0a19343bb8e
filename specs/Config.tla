------------------------------- MODULE Config -------------------------------
(* C19: what the start options, the environment text, the configuration file and the strategy's own options come to.
   Names and texts are sequences of characters, values are opaque except for the parts given with them.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- environment text:  NAME=VALUE;NAME=VALUE
RECURSIVE CutAt(_, _, _)
CutAt(s, c, cur) == IF s = <<>> THEN <<cur>>
                    ELSE IF Head(s) = c THEN <<cur>> \o CutAt(Tail(s), c, <<>>)
                    ELSE CutAt(Tail(s), c, Append(cur, Head(s)))
Cut(s, c) == CutAt(s, c, <<>>)
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s ELSE IF Head(s) = " " THEN Strip(Tail(s)) ELSE IF s[Len(s)] = " " THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
FirstEq(s) == IF \E i \in 1..Len(s) : s[i] = "=" THEN CHOOSE i \in 1..Len(s) : s[i] = "=" /\ \A j \in 1..(i - 1) : s[j] # "=" ELSE 0
Assign(p) == LET q == FirstEq(p) IN [k |-> Strip(SubSeq(p, 1, q - 1)), v |-> SubSeq(p, q + 1, Len(p))]
\* texts that say something else than assignments are not judged
Parts(s) == LET c == Cut(s, ";") IN SelectSeq(c, LAMBDA p : Strip(p) # <<>>)
EnvOk(s) == \A i \in 1..Len(Parts(s)) : FirstEq(Parts(s)[i]) # 0 /\ Assign(Parts(s)[i]).k # <<>>
EnvKeys(s) == { Assign(Parts(s)[i]).k : i \in 1..Len(Parts(s)) }
LastOf(n, P(_)) == CHOOSE i \in 1..n : P(i) /\ \A j \in (i + 1)..n : ~P(j)
EnvVal(s, k) == LET ps == Parts(s) IN Assign(ps[LastOf(Len(ps), LAMBDA i : Assign(ps[i]).k = k)]).v

\* ---------------------------------------------------------------- settings
SCH == <<"S","C","H","E","D","U","L","E","R","_">>
ACC == <<"A","C","C","O","U","N","T","_">>
Prefix(m) == IF m = "S" THEN SCH ELSE ACC
\* names: the names the file leaves assigned, with their values, in any order (each once)
FromFile(f, m, n) == { i \in 1..Len(f) : f[i].n = Prefix(m) \o n }
Setting(f, m, n, dflt) == LET s == FromFile(f, m, n) IN IF s = {} THEN dflt ELSE f[CHOOSE i \in s : TRUE].v
\* a strategy's option wins over the file, the file over the default
Effective(o, f, m, n, dflt) == IF o # <<>> THEN o[1] ELSE Setting(f, m, n, dflt)

\* ---------------------------------------------------------------- judgement of a recorded start
DAY == 86400
Get(r, m, n) == LET k == CHOOSE i \in 1..Len(r.known) : r.known[i].m = m /\ r.known[i].s = n IN r.known[k]
Eff(r, m, s, o) == LET k == Get(r, m, s) IN Effective(r.opts[o], r.file, m, k.n, k.v)
\* seen[i]: the value in effect of setting i ("" where the part of the program it belongs to was not loaded)
CfgErrs(r) ==
  IF r.seen = <<>> THEN {}
  ELSE UNION { LET k == r.known[i] IN
               IF r.seen[i] = "" \/ r.seen[i] = Setting(r.file, k.m, k.n, k.v).r THEN {}
               ELSE IF FromFile(r.file, k.m, k.n) # {} THEN {"setting_not_replaced"} ELSE {"other_setting_changed"} : i \in 1..Len(r.known) }

UseAccount(r) == r.called /\ Eff(r, "S", "SETUP_ACCOUNT", "use_account").b
Gate(r) == LET k == Get(r, "A", "TRADE_GATE") IN Setting(r.file, "A", k.n, k.v)
\* broken: the file given with -c or --config is missing, or the configuration file fails
MustStart(r) == EnvOk(r.env) /\ r.broken = "" /\ ~(UseAccount(r) /\ ~Gate(r).b)
StartErrs(r) ==
  (IF ~r.up /\ MustStart(r) THEN {"does_not_start"} ELSE {})
  \cup (IF r.other THEN {"other_strategy"} ELSE {})
  \cup (IF r.up /\ r.broken # "" THEN {"started_without_its_file"} ELSE {})
  \cup (IF r.up /\ UseAccount(r) /\ ~Gate(r).b THEN {"started_without_a_gate"} ELSE {})
  \cup (IF r.up /\ r.account # UseAccount(r) THEN {"account_switch"} ELSE {})
  \cup (IF r.up /\ UseAccount(r) /\ r.gate # Gate(r).r THEN {"wrong_gate"} ELSE {})
  \cup (IF r.up /\ r.called /\ r.dirs # {Eff(r, "S", "RUNTIME_DIR", "runtime_dir").r} THEN {"wrong_runtime_dir"} ELSE {})
  \cup (IF r.up /\ r.order /\ UseAccount(r) /\ r.data # <<Eff(r, "S", "RUNTIME_DIR", "runtime_dir").r>> THEN {"data_in_wrong_dir"} ELSE {})

Period(r) == Eff(r, "S", "MARKET_PERIOD", "market_period").p
Minutes(p) == UNION { { p[i][1] + 60 * k : k \in 0..((p[i][2] - p[i][1]) \div 60) } : i \in 1..Len(p) }
After(r, S) == { t \in S : t > r.start /\ t < r.end }         \* (starts half a second past, ends on the second)
RunErrs(r) ==
  IF ~r.up THEN {}
  ELSE LET p == Period(r) IN
    (IF r.open # After(r, {p[1][1]}) THEN {"open_time"} ELSE {})
    \cup (IF r.close # After(r, {p[Len(p)][2]}) THEN {"close_time"} ELSE {})
    \cup (IF r.minutes # After(r, Minutes(p)) THEN {"every_minute"} ELSE {})

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
On(r, s, o) == Eff(r, "A", s, o).b
SyncErrs(r) ==
  IF ~r.up \/ ~UseAccount(r) \/ ~r.recorded THEN {}
  ELSE
    LET w == Eff(r, "A", "SYNC_PERIOD", "sync_period").p  g == Eff(r, "A", "SYNC_INTERNAL", "sync_internal").c       \* rounded up to seconds
        W == IF w = <<>> THEN << <<0, DAY - 1>> >> ELSE w
        InW(t) == w = <<>> \/ \E i \in 1..Len(w) : w[i][1] <= t /\ t <= w[i][2]
        Same(a, b) == w = <<>> \/ \E i \in 1..Len(w) : w[i][1] <= a /\ b <= w[i][2]
        J(s, on) == (IF s # <<>> /\ ~on THEN {"synced_though_off"} ELSE {})
          \cup (IF on /\ (s = <<>> \/ s[1] # r.start) THEN {"no_sync_at_start"} ELSE {})
          \cup (IF \E i \in 2..Len(s) : ~InW(s[i]) THEN {"sync_outside_period"} ELSE {})
          \cup (IF \E i \in 2..(Len(s) - 1) : Same(s[i], s[i + 1]) /\ s[i + 1] - s[i] \notin {g - 1, g, g + 1} THEN {"sync_interval"} ELSE {})
          \cup (IF on /\ \E k \in 1..Len(W) : Max(W[k][1], r.start) + 2 * g < Min(W[k][2], r.end) /\ ~\E i \in 2..Len(s) : W[k][1] <= s[i] /\ s[i] <= Max(W[k][1], r.start) + 2 * g
                   THEN {"sync_missing"} ELSE {}) IN
    J(r.sb, On(r, "SYNC_BALANCE", "sync_balance")) \cup J(r.so, On(r, "SYNC_ORDER", "sync_order"))

\* envseen: the variables that differ from what the process was given, and those named, when the strategy's code is loaded
EnvErrs(r) ==
  IF ~EnvOk(r.env) \/ ~r.loaded THEN {}
  ELSE UNION { LET k == r.envseen[i].k IN
               IF k \notin EnvKeys(r.env) THEN {"environment_changed"}
               ELSE IF r.envseen[i].v \in {EnvVal(r.env, k), Strip(EnvVal(r.env, k))} THEN {} ELSE {"environment_value"} : i \in 1..Len(r.envseen) }
       \cup (IF \E k \in EnvKeys(r.env) : ~\E i \in 1..Len(r.envseen) : r.envseen[i].k = k THEN {"environment_missing"} ELSE {})
PYP == <<"P","Y","T","H","O","N","P","A","T","H">>
\* directories searched, best first: the strategy's own, those given, the rest. mods[k]: [has: the directories (as texts) in which module k lies, got: the one found]
Search(r) == <<r.own>> \o (IF EnvOk(r.env) /\ PYP \in EnvKeys(r.env) THEN Cut(Strip(EnvVal(r.env, PYP)), ":") ELSE <<>>) \o r.rest
ImportErrs(r) ==
  IF ~r.loaded THEN {}
  ELSE IF \E k \in 1..Len(r.mods) : LET S == Search(r)  h == { r.mods[k].has[i] : i \in 1..Len(r.mods[k].has) }
                                        idx == { i \in 1..Len(S) : S[i] \in h } IN
            idx # {} /\ r.mods[k].got # S[CHOOSE i \in idx : \A j \in idx : i <= j]
       THEN {"import_order"} ELSE {}

\* calls in order: [sink |-> "named" | "", kind |-> "print" | "info" | "debug", i]; where: sequences of call numbers found in each place
Sink(r, c) == IF c.kind = "print" /\ c.sink # "" THEN c.sink ELSE IF r.out THEN "log" ELSE "stdout"
Due(r, place) == SelectSeq([i \in 1..Len(r.calls) |-> IF Sink(r, r.calls[i]) = place /\ (r.calls[i].kind = "debug" => r.debug) THEN i ELSE 0], LAMBDA i : i # 0)
PrintErrs(r) ==
  IF ~r.up THEN {}
  ELSE UNION { IF r.found[p] = Due(r, p) THEN {} ELSE {"printed_in_" \o p} : p \in DOMAIN r.found }
Errs(r) == CfgErrs(r) \cup StartErrs(r) \cup RunErrs(r) \cup SyncErrs(r) \cup EnvErrs(r) \cup ImportErrs(r) \cup PrintErrs(r)
=============================================================================
