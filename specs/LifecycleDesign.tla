-------------------------- MODULE LifecycleDesign --------------------------
(* The mechanism: a flag that is up while the initialisation function runs, a switch that set_options turns, and guards on the switch.
   Explores every script of calls up to a length; the same scripts are replayed in the real process.                          *)
EXTENDS Lifecycle, Json
CONSTANTS MaxInit, MaxTask, Defect, Sim
VARIABLES cfg, phase, allowed, use, script, st, errs
vars == <<cfg, phase, allowed, use, script, st, errs>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ cfg \in { [hasinit |-> TRUE, def |-> d] : d \in {"on", "off"} }
        /\ phase = "init" /\ allowed = TRUE /\ use = "unset" /\ script = <<>>
        /\ st = Step(cfg, SInit, [e |-> "init"]).st /\ errs = {}
Judge(e) == LET r == Step(cfg, st, e) IN st' = r.st /\ errs' = r.errs
Room == Len(SelectSeq(script, LAMBDA s : s.ph = phase)) < (IF phase = "init" THEN MaxInit ELSE MaxTask)
Add(k, a) == script' = Append(script, [ph |-> phase, k |-> k, a |-> a])
Opts == \E w \in Pick({"on", "off", "default"}) :
          LET ok == allowed \/ Defect = "late_options" IN
          /\ use' = IF ok \/ Defect = "switch_before_check" THEN Wanted(cfg, w) ELSE use
          /\ Judge([e |-> "opts", want |-> w, ret |-> IF ok THEN "ok" ELSE "raise"]) /\ Add("opts", w) /\ UNCHANGED <<cfg, phase, allowed>>
Reg == /\ Judge([e |-> "reg", ret |-> IF allowed \/ Defect = "late_tasks" THEN "ok" ELSE "raise"]) /\ Add("reg", "") /\ UNCHANGED <<cfg, phase, allowed, use>>
Api == \E n \in Pick(Names) :
         LET on == use = "on" \/ (Defect = "unset_is_on" /\ use = "unset") \/ (Defect = "no_guard_" \o n) IN
         /\ Judge([e |-> "api", name |-> n, ret |-> IF on THEN "ok" ELSE IF n = "batch" THEN "noids" ELSE "raise", gates |-> IF on THEN 1 ELSE 0])
         /\ Add("api", n) /\ UNCHANGED <<cfg, phase, allowed, use>>
Up == /\ phase = "init" /\ phase' = "run" /\ allowed' = (Defect = "flag_stays")
      /\ Judge([e |-> "up"]) /\ UNCHANGED <<cfg, use, script>>
Next == errs = {} /\ ((Room /\ (Opts \/ Reg \/ Api)) \/ Up)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
View == <<cfg, phase, allowed, use, [k \in 1..Len(script) |-> script[k].ph], st, errs>>
Done == phase = "run" /\ Len(SelectSeq(script, LAMBDA s : s.ph = "run")) = MaxTask
Scenario == Done => PrintT(ToJson([def |-> cfg.def, script |-> script]))
=============================================================================
