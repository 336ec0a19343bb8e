---------------------------- MODULE ConfigDesign ----------------------------
(* The mechanisms: reading the environment text from left to right into a map, and a store of settings that starts from the defaults,
   takes over the file's assignments one by one and is asked after the strategy has set its options.                            *)
EXTENDS Config, Json
CONSTANTS MaxText, MaxFile, Defect, Sim
Letters == {"A", "B", "=", ";", " "}
X == <<"X">>
FileNames == { SCH \o X, ACC \o X, SCH \o ACC \o X, ACC \o SCH \o X, X, SCH \o <<"X","Y">>, <<"M">> \o SCH \o X, <<"s">> \o Tail(SCH) \o X }
Vals == {"1", "2"}
Dflt == "0"
VARIABLES mode, text, done, key, val, inval, map,      \* the text read so far and the reader's state
          file, store, opt, errs
vars == <<mode, text, done, key, val, inval, map, file, store, opt, errs>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ mode = "env" /\ text = <<>> /\ done = FALSE /\ key = <<>> /\ val = <<>> /\ inval = FALSE /\ map = {}
        /\ file = <<>> /\ store = [m \in {"S", "A"} |-> Dflt] /\ opt = <<>> /\ errs = {}
\* ---------------------------------------------------------------- environment
Put(mp, k, v) == IF Defect = "first_wins" /\ \E e \in mp : e.k = k THEN mp ELSE { e \in mp : e.k # k } \cup {[k |-> k, v |-> v]}
Flush == IF inval /\ Strip(key) # <<>> THEN Put(map, IF Defect = "blank_key" THEN key ELSE Strip(key), val) ELSE map
Char == /\ mode = "env" /\ ~done /\ Len(text) < MaxText
        /\ \E c \in Pick(Letters) :
             /\ text' = Append(text, c)
             /\ IF c = ";" THEN map' = Flush /\ key' = <<>> /\ val' = <<>> /\ inval' = FALSE
                ELSE IF c = "=" /\ (~inval \/ Defect = "last_eq") THEN key' = (IF inval THEN key \o <<"=">> \o val ELSE key) /\ val' = <<>> /\ inval' = TRUE /\ UNCHANGED map
                ELSE IF c = "=" /\ Defect = "drop_eq" THEN UNCHANGED <<key, val, inval, map>>
                ELSE IF inval THEN val' = Append(val, c) /\ UNCHANGED <<key, inval, map>> ELSE key' = Append(key, c) /\ UNCHANGED <<val, inval, map>>
        /\ UNCHANGED <<mode, done, file, store, opt, errs>>
Result == IF Defect = "no_last" THEN map ELSE Flush
EndText == /\ mode = "env" /\ ~done /\ (Sim => Len(text) = MaxText)
           /\ errs' = IF EnvOk(text) /\ Result # { [k |-> k, v |-> EnvVal(text, k)] : k \in EnvKeys(text) } THEN {"environment"} ELSE {}
           /\ done' = TRUE /\ mode' = (IF text = <<>> \/ Sim THEN "file" ELSE "end") /\ UNCHANGED <<text, key, val, inval, map, file, store, opt>>
\* ---------------------------------------------------------------- settings
Matches(m, n) == CASE Defect = "anywhere" -> \E i \in 1..Len(n) : SubSeq(n, i, Len(n)) = Prefix(m) \o X
                   [] Defect = "shared" -> n \in {SCH \o X, ACC \o X}
                   [] Defect = "unprefixed" -> n \in {X, Prefix(m) \o X}
                   [] Defect = "longer" -> Len(n) >= Len(Prefix(m) \o X) /\ SubSeq(n, 1, Len(Prefix(m)) + 1) = Prefix(m) \o X
                   [] OTHER -> n = Prefix(m) \o X
Line == /\ mode = "file" /\ Len(file) < MaxFile
        /\ \E n \in Pick(FileNames \ { file[i].n : i \in 1..Len(file) }) : \E v \in Pick(Vals) :
             /\ file' = Append(file, [n |-> n, v |-> v])
             /\ store' = [m \in {"S", "A"} |-> IF Matches(m, n) THEN v ELSE store[m]]
        /\ UNCHANGED <<mode, text, done, key, val, inval, map, opt, errs>>
Ask == /\ mode = "file" /\ mode' = "end"
       /\ \E o \in Pick({<<>>, <<"3">>, <<"4">>}) :
            /\ opt' = o
            /\ LET answer(m) == IF o = <<>> \/ (Defect = "file_wins" /\ store[m] # Dflt) THEN store[m] ELSE o[1] IN
               errs' = (IF \E m \in {"S", "A"} : answer(m) # Effective(o, file, m, X, Dflt) THEN {"setting"} ELSE {})
       /\ UNCHANGED <<text, done, key, val, inval, map, file, store>>
Next == errs = {} /\ (Char \/ EndText \/ Line \/ Ask)
Spec == Init /\ [][Next]_vars
NoClauseViolated == errs = {}
Scenario == (Sim /\ mode = "end") => PrintT(ToJson([text |-> text, file |-> file, opt |-> opt]))
=============================================================================
