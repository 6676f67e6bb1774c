------------------------------ MODULE GuessModel ------------------------------
(* Asking several sources at once and collecting what they answered within a  *)
(* time limit.  Way "deadline" is right; "each" waits the whole limit for     *)
(* every source, "live" hands out a table that goes on filling, "serial"      *)
(* asks one source after the other.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Way, N, Limit, Horizon
Sources == 1..N
\* fate: when a source ends, and how; Horizon + 1 is never
VARIABLES fate, now, state, table, waiting, result, ended, mainpc
vars == << fate, now, state, table, waiting, result, ended, mainpc >>
Init == /\ fate \in [Sources -> {"answer", "fail"} \X (0..Horizon) \cup {<< "hang", Horizon + 1 >>}]
        /\ now = 0 /\ state = [s \in Sources |-> "idle"] /\ table = {} /\ waiting = 1 /\ result = {} /\ ended = -1 /\ mainpc = "start"
StartAll == /\ mainpc = "start" /\ mainpc' = "join"
            /\ state' = [s \in Sources |-> "asked"]
            /\ UNCHANGED << fate, now, table, waiting, result, ended >>
May(s) == Way # "serial" \/ \A z \in 1..(s - 1) : state[z] \in {"stored", "ended"}
Answer(s) == /\ state[s] = "asked" /\ fate[s][2] <= now /\ May(s)
             /\ state' = [state EXCEPT ![s] = IF fate[s][1] = "answer" THEN "stored" ELSE "ended"]
             /\ table' = IF fate[s][1] = "answer" THEN table \cup {s} ELSE table
             /\ UNCHANGED << fate, now, waiting, result, ended, mainpc >>
Over(s) == state[s] \in {"stored", "ended"}
\* since: when the present join began, for way "each"
Join == /\ mainpc = "join" /\ waiting <= N
        /\ (Over(waiting) \/ (IF Way = "each" THEN now >= Limit * waiting ELSE now >= Limit))
        /\ waiting' = waiting + 1
        /\ UNCHANGED << fate, now, state, table, result, ended, mainpc >>
Return == /\ mainpc = "join" /\ waiting > N /\ mainpc' = "end" /\ result' = table /\ ended' = now
          /\ UNCHANGED << fate, now, state, table, waiting >>
\* time passes when nobody has anything to do
Busy == mainpc = "start" \/ (\E s \in Sources : state[s] = "asked" /\ fate[s][2] <= now /\ May(s))
        \/ ENABLED Join \/ ENABLED Return
Tick == /\ ~ Busy /\ now < Horizon * (N + 1) /\ now' = now + 1
        /\ UNCHANGED << fate, state, table, waiting, result, ended, mainpc >>
Next == StartAll \/ (\E s \in Sources : Answer(s)) \/ Join \/ Return \/ Tick
Spec == Init /\ [][Next]_vars
Seen == IF Way = "live" THEN table ELSE result
InTime == {s \in Sources : fate[s][1] = "answer" /\ fate[s][2] < Limit}
JustInTime == {s \in Sources : fate[s][1] = "answer" /\ fate[s][2] = Limit}
Bounded == ended <= Limit /\ (now > Limit => mainpc = "end")
Exact == mainpc = "end" => InTime \subseteq Seen /\ Seen \subseteq InTime \cup JustInTime
=============================================================================
