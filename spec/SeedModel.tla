------------------------------ MODULE SeedModel ------------------------------
(* A list of seeds: lookups at work at the same time fill a list that callers *)
(* measure and take from.  Way says how; only "lock" is right, the others are *)
(* there to show that the invariants notice.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Way, NSeeds, MaxResults, NCallers, MaxCalls, Emit
Seeds == 1..NSeeds
Callers == 1..NCallers
\* lst: the list; a result is << seed, number >>.  delivered: results lookups have put; handed: taken, in order
VARIABLES results, plans, fate, lst, lock, seedat, seedpc, copy, callat, callpc, picked, handed, answers, order
vars == << results, plans, fate, lst, lock, seedat, seedpc, copy, callat, callpc, picked, handed, answers, order >>
Free == 0
Count(x) == Cardinality(x)
Elems(l) == {l[i] : i \in 1..Len(l)}
Cut(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Note(t) == order' = IF Emit THEN Append(order, t) ELSE order
Init == /\ results \in [Seeds -> 0..MaxResults]
        /\ plans \in [Callers -> UNION {[1..n -> {"len", "pop"}] : n \in 1..MaxCalls}]
        /\ fate \in IF Emit THEN {[s \in Seeds |-> "ok"]} ELSE [Seeds -> {"ok", "fail", "hang"}]
        /\ lst = << >> /\ lock = Free /\ seedat = [s \in Seeds |-> 1] /\ seedpc = [s \in Seeds |-> "look"] /\ copy = [s \in Seeds |-> << >>]
        /\ callat = [c \in Callers |-> 1] /\ callpc = [c \in Callers |-> "start"] /\ picked = [c \in Callers |-> << >>]
        /\ handed = << >> /\ answers = {} /\ order = << >>
Locks == Way # "nolock" /\ Way # "peek"
SeedNo(s) == NCallers + s
\* resolvers
Look(s) == /\ seedpc[s] = "look" /\ fate[s] # "hang"
           /\ (Way = "serial" => \A z \in 1..(s - 1) : seedpc[z] = "end")
           /\ seedpc' = [seedpc EXCEPT ![s] = IF fate[s] = "fail" \/ results[s] = 0 THEN "end" ELSE "want"]
           /\ UNCHANGED << results, plans, fate, lst, lock, seedat, copy, callat, callpc, picked, handed, answers >> /\ Note(SeedNo(s))
Take(s) == /\ seedpc[s] = "want" /\ (Locks => lock = Free)
           /\ lock' = IF Locks THEN SeedNo(s) ELSE lock
           /\ copy' = [copy EXCEPT ![s] = lst]
           /\ seedpc' = [seedpc EXCEPT ![s] = "put"]
           /\ UNCHANGED << results, plans, fate, lst, seedat, callat, callpc, picked, handed, answers >> /\ Note(SeedNo(s))
Put(s) == /\ seedpc[s] = "put"
          /\ lst' = Append(IF Way = "nolock" THEN copy[s] ELSE lst, << s, seedat[s] >>)
          /\ lock' = IF Locks THEN Free ELSE lock
          /\ seedat' = [seedat EXCEPT ![s] = @ + 1]
          /\ seedpc' = [seedpc EXCEPT ![s] = IF seedat[s] = results[s] THEN "end" ELSE "want"]
          /\ UNCHANGED << results, plans, fate, copy, callat, callpc, picked, handed, answers >> /\ Note(SeedNo(s))
\* callers
What(c) == plans[c][callat[c]]
Next1(c) == IF callat[c] = Len(plans[c]) THEN callpc' = [callpc EXCEPT ![c] = "end"] /\ UNCHANGED callat
            ELSE callpc' = [callpc EXCEPT ![c] = "start"] /\ callat' = [callat EXCEPT ![c] = @ + 1]
Enter(c) == /\ callpc[c] = "start" /\ (Locks => lock = Free) /\ lock' = IF Locks THEN c ELSE lock
            /\ callpc' = [callpc EXCEPT ![c] = "in"]
            /\ picked' = [picked EXCEPT ![c] = << >>]
            /\ UNCHANGED << results, plans, fate, lst, seedat, seedpc, copy, callat, handed, answers >> /\ Note(c - 1)
Pick(c) == /\ callpc[c] = "in" /\ What(c) = "pop" /\ lst # << >> /\ picked[c] = << >>
           /\ \E x \in Elems(lst) : picked' = [picked EXCEPT ![c] = x]
           /\ UNCHANGED << results, plans, fate, lst, lock, seedat, seedpc, copy, callat, callpc, handed, answers >> /\ Note(c - 1)
Remove(l, x) == IF \E i \in 1..Len(l) : l[i] = x THEN Cut(l, CHOOSE i \in 1..Len(l) : l[i] = x) ELSE l
Leave(c) == /\ callpc[c] = "in" /\ (What(c) = "pop" /\ lst # << >> => picked[c] # << >>)
            /\ lock' = IF Locks THEN Free ELSE lock
            /\ IF What(c) = "len" THEN answers' = answers \cup {<< c, callat[c], Len(lst), lst >>} /\ UNCHANGED << lst, handed >>
               ELSE IF picked[c] = << >> THEN UNCHANGED << lst, handed, answers >>
               ELSE lst' = Remove(lst, picked[c]) /\ handed' = Append(handed, picked[c]) /\ UNCHANGED answers
            /\ Next1(c)
            /\ UNCHANGED << results, plans, fate, seedat, seedpc, copy, picked >> /\ Note(c - 1)
Next == (\E s \in Seeds : Look(s) \/ Take(s) \/ Put(s)) \/ (\E c \in Callers : Enter(c) \/ Pick(c) \/ Leave(c))
Spec == Init /\ [][Next]_vars
\* --- what callers rely on
Given(s) == IF fate[s] # "ok" THEN 0 ELSE seedat[s] - 1
Delivered == {<< s, i >> : s \in Seeds, i \in 1..MaxResults} \cap UNION {{<< s, i >> : i \in 1..Given(s)} : s \in Seeds}
Once == \A i, j \in 1..Len(handed) : handed[i] = handed[j] => i = j
Kept == Delivered = Elems(lst) \cup Elems(handed) /\ Len(lst) + Len(handed) = Count(Delivered)
\* when nobody can go on, everybody is through but the lookups that hang and whatever waits for nothing else
Done == \A c \in Callers : callpc[c] = "end"
Others == ~ ENABLED Next => Done /\ \A s \in Seeds : fate[s] = "ok" => Given(s) = results[s]
View == << results, plans, fate, lst, lock, seedat, seedpc, copy, callat, callpc, picked, handed >>
Out == (Emit /\ ~ ENABLED Next) => PrintT(<< "LIFE", ToJson([results |-> results, plans |-> plans, order |-> order]) >>)
=============================================================================
