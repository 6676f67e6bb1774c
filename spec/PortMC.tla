-------------------------------- MODULE PortMC --------------------------------
(* Two nodes of one process and their gateway, with other hosts that make and *)
(* remove mappings at any moment and calls that fail at any moment.  A node   *)
(* may live while the other serves, or before or after it; the one started    *)
(* last is the one that runs.  Way: "right", or one known to be wrong.        *)
EXTENDS Gateway, TLC, Json
CONSTANTS Way, PTop, Others, Fails, Rich, Emit
VARIABLES gtab, theirs, stack, pc, own, at, mine, lucky, full, left, acts
vars == << gtab, theirs, stack, pc, own, at, mine, lucky, full, left, acts >>
View == << gtab, theirs, stack, pc, own, at, mine, lucky, full, left >>
Nodes == {1, 2}
T == "TCP"
Ps == 1..PTop
Act(a) == acts' = IF Emit THEN Append(acts, a) ELSE acts
Kinds == IF Rich THEN {"free", "o", "m"} ELSE {"free", "o"}
Foreign(e, k) == Entry(e, T, IF k = "o" THEN "o" ELSE "", IF k = "o" THEN 7 ELSE 900 + e)
Init == /\ \E b \in [Ps -> Kinds] :
             /\ gtab = {Foreign(e, b[e]) : e \in {x \in Ps : b[x] # "free"}}
             /\ own \in {f \in [Nodes -> 0..PTop] : f[1] # f[2]}       \* 0: it does not listen
             /\ acts = IF Emit THEN << [a |-> "begin", b |-> [e \in Ps |-> b[e]], own |-> own] >> ELSE << >>
        /\ theirs = gtab
        /\ stack = << >> /\ pc = << "off", "off" >>
        /\ at = << 0, 0 >> /\ mine = << 0, 0 >> /\ lucky = << TRUE, TRUE >> /\ full = << FALSE, FALSE >>
        /\ left = << Others, Fails >>
Runs(n) == IF stack = << >> THEN FALSE ELSE stack[Len(stack)] = n
Step(a, n) == Act([a |-> a, n |-> n])
Keep(vs) == UNCHANGED vs
Start(n) == /\ pc[n] = "off" /\ (IF stack = << >> THEN TRUE ELSE pc[stack[Len(stack)]] = "serving")
            /\ stack' = Append(stack, n)
            /\ pc' = [pc EXCEPT ![n] = IF own[n] = 0 THEN "serving" ELSE IF Way = "blind" THEN "adding" ELSE "asking"]
            /\ at' = [at EXCEPT ![n] = own[n]]
            /\ Step("start", n) /\ Keep(<< gtab, theirs, own, mine, lucky, full, left >>)
\* no gateway to be found, or one that fails before it is asked for anything
Dead(n) == /\ Runs(n) /\ pc[n] = "asking" /\ at[n] = own[n] /\ left[2] > 0
           /\ left' = [left EXCEPT ![2] = @ - 1]
           /\ pc' = [pc EXCEPT ![n] = "serving"] /\ lucky' = [lucky EXCEPT ![n] = FALSE]
           /\ Step("dead", n) /\ Keep(<< gtab, theirs, stack, own, at, mine, full >>)
Look(n) == /\ Runs(n) /\ pc[n] = "asking"
           /\ IF At(gtab, at[n], T) = {}
              THEN /\ pc' = [pc EXCEPT ![n] = "adding"] /\ Keep(<< at, full >>)
              ELSE IF Way = "shy" THEN /\ pc' = [pc EXCEPT ![n] = "serving"] /\ Keep(<< at, full >>)
              ELSE IF at[n] < PTop THEN /\ at' = [at EXCEPT ![n] = @ + 1] /\ Keep(<< pc, full >>)
              ELSE /\ full' = [full EXCEPT ![n] = TRUE] /\ Keep(at)
                   /\ pc' = [pc EXCEPT ![n] = IF Way = "last" THEN "adding" ELSE "serving"]
           /\ Step("look", n) /\ Keep(<< gtab, theirs, stack, own, mine, lucky, left >>)
LookFail(n) == /\ Runs(n) /\ pc[n] = "asking" /\ left[2] > 0
               /\ left' = [left EXCEPT ![2] = @ - 1]
               /\ pc' = [pc EXCEPT ![n] = "serving"] /\ lucky' = [lucky EXCEPT ![n] = FALSE]
               /\ Step("lookfail", n) /\ Keep(<< gtab, theirs, stack, own, at, mine, full >>)
Add(n) == /\ Runs(n) /\ pc[n] = "adding"
          /\ pc' = [pc EXCEPT ![n] = "serving"]
          /\ IF MayAdd(gtab, at[n], T, "")
             THEN /\ gtab' = Added(gtab, Entry(at[n], T, "", own[n]))
                  /\ mine' = [mine EXCEPT ![n] = at[n]] /\ Keep(lucky)
             ELSE /\ lucky' = [lucky EXCEPT ![n] = FALSE]
                  /\ mine' = IF Way = "sure" THEN [mine EXCEPT ![n] = at[n]] ELSE mine
                  /\ Keep(gtab)
          /\ Step("add", n) /\ Keep(<< theirs, stack, own, at, full, left >>)
AddFail(n) == /\ Runs(n) /\ pc[n] = "adding" /\ left[2] > 0
              /\ left' = [left EXCEPT ![2] = @ - 1]
              /\ pc' = [pc EXCEPT ![n] = "serving"] /\ lucky' = [lucky EXCEPT ![n] = FALSE]
              /\ mine' = IF Way = "sure" THEN [mine EXCEPT ![n] = at[n]] ELSE mine
              /\ Step("addfail", n) /\ Keep(<< gtab, theirs, stack, own, at, full >>)
\* it stops: by itself, or because it is interrupted
Stop(n, how) == /\ Runs(n) /\ pc[n] = "serving"
                /\ pc' = [pc EXCEPT ![n] = IF own[n] # 0 /\ (mine[n] # 0 \/ Way = "delown") /\ ~ (Way = "polite" /\ how = "break")
                                           THEN "removing" ELSE "done"]
                /\ stack' = IF pc'[n] = "done" THEN SubSeq(stack, 1, Len(stack) - 1) ELSE stack
                /\ Step(how, n) /\ Keep(<< gtab, theirs, own, at, mine, lucky, full, left >>)
Remove(n) == /\ Runs(n) /\ pc[n] = "removing"
             /\ gtab' = Removed(gtab, IF Way = "delown" THEN own[n] ELSE mine[n], T)
             /\ pc' = [pc EXCEPT ![n] = "done"] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
             /\ Step("del", n) /\ Keep(<< theirs, own, at, mine, lucky, full, left >>)
RemoveFail(n) == /\ Runs(n) /\ pc[n] = "removing" /\ left[2] > 0
                 /\ left' = [left EXCEPT ![2] = @ - 1] /\ lucky' = [lucky EXCEPT ![n] = FALSE]
                 /\ pc' = [pc EXCEPT ![n] = "done"] /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
                 /\ Step("delfail", n) /\ Keep(<< gtab, theirs, own, at, mine, full >>)
Other(e) == /\ left[1] > 0 /\ left' = [left EXCEPT ![1] = @ - 1]
            /\ IF At(gtab, e, T) = {}
               THEN gtab' = gtab \cup {Foreign(e, "o")} /\ theirs' = theirs \cup {Foreign(e, "o")}
               ELSE /\ At(gtab, e, T) = {Foreign(e, "o")}
                    /\ gtab' = gtab \ {Foreign(e, "o")} /\ theirs' = theirs \ {Foreign(e, "o")}
            /\ Act([a |-> "other", n |-> e]) /\ Keep(<< stack, pc, own, at, mine, lucky, full >>)
Next == \/ \E n \in Nodes : Start(n) \/ Dead(n) \/ Look(n) \/ LookFail(n) \/ Add(n) \/ AddFail(n) \/ Stop(n, "stop") \/ Stop(n, "break") \/ Remove(n) \/ RemoveFail(n)
        \/ stack # << >> /\ \E e \in Ps : Other(e)
Spec == Init /\ [][Next]_vars
\* what others mapped stays as they left it
Foreigners == theirs \subseteq gtab
\* nothing else is in the table but the mappings of nodes that serve, or could not be removed
Clean == \A t \in gtab \ theirs : \E n \in Nodes : /\ t = Entry(mine[n], T, "", own[n])
                                                   /\ (pc[n] \in {"serving", "removing"} \/ (pc[n] = "done" /\ ~ lucky[n]))
\* a node that listens is reachable while it serves, if the gateway does its part and has a port left
Reachable == \A n \in Nodes : pc[n] = "serving" /\ own[n] # 0 /\ lucky[n] /\ ~ full[n] => Entry(mine[n], T, "", own[n]) \in gtab
Ports == \A n \in Nodes : mine[n] # 0 => mine[n] \in own[n]..PTop
Silent == \A n \in Nodes : own[n] = 0 => mine[n] = 0 /\ pc[n] \in {"off", "serving", "done"}
AllDone == \A n \in Nodes : pc[n] = "done"
Out == (Emit /\ AllDone) => PrintT(<< "PORTS", ToJson(acts) >>)
=============================================================================
