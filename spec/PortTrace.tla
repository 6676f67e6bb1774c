------------------------------- MODULE PortTrace -------------------------------
(* Recorded lives of nodes in front of a gateway, each run a behaviour: tab is *)
(* the gateway's table, live what is known of each node.                      *)
EXTENDS Gateway, TLC, IOUtils, Json
VARIABLES pos, tab, live, bad
Events == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Events) : Events[i].op = "new"}
Tab0(e) == {Entry(e.tab[i][1], e.tab[i][2], e.tab[i][3], e.tab[i][4]) : i \in 1..Len(e.tab)}
T == "TCP"
Top == 65535
Fresh == [listen |-> FALSE, port |-> 0, ph |-> "none", mine |-> {}, lucky |-> TRUE, seen |-> {}, never |-> {}, passes |-> 0, how |-> ""]
N(e) == IF e.n \in DOMAIN live THEN live[e.n] ELSE Fresh
Fails(s) == {x[1] : x \in {y \in s : ~ y[2]}}
\* --- the first free port from its own on; what others did while it asked excuses it
RightPort(l, x) == /\ x \in l.port..Top
                   /\ \A y \in l.port..(x - 1) : y \in l.seen
                   /\ x \notin l.never
Touches == {"ask", "add", "del", "touch"}
Faults(e) ==
  LET l == N(e) IN
  (IF e.op \in Touches THEN
     Fails({<<"C35.touch", l.listen>>,
            <<"C35.late", e.op # "add" \/ l.ph = "asking">>})
   ELSE {}) \cup
  CASE e.op = "create" ->
         Fails({<<"C35.inuse", CASE e.busy = 1 -> e.r.k = "x" /\ e.r.e = "AddrInUseError"
                                 [] e.busy = 2 -> e.r.k = "x" /\ e.r.e # "AddrInUseError"
                                 [] OTHER -> e.r.k = "t" /\ e.got = e.port>>})
    [] e.op = "ask" -> Fails({<<"C35.range", e.e \in 1..Top>>, <<"C35.target", e.p = T>>})
    [] e.op = "add" ->
         Fails({<<"C35.range", e.e \in 1..Top>>,
                <<"C35.target", e.p = T /\ e.own = "" /\ e.port = l.port>>,
                <<"C35.port", e.e \in 1..Top => RightPort(l, e.e)>>,
                <<"C35.twice", l.mine = {}>>})
    [] e.op = "del" ->
         Fails({<<"C35.foreign", e.p = T /\ e.e \in l.mine>>,
                <<"C35.early", l.ph = "stopping">>})
    [] e.op = "pass" ->
         Fails({<<"C35.mapped", (l.listen /\ l.lucky /\ l.ph = "asking") => (l.mine # {} \/ l.port..Top \subseteq l.seen)>>,
                <<"C35.stopped", l.ph # "stopping">>})
    [] e.op = "over" ->
         Fails({<<"C35.left", l.mine = {}>>,
                <<"C35.closed", e.open = 0>>,
                <<"C35.serve", l.passes > 0>>,
                <<"C35.result", CASE e.how = "stop" -> e.r.k = "n"
                                  [] e.how = "close" -> e.r.k = "n"
                                  [] OTHER -> e.r.k = "x" /\ e.r.e = e.how>>})
    [] OTHER -> {}
\* --- what is known afterwards
Put(f, k, v) == [x \in (DOMAIN f \cup {k}) |-> IF x = k THEN v ELSE f[x]]
LiveAfter(e) ==
  LET l == N(e)
      unlucky(x) == [x EXCEPT !.lucky = @ /\ e.res # 2]
  IN CASE e.op = "create" -> Put(live, e.n, [Fresh EXCEPT !.listen = e.listen = 1, !.port = e.port])
       [] e.op = "start" -> Put(live, e.n, [l EXCEPT !.ph = "asking", !.lucky = TRUE, !.mine = {}, !.passes = 0, !.seen = Taken(tab, T), !.never = Taken(tab, T)])
       [] e.op \in {"ask", "touch"} -> Put(live, e.n, unlucky(l))
       [] e.op = "add" -> Put(live, e.n, IF e.res = 1 THEN [l EXCEPT !.mine = @ \cup {e.e}] ELSE [l EXCEPT !.lucky = FALSE])
       [] e.op = "del" -> Put(live, e.n, [l EXCEPT !.mine = @ \ {e.e}])
       [] e.op = "pass" -> Put(live, e.n, [l EXCEPT !.ph = IF @ = "asking" THEN "serving" ELSE @, !.passes = @ + 1])
       [] e.op = "halt" -> Put(live, e.n, [l EXCEPT !.ph = "stopping"])
       [] e.op = "other" -> [k \in DOMAIN live |-> IF live[k].ph # "asking" \/ e.p # T THEN live[k]
                              ELSE IF e.add = 1 THEN [live[k] EXCEPT !.seen = @ \cup {e.e}] ELSE [live[k] EXCEPT !.never = @ \ {e.e}]]
       [] OTHER -> live
TabAfter(e) ==
  CASE e.op = "add" /\ e.res = 1 -> Added(tab, Entry(e.e, e.p, e.own, e.port))
    [] e.op = "del" /\ e.res = 1 -> Removed(tab, e.e, e.p)
    [] e.op = "other" -> IF e.add = 1 THEN Added(tab, Entry(e.e, e.p, "o", 7)) ELSE Removed(tab, e.e, e.p)
    [] OTHER -> tab
Init == \E i \in Starts : pos = i /\ tab = Tab0(Events[i]) /\ live = << >> /\ bad = {}
Next == /\ bad = {} /\ pos < Len(Events) /\ Events[pos + 1].op \notin {"new", "done"}
        /\ pos' = pos + 1
        /\ LET e == Events[pos + 1] IN bad' = Faults(e) /\ live' = LiveAfter(e) /\ tab' = TabAfter(e)
Spec == Init /\ [][Next]_<< pos, tab, live, bad >>
Report == IF bad = {} THEN TRUE ELSE PrintT(<< "FAIL", pos, bad >>)
=============================================================================
