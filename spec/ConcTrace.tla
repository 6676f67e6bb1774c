------------------------------ MODULE ConcTrace ------------------------------
(* Recorded lives of a seed list ("new" ... "done") and recorded guesses of   *)
(* the block height.  The state is the set of states the seed list may be in: *)
(* results move from the lookups that delivered them to the list at any time, *)
(* a call takes effect at one moment between its beginning and its end.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json
VARIABLES pos, hist, sts, bad
Events == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Events) : Events[i].op = "new"}
\* hist: all results delivered so far, addresses by number; calls by number; seeds that delivered
\* a state: numbers of the results in the list or handed out, of those handed out, open calls not yet in effect
Hist0 == [adr |-> << >>, want |-> {}, open |-> << >>]
St0 == [add |-> {}, out |-> {}, todo |-> {}]
Nums(h) == DOMAIN h.adr
InList(s) == s.add \ s.out
Effect(h, s, c) ==
  LET r == h.open[c]
      t == [s EXCEPT !.todo = @ \ {c}]
  IN CASE r.k = "n" -> IF r.v = Cardinality(InList(s)) THEN {t} ELSE {}
       [] r.k = "a" -> {[t EXCEPT !.out = @ \cup {i}] : i \in {j \in InList(s) : h.adr[j] = r.v}}
       [] r.k = "x" -> IF InList(s) = {} THEN {t} ELSE {}
       [] OTHER -> {}
Moves(h, s) == {[s EXCEPT !.add = @ \cup {i}] : i \in Nums(h) \ s.add} \cup UNION {Effect(h, s, c) : c \in s.todo}
RECURSIVE Close(_, _, _)
Close(h, new, all) == IF new = {} THEN all
                      ELSE LET x == UNION {Moves(h, s) : s \in new} \ all IN Close(h, x, all \cup x)
Drop(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
OneOf(S) == CHOOSE x \in S : TRUE
\* --- guesses; some milliseconds more do no harm
Slack == 50
Clamp(e, s) ==
  LET got == {i \in 1..Len(e.res) : e.res[i][1] = s.n}
  IN CASE s.k \in {"fail", "exit", "hang"} -> got = {}
       [] s.at > e.limit + Slack -> got = {}
       [] s.at >= e.limit \/ s.k = "none" -> \A i \in got : e.res[i][2] = s.v
       [] OTHER -> \E i \in got : e.res[i][2] = s.v
GuessFaults(e) ==
  IF e.how # "ret" THEN {"C30.guess"}
  ELSE (IF e.t > e.limit + Slack THEN {"C30.late"} ELSE {})
       \cup (IF \A i \in 1..Len(e.src) : Clamp(e, e.src[i]) THEN {} ELSE {"C30.collected"})
       \cup (IF {e.res[i][1] : i \in 1..Len(e.res)} \subseteq {e.src[i].n : i \in 1..Len(e.src)} THEN {} ELSE {"C30.source"})
       \cup (IF e.res = e.later THEN {} ELSE {"C30.later"})
\* --- many seeds, many addresses: all in the list, then all taken
Times(l, x) == Cardinality({i \in 1..Len(l) : l[i] = x})
LargeFaults(e) ==
  LET n == Len(e.found)
      all == {e.found[i] : i \in 1..n} \cup {e.handed[i] : i \in 1..Len(e.handed)}
  IN (IF e.n = n /\ e.left = 0 /\ (n > 1 => e.mid = n - n \div 2) THEN {} ELSE {"C30.count"})
     \cup (IF \A x \in all : Times(e.handed, x) <= Times(e.found, x) THEN {} ELSE {"C30.once"})
     \cup (IF e.more = 0 /\ \A x \in all : Times(e.handed, x) >= Times(e.found, x) THEN {} ELSE {"C30.lost"})
     \cup (IF hist.want \subseteq {e.asked[i] : i \in 1..Len(e.asked)} THEN {} ELSE {"C30.others"})
\* --- seeds
Step(e) ==
  CASE e.op = "res" ->
         /\ hist' = [hist EXCEPT !.adr = [i \in (DOMAIN @) \cup {e.l[j].id : j \in 1..Len(e.l)} |->
                                            IF i \in DOMAIN @ THEN @[i] ELSE LET j == CHOOSE x \in 1..Len(e.l) : e.l[x].id = i IN e.l[j].a],
                                !.want = @ \ {e.s}]
         /\ sts' = sts /\ bad' = {}
    [] e.op = "call" ->
         /\ hist' = [hist EXCEPT !.open = (e.c :> e.r) @@ @]
         /\ sts' = {[s EXCEPT !.todo = @ \cup {e.c}] : s \in sts} /\ bad' = {}
    [] e.op = "ret" ->
         LET z == {s \in Close(hist, sts, sts) : e.c \notin s.todo}
         IN /\ sts' = z /\ hist' = [hist EXCEPT !.open = Drop(@, e.c)]
            /\ bad' = IF z # {} THEN {}
                      ELSE CASE hist.open[e.c].k = "n" -> {"C30.count"} [] hist.open[e.c].k = "a" -> {"C30.once"} [] OTHER -> {"C30.lost"}
    [] e.op = "idle" ->       \* nobody has anything to do: what was delivered is in the list
         LET z == {s \in Close(hist, sts, sts) : s.add = Nums(hist)}
         IN sts' = z /\ hist' = hist /\ bad' = IF z = {} THEN {"C30.lost"} ELSE {}
    [] e.op = "quiet" ->
         LET z == {s \in Close(hist, sts, sts) : s.add = Nums(hist)}
         IN sts' = z /\ hist' = hist /\ bad' = (IF z = {} THEN {"C30.lost"} ELSE {}) \cup (IF hist.want = {} THEN {} ELSE {"C30.others"})
    [] e.op = "stuck" -> sts' = sts /\ hist' = hist /\ bad' = {"C30.stuck"}
    [] e.op = "guess" -> sts' = sts /\ hist' = hist /\ bad' = GuessFaults(e)
    [] e.op = "large" -> sts' = sts /\ hist' = hist /\ bad' = LargeFaults(e)
    [] e.op = "process" -> sts' = sts /\ hist' = hist /\ bad' = IF e.how = "ok" THEN {} ELSE {"C30.process"}
Init == /\ pos \in Starts /\ bad = {}
        /\ hist = [Hist0 EXCEPT !.want = {Events[pos].want[i] : i \in 1..Len(Events[pos].want)}] /\ sts = {St0}
Next == /\ bad = {} /\ pos < Len(Events) /\ Events[pos + 1].op \notin {"new", "done"}
        /\ pos' = pos + 1 /\ Step(Events[pos + 1])
Spec == Init /\ [][Next]_<< pos, hist, sts, bad >>
Report == IF bad = {} THEN TRUE ELSE PrintT(<< "FAIL", pos, bad >>)
=============================================================================
