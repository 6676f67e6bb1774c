------------------------------ MODULE NodeTrace ------------------------------
(* Checks recorded runs of the node against NodeCore.  Every run is one        *)
(* behaviour: it starts with an event "new" and ends with "done".  The state  *)
(* is the set of node states the events so far allow.                         *)
EXTENDS NodeCore, IOUtils, Json
VARIABLES pos, cfg, sts, bad

Events == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Events) : Events[i].op = "new"}
Range(f) == {f[i] : i \in DOMAIN f}
Good(n) == << {n}, {} >>
Bad(c) == << {}, c >>

\* what the handling of a message of this type is for
Concerns(ty) == CASE ty = "Version" -> {"C03.handled", "C08.handled"}
                  [] ty = "VersionAck" -> {"C03.handled", "C04.handled"}
                  [] ty = "Ping" -> {"C03.handled"}
                  [] ty = "GetAddress" -> {"C03.handled", "C04.handled"}
                  [] ty = "Address" -> {"C04.handled"}
                  [] OTHER -> {}
\* a message waits to be handled and is not
Missed(n, c) == LET x == ReadFrame(c.magic, HeadFrame(n.conns[n.cur].inb)[1])
                IN {"C01.missed"} \cup (IF x[1] = "ok" THEN Concerns(x[2]) ELSE {})

\* messages the node has no handler for are dropped without a trace
RECURSIVE Drop(_, _)
Drop(n, c) ==
  IF c.mute = {} \/ ~ Waiting(n) THEN n
  ELSE LET h == HeadFrame(n.conns[n.cur].inb)[1]
           x == ReadFrame(c.magic, h)
       IN IF x[1] = "ok" /\ x[2] \in c.mute THEN Drop(Consume(n, c, n.cur, h), c) ELSE n

\* --- one entry of the log -------------------------------------------------------------
\* entries that need maintenance (and the look over the connections) to be over
Need(n, c, e, t) ==
  IF n.ph = "hb" /\ ~ (e.a = "dial" \/ (e.a \in {"close", "disc"} /\ e.s \in n.dead) \/ e.a = "err") THEN EndHb(n, c) ELSE Good(n)
CmdStep(n, c, e, t) ==
  IF ~ Waiting(n) \/ n.cur # e.s THEN Bad({"C01.invented"})
  ELSE LET h == HeadFrame(n.conns[n.cur].inb)[1]
           x == ReadFrame(c.magic, h)
       IN IF x[1] # "ok" THEN Bad({"C01.invalid", "C10.frame"})
          ELSE IF x[2] # e.name \/ e.ok = 0 \/ ~ DenFields(RecFields(x[2]), e.f, x[3]) THEN Bad({"C01.order"} \cup Concerns(x[2]))
          ELSE << {[m EXCEPT !.lastm = x[2]] : m \in Handle(Consume(n, c, n.cur, h), c, n.cur, x[2], x[3], t)}, {} >>
InvStep(n, c, e) ==
  IF ~ Waiting(n) \/ n.cur # e.s THEN Bad({"C01.invented"})
  ELSE LET h == HeadFrame(n.conns[n.cur].inb)[1]
       IN IF ReadFrame(c.magic, h)[1] \notin {"format", "unknown"} THEN Bad({"C01.valid"})
          ELSE IF e.b # h THEN Bad({"C01.payload"}) ELSE Good(Consume(n, c, n.cur, h))
ApiStep(n, c, e, t) ==
  CASE e.what = "punish" -> Good(Punished(n, e.s, t))
    [] e.what = "remove" -> Good(Removed(n, e.addr))
DialStep(n, c, e, t) ==
  IF n.ph = "hb" THEN
       LET f == DialFaults(n, c, e.addr) IN IF f # {} THEN Bad(f) ELSE Good([Dialled(n, c, e.s, e.addr, e.res, t) EXCEPT !.dials = @ + 1])
  ELSE IF n.ph = "api" THEN Good([Dialled(n, c, e.s, e.addr, e.res, t) EXCEPT !.dials = @ + 1])
  ELSE Bad({"C06.round"})
SelStep(n, c, e, t) ==
  LET z == EndScan(n, c, t)
      ok == {m \in z[1] : Writers(m) = Range(e.w)}
      lis == IF n.up THEN {c.lis} ELSE {}
  IN IF z[2] # {} THEN z
     ELSE IF Range(e.r) # Open(n) \cup lis THEN Bad({"C01.deaf", "C06.peers"})
     ELSE IF ok = {} THEN LET m == CHOOSE y \in z[1] : TRUE
                          IN Bad((IF Range(e.w) \ Writers(m) # {} THEN {"C02.extra"} ELSE {"C02.stalled"}) \cup {"C03.answer", "C04.reply", "C07.ping", "C06.ask"})
     ELSE << ok, {} >>
CloseStep(n, c, e, t) ==
  IF e.s \in n.dead THEN Good(n)
  ELSE IF e.s = c.lis THEN (IF n.up THEN Bad({"C06.listener", "C05.others", "C01.others"}) ELSE Good(n))
  ELSE IF e.s \in Open(n) /\ n.ph = "scan" /\ Expired(n.conns[e.s], t) THEN Good(Kill(n, e.s))
  ELSE Bad({"C06.closed", "C05.closed", "C01.others"} \cup (IF n.cur = e.s THEN Concerns(n.lastm) ELSE {}) \cup (IF n.ph = "scan" THEN {"C07.early"} ELSE {}))
Step1(n0, c, e, t) ==
  LET n == Drop(n0, c) IN
  IF Waiting(n) /\ e.a \notin {"cmd", "inv", "api", "close", "disc"} THEN Bad(Missed(n, c))
  ELSE CASE e.a = "cmd" -> CmdStep(n, c, e, t)
         [] e.a = "inv" -> InvStep(n, c, e)
         [] e.a = "api" -> ApiStep(n, c, e, t)
         [] e.a = "dial" -> DialStep(n, c, e, t)
         [] e.a = "sel" -> SelStep(n, c, e, t)
         [] e.a = "close" -> CloseStep(n, c, e, t)
         [] e.a = "disc" -> IF e.s \in n.dead THEN Good(n) ELSE Bad({"C06.closed", "C04.forgotten"})
         [] e.a = "acc" -> << Accepted(n, c, e.s, e.addr, t), {} >>
         [] e.a = "recv" -> IF e.s \in n.dead THEN Bad({"C06.dead"})
                            ELSE IF e.kind = "data" THEN Good(Received(n, c, e.s, e.b, t)) ELSE Good(Kill(n, e.s))
         [] e.a = "send" -> IF e.s \notin Open(n) THEN Bad({"C06.dead", "C02.extra"})
                            ELSE IF e.kind = "err" THEN Good(Kill(n, e.s))
                            ELSE IF e.kind = "block" THEN Good([n EXCEPT !.conns[e.s].ltt = t])
                            ELSE Sent(n, c, e.s, e.b, t)
         [] e.a = "err" -> Good(Kill(n, e.s))
\* <<states, clauses>> from a set of states; clauses only matter when no state is left
Over(S, F(_)) == LET r == {F(n) : n \in S} IN << UNION {x[1] : x \in r}, UNION {x[2] : x \in r} >>
RECURSIVE RunLog(_, _, _, _, _)
RunLog(S, c, log, i, t) ==
  IF i > Len(log) THEN << S, {} >>
  ELSE LET a == Over(S, LAMBDA n : Need(n, c, log[i], t))
           b == IF a[1] = {} THEN a ELSE Over(a[1], LAMBDA n : Step1(n, c, log[i], t))
       IN IF b[1] = {} THEN b ELSE RunLog(b[1], c, log, i + 1, t)

\* --- what the node shows afterwards ---------------------------------------------------
Shown(n, p) ==
  LET k == n.conns[p.s]
      den(v, x) == v = x
  IN (IF k.addr = p.addr /\ k.inc = (p.inc = 1) THEN {} ELSE {"C06.peers"})
     \cup (IF p.services = k.info.services /\ p.version = k.info.version /\ p.ua = k.info.ua /\ p.height = k.info.height /\ p.relay = k.info.relay
              /\ (IF k.info.ext.k = "n" THEN p.ext.k = "n" ELSE p.ext.k = "s" /\ AddrBytes(p.ext.v) = k.info.ext.v) THEN {} ELSE {"C03.info"})
     \cup (IF IF k.info.ext.k = "n" THEN p.ext.k = "n" ELSE p.ext.k = "s" /\ AddrBytes(p.ext.v) = k.info.ext.v THEN {} ELSE {"C08.ext"})
     \cup (IF k.ack = (p.ack = 1) THEN {} ELSE {"C03.acked"})
     \cup (IF k.tx = p.tx /\ k.rx = p.rx THEN {} ELSE {"C02.counts"})
     \cup (IF k.ban = p.ban THEN {} ELSE {"C05.penalty"})
SnapFaults(n, c, sn) ==
  (IF Waiting(n) THEN Missed(n, c) ELSE {})
  \cup (IF {p.s : p \in Range(sn.peers)} # Open(n) \/ Len(sn.peers) # Cardinality(Open(n)) THEN {"C06.peers", "C05.peers", "C07.peers"}
        ELSE UNION {Shown(n, p) : p \in Range(sn.peers)})
  \cup (IF Range(sn.closed) # n.dead \cup (IF n.up THEN {} ELSE {c.lis}) THEN {"C06.socket", "C05.socket", "C07.socket"} ELSE {})
  \cup (IF sn.ip.k = "s" /\ AddrBytes(sn.ip.v) = (IF n.ext # << >> THEN n.ext ELSE n.guess) THEN {} ELSE {"C08.ip"})
Settle(S0, c, sn) ==
  LET S == {Drop(n, c) : n \in S0} IN
  IF "k" \in DOMAIN sn THEN Bad({"C06.snapshot", "C03.info"})
  ELSE LET f == [n \in S |-> SnapFaults(n, c, sn)]
           ok == {n \in S : f[n] = {}}
       IN IF ok # {} THEN << {[n EXCEPT !.ph = "idle", !.cur = 0] : n \in ok}, {} >> ELSE << {}, UNION {f[n] : n \in S} >>

\* --- events ------------------------------------------------------------------------------
AnyCrash == {"C01.loop", "C02.loop", "C03.loop", "C04.loop", "C05.loop", "C06.loop", "C07.loop", "C08.loop"}
PassEvent(S, c, e) ==
  LET a == Over(S, LAMBDA n : << BeginPass(n, c, e.t), {} >>)
      b == RunLog(a[1], c, e.log, 1, e.t)
      \* a pass without any entry still does its maintenance
      d == IF b[1] = {} THEN b ELSE Over(b[1], LAMBDA n : IF n.ph # "io" THEN Bad({"C06.loop", "C01.loop"}) ELSE Good(n))
  IN IF e.r.k # "n" THEN Bad(AnyCrash)
     ELSE IF d[1] = {} THEN d ELSE Settle(d[1], c, e.snap)
AddFaults(n, c, e, m) ==       \* n before, m after
  LET dup == e.addr \in Addrs(n)
      own == e.addr = c.own /\ n.up
      none == dup \/ own \/ (e.force = 0 /\ Full(n, c))
      failed == \E i \in 1..Len(e.log) : e.log[i].a = "dial" /\ e.log[i].res = "fail"
  IN (IF m.dials > 1 THEN {"C06.twice"} ELSE {})
     \cup (IF m.dials > 0 /\ dup THEN {"C06.connected"} ELSE {})
     \cup (IF m.dials > 0 /\ own THEN {"C06.own"} ELSE {})
     \cup (IF m.dials > 0 /\ none /\ ~ dup /\ ~ own THEN {"C06.max"} ELSE {})
     \cup (IF m.dials = 0 /\ ~ none /\ ~ (e.force = 0 /\ AlmostFull(n, c)) THEN {"C06.refused"} ELSE {})
     \cup (IF \E i \in 1..Len(e.log) : e.log[i].a = "dial" /\ e.log[i].addr # e.addr THEN {"C06.other"} ELSE {})
     \cup (IF e.r.k # "t" \/ (e.r.v = << 1 >>) # (m.dials = 1 /\ ~ failed) THEN {"C06.result"} ELSE {})
ApiEvent(S, c, e) ==
  LET before == {[n EXCEPT !.ph = "api", !.dials = 0, !.cur = 0] : n \in S}
      after == CASE e.what = "punish" -> {Punished(n, e.s, e.t) : n \in before}
                 [] e.what = "remove" -> {Removed(n, e.addr) : n \in before}
                 [] e.what = "setext" -> {[n EXCEPT !.ext = e.ip] : n \in before}
                 [] e.what = "height" -> {[n EXCEPT !.height = e.h] : n \in before}
                 [] e.what = "ua" -> {[n EXCEPT !.ua = e.ua] : n \in before}
                 [] e.what = "close" -> {[n EXCEPT !.up = FALSE] : n \in before}
                 [] OTHER -> before
      run(n) == LET z == RunLog({n}, c, e.log, 1, e.t)
                IN IF z[1] = {} \/ e.what # "add" THEN z
                   ELSE LET f == UNION {AddFaults(n, c, e, m) : m \in z[1]} IN IF f = {} THEN z ELSE Bad(f)
      b == Over(after, run)
  IN IF e.r.k = "x" \/ e.r.k = "to" THEN Bad(AnyCrash)
     ELSE IF b[1] = {} THEN b ELSE Settle(b[1], c, e.snap)
Apply(S, c, e) ==
  CASE e.op = "pass" -> PassEvent(S, c, e)
    [] e.op = "api" -> ApiEvent(S, c, e)
    [] e.op = "served" ->        \* the loop ended because it was told to; the listening socket is closed
         IF e.r.k # "n" THEN Bad(AnyCrash)
         ELSE Settle({[n EXCEPT !.up = FALSE] : n \in S}, c, e.snap)

Conf(e) == [e.c EXCEPT !.seeds = Range(@), !.mute = Range(@)] @@ [maxbook |-> 2500, maxreply |-> 1000]
NewFaults(e) == IF e.r.k # "t" THEN AnyCrash ELSE IF e.own # e.c.own THEN {"C06.own"} ELSE {}

Init == /\ pos \in Starts
        /\ bad = NewFaults(Events[pos])
        /\ cfg = IF Events[pos].r.k = "t" THEN Conf(Events[pos]) ELSE << >>
        /\ sts = IF bad = {} THEN {Init0(cfg, 0)} ELSE {}
Next == /\ bad = {} /\ pos < Len(Events) /\ Events[pos + 1].op \notin {"new", "done"}
        /\ pos' = pos + 1
        /\ cfg' = cfg
        /\ LET z == Apply(sts, cfg, Events[pos + 1])
           IN sts' = z[1] /\ bad' = IF z[1] = {} THEN z[2] ELSE {}
Spec == Init /\ [][Next]_<<pos, cfg, sts, bad>>
Report == IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", pos, bad>>)
=============================================================================
