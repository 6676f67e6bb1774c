------------------------------ MODULE NodeCore ------------------------------
(* The state of a node and what each happening does to it: C01 - C08.         *)
(*                                                                            *)
(* A node is a record n; c is its configuration.  Connections are numbered    *)
(* (socket ids).  Each connection has an input buffer of received bytes not   *)
(* yet consumed, and a queue q of messages still to be transmitted, of which  *)
(* the bytes pend of the first have already been.  Messages are queued as     *)
(* templates because their nonces are free and a getaddr reply may list       *)
(* equally old addresses in any order.                                        *)
EXTENDS Wire, FiniteSets, TLC, Integers

NoneV == [k |-> "n", v |-> << >>]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
Ip4(a) == SubSeq(a[1], 1, 12) = V4Head

\* limits
Hour == 3600
Idle == 1800
PingGap == 300
Dead == 10800
Round == 10
MaxDials == 5
Few == 50

TimeBytes(c, t) == BAdd(c.t0, BFromInt(t))
\* --- templates --------------------------------------------------------------------
TVersion(n, c, addr, t) == [m |-> "version", ts |-> TimeBytes(c, t), to |-> addr, ip |-> IF n.ext # << >> THEN n.ext ELSE n.guess, ua |-> n.ua, h |-> n.height]
TPlain(m) == [m |-> m]
TPong(x) == [m |-> "pong", x |-> x]
\* the addresses that may be served, with the number of them that are
TAddr(n, c) == [m |-> "addr", book |-> [a \in {x \in DOMAIN n.book : n.book[x][2].k # "n"} |-> n.book[a]]]
ReplyLen(c, tpl) == Min2(c.maxreply, Cardinality(DOMAIN tpl.book))
VarLen(k) == IF k < 253 THEN 1 ELSE IF k < 65536 THEN 3 ELSE 5
FrameLen(c, tpl) == 24 + (CASE tpl.m = "version" -> 85 + VarLen(Len(tpl.ua)) + Len(tpl.ua)
                          [] tpl.m \in {"verack", "getaddr"} -> 0
                          [] tpl.m \in {"ping", "pong"} -> 8
                          [] tpl.m = "addr" -> LET k == ReplyLen(c, tpl) IN VarLen(k) + 30 * k)

Services == WI(<< 1 >>)
NetAddr(serv, a) == << serv, WB(a[1]), WI(BFromInt(a[2])) >>
\* an address list as served: no duplicates, recorded data, newest first, the newest ones
ServesBook(c, tpl, l) ==
  LET key(i) == << l[i].f[3].v, BToInt(l[i].f[4].v) >>
      keys == {key(i) : i \in 1..Len(l)}
  IN /\ Len(l) = ReplyLen(c, tpl)
     /\ Cardinality(keys) = Len(l)
     /\ \A i \in 1..Len(l) : Len(l[i].f[4].v) <= 2 /\ key(i) \in DOMAIN tpl.book /\ << l[i].f[1], l[i].f[2] >> = tpl.book[key(i)]
     /\ \A i \in 1..(Len(l) - 1) : BLe(l[i + 1].f[1].v, l[i].f[1].v)
     /\ Len(l) = c.maxreply => \A a \in (DOMAIN tpl.book) \ keys : BLe(tpl.book[a][1].v, l[Len(l)].f[1].v)
\* does the frame transmit the template?
Fulfils(c, tpl, frame) ==
  LET x == ReadFrame(c.magic, frame)
  IN /\ x[1] = "ok"
     /\ Frame(c.magic, x[2], x[3]) = frame
     /\ CASE tpl.m = "version" ->
              /\ x[2] = "Version"
              /\ x[3][1] = WI(c.pv) /\ x[3][2] = Services /\ x[3][3] = WI(tpl.ts)
              /\ Tail(x[3][4].f) = NetAddr(Services, tpl.to)
              /\ Tail(x[3][5].f) = NetAddr(Services, << tpl.ip, c.own[2] >>)
              /\ x[3][7] = WB(tpl.ua) /\ x[3][8] = WI(tpl.h) /\ x[3][9] = WI(<< >>)
          [] tpl.m = "verack" -> x[2] = "VersionAck"
          [] tpl.m = "getaddr" -> x[2] = "GetAddress"
          [] tpl.m = "ping" -> x[2] = "Ping"
          [] tpl.m = "pong" -> x[2] = "Pong" /\ x[3][1] = WB(tpl.x)
          [] tpl.m = "addr" -> x[2] = "Address" /\ ServesBook(c, tpl, x[3][1].l)
\* what breaks when it does not
Blame(tpl, frame, magic) ==
  LET x == ReadFrame(magic, frame)
  IN {"C02.bytes"}
     \cup (CASE tpl.m = "version" -> IF x[1] = "ok" /\ x[2] = "Version" /\ SubSeq(x[3][5].f, 3, 3) # << WB(tpl.ip) >> THEN {"C08.announced", "C02.version"} ELSE {"C02.version"}
           [] tpl.m = "ping" -> {"C07.ping"}
           [] tpl.m = "getaddr" -> {"C06.ask"}
           [] tpl.m = "addr" -> {"C04.reply", "C03.answer"}
           [] OTHER -> {"C03.answer"})
     \cup (IF x[1] # "ok" THEN {} ELSE IF x[2] = "Ping" THEN {"C07.ping"} ELSE IF x[2] = "GetAddress" THEN {"C06.ask"} ELSE {"C03.answer"})

\* --- connections --------------------------------------------------------------------
NoInfo == [services |-> NoneV, version |-> NoneV, ua |-> NoneV, height |-> NoneV, relay |-> NoneV, ext |-> NoneV]
NewConn(n, c, addr, inc, t) ==
  LET v == TVersion(n, c, addr, t)
  IN [addr |-> addr, inc |-> inc, inb |-> << >>, q |-> << v >>, pend |-> << >>, unsent |-> FrameLen(c, v), tx |-> 0, rx |-> 0,
      ltx |-> -1, ltt |-> -1, lrx |-> -1, lping |-> -1, info |-> NoInfo, ack |-> FALSE, ban |-> 0]
Init0(c, t) == [conns |-> << >>, book |-> << >>, dead |-> {}, banned |-> << >>, guess |-> c.own[1], ext |-> << >>, ua |-> c.ua, height |-> << >>,
                lasthb |-> -100, up |-> TRUE, ph |-> "idle", att |-> 0, hbpeers |-> {}, hb |-> FALSE, dials |-> 0, want |-> 0, cur |-> 0, lastm |-> ""]
Open(n) == DOMAIN n.conns
Addrs(n) == {n.conns[s].addr : s \in Open(n)}
Queue(n, c, s, tpl) == IF s \notin Open(n) THEN n
                       ELSE [n EXCEPT !.conns[s].q = Append(@, tpl), !.conns[s].unsent = @ + FrameLen(c, tpl)]
Kill(n, s) == IF s \notin Open(n) THEN n
              ELSE [n EXCEPT !.conns = Without(@, s), !.dead = @ \cup {s}, !.book = Without(@, n.conns[s].addr)]

\* --- incoming bytes ------------------------------------------------------------------
\* the message at the head of the buffer: << >> or <<frame>>
HeadFrame(b) == IF Len(b) < 24 THEN << >>
                ELSE LET l == BNorm(Rev(Sub(b, 16, 4)))
                     IN IF Len(l) > 3 THEN << >>
                        ELSE LET k == 24 + BToInt(l) IN IF k > Len(b) THEN << >> ELSE << SubSeq(b, 1, k) >>
Drop1(b, f) == SubSeq(b, Len(f) + 1, Len(b))
RECURSIVE SkipShort(_, _)
\* messages whose payload ends too early are passed over
SkipShort(c, b) == LET h == HeadFrame(b)
                   IN IF h = << >> THEN b
                      ELSE IF ReadFrame(c.magic, h[1])[1] = "short" THEN SkipShort(c, Drop1(b, h[1])) ELSE b
Received(n, c, s, bytes, t) ==
  [n EXCEPT !.conns[s].rx = @ + Len(bytes), !.conns[s].lrx = t, !.conns[s].inb = SkipShort(c, @ \o bytes), !.cur = s]
\* is a message waiting to be handled?
Waiting(n) == n.cur # 0 /\ n.cur \in Open(n) /\ HeadFrame(n.conns[n.cur].inb) # << >>
Consume(n, c, s, f) == [n EXCEPT !.conns[s].inb = SkipShort(c, Drop1(@, f))]

\* --- effects of messages ----------------------------------------------------------------
Votes(n, x) == Cardinality({s \in Open(n) : n.conns[s].info.ext = WB(x)})
Majority(n) == LET xs == {n.conns[s].info.ext.v : s \in {u \in Open(n) : n.conns[u].info.ext.k # "n"}}
               IN {x \in xs : \A y \in xs : Votes(n, y) <= Votes(n, x)}
BookAdd(book, c, a, v) == IF a \in DOMAIN book THEN [book EXCEPT ![a] = v]
                          ELSE IF Cardinality(DOMAIN book) < c.maxbook THEN (a :> v) @@ book ELSE book
RECURSIVE BookAll(_, _, _, _)
BookAll(book, c, l, i) == IF i > Len(l) THEN book
                          ELSE BookAll(BookAdd(book, c, << l[i].f[3].v, BToInt(l[i].f[4].v) >>, << l[i].f[1], l[i].f[2] >>), c, l, i + 1)
\* the set of states after message <<type, fields>> from s was handled
Handle(n, c, s, ty, f, t) ==
  CASE ty = "Version" ->
         LET m == [n EXCEPT !.conns[s].info = [services |-> f[2], version |-> f[1], ua |-> f[7], height |-> f[8], relay |-> f[9], ext |-> f[4].f[3]]]
             q == Queue(m, c, s, TPlain("verack"))
         IN {[q EXCEPT !.guess = x] : x \in Majority(m)}
    [] ty = "VersionAck" ->
         {[n EXCEPT !.conns[s].ack = TRUE, !.book = BookAdd(@, c, n.conns[s].addr, << WI(TimeBytes(c, n.conns[s].lrx)), n.conns[s].info.services >>)]}
    [] ty = "Ping" -> {Queue(n, c, s, TPong(f[1].v))}
    [] ty = "GetAddress" -> {Queue(n, c, s, TAddr(n, c))}
    [] ty = "Address" -> {[n EXCEPT !.book = BookAll(@, c, f[1].l, 1)]}
    [] OTHER -> {n}

\* --- outgoing bytes --------------------------------------------------------------------
RECURSIVE Deliver(_, _, _, _)
\* transmitted bytes b not yet part of a complete message: <<rest, queue, blamed clauses>>
Deliver(c, b, q, bl) ==
  IF b = << >> THEN << b, q, bl >>
  ELSE IF q = << >> THEN << b, q, bl \cup {"C02.extra", "C03.answer", "C07.ping", "C06.ask"} >>
  ELSE LET k == FrameLen(c, q[1])
       IN IF Len(b) < k THEN << b, q, bl >>
          ELSE IF Fulfils(c, q[1], SubSeq(b, 1, k)) THEN Deliver(c, SubSeq(b, k + 1, Len(b)), Tail(q), bl)
          ELSE << b, q, bl \cup Blame(q[1], SubSeq(b, 1, k), c.magic) >>
\* <<{state}, clauses>>
Sent(n, c, s, b, t) ==
  LET d == Deliver(c, n.conns[s].pend \o b, n.conns[s].q, {})
  IN IF d[3] # {} THEN << {}, d[3] >>
     ELSE IF Len(b) > n.conns[s].unsent THEN << {}, {"C02.extra"} >>
     ELSE << {[n EXCEPT !.conns[s].pend = d[1], !.conns[s].q = d[2], !.conns[s].unsent = @ - Len(b), !.conns[s].tx = @ + Len(b),
                        !.conns[s].ltt = t, !.conns[s].ltx = IF b = << >> THEN @ ELSE t]}, {} >>

\* --- dialling, accepting, punishing -----------------------------------------------------
Dialled(n, c, s, addr, res, t) ==
  IF res = "fail" THEN [n EXCEPT !.dead = @ \cup {s}, !.book = Without(@, addr)]
  ELSE [n EXCEPT !.conns = (s :> NewConn(n, c, addr, FALSE, t)) @@ @]
Full(n, c) == Cardinality(Open(n)) >= c.max
\* the listening socket takes one of the places
AlmostFull(n, c) == Cardinality(Open(n)) + (IF n.up THEN 1 ELSE 0) >= c.max
IsBanned(n, ip, t) == ip \in DOMAIN n.banned /\ t - n.banned[ip] < Hour
Accepted(n, c, s, addr, t) ==
  LET edge == addr[1] \in DOMAIN n.banned /\ t - n.banned[addr[1]] = Hour
      no == [n EXCEPT !.dead = @ \cup {s}]
      yes == [n EXCEPT !.conns = (s :> NewConn(n, c, addr, TRUE, t)) @@ @, !.banned = Without(@, addr[1])]
  IN IF IsBanned(n, addr[1], t) \/ c.listen = 0 THEN {no} ELSE IF edge THEN {no, yes} ELSE {yes}
Punished(n, s, t) ==
  IF s \notin Open(n) THEN n
  ELSE LET m == [n EXCEPT !.conns[s].ban = @ + 1]
       IN IF m.conns[s].ban > 5 THEN Kill([m EXCEPT !.banned = (n.conns[s].addr[1] :> t) @@ @], s) ELSE m
Removed(n, addr) == LET w == {s \in Open(n) : n.conns[s].addr = addr} IN IF w = {} THEN n ELSE Kill(n, CHOOSE s \in w : TRUE)

\* --- maintenance ---------------------------------------------------------------------------
HbDue(n, t) == t - n.lasthb > Round
HbMay(n, t) == t - n.lasthb >= Round
\* addresses maintenance could dial
Candidates(n, c) == {a \in DOMAIN n.book : a \notin Addrs(n) /\ a # c.own}
StartPass(n, t, hb) == [n EXCEPT !.ph = "hb", !.hb = hb, !.lasthb = IF hb THEN t ELSE @, !.hbpeers = IF hb THEN Open(n) ELSE {}, !.dials = 0, !.cur = 0]
BeginPass(n, c, t) ==
  LET on(h) == [StartPass(n, t, h) EXCEPT !.att = IF h THEN Min2(MaxDials, Max2(0, c.seek - Cardinality(Open(n)))) ELSE 0,
                  \* how many dials there must be at least: only a chance of 1 in 200 lets an attempt go elsewhere
                  !.want = IF ~ h THEN 0
                           ELSE LET a == Min2(MaxDials, Max2(0, c.seek - Cardinality(Open(n))))
                                    k == Cardinality(Candidates(n, c))
                                IN IF c.own \in DOMAIN n.book THEN 0
                                   ELSE IF k >= a THEN Max2(0, a - 2)
                                   ELSE IF DOMAIN n.book = {} /\ a >= 1 /\ c.seeds # {} /\ c.seeds \cap (Addrs(n) \cup {c.own}) = {} /\ ~ AlmostFull(n, c) THEN 1 ELSE 0]
  IN IF HbDue(n, t) THEN {on(TRUE)} ELSE IF HbMay(n, t) THEN {on(TRUE), on(FALSE)} ELSE {on(FALSE)}
\* why maintenance may not dial addr now (empty: it may)
DialFaults(n, c, addr) ==
  (IF ~ n.hb THEN {"C06.round"} ELSE {})
  \cup (IF n.hb /\ n.dials >= n.att THEN {IF n.att = MaxDials THEN "C06.five" ELSE "C06.seek"} ELSE {})
  \cup (IF addr \in Addrs(n) THEN {"C06.connected"} ELSE {})
  \cup (IF addr = c.own /\ n.up THEN {"C06.own"} ELSE {})
  \cup (IF addr \notin DOMAIN n.book /\ addr \notin c.seeds THEN {"C04.unknown", "C06.unknown"} ELSE {})
  \cup (IF addr \notin DOMAIN n.book /\ addr \in c.seeds /\ Full(n, c) THEN {"C06.max"} ELSE {})
\* the end of maintenance: <<states, clauses>>
Rested(n) == [n EXCEPT !.conns = [s \in Open(n) |-> IF s \in n.hbpeers THEN [n.conns[s] EXCEPT !.ban = Max2(0, @ - 1)] ELSE n.conns[s]], !.ph = "scan"]
EndHb(n, c) ==
  IF ~ n.hb THEN << {[n EXCEPT !.ph = "scan"]}, {} >>
  ELSE IF n.dials < n.want THEN << {}, {"C06.lazy"} >>
  ELSE LET m == Rested(n)
       IN IF n.hbpeers # {} /\ Cardinality(DOMAIN n.book) < Few THEN << {Queue(m, c, s, TPlain("getaddr")) : s \in n.hbpeers}, {} >>
          ELSE << {m}, {} >>
Expired(k, t) == k.lrx >= 0 /\ t - k.lrx > Dead
PingMust(k, t) == k.ltx >= 0 /\ t - k.ltt > Idle /\ (k.lping < 0 \/ t - k.lping > PingGap)
\* an attempt to transmit that transmitted nothing may or may not count as one
PingMay(k, t) == k.ltt >= 0 /\ (k.ltx < 0 \/ t - k.ltx > Idle) /\ (k.lping < 0 \/ t - k.lping >= PingGap)
RECURSIVE PingAll(_, _, _, _)
PingAll(n, c, ss, t) == IF ss = {} THEN n
                        ELSE LET s == CHOOSE x \in ss : TRUE IN PingAll([Queue(n, c, s, TPlain("ping")) EXCEPT !.conns[s].lping = t], c, ss \ {s}, t)
\* the states after the connections were looked over
EndScan(n, c, t) ==
  IF \E s \in Open(n) : Expired(n.conns[s], t) THEN << {}, {"C07.dead", "C06.closed"} >>
  ELSE LET must == {s \in Open(n) : PingMust(n.conns[s], t)}
           may == {s \in Open(n) : PingMay(n.conns[s], t)} \ must
       IN << {[PingAll(n, c, must \cup x, t) EXCEPT !.ph = "io"] : x \in SUBSET may}, {} >>
Writers(n) == {s \in Open(n) : n.conns[s].unsent > 0}
=============================================================================
