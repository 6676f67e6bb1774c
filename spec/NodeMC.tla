------------------------------- MODULE NodeMC -------------------------------
(* The node of NodeCore on a small network, all schedules: peers connect,    *)
(* talk, misbehave and leave, addresses are dialled, time passes.  The same  *)
(* operators judge the recorded runs of the real node (NodeTrace); here they *)
(* are checked against the properties themselves, and behaviours generated   *)
(* by simulation are replayed into the real node.                            *)
EXTENDS NodeCore, Json
CONSTANTS Depth, Ips, Ports, Dts, MaxConns, Exts, MaxPeers, Seek, HasSeed, Listen, Emit, Doing
VARIABLES n, t, h, acts

Ip_(k) == V4Head \o << 40, 0, 0, k >>
A(i, p) == << Ip_(i), p >>
Seeds == IF HasSeed THEN {A(9, 8333)} ELSE {}
C == [magic |-> << 249, 110, 98, 99 >>, pv |-> << 1, 17, 114 >>, max |-> MaxPeers, seek |-> Seek, seeds |-> Seeds, listen |-> IF Listen THEN 1 ELSE 0,
      own |-> << V4Head \o << 127, 0, 0, 1 >>, 8333 >>, ua |-> << 47 >>, t |-> 0, t0 |-> << 95, 94, 16, 0 >>, lis |-> 1, maxbook |-> 3, maxreply |-> 2]
\* h.known: every address heard of; h.bans: ip -> when last banned; h.acc: connection -> when accepted; h.forced: connections dialled by force
\* h.pings: connection -> times pings were queued; h.said: connection -> last address it said we have
H0 == [known |-> {}, bans |-> << >>, acc |-> << >>, forced |-> {}, inc |-> {}, pings |-> << >>, viol |-> {}]
Init == n = Init0(C, 0) /\ t = 0 /\ h = H0
        /\ acts = << [k |-> "head", seek |-> Seek, max |-> MaxPeers, seeds |-> IF HasSeed THEN << 9 >> ELSE << >>, listen |-> Listen] >>
Say(a) == acts' = Append(acts, a)
NextId == 1 + Cardinality(DOMAIN n.conns \cup n.dead) + 1
Room == Cardinality(DOMAIN n.conns \cup n.dead) < MaxConns
\* transmit everything
Flush(m, now) == [m EXCEPT !.conns = [s \in Open(m) |-> LET k == m.conns[s]
                    IN IF k.unsent = 0 THEN k ELSE [k EXCEPT !.q = << >>, !.unsent = 0, !.tx = @ + k.unsent, !.ltt = now, !.ltx = now]]]
\* addresses a dial may go to now
Allowed(m) == {a \in (DOMAIN m.book) \cup C.seeds : DialFaults(m, C, a) = {}}
\* up to k dials; all the results
RECURSIVE Dials(_, _, _)
Dials(m, k, now) ==
  IF k = 0 \/ Cardinality(DOMAIN m.conns \cup m.dead) >= MaxConns THEN {m}
  ELSE {m} \cup UNION {Dials([Dialled(m, C, 2 + Cardinality(DOMAIN m.conns \cup m.dead), a, "prog", now) EXCEPT !.dials = @ + 1], k - 1, now) : a \in Allowed(m)}
Pass == \E dt \in Dts :
  LET now == t + dt
      begun == BeginPass(n, C, now)
      dialled == UNION {Dials(m, m.att, now) : m \in begun}
      rested == UNION {EndHb(m, C)[1] : m \in dialled}
      gone == {LET x == {s \in Open(m) : Expired(m.conns[s], now)}
               IN [m EXCEPT !.conns = [s \in (DOMAIN m.conns) \ x |-> m.conns[s]], !.dead = @ \cup x,
                            !.book = [a \in (DOMAIN m.book) \ {m.conns[s].addr : s \in x} |-> m.book[a]]] : m \in rested}
      looked == UNION {EndScan(m, C, now)[1] : m \in gone}
  IN /\ \E m \in looked : /\ n' = [Flush(m, now) EXCEPT !.ph = "idle", !.cur = 0]
                          /\ h' = [h EXCEPT !.pings = [s \in Open(m) |-> (IF s \in DOMAIN @ THEN @[s] ELSE << >>) \o
                                                          (IF m.conns[s].q # << >> /\ m.conns[s].q[Len(m.conns[s].q)].m = "ping" THEN << now >> ELSE << >>)]]
     /\ t' = now /\ Say([k |-> "pass", dt |-> dt])
In == /\ Room /\ Listen
      /\ \E i \in Ips, p \in Ports :
           /\ A(i, p) \notin Addrs(n)
           /\ \E m \in Accepted(n, C, NextId, A(i, p), t) :
                /\ n' = m
                /\ h' = IF NextId \in Open(m) THEN [h EXCEPT !.acc = (NextId :> t) @@ @, !.inc = @ \cup {NextId}] ELSE h
           /\ Say([k |-> "in", ip |-> i, port |-> p])
      /\ UNCHANGED t
Add == /\ Room
       /\ \E i \in Ips, p \in Ports, f \in {0, 1}, r \in {"prog", "fail"} :
            LET a == A(i, p) IN
            /\ a \notin Addrs(n) /\ (f = 0 => ~ AlmostFull(n, C))
            /\ n' = Dialled(n, C, NextId, a, r, t)
            /\ h' = [h EXCEPT !.forced = IF f = 1 THEN @ \cup {NextId} ELSE @]
            /\ Say([k |-> "add", ip |-> i, port |-> p, force |-> f, res |-> r])
       /\ UNCHANGED t
\* the address of a connection as the generator names it
IpOf(s) == CHOOSE i \in 1..9 : n.conns[s].addr[1] = Ip_(i)
Remove == \E s \in Open(n) : /\ n' = Removed(n, n.conns[s].addr) /\ UNCHANGED <<t, h>>
                             /\ Say([k |-> "remove", ip |-> IpOf(s), port |-> n.conns[s].addr[2]])
RECURSIVE Times(_, _, _)
Times(m, s, k) == IF k = 0 THEN m ELSE Times(Punished(m, s, t), s, k - 1)
Punish == \E s \in Open(n), k \in {1, 6} :
            /\ n' = Times(n, s, k)
            /\ h' = IF s \notin Open(n') THEN [h EXCEPT !.bans = (n.conns[s].addr[1] :> t) @@ @] ELSE h
            /\ UNCHANGED t /\ Say([k |-> "punish", ip |-> IpOf(s), port |-> n.conns[s].addr[2], n |-> k])
Gone == \E s \in Open(n), w \in {"eof", "reset"} :
            /\ n' = Kill(n, s) /\ UNCHANGED <<t, h>>
            /\ Say([k |-> "inject", ip |-> IpOf(s), port |-> n.conns[s].addr[2], what |-> w])
VersionFields(x) == << WOne, WOne, WOne, WRec("NetworkAddress", << WZero, WOne, WB(Ip_(x)), WOne >>), WZero, WZero, WB(<< 47 >>), WZero, WOne >>
AddrFields(x) == << WL([i \in 1..2 |-> WRec("NetworkAddress", << WI(BAdd(C.t0, BFromInt(x * 7 + i - 1))), WI(<< i >>), WB(Ip_(x + i - 1)), WI(BFromInt(8333)) >>)]) >>
Heard(s, m) == {m2 \in Handle([n EXCEPT !.conns[s].lrx = t, !.conns[s].rx = @ + 1], C, s, m[1], m[2], t) : TRUE}
Msg == \E s \in Open(n) :
         \/ \E x \in Exts : /\ n' \in Heard(s, << "Version", VersionFields(x) >>)
                            /\ Say([k |-> "msg", ip |-> IpOf(s), port |-> n.conns[s].addr[2], m |-> "version", x |-> x])
                            /\ h' = [h EXCEPT !.viol = IF n'.guess \in Majority(n') THEN @ ELSE @ \cup {"majority"}] /\ UNCHANGED t
         \/ \E x \in {5, 6} : /\ n' \in Heard(s, << "Address", AddrFields(x) >>)
                              /\ h' = [h EXCEPT !.known = @ \cup {A(x, 8333), A(x + 1, 8333)}] /\ UNCHANGED t
                              /\ Say([k |-> "msg", ip |-> IpOf(s), port |-> n.conns[s].addr[2], m |-> "addr", x |-> x])
         \/ \E m \in {<< "verack", "VersionAck" >>, << "getaddr", "GetAddress" >>, << "ping", "Ping" >>} :
              /\ n' \in Heard(s, << m[2], IF m[1] = "ping" THEN << WB(<< 1, 2, 3, 4, 5, 6, 7, 8 >>) >> ELSE << >> >>)
              /\ h' = [h EXCEPT !.known = IF m[1] = "verack" THEN @ \cup {n.conns[s].addr} ELSE @] /\ UNCHANGED t
              /\ Say([k |-> "msg", ip |-> IpOf(s), port |-> n.conns[s].addr[2], m |-> m[1], x |-> 0])
SetExt == \E x \in Exts \cup {0} : n' = [n EXCEPT !.ext = IF x = 0 THEN << >> ELSE Ip_(x)] /\ UNCHANGED <<t, h>> /\ Say([k |-> "setext", x |-> x])
Does(x) == x \in Doing
Next == /\ Len(acts) <= Depth
        /\ \/ Does("pass") /\ Pass
           \/ Does("in") /\ In
           \/ Does("add") /\ Add
           \/ Does("remove") /\ Remove
           \/ Does("punish") /\ Punish
           \/ Does("gone") /\ Gone
           \/ Does("msg") /\ Msg
           \/ Does("setext") /\ SetExt
Spec == Init /\ [][Next]_<<n, t, h, acts>>
View == <<n, t, h, Len(acts)>>

\* --- the properties -------------------------------------------------------------------
Book == Cardinality(DOMAIN n.book) <= C.maxbook
\* only addresses of peers that completed the handshake and announced ones are kept
Learned == DOMAIN n.book \subseteq h.known
NoTwice == \A s, u \in Open(n) : s # u => n.conns[s].addr # n.conns[u].addr
NoOwn == \A s \in Open(n) : n.conns[s].addr # C.own
Alive == Open(n) \cap n.dead = {}
\* nobody comes back within the hour of a ban
Exiled == \A s \in h.inc \cap Open(n) : n.conns[s].addr[1] \in DOMAIN h.bans =>
            (h.acc[s] <= h.bans[n.conns[s].addr[1]] \/ h.acc[s] - h.bans[n.conns[s].addr[1]] >= Hour)
Penalties == \A s \in Open(n) : n.conns[s].ban \in 0..5
\* dials that are not forced respect the limit: whenever more are open, force or peers coming in made it so
Limit == Cardinality(Open(n) \ (h.forced \cup h.inc)) <= C.max
Voting == h.viol = {}
PingGaps == \A s \in DOMAIN h.pings : \A i \in 1..(Len(h.pings[s]) - 1) : h.pings[s][i + 1] - h.pings[s][i] >= PingGap
NotDead == \A s \in Open(n) : n.conns[s].lrx >= 0 => t - n.conns[s].lrx <= Dead
NotQuiet == \A s \in Open(n) : LET k == n.conns[s] IN k.ltx >= 0 => t - k.ltt <= Idle \/ (k.lping >= 0 /\ t - k.lping <= PingGap)
Sums == \A s \in Open(n) : LET q == n.conns[s].q IN (q = << >>) = (n.conns[s].unsent = 0)
\* for the generator
Printed == (Emit /\ Len(acts) = Depth + 1) => PrintT(<< "ACTS", ToJson(acts) >>)
=============================================================================
