------------------------------ MODULE SendModel ------------------------------
(* C02 at small scope: the judge of transmitted bytes accepts every way a    *)
(* network takes the queued messages piece by piece and rejects every        *)
(* dropped, repeated, swapped or changed byte (nonces aside).                *)
EXTENDS NodeCore
CONSTANTS MaxMsgs, Steps
VARIABLES n, qk, sent, state
Magic == << 249, 110, 98, 99 >>
C == [magic |-> Magic, pv |-> << 1 >>, max |-> 9, seek |-> 0, seeds |-> {}, listen |-> 1, own |-> << V4Head \o << 1, 1, 1, 1 >>, 1 >>, ua |-> << 47 >>, t |-> 0,
      t0 |-> << 9 >>, lis |-> 1, maxbook |-> 4, maxreply |-> 2]
Peer == << V4Head \o << 9, 9, 9, 9 >>, 99 >>
Other(k) == << V4Head \o << 8, 8, 8, k >>, 99 >>
Base == [Init0(C, 0) EXCEPT !.conns = (2 :> NewConn(Init0(C, 0), C, Peer, TRUE, 0)) @@ @,
                            !.book = [a \in {Other(1), Other(2), Other(3)} |-> << WI(<< 50 - a[1][16] >>), WOne >>]]
Vers == NewConn(Init0(C, 0), C, Peer, TRUE, 0).q[1]
Nonce == << 1, 2, 3, 4, 5, 6, 7, 8 >>
Entry(k) == WRec("NetworkAddress", << WI(<< 50 - k >>), WOne, WB(Other(k)[1]), WI(<< 99 >>) >>)
NA(a) == WRec("NetworkAddress", << WZero, WOne, WB(a[1]), WI(BFromInt(a[2])) >>)
\* templates and a frame that transmits each
Tpls == << << TPlain("verack"), Frame(Magic, "VersionAck", << >>) >>,
           << TPlain("ping"), Frame(Magic, "Ping", << WB(Nonce) >>) >>,
           << TPong(<< 3, 3 >>), Frame(Magic, "Pong", << WB(<< 3, 3, 0, 0, 0, 0, 0, 0 >>) >>) >>,
           << TPong(Nonce), Frame(Magic, "Pong", << WB(Nonce) >>) >>,
           << TAddr(Base, C), Frame(Magic, "Address", << WL(<< Entry(1), Entry(2) >>) >>) >>,
           << TPlain("getaddr"), Frame(Magic, "GetAddress", << >>) >> >>
VFrame == Frame(Magic, "Version", << WI(<< 1 >>), WOne, WI(Vers.ts), NA(Peer), NA(C.own), WB(Nonce), WB(C.ua), WZero, WZero >>)
Use == {1, 2, 4, 5, 6}
RECURSIVE Flat(_)
Flat(l) == IF l = << >> THEN << >> ELSE Tpls[Head(l)][2] \o Flat(Tail(l))
Wire_ == VFrame \o Flat(qk)
RECURSIVE Q(_, _)
Q(m, l) == IF l = << >> THEN m ELSE Q(Queue(m, C, 2, Tpls[Head(l)][1]), Tail(l))
Init == /\ qk \in UNION {[1..m -> Use] : m \in 0..MaxMsgs}
        /\ n = Q(Base, qk) /\ sent = 0 /\ state = "good"
Next == /\ state = "good"
        /\ \E k \in Steps : /\ sent + k <= Len(Wire_)
                            /\ LET z == Sent(n, C, 2, SubSeq(Wire_, sent + 1, sent + k), 7)
                               IN IF z[1] = {} THEN state' = "rejected" /\ n' = n ELSE state' = "good" /\ n' \in z[1]
                            /\ sent' = sent + k
        /\ qk' = qk
Spec == Init /\ [][Next]_<<n, qk, sent, state>>
Accepts == state = "good"
Exact == n.conns[2].unsent = Len(Wire_) - sent /\ n.conns[2].tx = sent
Drained == sent = Len(Wire_) => n.conns[2].q = << >> /\ n.conns[2].pend = << >>
\* damage to what comes next is noticed by the end of the message it is in
Rest == SubSeq(Wire_, sent + 1, Len(Wire_))
Whole == n.conns[2].pend = << >> /\ Rest # << >>
NextLen == FrameLen(C, n.conns[2].q[1])
Rejects(b) == Sent(n, C, 2, b, 7)[1] = {} \/ LET m == CHOOSE y \in Sent(n, C, 2, b, 7)[1] : TRUE IN m.conns[2].unsent # 0
Damage == (Whole /\ sent # 0) =>
  /\ \A i \in 1..24 : Sent(n, C, 2, [SubSeq(Rest, 1, NextLen) EXCEPT ![i] = (@ + 1) % 256], 7)[1] = {}
  /\ \A i \in 1..NextLen : Rejects(SubSeq(Rest, 1, i - 1) \o SubSeq(Rest, i + 1, Len(Rest)))
  /\ Rejects(Rest \o << 0 >>) /\ Rejects(SubSeq(Rest, 1, NextLen) \o Rest)
  /\ Len(Rest) > NextLen => Rejects(SubSeq(Rest, NextLen + 1, Len(Rest)))
=============================================================================
