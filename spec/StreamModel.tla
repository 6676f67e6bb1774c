---------------------------- MODULE StreamModel ----------------------------
(* C01 at small scope: whatever way the bytes of a stream are cut into       *)
(* arrivals, the node of NodeCore handles exactly the messages of the whole  *)
(* stream, in order, and reports exactly its malformed ones.  All sequences  *)
(* of up to MaxMsgs messages of the kinds below, all ways to cut them.       *)
EXTENDS NodeCore
CONSTANTS MaxMsgs, Steps
VARIABLES n, kinds, at, out

Magic == << 249, 110, 98, 99 >>
C == [magic |-> Magic, pv |-> << 1 >>, max |-> 9, seek |-> 0, seeds |-> {}, listen |-> 1, own |-> << V4Head \o << 1, 1, 1, 1 >>, 1 >>, ua |-> << 47 >>, t |-> 0,
      t0 |-> << 9 >>, lis |-> 1, maxbook |-> 4, maxreply |-> 3]
Nonce == << 1, 2, 3, 4, 5, 6, 7, 8 >>
Flip(f, i) == [f EXCEPT ![i] = (@ + 1) % 256]
Ping == Frame(Magic, "Ping", << WB(Nonce) >>)
Ver == Frame(Magic, "VersionAck", << >>)
Kinds == << Ver, Ping,
            Flip(Ping, 32),                                        \* checksum
            Flip(Ver, 1),                                          \* magic
            FrameOf(Magic, << 120 >>, << 7, 7 >>),                    \* unknown
            FrameOf(Magic, CommandOf("Ping"), << 5, 6 >>),            \* payload too short
            Ver \o SubSeq(Ping, 1, 9) >>                           \* (last) incomplete
Class == << "ok", "ok", "inv", "inv", "inv", "skip", "part" >>
Bytes_ == [i \in 1..Len(kinds) |-> Kinds[kinds[i]]]
RECURSIVE Flat(_)
Flat(l) == IF l = << >> THEN << >> ELSE Head(l) \o Flat(Tail(l))
Stream == Flat(Bytes_)
\* what must come of it, computed per message
RECURSIVE Want(_)
Want(l) == IF l = << >> THEN << >>
           ELSE (CASE Class[Head(l)] = "ok" -> << << "cmd", Kinds[Head(l)] >> >>
                   [] Class[Head(l)] = "inv" -> << << "inv", Kinds[Head(l)] >> >>
                   [] Class[Head(l)] = "part" -> << << "cmd", Ver >> >>
                   [] OTHER -> << >>) \o Want(Tail(l))
Peer == << V4Head \o << 9, 9, 9, 9 >>, 99 >>
Start == [Init0(C, 0) EXCEPT !.conns = (2 :> NewConn(Init0(C, 0), C, Peer, TRUE, 0)) @@ @]
Init == /\ n = Start /\ at = 0 /\ out = << >>
        /\ kinds \in UNION {[1..m -> 1..7] : m \in 1..MaxMsgs}
        /\ \A i \in 1..(Len(kinds) - 1) : kinds[i] # 7
Arrive == /\ ~ Waiting(n)
          /\ \E k \in Steps : /\ at + k <= Len(Stream)
                              /\ n' = Received(n, C, 2, SubSeq(Stream, at + 1, at + k), 5)
                              /\ at' = at + k
          /\ UNCHANGED <<kinds, out>>
Treat == /\ Waiting(n)
         /\ LET h == HeadFrame(n.conns[2].inb)[1]
                x == ReadFrame(Magic, h)
            IN /\ n' = Consume(n, C, 2, h)
               /\ out' = Append(out, << IF x[1] = "ok" THEN "cmd" ELSE "inv", h >>)
         /\ UNCHANGED <<kinds, at>>
Next == Arrive \/ Treat
Spec == Init /\ [][Next]_<<n, kinds, at, out>>
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Order == IsPrefixOf(out, Want(kinds))
Complete == (at = Len(Stream) /\ ~ Waiting(n)) => out = Want(kinds)
\* nothing is handled late: a message is handled as soon as its last byte is there
Prompt == ~ Waiting(n) => \A i \in 0..Len(kinds) : Len(Flat(SubSeq(Bytes_, 1, i))) <= at => IsPrefixOf(Want(SubSeq(kinds, 1, i)), out) \/ \E j \in 1..i : Class[kinds[j]] = "part"
Counted == n.conns[2].rx = at
Bounded == Len(n.conns[2].inb) <= at /\ (~ Waiting(n) => Len(n.conns[2].inb) < 24 + 256)
=============================================================================
