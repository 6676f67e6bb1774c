------------------------------ MODULE WireModel ------------------------------
(* Small-scope check of the wire format itself: every frame the specification *)
(* writes is read back as the same message, no strict prefix of a payload and *)
(* no frame with a changed magic, checksum or command is a message, variable  *)
(* length integers have one shortest form, and every way to write an address  *)
(* denotes the same sixteen bytes.                                            *)
EXTENDS Wire, TLC
CONSTANTS MaxK, NGroupVals
VARIABLES kind, n, k

Magic == << 249, 110, 98, 99 >>
Nums(ty) == << WZero, WI(<< 1 >>), WI(BSub(IF ty.signed THEN Two(8 * ty.w - 1) ELSE Two(8 * ty.w), << 1 >>)),
               IF ty.signed THEN WNeg(Two(8 * ty.w - 1)) ELSE WI(<< 253 >>) >>
Hash32(b) == WB([i \in 1..32 |-> (b * i) % 256])
Addr(b) == WRec("NetworkAddress", << WI(<< b >>), WI(<< 1, b >>), WB([i \in 1..16 |-> (b * i) % 256]), WI(<< 32, 141 >>) >>)
Txin(b) == WRec("TxnIn", << WRec("OutPoint", << Hash32(b), WI(<< b >>) >>), WB(<< b, 0, 255 >>), WI(<< 255, 255, 255, 255 >>) >>)
Txout(b) == WRec("TxnOut", << WI(<< b, 0, 0 >>), WB(<< >>) >>)
Samp(ty) ==
  CASE ty.t = "num" -> Nums(ty)
    [] ty.t = "var" -> << WZero, WI(<< 252 >>), WI(<< 253 >>), WI(<< 255, 255 >>), WI(<< 1, 0, 0 >>), WI(<< 1, 0, 0, 0, 0 >>) >>
    [] ty.t = "bytes" -> << WB([i \in 1..ty.n |-> 0]), WB([i \in 1..ty.n |-> i % 256]) >>
    [] ty.t = "vstr" -> << WB(<< >>), WB(<< 0 >>), WB([i \in 1..252 |-> 7]), WB([i \in 1..253 |-> 8]) >>
    [] ty.t = "ip" -> << WB(V4Head \o << 1, 2, 3, 4 >>) >>
    [] ty.t = "ant" -> << WRec("NetworkAddress", << WZero >> \o Tail(Addr(3).f)), WRec("NetworkAddress", << WZero >> \o Tail(Addr(9).f)) >>
    [] ty.t = "opt" -> << WZero, WOne >>
    [] ty.t = "rec" -> << >>
    [] ty.t = "arr" ->
        LET one == IF ty.c.t = "bytes" THEN << Hash32(1), Hash32(5) >>
                   ELSE CASE ty.c.n = "NetworkAddress" -> << Addr(1), Addr(2) >>
                          [] ty.c.n = "InventoryVector" -> << WRec("InventoryVector", << WI(<< 2 >>), Hash32(3) >>), WRec("InventoryVector", << WOne, Hash32(4) >>) >>
                          [] ty.c.n = "TxnIn" -> << Txin(1), Txin(2) >>
                          [] ty.c.n = "TxnOut" -> << Txout(1), Txout(2) >>
                          [] ty.c.n = "Txn" -> << WRec("Txn", << WOne, WL(<< Txin(1) >>), WL(<< Txout(1), Txout(4) >>), WZero >>), WRec("Txn", << WOne, WL(<< Txin(1) >>), WL(<< Txout(3) >>), WOne >>) >>
                          [] ty.c.n = "BlockHeader" -> << WRec("BlockHeader", << WOne, Hash32(1), Hash32(2), WOne, WOne, WZero, WI(<< 253 >>) >>), WRec("BlockHeader", << WOne, Hash32(1), Hash32(2), WOne, WOne, WZero, WZero >>) >>
        IN << WL(<< one[1] >>), WL(one), WL(<< one[2], one[1], one[1] >>) >> \o (IF ty.min = 0 THEN << WL(<< >>) >> ELSE << >>)
RECURSIVE Pick(_, _)
Pick(fs, c) == IF fs = << >> THEN << >>
               ELSE LET s == Samp(fs[1][2]) IN << s[1 + (c % Len(s))] >> \o Pick(Tail(fs), c \div Len(s))
RECURSIVE Count(_)
Count(fs) == IF fs = << >> THEN 1 ELSE LET x == Count(Tail(fs)) IN IF x > 100000 THEN x ELSE Len(Samp(fs[1][2])) * x

Vals == << 0, 1, 65535, 4096, 10 >>
Groups(c) == [i \in 1..8 |-> Vals[1 + ((c \div (NGroupVals ^ (i - 1))) % NGroupVals)]]
HexDig(v) == IF v < 10 THEN 48 + v ELSE 87 + v
RECURSIVE HexOf(_)
HexOf(v) == IF v < 16 THEN << HexDig(v) >> ELSE Append(HexOf(v \div 16), HexDig(v % 16))
RECURSIVE Join(_)
Join(gs) == IF gs = << >> THEN << >> ELSE IF Len(gs) = 1 THEN HexOf(gs[1]) ELSE HexOf(gs[1]) \o << 58 >> \o Join(Tail(gs))
\* every way to write the address: in full or with one run of zeros replaced
Writings(g) == {Join(g)} \cup {Join(SubSeq(g, 1, i - 1)) \o << 58, 58 >> \o Join(SubSeq(g, j + 1, 8)) :
                   <<i, j>> \in {p \in (1..8) \X (1..8) : p[1] <= p[2] /\ \A h \in p[1]..p[2] : g[h] = 0}}

Bounds == << << >>, << 1 >>, << 252 >>, << 253 >>, << 254 >>, << 255 >>, << 1, 0 >>, << 255, 255 >>, << 1, 0, 0 >>, << 255, 255, 255, 255 >>, << 1, 0, 0, 0, 0 >>,
             << 255, 255, 255, 255, 255, 255, 255, 255 >> >>
Init == \/ kind = "msg" /\ n \in 1..Len(Messages) /\ k \in {c \in 0..MaxK : c < Count(RecFields(Messages[n][1]))}
        \/ kind = "addr" /\ n = 0 /\ k \in 0..(NGroupVals ^ 8 - 1)
        \/ kind = "var" /\ n = 0 /\ k \in 1..Len(Bounds)
Next == FALSE /\ UNCHANGED <<kind, n, k>>
Spec == Init /\ [][Next]_<<kind, n, k>>

Name == Messages[n][1]
\* spread the choices over the whole product
Idx == LET t == Count(RecFields(Name)) IN IF t > MaxK THEN (k * 7919) % t ELSE k
Msg == Pick(RecFields(Name), Idx)
RoundTrip == kind = "msg" => /\ ReadFrame(Magic, Frame(Magic, Name, Msg)) = << "ok", Name, Msg >>
                             /\ Len(Frame(Magic, Name, Msg)) = 24 + Len(Payload(Name, Msg))
Prefixes == kind = "msg" => LET p == Payload(Name, Msg)
                            IN \A l \in {x \in 0..(Len(p) - 1) : x < 40 \/ x > Len(p) - 40} :
                                 LET r == ReadFrame(Magic, FrameOf(Magic, CommandOf(Name), SubSeq(p, 1, l)))
                                 IN IF Name = "Version" /\ l = Len(p) - 1 THEN r[1] = "ok" /\ r[3] = [Msg EXCEPT ![9] = WOne] ELSE r = << "short" >>
Damaged == kind = "msg" =>
  LET f == Frame(Magic, Name, Msg)
  IN \A i \in (1..4) \cup (21..24) : ReadFrame(Magic, [f EXCEPT ![i] = (@ + 1) % 256]) = << "format" >>
FitsAll == kind = "msg" => \A i \in 1..Len(Msg) : RecFields(Name)[i][2].t \in {"num", "var", "bytes", "vstr"} => Fits(RecFields(Name)[i][2], Msg[i])
Texts == kind = "addr" => LET g == Groups(k) IN \A t \in Writings(g) : AddrBytes(t) = GroupBytes([i \in 1..8 |-> HexOf(g[i])])
VarInts == kind = "var" => LET b == Bounds[k]
                           IN /\ ReadVar(VarBytes(b), 0) = << b, Len(VarBytes(b)) >>
                              /\ \A l \in 0..(Len(VarBytes(b)) - 1) : ReadVar(SubSeq(VarBytes(b), 1, l), 0) = << >>
                              /\ Len(VarBytes(b)) = IF BLt(b, << 253 >>) THEN 1 ELSE IF BLt(b, << 1, 0, 0 >>) THEN 3 ELSE IF BLt(b, << 1, 0, 0, 0, 0 >>) THEN 5 ELSE 9
=============================================================================
