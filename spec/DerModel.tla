------------------------------ MODULE DerModel ------------------------------
(* Reading inverts writing in Der.tla, and distinct values have distinct      *)
(* encodings none of which is a prefix of another.                            *)
EXTENDS Der
CONSTANTS MaxInt, Lens
VARIABLES i, j, n
Init == i \in 0..MaxInt /\ j \in {0, 1, 2, 127, 128, 129, 255, 256, MaxInt} /\ n \in Lens
Next == UNCHANGED << i, j, n >>
Spec == Init /\ [][Next]_<< i, j, n >>
I == BFromInt(i)
J == BFromInt(j)
Prefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
IntRead == LET q == DRead(DInt(I) \o DInt(J)) IN q[1] = 2 /\ BNorm(q[2]) = I /\ q[2][1] < 128 /\ q[3] = DInt(J)
Unique == i # j => ~ Prefix(DInt(I), DInt(J)) /\ DNum(I) # DNum(J) /\ ~ Prefix(DNum(I), DNum(J))
Minimal == Len(DIntBody(I)) > 1 /\ DIntBody(I)[1] = 0 => DIntBody(I)[2] >= 128
Body == [k \in 1..n |-> (k * 7 + i) % 256]
TagRead == i < 3 => LET w == DTag(4, Body) IN /\ DRead(w \o << 9 >>) = << 4, Body, << 9 >> >>
                                              /\ DRead(SubSeq(w, 1, Len(w) - 1)) = << >>
SeqRead == i < 3 => DRead(DSeq(<< DInt(I), DOct(Body), DInt(J) >>))[2] = DInt(I) \o DOct(Body) \o DInt(J)
Pem64 == i < 3 => Len(Base64(Body)) = 4 * ((n + 2) \div 3)
=============================================================================
