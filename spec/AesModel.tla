------------------------------ MODULE AesModel ------------------------------
(* The specification of AES and its modes against the published vectors      *)
(* (FIPS 197, SP 800-38A) and its own laws: field inverses, S-box bijection, *)
(* decryption inverts encryption, padding is reversible, and feeding pieces  *)
(* through a mode equals the transformation of the whole stream.             *)
EXTENDS Aes, TLC
CONSTANTS MaxLen
VARIABLES part, it, fed, left, held, go
vars == <<part, it, fed, left, held, go>>

Seq16(a) == [i \in 1..16 |-> (a * i * 7 + i) % 256]
FKey(n) == [i \in 1..n |-> i - 1]
FPlain == [i \in 1..16 |-> 17 * (i - 1)]
FCipher == << << 105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90 >>,
              << 221, 169, 124, 164, 134, 76, 223, 224, 110, 175, 112, 160, 236, 13, 113, 145 >>,
              << 142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137 >> >>
Modes == << "ecb", "cbc", "cfb", "ofb", "ctr" >>
M(i, seg) == [mode |-> Modes[i], key |-> FKey(16), iv |-> Seq16(3), seg |-> seg]
Data(n) == [i \in 1..n |-> (i * i + 3 * i) % 256]
Segs == {1, 5, 8, 16}
\* go: the invariants look at states after the first, which workers share
Init == go = FALSE /\ (
        \/ part = "field" /\ it \in 0..255 /\ fed = << >> /\ left = << >> /\ held = << >>
        \/ part = "vector" /\ it \in 1..3 /\ fed = << >> /\ left = << >> /\ held = << >>
        \/ part = "inverse" /\ it \in {<<i, s, n>> \in (1..5) \X Segs \X (0..MaxLen) : Takes(M(i, s), n) \/ (i \in {1, 2} /\ n % 16 = 0)} /\ fed = << >> /\ left = << >> /\ held = << >>
        \/ part = "pad" /\ it \in 0..MaxLen /\ fed = << >> /\ left = << >> /\ held = << >>
        \* a feeder: held holds back at least 16 bytes (block modes) until the end
        \/ part = "feed" /\ it \in (1..5) \X {8} \X {0, 1, 15, 16, 17, 40} /\ fed = << >> /\ left = Data(it[3]) /\ held = << >>)
\* any cutting of the stream; what may leave leaves through the mode as one more call
Feed == /\ part = "feed" /\ left # << >>
        /\ \E k \in {1, 3, 16, 23} : k <= Len(left)
             /\ LET b == held \o SubSeq(left, 1, k)
                    unit == IF it[1] <= 2 THEN 16 ELSE IF it[1] = 3 THEN 8 ELSE 1
                    out == IF Len(b) <= 16 THEN 0 ELSE ((Len(b) - 16) \div unit) * unit
                IN fed' = fed \o SubSeq(b, 1, out) /\ held' = SubSeq(b, out + 1, Len(b))
             /\ left' = SubSeq(left, k + 1, Len(left))
        /\ UNCHANGED <<part, it, go>>
Next == (~ go /\ go' = TRUE /\ UNCHANGED <<part, it, fed, left, held>>) \/ (go /\ Feed)
Spec == Init /\ [][Next]_vars
Field == go /\ part = "field" =>
   /\ (it # 0 => GMul(it, Inv[it + 1]) = 1) /\ ISBox[SBox[it + 1] + 1] = it
   /\ M9[it + 1] = X1(it, Xt(Xt(Xt(it)))) /\ M14[it + 1] = X1(X1(GMul(it, 8), GMul(it, 4)), Xt(it))
Vector == go /\ part = "vector" => LET ks == Schedule(FKey(8 + 8 * it)) IN EncB(ks, FPlain) = FCipher[it] /\ DecB(ks, FCipher[it]) = FPlain
Inverse == go /\ part = "inverse" => LET m == M(it[1], it[2]) d == Data(it[3]) IN Crypt(m, FALSE, Crypt(m, TRUE, d)) = d /\ Len(Crypt(m, TRUE, d)) = Len(d)
Padding == go /\ part = "pad" => /\ PadOk(Padded(Data(it))) /\ Unpadded(Padded(Data(it))) = Data(it) /\ Len(Padded(Data(it))) % 16 = 0
                           /\ FedD(M(2, 8), FedE(M(2, 8), Data(it))) = << TRUE, Data(it) >>
\* the pieces put together are the stream, and a mode is a function of the stream's prefix
Feeding == go /\ part = "feed" =>
   LET m == M(it[1], it[2]) IN
   /\ fed \o held \o left = Data(it[3]) /\ Len(held) < 32
   /\ SubSeq(FedE(m, Data(it[3])), 1, Len(fed)) = Crypt(m, TRUE, fed)
=============================================================================
