-------------------------------- MODULE Aes --------------------------------
(* AES (FIPS 197) for all key sizes and the modes of SP 800-38A, on          *)
(* sequences of bytes.  Tables are computed from the field they stand for.   *)
EXTENDS Big

Xt(b) == IF b < 128 THEN 2 * b ELSE XorBytes(<< 2 * b - 256 >>, << 27 >>)[1]
X1(a, b) == XorBytes(<< a >>, << b >>)[1]
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE X1(IF b % 2 = 1 THEN a ELSE 0, GMul(Xt(a), b \div 2))
\* powers of 3 run through all of the field but zero
RECURSIVE Powers(_)
Powers(s) == IF Len(s) = 255 THEN s ELSE LET l == s[Len(s)] IN Powers(Append(s, X1(l, Xt(l))))
Pow3 == Powers(<< 1 >>)
Log3 == SubSeq([x \in 1..255 |-> (CHOOSE i \in 1..255 : Pow3[i] = x) - 1], 1, 255)
\* the value of f at each byte, as a sequence (which TLC computes once)
Tab(f) == SubSeq([i \in 1..256 |-> f[i - 1]], 1, 256)
Inv == Tab([x \in 0..255 |-> IF x = 0 THEN 0 ELSE Pow3[((255 - Log3[x]) % 255) + 1]])
Rot8(x, k) == ((x * (2 ^ k)) % 256) + (x \div (2 ^ (8 - k)))
SBox == Tab([x \in 0..255 |-> LET i == Inv[x + 1] IN X1(X1(X1(X1(X1(i, Rot8(i, 1)), Rot8(i, 2)), Rot8(i, 3)), Rot8(i, 4)), 99)])
ISBox == Tab([y \in 0..255 |-> CHOOSE x \in 0..255 : SBox[x + 1] = y])
M2 == Tab([x \in 0..255 |-> Xt(x)])
M3 == Tab([x \in 0..255 |-> X1(x, Xt(x))])
M9 == Tab([x \in 0..255 |-> GMul(x, 9)])
M11 == Tab([x \in 0..255 |-> GMul(x, 11)])
M13 == Tab([x \in 0..255 |-> GMul(x, 13)])
M14 == Tab([x \in 0..255 |-> GMul(x, 14)])

\* byte r of column c is at 4c + r + 1
Perm(s, p) == [i \in 1..16 |-> s[p[i]]]
Shift == SubSeq([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN 4 * ((c + r) % 4) + r + 1], 1, 16)
IShift == SubSeq([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN 4 * ((c + 4 - r) % 4) + r + 1], 1, 16)
Col(k) == SubSeq([i \in 1..16 |-> LET r == (i - 1) % 4 c == (i - 1) \div 4 IN 4 * c + ((r + k) % 4) + 1], 1, 16)
Col1 == Col(1)
Col2 == Col(2)
Col3 == Col(3)
Mix(s) == XorBytes(XorBytes([i \in 1..16 |-> M2[s[i] + 1]], [i \in 1..16 |-> M3[s[Col1[i]] + 1]]), XorBytes(Perm(s, Col2), Perm(s, Col3)))
IMix(s) == XorBytes(XorBytes([i \in 1..16 |-> M14[s[i] + 1]], [i \in 1..16 |-> M11[s[Col1[i]] + 1]]),
                    XorBytes([i \in 1..16 |-> M13[s[Col2[i]] + 1]], [i \in 1..16 |-> M9[s[Col3[i]] + 1]]))

\* --- keys ------------------------------------------------------------------------
KeySizes == {16, 24, 32}
Rounds(k) == Len(k) \div 4 + 6
SubWord(w) == [i \in 1..4 |-> SBox[w[i] + 1]]
RECURSIVE RconOf(_)
RconOf(i) == IF i = 1 THEN 1 ELSE Xt(RconOf(i - 1))
\* ws: the words so far
RECURSIVE Expand(_, _, _)
Expand(ws, nk, total) ==
  IF Len(ws) = total THEN ws
  ELSE LET i == Len(ws)
           w == ws[i]
           t == IF i % nk = 0 THEN XorBytes(SubWord(<< w[2], w[3], w[4], w[1] >>), << RconOf(i \div nk), 0, 0, 0 >>)
                ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(w) ELSE w
       IN Expand(Append(ws, XorBytes(ws[i + 1 - nk], t)), nk, total)
\* four words to a block
RECURSIVE Blocks(_)
Blocks(ws) == IF ws = << >> THEN << >>
              ELSE << ws[1] \o ws[2] \o ws[3] \o ws[4] >> \o Blocks(SubSeq(ws, 5, Len(ws)))
\* the round keys, each a block
Schedule(k) ==
  LET nk == Len(k) \div 4
  IN Blocks(Expand([i \in 1..nk |-> SubSeq(k, 4 * i - 3, 4 * i)], nk, 4 * (Rounds(k) + 1)))
Sub_(s) == [i \in 1..16 |-> SBox[s[i] + 1]]
ISub(s) == [i \in 1..16 |-> ISBox[s[i] + 1]]
\* SubBytes, ShiftRows and MixColumns at once
S2 == Tab([x \in 0..255 |-> M2[SBox[x + 1] + 1]])
S3 == Tab([x \in 0..255 |-> M3[SBox[x + 1] + 1]])
SCol1 == SubSeq([i \in 1..16 |-> Shift[Col1[i]]], 1, 16)
SCol2 == SubSeq([i \in 1..16 |-> Shift[Col2[i]]], 1, 16)
SCol3 == SubSeq([i \in 1..16 |-> Shift[Col3[i]]], 1, 16)
Turn(s) == XorBytes(XorBytes([i \in 1..16 |-> S2[s[Shift[i]] + 1]], [i \in 1..16 |-> S3[s[SCol1[i]] + 1]]),
                    XorBytes([i \in 1..16 |-> SBox[s[SCol2[i]] + 1]], [i \in 1..16 |-> SBox[s[SCol3[i]] + 1]]))
RECURSIVE EncR(_, _, _)
EncR(ks, s, r) == IF r = Len(ks) THEN XorBytes(Perm(Sub_(s), Shift), ks[r])
                  ELSE EncR(ks, XorBytes(Turn(s), ks[r]), r + 1)
EncB(ks, s) == EncR(ks, XorBytes(s, ks[1]), 2)
RECURSIVE DecR(_, _, _)
DecR(ks, s, r) == LET t == XorBytes(ISub(Perm(s, IShift)), ks[r]) IN IF r = 1 THEN t ELSE DecR(ks, IMix(t), r - 1)
DecB(ks, s) == DecR(ks, XorBytes(s, ks[Len(ks)]), Len(ks) - 1)

\* --- modes over whole streams (a multiple of the block or segment) ------------------
Zero16 == [i \in 1..16 |-> 0]
Blk(d, i) == SubSeq(d, 16 * i - 15, 16 * i)
RECURSIVE EcbE(_, _), EcbD(_, _), CbcE(_, _, _), CbcD(_, _, _), CfbE(_, _, _, _), CfbD(_, _, _, _), KsOfb(_, _, _), KsCtr(_, _, _)
EcbE(ks, d) == IF d = << >> THEN << >> ELSE EncB(ks, SubSeq(d, 1, 16)) \o EcbE(ks, SubSeq(d, 17, Len(d)))
EcbD(ks, d) == IF d = << >> THEN << >> ELSE DecB(ks, SubSeq(d, 1, 16)) \o EcbD(ks, SubSeq(d, 17, Len(d)))
CbcE(ks, iv, d) == IF d = << >> THEN << >> ELSE LET c == EncB(ks, XorBytes(SubSeq(d, 1, 16), iv)) IN c \o CbcE(ks, c, SubSeq(d, 17, Len(d)))
CbcD(ks, iv, d) == IF d = << >> THEN << >> ELSE LET c == SubSeq(d, 1, 16) IN XorBytes(DecB(ks, c), iv) \o CbcD(ks, c, SubSeq(d, 17, Len(d)))
\* g: segment size in bytes
CfbE(ks, sr, g, d) == IF d = << >> THEN << >>
                      ELSE LET k == IF Len(d) < g THEN Len(d) ELSE g
                               c == XorBytes(SubSeq(d, 1, k), SubSeq(EncB(ks, sr), 1, k))
                           IN c \o CfbE(ks, SubSeq(sr \o c, k + 1, 16 + k), g, SubSeq(d, k + 1, Len(d)))
CfbD(ks, sr, g, d) == IF d = << >> THEN << >>
                      ELSE LET k == IF Len(d) < g THEN Len(d) ELSE g
                               c == SubSeq(d, 1, k)
                           IN XorBytes(c, SubSeq(EncB(ks, sr), 1, k)) \o CfbD(ks, SubSeq(sr \o c, k + 1, 16 + k), g, SubSeq(d, k + 1, Len(d)))
\* n blocks of key stream
KsOfb(ks, iv, n) == IF n = 0 THEN << >> ELSE LET o == EncB(ks, iv) IN o \o KsOfb(ks, o, n - 1)
Inc16(c) == BPad(BAddMod(BNorm(c), << 1 >>, [i \in 1..17 |-> IF i = 1 THEN 1 ELSE 0]), 16)
KsCtr(ks, c, n) == IF n = 0 THEN << >> ELSE EncB(ks, c) \o KsCtr(ks, Inc16(c), n - 1)
NBlocks(d) == (Len(d) + 15) \div 16
OfbX(ks, iv, d) == XorBytes(d, KsOfb(ks, iv, NBlocks(d)))
CtrX(ks, c, d) == XorBytes(d, KsCtr(ks, c, NBlocks(d)))
\* m: [mode, key, iv, seg]; iv is the counter for ctr
CryptS(m, enc, d) ==
  LET ks == Schedule(m.key)
  IN CASE m.mode = "ecb" -> IF enc THEN EcbE(ks, d) ELSE EcbD(ks, d)
       [] m.mode = "cbc" -> IF enc THEN CbcE(ks, m.iv, d) ELSE CbcD(ks, m.iv, d)
       [] m.mode = "cfb" -> IF enc THEN CfbE(ks, m.iv, m.seg, d) ELSE CfbD(ks, m.iv, m.seg, d)
       [] m.mode = "ofb" -> OfbX(ks, m.iv, d)
       [] m.mode = "ctr" -> CtrX(ks, m.iv, d)
\* the mode once whole blocks (and segments) d have become o
Last16(x) == SubSeq(x, Len(x) - 15, Len(x))
After(m, enc, d, o) ==
  [m EXCEPT !.iv = CASE m.mode = "ecb" -> m.iv
                     [] m.mode \in {"cbc", "cfb"} -> Last16(IF enc THEN o ELSE d)
                     [] m.mode = "ofb" -> XorBytes(Last16(d), Last16(o))
                     [] m.mode = "ctr" -> BPad(BAddMod(BNorm(m.iv), BFromInt(Len(d) \div 16), [i \in 1..17 |-> IF i = 1 THEN 1 ELSE 0]), 16)]
\* long streams in halves
RECURSIVE Crypt(_, _, _)
Crypt(m, enc, d) ==
  LET unit == 16 * (IF m.mode = "cfb" THEN m.seg ELSE 1)
      cut == unit * ((Len(d) \div 2) \div unit)
  IN IF Len(d) <= 60 * (unit \div 16) * (IF m.mode = "cfb" THEN 1 ELSE 16) \/ cut = 0 THEN CryptS(m, enc, d)
     ELSE LET o == Crypt(m, enc, SubSeq(d, 1, cut))
          IN o \o Crypt(After(m, enc, SubSeq(d, 1, cut), o), enc, SubSeq(d, cut + 1, Len(d)))
\* may a call with n bytes be made?
Takes(m, n) == CASE m.mode \in {"ecb", "cbc"} -> n = 16
                 [] m.mode = "cfb" -> n % m.seg = 0
                 [] OTHER -> TRUE
\* --- padding -------------------------------------------------------------------------
Padded(d) == LET p == 16 - (Len(d) % 16) IN d \o [i \in 1..p |-> p]
PadOk(d) == /\ Len(d) > 0 /\ Len(d) % 16 = 0
            /\ LET p == d[Len(d)] IN p \in 1..16 /\ \A i \in 1..p : d[Len(d) + 1 - i] = p
Unpadded(d) == SubSeq(d, 1, Len(d) - d[Len(d)])
BlockMode(m) == m.mode \in {"ecb", "cbc"}
\* the whole of what an encrypter returns for stream d; a decrypter: <<ok, d>>
FedE(m, d) == Crypt(m, TRUE, IF BlockMode(m) THEN Padded(d) ELSE d)
FedD(m, d) == IF ~ BlockMode(m) THEN << TRUE, Crypt(m, FALSE, d) >>
              ELSE IF Len(d) = 0 \/ Len(d) % 16 # 0 THEN << FALSE, << >> >>
              ELSE LET x == Crypt(m, FALSE, d) IN IF PadOk(x) THEN << TRUE, Unpadded(x) >> ELSE << FALSE, << >> >>
=============================================================================
