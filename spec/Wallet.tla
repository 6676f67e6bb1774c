------------------------------- MODULE Wallet -------------------------------
(* What wallets are made of: private keys and their import format, public     *)
(* keys, addresses, hierarchical derivation (BIP-32), extended key text and   *)
(* the private key field of wallet files.  Private keys are 32 bytes; a       *)
(* public key is a point.                                                     *)
EXTENDS StdCurves, Base58, Aes, Der

SC == SECP256k1C
SG == SECP256k1G
SN == SECP256k1N
SP == SECP256k1C[1]
InRange(d) == ~ BIsZero(d) /\ BLt(d, SN)
PubOf(d) == ECMul(SC, BNorm(d), SG)
B32(n) == BPad(n, 32)
Raw64(P) == B32(P[1]) \o B32(P[2])
Full(P) == << 4 >> \o Raw64(P)
Comp(P) == << IF BOdd(P[2]) THEN 3 ELSE 2 >> \o B32(P[1])
Point64(b) == << BNorm(SubSeq(b, 1, 32)), BNorm(SubSeq(b, 33, 64)) >>
\* the point of an abscissa and the parity of its ordinate; << >> where there is none
SqrtExp == BShr(BAdd(SP, << 1 >>), 2)
Lift(x, odd) ==
  IF ~ BLt(x, SP) THEN << >>
  ELSE LET v == BAddMod(BMulMod(BMulMod(x, x, SP), x, SP), << 7 >>, SP)
           y == BPowMod(v, SqrtExp, SP)
       IN IF BMulMod(y, y, SP) # v THEN << >>
          ELSE << x, IF BOdd(y) = odd THEN y ELSE BSubMod(<< >>, y, SP) >>
\* a public key in either form; << >> where it is none
PubRead(b) ==
  IF Len(b) = 65 /\ b[1] = 4
  THEN LET P == Point64(Tail(b)) IN IF ECOn(SC, P) THEN P ELSE << >>
  ELSE IF Len(b) = 33 /\ b[1] \in {2, 3} THEN Lift(BNorm(Tail(b)), b[1] = 3) ELSE << >>

\* --- import format -------------------------------------------------------------------
\* under any version byte pf; wallets use 128
WifUnder(pf, d, comp) == B58Check(<< pf >> \o d \o (IF comp THEN << 1 >> ELSE << >>))
Wif(d, comp) == WifUnder(128, d, comp)
\* <<ok, key, compressed>>
NoWif == << FALSE, << >>, FALSE >>
WifReadUnder(pf, t) ==
  LET x == B58Read(t)
      p == x[2]
  IN IF ~ x[1] \/ p = << >> THEN NoWif
     ELSE IF p[1] # pf THEN NoWif
     ELSE IF Len(p) = 33 THEN << TRUE, Tail(p), FALSE >>
     ELSE IF Len(p) = 34 /\ p[34] = 1 THEN << TRUE, SubSeq(p, 2, 33), TRUE >> ELSE NoWif
WifRead(t) == WifReadUnder(128, t)

\* --- addresses -----------------------------------------------------------------------
HexC == << 48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102 >>
RECURSIVE Hex(_)
Hex(b) == IF b = << >> THEN << >> ELSE << HexC[(b[1] \div 16) + 1], HexC[(b[1] % 16) + 1] >> \o Hex(Tail(b))
Hex4(v) == Hex(<< v \div 256, v % 256 >>)
NetByte(net) == IF net = 1 THEN 111 ELSE 0
PubHash(pub) == LET h == SHA512(pub) IN SHA256(RIPEMD160(SubSeq(h, 1, 32)) \o RIPEMD160(SubSeq(h, 33, 64)))
AddrVer(pub, vcn, ver) == B58Check(<< ver >> \o Hex4(vcn) \o PubHash(pub))
Addr(pub, vcn, net) == AddrVer(pub, vcn, NetByte(net))

\* --- hierarchical wallets --------------------------------------------------------------
\* a node: [d (<< >> without private key), P, chain, vcn, net, depth, pfp, num (4 bytes)]
BitcoinSeed == << 66,105,116,99,111,105,110,32,115,101,101,100 >>
Zero4 == << 0, 0, 0, 0 >>
Node(d, P, chain, vcn, net, depth, pfp, num) ==
  [d |-> d, P |-> P, chain |-> chain, vcn |-> vcn, net |-> net, depth |-> depth, pfp |-> pfp, num |-> num]
Master(seed, vcn, net) ==
  LET I == HMAC("SHA512", BitcoinSeed, seed)
      d == B32(BMod(SubSeq(I, 1, 32), SN))
  IN Node(d, PubOf(d), SubSeq(I, 33, 64), vcn, net, 0, Zero4, Zero4)
Print4(P) == SubSeq(HASH160(Comp(P)), 1, 4)
Hardened(num) == num[1] >= 128
CanDerive(w, num) == w.depth < 255 /\ (Hardened(num) => w.d # << >>)
\* the child when the keyed hash is I: there is none if its first half is no scalar or the child has no key
ChildOf(w, num, I) ==
  LET L == SubSeq(I, 1, 32)
      d == IF w.d = << >> THEN << >> ELSE B32(BAddMod(BNorm(w.d), BNorm(L), SN))
      P == IF w.d = << >> THEN ECAdd(SC, w.P, PubOf(L)) ELSE PubOf(d)
  IN Node(d, P, SubSeq(I, 33, 64), w.vcn, w.net, w.depth + 1, Print4(w.P), num)
Child(w, num) == ChildOf(w, num, HMAC("SHA512", w.chain, (IF Hardened(num) THEN << 0 >> \o w.d ELSE Comp(w.P)) \o num))
NoChild(w, I) == LET L == SubSeq(I, 1, 32)
                 IN \/ ~ BLt(BNorm(L), SN)
                    \/ IF w.d = << >> THEN ~ BIsZero(BNorm(L)) /\ ECAdd(SC, w.P, PubOf(L)) = << >> ELSE BIsZero(BAddMod(BNorm(w.d), BNorm(L), SN))
Public(w) == [w EXCEPT !.d = << >>]
Version(net, prv) == IF net = 1 THEN (IF prv THEN << 4, 53, 131, 148 >> ELSE << 4, 53, 135, 207 >>)
                     ELSE (IF prv THEN << 4, 136, 173, 228 >> ELSE << 4, 136, 178, 30 >>)
XData(w, prv) == Version(w.net, prv) \o << w.depth >> \o w.pfp \o w.num \o w.chain
                 \o (IF prv THEN << 0 >> \o w.d ELSE Comp(w.P))
XText(w, prv) == B58Check(XData(w, prv))
\* <<"bad">>, <<"open">> (the text is well formed, its key is none), or <<"ok", node>>
XRead(t, vcn) ==
  LET x == B58Read(t)
      p == x[2]
  IN IF ~ x[1] \/ Len(p) # 78 THEN << "bad" >>
     ELSE LET v == SubSeq(p, 1, 4)
              net == IF v \in {Version(1, TRUE), Version(1, FALSE)} THEN 1 ELSE 0
              key == SubSeq(p, 46, 78)
              mk(d, P) == Node(d, P, SubSeq(p, 14, 45), vcn, net, p[5], SubSeq(p, 6, 9), SubSeq(p, 10, 13))
          IN IF v \in {Version(0, TRUE), Version(1, TRUE)}
             THEN IF key[1] # 0 THEN << "bad" >>
                  ELSE IF ~ InRange(Tail(key)) THEN << "open" >> ELSE << "ok", mk(Tail(key), PubOf(Tail(key))) >>
             ELSE IF v \in {Version(0, FALSE), Version(1, FALSE)}
             THEN IF key[1] \notin {2, 3} THEN << "bad" >>
                  ELSE IF ~ BLt(BNorm(Tail(key)), SP) THEN << "open" >>
                  ELSE LET P == Lift(BNorm(Tail(key)), key[1] = 3)
                       IN IF P = << >> THEN << "bad" >> ELSE << "ok", mk(<< >>, P) >>
             ELSE << "bad" >>

\* --- wallet files ------------------------------------------------------------------------
PassKey(pw) == [i \in 1..16 |-> IF i <= Len(pw) THEN pw[i] ELSE 0]
SamePass(a, b) == PassKey(a) = PassKey(b)
LenKey(key) == Hex(<< Len(key) >>) \o key
ZeroPad16(b) == b \o Times((16 - (Len(b) % 16)) % 16, 0)
\* the bytes the private key field stands for
FileKey(key, pw) == IF pw = << >> THEN LenKey(key) ELSE CbcE(Schedule(PassKey(pw)), Zero16, ZeroPad16(LenKey(key)))

\* --- signatures ----------------------------------------------------------------------------
\* signatures are read leniently by wallets: what follows the numbers is ignored, numbers are
\* unsigned, and a length that runs past the end stands for what there is
OpenRead(s) ==
  IF Len(s) < 2 THEN << >>
  ELSE LET n == s[2]
           k == IF n < 128 THEN 0 ELSE n - 128
           m == IF n < 128 THEN n ELSE IF k = 0 \/ k > 2 \/ Len(s) < 2 + k THEN -1 ELSE BToInt(BNorm(SubSeq(s, 3, 2 + k)))
           last == IF 2 + k + m > Len(s) THEN Len(s) ELSE 2 + k + m
       IN IF m < 0 THEN << >> ELSE << s[1], SubSeq(s, 3 + k, last), SubSeq(s, last + 1, Len(s)) >>
Lenient(b) ==
  LET q == OpenRead(b)
  IN IF q = << >> THEN BadSig ELSE IF q[1] # 48 THEN BadSig
     ELSE LET i == OpenRead(q[2])
          IN IF i = << >> THEN BadSig ELSE IF i[1] # 2 THEN BadSig
             ELSE LET j == OpenRead(i[3])
                  IN IF j = << >> THEN BadSig ELSE IF j[1] # 2 THEN BadSig
                     ELSE << TRUE, BNorm(i[2]), BNorm(j[2]) >>
SigOk(P, data, r, s) == EcdsaVerify(SC, SG, SN, P, BNorm(SHA256d(data)), r, s)
Contains(s, t) == t # << >> /\ \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
=============================================================================
