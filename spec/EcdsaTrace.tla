----------------------------- MODULE EcdsaTrace -----------------------------
(* Judges recorded calls of the elliptic curve, ECDSA, RFC 6979, number       *)
(* theory, DER and key file functions (C21 - C26).                            *)
EXTENDS Judge, StdCurves, NumTheory, Der

RP(P) == [k |-> "p", l |-> P]
\* value of an encoded natural number result, compared as a Big
IsNat(r) == r.k = "i"

\* ---------------------------------------------------------------- C21 points
EcClauses(e) ==
  CASE e.op = "ec.add" -> Fails({<<"C21.add", e.r = RP(ECAdd(e.c, e.P, e.Q))>>})
    [] e.op = "ec.dbl" -> Fails({<<"C21.double", e.r = RP(ECDouble(e.c, e.P))>>})
    [] e.op = "ec.mul" -> Fails({<<"C21.mul", e.r = RP(ECMul(e.c, e.k, e.P))>>})
    [] e.op = "ec.mulsum" -> Fails({<<"C21.mul", e.r = RP(ECSum(e.c, e.n, e.P))>>})
    \* negative multipliers: known = the order of the point is known to it; otherwise they may be refused
    [] e.op = "ec.mulneg" -> Fails({<<"C21.mul", \/ e.r = RP(ECNeg(e.c, ECSum(e.c, e.n, e.P)))
                                                 \/ e.known = 0 /\ IsX(e.r)>>})
    [] e.op = "ec.mulnegb" -> Fails({<<"C21.mul", e.r = RP(ECNeg(e.c, ECMul(e.c, e.k, e.P)))>>})
    [] e.op = "ec.mk" -> Fails({<<"C21.construct",
                                  IF BMulMod(e.y, e.y, e.c[1]) =
                                     BMod(BAdd(BMul(BAdd(BMul(e.x, e.x), e.c[2]), e.x), e.c[3]), e.c[1])
                                  THEN e.r.k = "p" ELSE IsX(e.r)>>})
    [] e.op = "ec.eq" -> Fails({<<"C21.equal", e.r = RBool(e.P = e.Q)>>})
    \* points of different curves; orders claimed
    [] e.op = "ec.other" -> Fails({<<"C21.equal", e.r = RBool(FALSE)>>})
    [] e.op = "ec.mix" -> Fails({<<"C21.mix", IsX(e.r)>>})
    [] e.op = "ec.order" -> Fails({<<"C21.order", IF ECSum(e.c, e.n, e.P) = << >> THEN e.r = RP(e.P) ELSE IsX(e.r)>>})
    [] e.op = "ec.on" -> Fails({<<"C21.on", e.r = RBool(BMulMod(e.y, e.y, e.c[1]) =
                                     BMod(BAdd(BMul(BAdd(BMul(e.x, e.x), e.c[2]), e.x), e.c[3]), e.c[1]))>>})
    [] e.op = "ec.valid" -> Fails({<<"C21.valid", e.r = RBool(EcValidPub(e.c, e.n, e.x, e.y))>>})
    [] e.op = "ec.pub" -> Fails({<<"C21.pubkey", IF EcValidPub(e.c, e.n, e.x, e.y) THEN e.r = RT ELSE IsX(e.r)>>})

\* ---------------------------------------------------------------- C22 ECDSA
LowS(s, n) == IF BLt(BShr(n, 1), s) THEN BSub(n, s) ELSE s
Canon(enc) == enc \in {"string_c", "strings_c", "der_c"}
Enc(enc, r, s, n) ==
  LET l == OctLen(n)
  IN CASE enc \in {"string", "string_c"} -> RB(BPad(r, l) \o BPad(s, l))
       [] enc \in {"strings", "strings_c"} -> RL(<< RB(BPad(r, l)), RB(BPad(s, l)) >>)
       [] enc \in {"der", "der_c"} -> RB(DSeq(<< DInt(r), DInt(s) >>))
Dec(enc, sig, n) ==
  LET l == OctLen(n)
  IN CASE enc = "string" -> IF sig.k = "b" /\ Len(sig.v) = 2 * l
                            THEN << TRUE, BNorm(SubSeq(sig.v, 1, l)), BNorm(SubSeq(sig.v, l + 1, 2 * l)) >> ELSE BadSig
       [] enc = "strings" -> IF sig.k = "l" /\ Len(sig.l) = 2 /\ Len(sig.l[1].v) = l /\ Len(sig.l[2].v) = l
                             THEN << TRUE, BNorm(sig.l[1].v), BNorm(sig.l[2].v) >> ELSE BadSig
       [] enc = "der" -> DecDer(sig.v)
DsaClauses(e) ==
  CASE e.op = "sign" -> LET x == EcdsaSign(e.c, e.G, e.n, e.d, e.k, e.e)
                        IN Fails({<<"C22.sign", IF x = << >> THEN IsX(e.r) ELSE e.r = RL(<< RI(x[1]), RI(x[2]) >>)>>})
    \* a public key is a finite point of the group, with reduced coordinates, over a generator of known order
    [] e.op = "validpub" ->
         Fails({<<"C22.pubkey", IF /\ e.n # << >> /\ e.Q # << >>
                                   /\ BLt(e.Q[1], e.c[1]) /\ BLt(e.Q[2], e.c[1])
                                   /\ ECMul(e.c, e.n, e.Q) = << >>
                                THEN e.r = RT ELSE IsX(e.r)>>})
    [] e.op = "verify" -> Fails({<<"C22.verify", e.r = RBool(EcdsaVerify(e.c, e.G, e.n, e.Q, e.e, e.rs[1], e.rs[2]))>>})
    [] e.op = "ksign" ->
         LET n == CvN(e.cv)
             x == EcdsaSign(CvC(e.cv), CvG(e.cv), n, e.d, e.k, BNorm(e.dig))
         IN Fails({<<"C22.keysign",
                     IF Len(e.dig) > CvLen(e.cv) \/ BIsZero(e.k) \/ ~ BLt(e.k, n) \/ x = << >> THEN IsX(e.r)
                     ELSE e.r = Enc(e.enc, x[1], IF Canon(e.enc) THEN LowS(x[2], n) ELSE x[2], n)>>})
    [] e.op = "enc" -> Fails({<<"C22.encode", e.r = Enc(e.enc, e.rs[1], IF Canon(e.enc) THEN LowS(e.rs[2], e.n) ELSE e.rs[2], e.n)>>})
    [] e.op = "dec" -> LET x == Dec(e.enc, e.sig, e.n)
                       IN Fails({<<"C22.decode", IF x[1] THEN e.r = RL(<< RI(x[2]), RI(x[3]) >>) ELSE IsX(e.r)>>})
    [] e.op = "kverify" ->
         LET n == CvN(e.cv)
             x == Dec(e.enc, e.sig, n)
             ok == /\ Len(e.dig) <= CvLen(e.cv) /\ x[1]
                   /\ EcdsaVerify(CvC(e.cv), CvG(e.cv), n, e.Q, BNorm(e.dig), x[2], x[3])
         IN Fails({<<"C22.keyverify", IF ok THEN e.r = RT ELSE IsX(e.r)>>})
    \* a signature with a nonce drawn by the key object itself
    [] e.op = "kfresh" ->
         LET n == CvN(e.cv)
             x == Dec(e.enc, e.r, n)
         IN Fails({<<"C22.keyfresh", /\ e.r.k \in {"b", "l"} /\ x[1]
                                     /\ EcdsaVerify(CvC(e.cv), CvG(e.cv), n, e.Q, BNorm(e.dig), x[2], x[3])>>,
                   <<"C22.keyroundtrip", e.v = RT>>})
    [] e.op = "rfc" -> Fails({<<"C23.nonce", e.r = RI(Rfc6979(e.h, e.x, e.q, e.data)[1])>>})
    [] e.op = "detsign" ->
         LET n == CvN(e.cv)
             dig == Digest(e.h, e.data)
             k == Rfc6979(e.h, e.d, n, dig)[1]
             x == EcdsaSign(CvC(e.cv), CvG(e.cv), n, e.d, k, BNorm(dig))
         IN Fails({<<"C23.detsign", IF Len(dig) > CvLen(e.cv) THEN IsX(e.r) ELSE e.r = Enc("string", x[1], x[2], n)>>,
                   <<"C23.repeat", e.r = e.r2>>})

\* ---------------------------------------------------------------- C24 number theory
FactorsOf(r) == [i \in 1..Len(r.l) |-> << r.l[i].l[1].v, BToInt(r.l[i].l[2].v) >>]
NtInv(e) == IF BGcd(e.a, e.m) = << 1 >>
            THEN IsNat(e.r) /\ BLt(e.r.v, e.m) /\ BMulMod(e.a, e.r.v, e.m) = << 1 >>
            ELSE IsX(e.r)
NtClauses(e) ==
  CASE e.op = "nt.inv" -> Fails({<<"C24.inverse", NtInv(e)>>})
    \* negative arguments: a stands for -a
    [] e.op = "nt.invneg" -> Fails({<<"C24.inverse", IsNat(e.r) /\ BLt(e.r.v, e.m) /\ BMulMod(BSubMod(<< >>, BMod(e.a, e.m), e.m), e.r.v, e.m) = << 1 >> >>})
    [] e.op = "nt.exp" -> Fails({<<"C24.exp", e.r = RI(BPowMod(e.a, e.e, e.m))>>})
    [] e.op = "nt.poly" -> Fails({<<"C24.polynomial",
          /\ e.r.k = "l" /\ \A i \in 1..Len(e.r.l) : IsNat(e.r.l[i])
          /\ PTrim([i \in 1..Len(e.r.l) |-> BToInt(e.r.l[i].v)]) =
               (CASE e.f = "rem" -> PRem(e.a, e.m, e.p) [] e.f = "mul" -> PMulMod(e.a, e.b, e.m, e.p) [] e.f = "exp" -> PExp(e.a, e.n, e.m, e.p))>>})
    [] e.op = "nt.expneg" -> Fails({<<"C24.exp.negative", IsX(e.r)>>})
    [] e.op = "nt.sqrt" -> Fails({<<"C24.sqrt",
          IF e.a = << >> \/ e.p = << 2 >> \/ NtLegendreB(e.a, e.p) = 1
          THEN IsNat(e.r) /\ BLt(e.r.v, e.p) /\ BMulMod(e.r.v, e.r.v, e.p) = e.a ELSE IsX(e.r)>>})
    [] e.op = "nt.jacobi" -> Fails({<<"C24.jacobi",
          IF e.n < 3 \/ e.n % 2 = 0 THEN IsX(e.r)
          ELSE LET j == NtJacobi(e.a % e.n, e.n) IN e.r = (IF j = 0 THEN RI(<< >>) ELSE IF j = 1 THEN RI(<< 1 >>) ELSE RNeg(<< 1 >>))>>})
    [] e.op = "nt.legendre" -> Fails({<<"C24.jacobi",      \* large odd prime modulus
          LET j == NtLegendreB(e.a, e.p) IN e.r = (IF j = 0 THEN RI(<< >>) ELSE IF j = 1 THEN RI(<< 1 >>) ELSE RNeg(<< 1 >>))>>})
    [] e.op = "nt.gcd" -> Fails({<<"C24.gcd", e.r = RI(BGcd(e.a, e.b))>>})
    [] e.op = "nt.gcd3" -> Fails({<<"C24.gcd", e.r = RI(BGcd(BGcd(e.a, e.b), e.c))>>})
    [] e.op = "nt.lcm" -> Fails({<<"C24.lcm", e.r = RI(BLcm(e.a, e.b))>>})
    [] e.op = "nt.lcm3" -> Fails({<<"C24.lcm", e.r = RI(BLcm(BLcm(e.a, e.b), e.c))>>})
    [] e.op = "nt.i2s" -> LET s == IF BIsZero(e.n) THEN << 0 >> ELSE BNorm(e.n)
                          IN Fails({<<"C24.bytes", e.r = RB(s)>>, <<"C24.number", \A i \in 1..Len(e.back) : e.back[i] = RI(BNorm(e.n))>>,
                                    <<"C24.digest", e.dig = RI(BNorm(SHA1(s)))>>})
    [] e.op = "nt.i2sneg" -> Fails({<<"C24.bytes", IsX(e.r)>>})
    [] e.op = "nt.fact" -> Fails({<<"C24.factorization",
          IF BLe(e.n, << 1 >>) THEN e.r = RL(<< >>) ELSE e.r.k = "l" /\ IsFactorization(FactorsOf(e.r), e.n)>>})
    [] e.op = "nt.phi" -> Fails({<<"C24.phi", e.r = RI(BFromInt(NtPhi(e.n)))>>})
    [] e.op = "nt.phiF" -> Fails({<<"C24.phi", e.r = RI(BPhiF(e.fs))>>})
    [] e.op = "nt.carm" -> Fails({<<"C24.carmichael", e.r = RI(BFromInt(NtCarmichael(e.n)))>>})
    [] e.op = "nt.carmF" -> Fails({<<"C24.carmichael", e.r = RI(BLcmF(e.fs))>>})
    [] e.op = "nt.order" -> Fails({<<"C24.order",
          IF e.m <= 1 THEN e.r = RI(<< >>) ELSE IF CoPrime(e.x, e.m) THEN e.r = RI(BFromInt(NtOrder(e.x, e.m))) ELSE IsX(e.r)>>})
    [] e.op = "nt.lfrp" -> Fails({<<"C24.coprimefactor", e.r = RI(BFromInt(NtLargestCoprimeFactor(e.a, e.b)))>>})
    [] e.op = "nt.korder" -> LET m == NtLargestCoprimeFactor(e.m, e.x)
                             IN Fails({<<"C24.order", e.r = RI(IF m <= 1 THEN << >> ELSE BFromInt(NtOrder(e.x, m)))>>})
    [] e.op = "nt.prime" -> Fails({<<"C24.isprime", e.r = RBool(BIsPrime(e.n))>>})
    [] e.op = "nt.primes" -> Fails({<<"C24.isprime", e.r = RL([i \in 1..e.len |-> RBool(IsPrimeI(e.n + i - 1))])>>})
    [] e.op = "nt.next" -> Fails({<<"C24.nextprime",
          IsNat(e.r) /\ BIsPrime(e.r.v) /\ BLt(e.n, e.r.v) /\ NoPrimeIn(BAdd(e.n, << 1 >>), e.r.v)>>})

\* ---------------------------------------------------------------- C25 DER and keys
OidPk == << << 1 >>, << 2 >>, << 3, 72 >>, << 39, 61 >>, << 2 >>, << 1 >> >>
PubStr(cv, Q) == BPad(Q[1], CvLen(cv)) \o BPad(Q[2], CvLen(cv))
PubDer(cv, Q) == DSeq(<< DSeq(<< DOid(OidPk), DOid(CvOid(cv)) >>), DBit(<< 0, 4 >> \o PubStr(cv, Q)) >>)
PrvDer(cv, d) == DSeq(<< DInt(<< 1 >>), DOct(BPad(d, CvLen(cv))), DCons(0, DOid(CvOid(cv))),
                         DCons(1, DBit(<< 0, 4 >> \o PubStr(cv, ECMul(CvC(cv), d, CvG(cv))))) >>)
NameEC == << 69,67,32,80,82,73,86,65,84,69,32,75,69,89 >>       \* "EC PRIVATE KEY"
NamePub == << 80,85,66,76,73,67,32,75,69,89 >>                 \* "PUBLIC KEY"
RdResult(e, tag) ==
  LET q == DRead(e.s)
  IN IF q = << >> \/ q[1] # tag THEN IsX(e.r) ELSE e.r = RL(<< RB(q[2]), RB(q[3]) >>)
\* the other readers; needless zeros before a number may be refused
ReadInt(e) ==
  LET q == DRead(e.s)
  IN IF q = << >> \/ q[1] # 2 THEN IsX(e.r)
     ELSE IF q[2] = << >> THEN IsX(e.r)
     ELSE IF q[2][1] >= 128 THEN IsX(e.r)
     ELSE e.r = RL(<< RI(BNorm(q[2])), RB(q[3]) >>) \/ (IsX(e.r) /\ q[2] # DIntBody(BNorm(q[2])))
RECURSIVE ArcEnds(_, _)
\* positions of the last bytes of the arcs
ArcEnds(b, i) == IF i > Len(b) THEN << >> ELSE IF b[i] < 128 THEN << i >> \o ArcEnds(b, i + 1) ELSE ArcEnds(b, i + 1)
RECURSIVE FromBase128(_, _)
FromBase128(d, i) == IF i = 0 THEN << >> ELSE BAdd(BMul(FromBase128(d, i - 1), << 128 >>), BFromInt(d[i] % 128))
ReadOid(e) ==
  LET q == DRead(e.s)
  IN IF q = << >> \/ q[1] # 6 THEN IsX(e.r)
     ELSE LET b == q[2]
              z == ArcEnds(b, 1)
              arcs == [i \in 1..Len(z) |-> SubSeq(b, IF i = 1 THEN 1 ELSE z[i - 1] + 1, z[i])]
              nums == [i \in 1..Len(z) |-> FromBase128(arcs[i], Len(arcs[i]))]
          IN IF b = << >> THEN IsX(e.r)
             ELSE IF b[Len(b)] >= 128 THEN IsX(e.r)
             ELSE IF b[1] >= 120 THEN TRUE        \* a first arc beyond what can be written
             ELSE \/ e.r = RL(<< RL(<< RI(BFromInt(b[1] \div 40)), RI(BFromInt(b[1] % 40)) >> \o [i \in 1..(Len(z) - 1) |-> RI(nums[i + 1])]), RB(q[3]) >>)
                  \/ IsX(e.r) /\ \E i \in 1..Len(arcs) : Len(arcs[i]) > 1 /\ arcs[i][1] = 128
ReadCons(e) ==
  LET q == DRead(e.s)
  IN IF q = << >> THEN IsX(e.r)
     ELSE IF q[1] < 160 \/ q[1] > 191 THEN IsX(e.r)
     ELSE e.r = RL(<< RI(BFromInt(q[1] - 160)), RB(q[2]), RB(q[3]) >>)
ReadLength(e) ==
  IF e.s = << >> THEN IsX(e.r)
  ELSE IF e.s[1] < 128 THEN e.r = RL(<< RI(BFromInt(e.s[1])), RI(<< 1 >>) >>)
  ELSE LET k == e.s[1] - 128
       IN IF k = 0 \/ k > Len(e.s) - 1 THEN IsX(e.r)
          ELSE LET v == BNorm(SubSeq(e.s, 2, 1 + k))
               IN e.r = RL(<< RI(v), RI(BFromInt(1 + k)) >>) \/ (IsX(e.r) /\ (Len(v) < k \/ BLt(v, << 128 >>)))
ReadNumber(e) ==
  LET z == ArcEnds(e.s, 1)
  IN IF z = << >> THEN IsX(e.r)
     ELSE e.r = RL(<< RI(FromBase128(e.s, z[1])), RI(BFromInt(z[1])) >>) \/ (IsX(e.r) /\ z[1] > 1 /\ e.s[1] = 128)
DerClauses(e) ==
  CASE e.op = "der.len" -> Fails({<<"C25.length", e.r = RB(DLen(e.n))>>, <<"C25.length.read", e.back = RL(<< RI(BFromInt(e.n)), RI(BFromInt(Len(DLen(e.n)))) >>)>>})
    [] e.op = "der.int" -> Fails({<<"C25.integer", e.r = RB(DInt(e.n))>>, <<"C25.integer.read", e.back = RL(<< RI(e.n), RB(e.junk) >>)>>})
    [] e.op = "der.num" -> Fails({<<"C25.number", e.r = RB(DNum(e.n))>>,
                                  <<"C25.number.read", e.back = RL(<< RI(e.n), RI(BFromInt(Len(DNum(e.n)))) >>)>>})
    [] e.op = "der.oid" -> Fails({<<"C25.oid", e.r = RB(DOid(e.oid))>>,
                                  <<"C25.oid.read", e.back = RL(<< RL([i \in 1..Len(e.oid) |-> RI(e.oid[i])]), RB(e.junk) >>)>>})
    [] e.op = "der.bit" -> Fails({<<"C25.bitstring", e.r = RB(DBit(e.s))>>, <<"C25.bitstring.read", e.back = RL(<< RB(e.s), RB(e.junk) >>)>>})
    [] e.op = "der.oct" -> Fails({<<"C25.octetstring", e.r = RB(DOct(e.s))>>, <<"C25.octetstring.read", e.back = RL(<< RB(e.s), RB(e.junk) >>)>>})
    [] e.op = "der.seq" -> Fails({<<"C25.sequence", e.r = RB(DSeq(e.ss))>>, <<"C25.sequence.read", e.back = RL(<< RB(Cat(e.ss)), RB(e.junk) >>)>>})
    [] e.op = "der.cons" -> Fails({<<"C25.constructed", e.r = RB(DCons(e.t, e.s))>>,
                                   <<"C25.constructed.read", e.back = RL(<< RI(BFromInt(e.t)), RB(e.s), RB(e.junk) >>)>>})
    [] e.op = "der.rd" -> Fails({<<"C25.read", RdResult(e, e.tag)>>})
    [] e.op = "der.rdi" -> Fails({<<"C25.read.integer", ReadInt(e)>>})
    [] e.op = "der.rdo" -> Fails({<<"C25.read.oid", ReadOid(e)>>})
    [] e.op = "der.rdc" -> Fails({<<"C25.read.constructed", ReadCons(e)>>})
    [] e.op = "der.rdl" -> Fails({<<"C25.read.length", ReadLength(e)>>})
    [] e.op = "der.rdn" -> Fails({<<"C25.read.number", ReadNumber(e)>>})
    [] e.op = "der.pem" -> Fails({<<"C25.pem", e.r = RB(Pem(e.s, e.name))>>, <<"C25.pem.read", e.back = RB(e.s)>>})
    [] e.op = "n2s.back" -> Fails({<<"C25.fixed", IF Len(e.s) = OctLen(e.q) THEN e.r = RI(BNorm(e.s)) ELSE IsX(e.r)>>})
    [] e.op = "n2s" -> Fails({<<"C25.fixed", IF BLe(BPow(<< 1, 0 >>, OctLen(e.q)), e.n) THEN IsX(e.r) ELSE e.r = RB(BPad(e.n, OctLen(e.q)))>>})
    [] e.op = "prv.exp" -> Fails({<<"C25.private.string", e.str = RB(BPad(e.d, CvLen(e.cv)))>>,
                                  <<"C25.private.der", e.der = RB(PrvDer(e.cv, e.d))>>,
                                  <<"C25.private.pem", e.pem = RB(Pem(PrvDer(e.cv, e.d), NameEC))>>,
                                  <<"C25.private.import", \A i \in 1..Len(e.back) : e.back[i] = RL(<< RI(e.d), [k |-> "s", v |-> e.cvb] >>)>>})
    [] e.op = "pub.exp" -> Fails({<<"C25.public.string", e.str = RB(PubStr(e.cv, e.Q))>>,
                                  <<"C25.public.der", e.der = RB(PubDer(e.cv, e.Q))>>,
                                  <<"C25.public.pem", e.pem = RB(Pem(PubDer(e.cv, e.Q), NamePub))>>,
                                  <<"C25.public.import", \A i \in 1..Len(e.back) : e.back[i] = RL(<< RI(e.Q[1]), RI(e.Q[2]), [k |-> "s", v |-> e.cvb] >>)>>})
    \* damaged files and strings: refused
    [] e.op = "key.bad" -> Fails({<<"C25.refuse", IsX(e.r)>>})
    \* octet strings of private keys may lack leading zeros
    [] e.op = "prv.short" -> Fails({<<"C25.private.import", e.r = RL(<< RI(e.d), [k |-> "s", v |-> e.cvb] >>)>>})
    [] e.op = "prv.range" -> Fails({<<"C25.private.range", IF ~ BIsZero(e.d) /\ BLt(e.d, CvN(e.cv)) THEN e.r = RI(BNorm(e.d)) ELSE IsX(e.r)>>})
    [] e.op = "pub.point" -> Fails({<<"C25.public.point", IF EcValidPub(CvC(e.cv), CvN(e.cv), e.x, e.y) THEN e.r = RT ELSE IsX(e.r)>>})

\* ---------------------------------------------------------------- C26 scalars
\* the entropy source hands out `chunks` (each of the length asked for) and then fails
RECURSIVE FirstOk(_, _, _)
FirstOk(chunks, q, i) ==
  IF i > Len(chunks) THEN 0
  ELSE LET c == BAdd(BNorm(chunks[i]), << 1 >>) IN IF BLt(c, q) THEN i ELSE FirstOk(chunks, q, i + 1)
PrngByteSeq(seed, from, n) ==     \* n bytes of the seeded generator
  LET need == (from + n + 31) \div 32
      Dec10[x \in 0..10000] == IF x < 10 THEN << 48 + x >> ELSE Append(Dec10[x \div 10], 48 + (x % 10))
      Blk(i) == SHA256(<< 112, 114, 110, 103, 45 >> \o Dec10[i] \o << 45 >> \o seed)
      RECURSIVE All(_)
      All(i) == IF i >= need THEN << >> ELSE Blk(i) \o All(i + 1)
  IN SubSeq(All(0), from + 1, from + n)
RECURSIVE TryAgain(_, _, _, _)
TryAgain(seed, q, bits, pos) ==
  LET nb == bits \div 8
      ex == bits % 8
      c0 == IF ex = 0 THEN << >> ELSE << PrngByteSeq(seed, pos, 1)[1] % (2 ^ ex) >>
      p1 == pos + (IF ex = 0 THEN 0 ELSE 1)
      g == BAdd(BNorm(c0 \o PrngByteSeq(seed, p1, nb)), << 1 >>)
  IN IF BLt(g, q) THEN g ELSE TryAgain(seed, q, bits, p1 + nb)
\* 1 + the leading bytes of the hash, filled up with zeros on the left; bits: also mask the excess bits
Truncated(hm, seed, q, mask) ==
  LET bits == BBits(BSub(q, << 1 >>))
      nb == (bits + 7) \div 8
      h == Digest(hm, seed)
      b == BPad(BNorm(SubSeq(h, 1, IF Len(h) < nb THEN Len(h) ELSE nb)), nb)
      x == IF mask /\ bits % 8 # 0 THEN << b[1] % (2 ^ (bits % 8)) >> \o Tail(b) ELSE b
  IN BAdd(BNorm(x), << 1 >>)
TruncOk(e) == LET t == Truncated(e.h, e.seed, e.q, e.mask = 1)
              IN IF BLt(t, e.q) THEN e.r = RI(t) ELSE IsX(e.r)
InRange(r, q) == IsNat(r) /\ ~ BIsZero(r.v) /\ BLt(r.v, q)
RndClauses(e) ==
  CASE e.op = "rnd" -> LET i == FirstOk(e.chunks, e.q, 1)
                       IN Fails({<<"C26.randrange", IF i = 0 THEN IsX(e.r)
                                    ELSE e.r = RI(BAdd(BNorm(e.chunks[i]), << 1 >>)) /\ e.used = i>>,
                                 <<"C26.length", \A j \in 1..Len(e.lens) : e.lens[j] = OctLen(e.q)>>})
    [] e.op = "rnd.late" -> Fails({<<"C26.late", e.r = RI(BAdd(BNorm(e.c), << 1 >>)) /\ e.used = e.n + 1>>})
    [] e.op = "rnd.stuck" -> Fails({<<"C26.stuck", IsX(e.r)>>})
    [] e.op = "rnd.over" -> Fails({<<"C26.overshoot", e.r = RI(BAdd(BMod(BNorm(PrngByteSeq(e.seed, 0, 2 * OctLen(e.q))), BSub(e.q, << 1 >>)), << 1 >>))>>,
                                   <<"C26.overshoot.range", InRange(e.r, e.q)>>})
    [] e.op = "rnd.try" -> Fails({<<"C26.tryagain.range", InRange(e.r, e.q)>>, <<"C26.tryagain.repeat", e.r = e.r2>>,
                                  <<"C26.tryagain", e.exact = 0 \/ e.r = RI(TryAgain(e.seed, e.q, BBits(BSub(e.q, << 1 >>)), 0))>>})
    [] e.op = "rnd.trunc" -> Fails({<<"C26.truncate.range", IsX(e.r) \/ InRange(e.r, e.q)>>, <<"C26.truncate.repeat", e.r = e.r2>>,
                                    <<"C26.truncate", e.exact = 0 \/ TruncOk(e)>>})
    [] e.op = "rnd.all" -> Fails({<<"C26.every", e.r = RL([i \in 1..(BToInt(e.q) - 1) |-> RI(BFromInt(i))])>>})
    [] e.op = "prng" -> Fails({<<"C26.prng", e.r = RB(PrngByteSeq(e.seed, 0, e.n))>>})
    [] e.op = "gen" -> Fails({<<"C26.generate", e.r = RI(BAdd(BNorm(e.chunks[1]), << 1 >>))>>})

Pre(s, n) == SubSeq(s, 1, n)
Clauses(e) ==
  CASE Pre(e.op, 3) = "ec." -> EcClauses(e)
    [] Pre(e.op, 3) = "nt." -> NtClauses(e)
    [] Pre(e.op, 3) \in {"der", "n2s", "prv", "pub", "key"} -> DerClauses(e)
    [] Pre(e.op, 3) \in {"rnd", "prn", "gen"} -> RndClauses(e)
    [] OTHER -> DsaClauses(e)
JInv == JReport(Clauses(JTrace[jpos]))
=============================================================================
