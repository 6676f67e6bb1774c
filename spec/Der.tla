-------------------------------- MODULE Der --------------------------------
(* Distinguished encoding of the structures used for keys and signatures,     *)
(* base64 and PEM text.                                                       *)
EXTENDS Big

DLen(n) == IF n < 128 THEN << n >> ELSE LET b == BFromInt(n) IN << 128 + Len(b) >> \o b
DTag(t, body) == << t >> \o DLen(Len(body)) \o body
DIntBody(n) == IF n = << >> THEN << 0 >> ELSE IF n[1] >= 128 THEN << 0 >> \o n ELSE n
DInt(n) == DTag(2, DIntBody(n))
DBit(s) == DTag(3, s)
DOct(s) == DTag(4, s)
RECURSIVE Cat(_), Base128(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Cat(Tail(ss))
DSeq(ss) == DTag(48, Cat(ss))
DCons(t, s) == DTag(160 + t, s)
\* base 128 digits of a Big number, most significant first
Base128(n) == IF BBits(n) <= 7 THEN << IF n = << >> THEN 0 ELSE BToInt(n) >>
              ELSE Append(Base128(BShr(n, 7)), BToInt(BMod(n, << 128 >>)))
DNum(n) == LET d == Base128(n) IN [i \in 1..Len(d) |-> IF i < Len(d) THEN d[i] + 128 ELSE d[i]]
RECURSIVE CatNum(_)
CatNum(ps) == IF ps = << >> THEN << >> ELSE DNum(ps[1]) \o CatNum(Tail(ps))
\* oid: sequence of Big numbers, the first two packed into one byte
DOidBody(oid) == << 40 * BToInt(oid[1]) + BToInt(oid[2]) >> \o CatNum(SubSeq(oid, 3, Len(oid)))
DOid(oid) == DTag(6, DOidBody(oid))

\* reading: << >> when malformed, else <<tag, body, rest>>
DRead(s) ==
  IF Len(s) < 2 THEN << >>
  ELSE LET ll == IF s[2] < 128 THEN 0 ELSE s[2] - 128
           big == IF s[2] < 128 THEN << s[2] >> ELSE BNorm(SubSeq(s, 3, 2 + ll))
       IN IF (s[2] >= 128 /\ ll = 0) \/ Len(s) < 2 + ll \/ Len(big) > 3 THEN << >>
          ELSE LET n == BToInt(BNorm(big))
               IN IF Len(s) < 2 + ll + n THEN << >>
                  ELSE << s[1], SubSeq(s, 3 + ll, 2 + ll + n), SubSeq(s, 3 + ll + n, Len(s)) >>

\* a signature, <<ok, r, s>>
BadSig == << FALSE, << >>, << >> >>
DecDer(b) ==
  LET q == DRead(b)
  IN IF q = << >> \/ q[1] # 48 \/ q[3] # << >> THEN BadSig
     ELSE LET i == DRead(q[2])
          IN IF i = << >> \/ i[1] # 2 \/ i[2] = << >> THEN BadSig
             ELSE LET j == DRead(i[3])
                  IN IF j = << >> \/ j[1] # 2 \/ j[2] = << >> \/ j[3] # << >> THEN BadSig
                     ELSE IF i[2][1] >= 128 \/ j[2][1] >= 128 THEN BadSig
                     ELSE << TRUE, BNorm(i[2]), BNorm(j[2]) >>

B64 == << 65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
          97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
          48,49,50,51,52,53,54,55,56,57,43,47 >>
RECURSIVE Base64(_)
Base64(s) ==
  IF s = << >> THEN << >>
  ELSE IF Len(s) = 1 THEN << B64[(s[1] \div 4) + 1], B64[(s[1] % 4) * 16 + 1], 61, 61 >>
  ELSE IF Len(s) = 2 THEN << B64[(s[1] \div 4) + 1], B64[(s[1] % 4) * 16 + (s[2] \div 16) + 1],
                             B64[(s[2] % 16) * 4 + 1], 61 >>
  ELSE << B64[(s[1] \div 4) + 1], B64[(s[1] % 4) * 16 + (s[2] \div 16) + 1],
          B64[(s[2] % 16) * 4 + (s[3] \div 64) + 1], B64[(s[3] % 64) + 1] >> \o Base64(SubSeq(s, 4, Len(s)))
RECURSIVE Lines64(_)
Lines64(s) == IF s = << >> THEN << >>
              ELSE IF Len(s) <= 64 THEN Append(s, 10)
              ELSE Append(SubSeq(s, 1, 64), 10) \o Lines64(SubSeq(s, 65, Len(s)))
Dash == << 45, 45, 45, 45, 45 >>
\* name: bytes
Pem(der, name) == Dash \o << 66,69,71,73,78,32 >> \o name \o Dash \o << 10 >> \o Lines64(Base64(der))
                  \o Dash \o << 69,78,68,32 >> \o name \o Dash \o << 10 >>
=============================================================================
