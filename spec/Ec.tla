--------------------------------- MODULE Ec ---------------------------------
(* Elliptic curves y^2 = x^3 + ax + b over the integers modulo a prime p,     *)
(* their group law, ECDSA and deterministic nonces.  Numbers are those of     *)
(* Big.tla.  A curve is <<p, a, b>> with 0 <= a, b < p; a point is <<x, y>>;  *)
(* the point at infinity is << >>.                                            *)
EXTENDS Hash

ECInf == << >>
ECOn(C, P) == P = ECInf \/
  ( /\ BLt(P[1], C[1]) /\ BLt(P[2], C[1])
    /\ BMulMod(P[2], P[2], C[1]) =
       BAddMod(BMulMod(BAdd(BMulMod(P[1], P[1], C[1]), C[2]), P[1], C[1]), C[3], C[1]) )
ECNeg(C, P) == IF P = ECInf THEN P ELSE << P[1], BSubMod(<< >>, P[2], C[1]) >>
\* the third point on the line of slope l through P and a point with abscissa qx, reflected
ECThird(C, P, qx, l) ==
  LET p == C[1]
      x3 == BSubMod(BSubMod(BMulMod(l, l, p), P[1], p), qx, p)
  IN << x3, BSubMod(BMulMod(l, BSubMod(P[1], x3, p), p), P[2], p) >>
ECDouble(C, P) ==
  IF P = ECInf \/ P[2] = << >> THEN ECInf
  ELSE LET p == C[1]
           l == BMulMod(BAddMod(BMulMod(<< 3 >>, BMulMod(P[1], P[1], p), p), C[2], p),
                        BInvMod(BAddMod(P[2], P[2], p), p), p)
       IN ECThird(C, P, P[1], l)
ECAdd(C, P, Q) ==
  IF P = ECInf THEN Q
  ELSE IF Q = ECInf THEN P
  ELSE IF P[1] = Q[1] THEN (IF P[2] = Q[2] THEN ECDouble(C, P) ELSE ECInf)
  ELSE LET p == C[1]
           l == BMulMod(BSubMod(Q[2], P[2], p), BInvMod(BSubMod(Q[1], P[1], p), p), p)
       IN ECThird(C, P, Q[1], l)
RECURSIVE ECMulR(_, _, _, _, _)
ECMulR(C, P, k, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET d == ECDouble(C, acc)
       IN ECMulR(C, P, k, i - 1, IF BBit(k, i) = 1 THEN ECAdd(C, d, P) ELSE d)
ECMul(C, k, P) == ECMulR(C, P, k, BBits(k) - 1, ECInf)
\* the definition of a multiple, used to check ECMul on small curves
RECURSIVE ECSum(_, _, _)
ECSum(C, k, P) == IF k = 0 THEN ECInf ELSE ECAdd(C, P, ECSum(C, k - 1, P))

\* --- ECDSA over curve C, base point G of prime order n -------------------------
\* signature of the number e with key d and nonce k: <<r, s>>, or << >> where ECDSA must retry
EcdsaSign(C, G, n, d, k, e) ==
  LET K == ECMul(C, BMod(k, n), G)
      r == IF K = ECInf THEN << >> ELSE BMod(K[1], n)
      s == IF r = << >> THEN << >>
           ELSE BMulMod(BInvMod(k, n), BAdd(e, BMul(d, r)), n)
  IN IF r = << >> \/ s = << >> THEN << >> ELSE << r, s >>
EcdsaVerify(C, G, n, Q, e, r, s) ==
  /\ ~ BIsZero(r) /\ BLt(r, n) /\ ~ BIsZero(s) /\ BLt(s, n)
  /\ LET w == BInvMod(s, n)
         X == ECAdd(C, ECMul(C, BMulMod(e, w, n), G), ECMul(C, BMulMod(r, w, n), Q))
     IN X # ECInf /\ BMod(X[1], n) = r
EcValidPub(C, n, x, y) == /\ BLt(x, C[1]) /\ BLt(y, C[1])
                          /\ ECOn(C, << x, y >>)
                          /\ ECMul(C, n, << x, y >>) = ECInf

\* --- RFC 6979 ---------------------------------------------------------------------
HLen(h) == CASE h = "SHA1" -> 20 [] h = "SHA224" -> 28 [] h = "SHA256" -> 32 [] h = "SHA384" -> 48
             [] h = "SHA512" -> 64
Bits2Int(data, qlen) == IF 8 * Len(data) > qlen THEN BShr(data, 8 * Len(data) - qlen) ELSE BNorm(data)
OctLen(q) == (BBits(q) + 7) \div 8
Bits2Octets(data, q) == LET z == Bits2Int(data, BBits(q))
                        IN BPad(IF BLt(z, q) THEN z ELSE BSub(z, q), OctLen(q))
RECURSIVE RfcT(_, _, _, _, _)
RfcT(h, K, V, T, qlen) == IF 8 * Len(T) >= qlen THEN << V, T >>
                          ELSE LET V2 == HMAC(h, K, V) IN RfcT(h, K, V2, T \o V2, qlen)
\* returns <<nonce, number of retries>>
RECURSIVE RfcLoop(_, _, _, _, _)
RfcLoop(h, K, V, q, tries) ==
  LET vt == RfcT(h, K, V, << >>, BBits(q))
      k == Bits2Int(vt[2], BBits(q))
  IN IF ~ BIsZero(k) /\ BLt(k, q) THEN << k, tries >>
     ELSE LET K2 == HMAC(h, K, vt[1] \o << 0 >>)
          IN RfcLoop(h, K2, HMAC(h, K2, vt[1]), q, tries + 1)
Rfc6979(h, x, q, h1) ==
  LET bx == BPad(x, OctLen(q)) \o Bits2Octets(h1, q)
      V0 == [i \in 1..HLen(h) |-> 1]
      K0 == [i \in 1..HLen(h) |-> 0]
      K1 == HMAC(h, K0, V0 \o << 0 >> \o bx)
      V1 == HMAC(h, K1, V0)
      K2 == HMAC(h, K1, V1 \o << 1 >> \o bx)
      V2 == HMAC(h, K2, V1)
  IN RfcLoop(h, K2, V2, q, 0)
=============================================================================
