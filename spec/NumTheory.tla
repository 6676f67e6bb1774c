----------------------------- MODULE NumTheory -----------------------------
(* Number theory by definition: on TLC integers where the definition is       *)
(* enumerated, on Big numbers where it is an equation.                        *)
EXTENDS Big, FiniteSets

\* small integers, by enumeration
CoPrime(a, n) == NatGcd(a, n) = 1
NtPhi(n) == Cardinality({k \in 1..n : CoPrime(k, n)})
IsPrimeI(n) == n > 1 /\ \A d \in 2..(n - 1) : d * d > n \/ n % d # 0
RECURSIVE PowI(_, _, _)
PowI(a, e, m) == IF e = 0 THEN 1 % m
                 ELSE IF e % 2 = 0 THEN PowI((a * a) % m, e \div 2, m)
                 ELSE (a * PowI((a * a) % m, e \div 2, m)) % m
RECURSIVE OrdI(_, _, _, _)
OrdI(x, m, z, k) == IF z = 1 % m THEN k ELSE OrdI(x, m, (z * x) % m, k + 1)
\* least k >= 1 with x^k = 1 (mod m), m > 1, x prime to m
NtOrder(x, m) == OrdI(x % m, m, x % m, 1)
NtCarmichael(n) ==
  LET U == {m \in 1..n : CoPrime(m, n)}
  IN CHOOSE x \in 1..n : /\ \A m \in U : PowI(m, x, n) = 1 % n
                         /\ \A y \in 1..(x - 1) : \E m \in U : PowI(m, y, n) # 1 % n
NtLegendre(a, p) == IF a % p = 0 THEN 0 ELSE IF \E x \in 1..(p - 1) : (x * x) % p = a % p THEN 1 ELSE -1
RECURSIVE MultI(_, _)
MultI(n, p) == IF n % p # 0 THEN 0 ELSE 1 + MultI(n \div p, p)
PrimeDivs(n) == {p \in 2..n : n % p = 0 /\ IsPrimeI(p)}
RECURSIVE ProdJ(_, _, _)
ProdJ(a, n, S) == IF S = {} THEN 1
                  ELSE LET p == CHOOSE q \in S : TRUE
                           l == NtLegendre(a, p)
                           e == MultI(n, p)
                       IN (IF l = 0 THEN 0 ELSE IF l = 1 \/ e % 2 = 0 THEN 1 ELSE -1) * ProdJ(a, n, S \ {p})
\* Jacobi symbol as the product of Legendre symbols over the prime factors
NtJacobi(a, n) == ProdJ(a, n, PrimeDivs(n))
NtLargestCoprimeFactor(a, b) == CHOOSE d \in 1..a : /\ a % d = 0 /\ CoPrime(d, b)
                                                  /\ \A f \in (d + 1)..a : ~ (a % f = 0 /\ CoPrime(f, b))
\* polynomials over the integers mod p, lists of coefficients, lowest power first
RECURSIVE PTrim(_), PRem(_, _, _), PSum(_, _, _, _), PExp(_, _, _, _)
PTrim(f) == IF f = << >> \/ f[Len(f)] # 0 THEN f ELSE PTrim(SubSeq(f, 1, Len(f) - 1))
\* remainder by the monic m
PRem(f, m, p) ==
  IF Len(f) < Len(m) THEN PTrim([i \in 1..Len(f) |-> f[i] % p])
  ELSE LET c == f[Len(f)]
           d == Len(f) - Len(m)
       IN PRem(SubSeq([i \in 1..(Len(f) - 1) |-> IF i > d THEN (f[i] - c * m[i - d]) % p ELSE f[i]], 1, Len(f) - 1), m, p)
PSum(f, g, k, i) == IF i > Len(f) THEN 0 ELSE (IF k + 1 - i \in 1..Len(g) THEN f[i] * g[k + 1 - i] ELSE 0) + PSum(f, g, k, i + 1)
PMulMod(f, g, m, p) == PRem(SubSeq([k \in 1..(Len(f) + Len(g) - 1) |-> PSum(f, g, k, 1) % p], 1, Len(f) + Len(g) - 1), m, p)
PExp(f, e, m, p) == IF e = 0 THEN << 1 >> ELSE LET h == PExp(f, e - 1, m, p) IN IF h = << >> THEN << >> ELSE PMulMod(f, h, m, p)
\* Big numbers
NtLegendreB(a, p) == LET t == BPowMod(a, BShr(BSub(p, << 1 >>), 1), p) IN IF t = << >> THEN 0 ELSE IF t = << 1 >> THEN 1 ELSE -1
RECURSIVE BPow(_, _), BProdPow(_), BPhiF(_), BLcmF(_)
BPow(a, e) == IF e = 0 THEN << 1 >> ELSE BMul(a, BPow(a, e - 1))
BLcm(a, b) == BDiv(BMul(a, b), BGcd(a, b))
\* fs: sequence of <<prime, exponent>>
BProdPow(fs) == IF fs = << >> THEN << 1 >> ELSE BMul(BPow(fs[1][1], fs[1][2]), BProdPow(Tail(fs)))
BPhiF(fs) == IF fs = << >> THEN << 1 >>
             ELSE BMul(BMul(BPow(fs[1][1], fs[1][2] - 1), BSub(fs[1][1], << 1 >>)), BPhiF(Tail(fs)))
BLamP(p, e) == IF p = << 2 >> /\ e > 2 THEN BPow(<< 2 >>, e - 2) ELSE BMul(BPow(p, e - 1), BSub(p, << 1 >>))
BLcmF(fs) == IF fs = << >> THEN << 1 >> ELSE BLcm(BLamP(fs[1][1], fs[1][2]), BLcmF(Tail(fs)))
IsFactorization(fs, n) == /\ BEq(BProdPow(fs), n)
                          /\ \A i \in 1..Len(fs) : BIsPrime(fs[i][1]) /\ fs[i][2] >= 1
                          /\ \A i \in 1..(Len(fs) - 1) : BLt(fs[i][1], fs[i + 1][1])
RECURSIVE NoPrimeIn(_, _)
NoPrimeIn(a, b) == IF ~ BLt(a, b) THEN TRUE ELSE ~ BIsPrime(a) /\ NoPrimeIn(BAdd(a, << 1 >>), b)
=============================================================================
