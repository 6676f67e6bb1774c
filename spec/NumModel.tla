------------------------------ MODULE NumModel ------------------------------
(* Theorems that tie the definitions of NumTheory.tla together, for all small *)
(* arguments.                                                                 *)
EXTENDS NumTheory
CONSTANT Max
VARIABLES a, n
Init == a \in 0..Max /\ n \in 1..Max
Next == UNCHANGED << a, n >>
Spec == Init /\ [][Next]_<< a, n >>
Euler == (n > 1 /\ CoPrime(a, n)) =>
   /\ PowI(a % n, NtPhi(n), n) = 1
   /\ NtPhi(n) % NtOrder(a, n) = 0
   /\ PowI(a % n, NtCarmichael(n), n) = 1 /\ NtPhi(n) % NtCarmichael(n) = 0
Jacobi == (n % 2 = 1 /\ n > 1) =>
   /\ (NtJacobi(a, n) = 0) <=> ~ CoPrime(a, n)
   /\ NtJacobi(a + n, n) = NtJacobi(a, n)
   /\ \A b \in 1..7 : NtJacobi(a * b, n) = NtJacobi(a, n) * NtJacobi(b, n)
   /\ (IsPrimeI(n) => NtJacobi(a, n) = NtLegendre(a, n) /\ NtLegendreB(BFromInt(a % n), BFromInt(n)) = NtLegendre(a, n))
   /\ (a % 2 = 1 /\ a > 1 /\ CoPrime(a, n)) =>         \* quadratic reciprocity
        NtJacobi(a, n) * NtJacobi(n, a) = (IF a % 4 = 3 /\ n % 4 = 3 THEN -1 ELSE 1)
RECURSIVE FactSeq(_, _)
FactSeq(k, S) == IF S = {} THEN << >>
                 ELSE LET p == CHOOSE q \in S : \A r \in S : q <= r
                      IN << << BFromInt(p), MultI(k, p) >> >> \o FactSeq(k, S \ {p})
Fact == a = 0 => LET fs == FactSeq(n, PrimeDivs(n))
                 IN /\ IsFactorization(fs, BFromInt(n))
                    /\ BPhiF(fs) = BFromInt(NtPhi(n)) /\ BLcmF(fs) = BFromInt(NtCarmichael(n))
Gcd == /\ a > 0 => BMul(BLcm(BFromInt(a), BFromInt(n)), BGcd(BFromInt(a), BFromInt(n))) = BFromInt(a * n)
       /\ BIsPrime(BFromInt(n)) = IsPrimeI(n)
=============================================================================
