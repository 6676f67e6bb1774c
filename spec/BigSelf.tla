------------------------------ MODULE BigSelf ------------------------------
(* The Java evaluation of Big.tla agrees with its definitions for all pairs   *)
(* of numbers up to Max and moduli up to MaxM.                                *)
EXTENDS Big
CONSTANTS Max, MaxM
VARIABLES x, y, m
Init == x \in 0..Max /\ y \in 0..Max /\ m \in 1..MaxM
Next == UNCHANGED << x, y, m >>
Spec == Init /\ [][Next]_<< x, y, m >>
X == BytesOf(x)
Y == BytesOf(y)
M == BytesOf(m)
Arith ==
  /\ BNorm(X) = X /\ BNorm(<< 0, 0 >> \o X) = X /\ NatOf(X) = x
  /\ BAdd(X, Y) = BytesOf(x + y) /\ BMul(X, Y) = BytesOf(x * y)
  /\ (x >= y => BSub(X, Y) = BytesOf(x - y))
  /\ BCmp(X, Y) = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
  /\ BDiv(X, M) = BytesOf(x \div m) /\ BMod(X, M) = BytesOf(x % m)
  /\ BAddMod(X, Y, M) = BytesOf((x + y) % m) /\ BMulMod(X, Y, M) = BytesOf((x * y) % m)
  /\ BSubMod(X, Y, M) = BytesOf((x - y) % m)
  /\ BGcd(X, Y) = BytesOf(NatGcd(x, y))
  /\ BBits(X) = NatBits(x) /\ BFromInt(x) = X /\ BToInt(X) = x
  /\ (y <= 12 => /\ BPowMod(X, Y, M) = BytesOf(NatPow(x, y, m))
                 /\ BBit(X, y) = (x \div (2 ^ y)) % 2 /\ BShr(X, y) = BytesOf(x \div (2 ^ y)))
  /\ (y = 0 => BIsPrime(X) = (x > 1 /\ \A d \in 2..(x - 1) : x % d # 0))
  /\ LET S == {z \in 0..(m - 1) : (z * x) % m = 1}
     IN m > 1 => BInvMod(X, M) = BytesOf(IF S = {} THEN 0 ELSE CHOOSE z \in S : TRUE)
  /\ Len(BPad(X, 4)) = 4 /\ NatOf(BPad(X, 4)) = x
  /\ XorBytes(BPad(X, 3), BPad(Y, 3)) = BPad(BytesOf(XorInt(x, y)), 3)
=============================================================================
