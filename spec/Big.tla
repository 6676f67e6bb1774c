-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size as big-endian byte sequences without leading  *)
(* zeros (zero is << >>).  The bodies below define the operators; because    *)
(* TLC integers have 32 bits, TLC evaluates them with spec/java/Big.java.    *)
(* BigSelf.tla checks that both agree on small numbers.                      *)
EXTENDS Naturals, Integers, Sequences

RECURSIVE NatOf(_), BytesOf(_)
NatOf(a) == IF a = << >> THEN 0 ELSE 256 * NatOf(SubSeq(a, 1, Len(a) - 1)) + a[Len(a)]
BytesOf(n) == IF n = 0 THEN << >> ELSE Append(BytesOf(n \div 256), n % 256)

BNorm(a) == BytesOf(NatOf(a))
BAdd(a, b) == BytesOf(NatOf(a) + NatOf(b))
BSub(a, b) == BytesOf(NatOf(a) - NatOf(b))
BMul(a, b) == BytesOf(NatOf(a) * NatOf(b))
BDiv(a, b) == BytesOf(NatOf(a) \div NatOf(b))
BMod(a, b) == BytesOf(NatOf(a) % NatOf(b))
BCmp(a, b) == IF NatOf(a) < NatOf(b) THEN -1 ELSE IF NatOf(a) = NatOf(b) THEN 0 ELSE 1
BAddMod(a, b, m) == BytesOf((NatOf(a) + NatOf(b)) % NatOf(m))
BSubMod(a, b, m) == BytesOf((NatOf(a) - NatOf(b)) % NatOf(m))
BMulMod(a, b, m) == BytesOf((NatOf(a) * NatOf(b)) % NatOf(m))
RECURSIVE NatPow(_, _, _)
NatPow(a, e, m) == IF e = 0 THEN 1 % m ELSE (a * NatPow(a, e - 1, m)) % m
BPowMod(a, e, m) == BytesOf(NatPow(NatOf(a), NatOf(e), NatOf(m)))
\* the inverse modulo m, 0 where there is none
BInvMod(a, m) == LET M == NatOf(m)
                     S == {x \in 0..(M - 1) : (x * NatOf(a)) % M = 1}
                 IN BytesOf(IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE)
RECURSIVE NatGcd(_, _)
NatGcd(a, b) == IF b = 0 THEN a ELSE NatGcd(b, a % b)
BGcd(a, b) == BytesOf(NatGcd(NatOf(a), NatOf(b)))
RECURSIVE NatBits(_)
NatBits(n) == IF n = 0 THEN 0 ELSE 1 + NatBits(n \div 2)
BBits(a) == NatBits(NatOf(a))
BBit(a, n) == (NatOf(a) \div (2 ^ n)) % 2
BShr(a, n) == BytesOf(NatOf(a) \div (2 ^ n))
BIsPrime(a) == LET n == NatOf(a) IN n > 1 /\ \A d \in 2..(n - 1) : n % d # 0
BFromInt(n) == BytesOf(n)
BToInt(a) == NatOf(a)
BPad(a, n) == LET b == BNorm(a) IN
              IF Len(b) > n THEN b ELSE [i \in 1..n |-> IF i <= n - Len(b) THEN 0 ELSE b[i - (n - Len(b))]]

Bit(x, k) == (x \div (2 ^ k)) % 2
RECURSIVE XorInt(_, _)
XorInt(x, y) == IF x = 0 /\ y = 0 THEN 0
                ELSE ((x + y) % 2) + 2 * XorInt(x \div 2, y \div 2)
XorBytes(a, b) == [i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) |-> XorInt(a[i], b[i])]

BZero == << >>
BOne == << 1 >>
BLt(a, b) == BCmp(a, b) = -1
BLe(a, b) == BCmp(a, b) # 1
BEq(a, b) == BCmp(a, b) = 0
BIsZero(a) == BCmp(a, << >>) = 0
BOdd(a) == BBit(a, 0) = 1
=============================================================================
