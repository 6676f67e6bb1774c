------------------------------- MODULE Base58 -------------------------------
(* Base58 text of bytes: a zero byte in front is a 1 in front, the rest is    *)
(* the number in base 58.  Checked text carries four bytes of double SHA-256. *)
EXTENDS Hash
\* 123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz
B58 == << 49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,85,86,87,88,89,90,
          97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122 >>
B58Chars == {B58[i] : i \in 1..58}
B58Val == SubSeq([c \in 1..255 |-> IF c \in B58Chars THEN (CHOOSE i \in 1..58 : B58[i] = c) - 1 ELSE 0], 1, 255)
RECURSIVE B58Pow(_), B58Fixed(_, _), B58Num(_, _, _)
B58Pow(k) == IF k = 0 THEN << 1 >> ELSE LET h == B58Pow(k \div 2) IN IF k % 2 = 0 THEN BMul(h, h) ELSE BMul(BMul(h, h), << 58 >>)
\* number of elements v in front of s
Leading(s, v) == LET S == {i \in 1..Len(s) : s[i] # v} IN IF S = {} THEN Len(s) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
\* k digits of a Big number below 58^k, most significant first: the upper and the lower half of the digits
B58Fixed(n, k) ==
  IF k = 1 THEN << B58[BToInt(n) + 1] >>
  ELSE LET l == k \div 2
           m == B58Pow(l)
       IN B58Fixed(BDiv(n, m), k - l) \o B58Fixed(BMod(n, m), l)
\* without ones in front; eleven digits hold eight bytes
B58Digits(n) == IF n = << >> THEN << >> ELSE LET x == B58Fixed(n, (11 * Len(n)) \div 8 + 1) IN SubSeq(x, Leading(x, 49) + 1, Len(x))
\* the number written by digits i..j of t
B58Num(t, i, j) ==
  IF i > j THEN << >>
  ELSE IF i = j THEN BFromInt(B58Val[t[i]])
  ELSE LET k == (i + j) \div 2 IN BAdd(BMul(B58Num(t, i, k), B58Pow(j - k)), B58Num(t, k + 1, j))
Times(n, v) == [i \in 1..n |-> v]
B58Enc(b) == Times(Leading(b, 0), 49) \o B58Digits(BNorm(b))
B58Valid(t) == \A i \in 1..Len(t) : t[i] \in B58Chars
B58Dec(t) == Times(Leading(t, 49), 0) \o B58Num(t, 1, Len(t))
B58Check(b) == B58Enc(b \o SubSeq(SHA256d(b), 1, 4))
\* <<ok, payload>>
B58Read(t) ==
  IF ~ B58Valid(t) THEN << FALSE, << >> >>
  ELSE LET b == B58Dec(t)
           n == Len(b)
       IN IF n < 4 THEN << FALSE, << >> >>
          ELSE LET p == SubSeq(b, 1, n - 4)
               IN IF SubSeq(SHA256d(p), 1, 4) = SubSeq(b, n - 3, n) THEN << TRUE, p >> ELSE << FALSE, << >> >>
=============================================================================
