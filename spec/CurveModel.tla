----------------------------- MODULE CurveModel -----------------------------
(* The chord-and-tangent operation of Ec.tla is a commutative group on every  *)
(* curve of the list, and multiples are repeated sums.                        *)
EXTENDS Ec, FiniteSets
CONSTANT NCurves
Table == << << 5, 1, 1 >>, << 7, 2, 1 >>, << 11, 1, 6 >>, << 13, 10, 7 >>, << 17, 0, 7 >>, << 19, 2, 2 >>, << 23, 1, 1 >> >>
Curves == {Table[i] : i \in 1..NCurves}      \* <<p, a, b>>
VARIABLES c, P, Q, R
B(n) == BytesOf(n)
CurveOf(t) == << B(t[1]), B(t[2]), B(t[3]) >>
PointsOf(t) == {ECInf} \cup {<< B(x), B(y) >> : << x, y >> \in
   {z \in (0..(t[1] - 1)) \X (0..(t[1] - 1)) : (z[2] * z[2] - z[1] * z[1] * z[1] - t[2] * z[1] - t[3]) % t[1] = 0}}
Init == /\ c \in Curves /\ P \in PointsOf(c) /\ Q \in PointsOf(c) /\ R \in PointsOf(c)
Next == UNCHANGED << c, P, Q, R >>
Spec == Init /\ [][Next]_<< c, P, Q, R >>
C == CurveOf(c)
S(a, b) == ECAdd(C, a, b)
Group == /\ ECOn(C, P)
         /\ S(P, Q) \in PointsOf(c)
         /\ S(P, Q) = S(Q, P)
         /\ S(S(P, Q), R) = S(P, S(Q, R))
         /\ S(P, ECInf) = P /\ S(P, ECNeg(C, P)) = ECInf
         /\ ECDouble(C, P) = S(P, P)
Multiples == (Q = ECInf /\ R = ECInf) =>
   LET n == Cardinality(PointsOf(c))
   IN /\ \A k \in 0..(2 * n + 1) : ECMul(C, B(k), P) = ECSum(C, k, P)
      /\ ECMul(C, B(n), P) = ECInf
=============================================================================
