----------------------------- MODULE EcdsaModel -----------------------------
(* On small groups of prime order: every signature the signing equation gives *)
(* verifies, so does its negated s; verification accepts nothing else for the *)
(* digest, nothing out of range; the RFC 6979 nonce is in range.              *)
EXTENDS Ec
CONSTANT NGroups
Table == << << 7, 2, 1, 0, 1, 5 >>, << 11, 1, 6, 2, 7, 13 >>, << 17, 2, 2, 5, 1, 19 >> >>
Groups == {Table[i] : i \in 1..NGroups}      \* <<p, a, b, gx, gy, n>>
VARIABLES g, d, e
B(n) == BytesOf(n)
Init == g \in Groups /\ d \in 1..(g[6] - 1) /\ e \in 0..(g[6] + 1)
Next == UNCHANGED << g, d, e >>
Spec == Init /\ [][Next]_<< g, d, e >>
C == << B(g[1]), B(g[2]), B(g[3]) >>
G == << B(g[4]), B(g[5]) >>
n == g[6]
N == B(n)
Q == ECMul(C, B(d), G)
Sigs == {EcdsaSign(C, G, N, B(d), B(k), B(e)) : k \in 1..(n - 1)} \ {<< >>}
Neg(s) == << s[1], BSub(N, s[2]) >>
Order == /\ ECMul(C, N, G) = ECInf /\ \A i \in 1..(n - 1) : ECMul(C, B(i), G) # ECInf
         /\ EcValidPub(C, N, Q[1], Q[2])
Complete == \A s \in Sigs : EcdsaVerify(C, G, N, Q, B(e), s[1], s[2]) /\ EcdsaVerify(C, G, N, Q, B(e), Neg(s)[1], Neg(s)[2])
Sound == \A r \in 0..(n + 1), s \in 0..(n + 1) :
            EcdsaVerify(C, G, N, Q, B(e), B(r), B(s)) => << B(r), B(s) >> \in Sigs
Nonce == \A h \in {"SHA1", "SHA512"} :
            LET k == Rfc6979(h, B(d), N, SHA1(B(e)))[1] IN ~ BIsZero(k) /\ BLt(k, N)
=============================================================================
