----------------------------- MODULE WalletModel -----------------------------
(* A hierarchical wallet and its public half going down a tree side by side,  *)
(* being written as extended keys and as a file field and read back: the two  *)
(* halves stay the halves of one wallet, texts stand for what they were made  *)
(* of.  Also: base 58 is a bijection, key texts read back, ECDH agrees, and   *)
(* published vectors (BIP-32) come out.                                       *)
EXTENDS Wallet, TLC
CONSTANTS MaxDepth, MaxText
VARIABLES part, it, sec, pub, path, go
vars == << part, it, sec, pub, path, go >>
None == << >>
Seed1 == [i \in 1..16 |-> i - 1]
Nums == { << 0, 0, 0, 0 >>, << 0, 0, 0, 1 >>, << 127, 255, 255, 255 >>, << 128, 0, 0, 0 >>, << 255, 255, 255, 255 >> }
Keys == { B32(<< 1 >>), B32(<< 2 >>), B32(BSub(SN, << 1 >>)), B32(<< 153 >>), B32(<< 1, 0, 0, 0, 0, 0 >>) }
Byte == {0, 1, 57, 58, 255}
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN {<< >>} ELSE {<< >>} \cup {<< a >> \o s : a \in A, s \in Strings(A, n - 1)}
Chars == {49, 50, 57, 65, 97, 122}
Init ==
  /\ go = FALSE
  /\ \/ part = "tree" /\ it \in {0, 1} /\ sec = Master(Seed1, 7, it) /\ pub = Public(sec) /\ path = << >>
     \/ part = "bytes" /\ it \in Strings(Byte, MaxText) /\ sec = None /\ pub = None /\ path = << >>
     \/ part = "texts" /\ it \in Strings(Chars, MaxText) /\ sec = None /\ pub = None /\ path = << >>
     \/ part = "key" /\ it \in Keys \X Keys /\ sec = None /\ pub = None /\ path = << >>
     \/ part = "field" /\ it \in Keys \X {0, 1, 15, 16, 17} /\ sec = None /\ pub = None /\ path = << >>
     \/ part = "vector" /\ it = 0 /\ sec = None /\ pub = None /\ path = << >>
Step == /\ part = "tree" /\ Len(path) < MaxDepth
        /\ \E n \in Nums :
             /\ CanDerive(sec, n)
             /\ sec' = Child(sec, n)
             \* what the public half cannot do it gets from the private one
             /\ pub' = IF CanDerive(pub, n) THEN Child(pub, n) ELSE Public(Child(sec, n))
             /\ path' = Append(path, n)
        /\ UNCHANGED << part, it, go >>
Next == (~ go /\ go' = TRUE /\ UNCHANGED << part, it, sec, pub, path >>) \/ (go /\ Step)
Spec == Init /\ [][Next]_vars

Halves == go /\ part = "tree" =>
  /\ pub = Public(sec) /\ sec.P = PubOf(sec.d) /\ ECOn(SC, sec.P) /\ InRange(sec.d)
  /\ sec.depth = Len(path) /\ (path # << >> => sec.num = path[Len(path)])
  /\ ~ (\E n \in Nums : Hardened(n) /\ CanDerive(pub, n))
Exported == go /\ part = "tree" =>
  /\ XRead(XText(sec, TRUE), sec.vcn) = << "ok", sec >>
  /\ XRead(XText(sec, FALSE), sec.vcn) = << "ok", pub >>
  /\ Len(XText(sec, TRUE)) = 111 /\ Len(XText(sec, FALSE)) = 111
  /\ XText(sec, FALSE) = XText(pub, FALSE)
Bijection == go =>
  /\ part = "bytes" => B58Dec(B58Enc(it)) = it /\ B58Valid(B58Enc(it)) /\ B58Read(B58Check(it)) = << TRUE, it >>
  /\ part = "texts" => B58Enc(B58Dec(it)) = it
KeyTexts == go /\ part = "key" =>
  LET d == it[1]
      e == it[2]
      P == PubOf(d)
      Q == PubOf(e)
  IN /\ \A c \in BOOLEAN : WifRead(Wif(d, c)) = << TRUE, d, c >>
     /\ PubRead(Full(P)) = P /\ PubRead(Comp(P)) = P
     /\ ECMul(SC, BNorm(d), Q) = ECMul(SC, BNorm(e), P)
     /\ Addr(Full(P), 7, 0) # Addr(Full(P), 7, 1) /\ (d # e => Addr(Full(P), 7, 0) # Addr(Full(Q), 7, 0))
     /\ EcdsaVerify(SC, SG, SN, P, << 5 >>, ECMul(SC, << 3 >>, SG)[1],
                    BMulMod(BInvMod(<< 3 >>, SN), BAddMod(<< 5 >>, BMulMod(ECMul(SC, << 3 >>, SG)[1], BNorm(d), SN), SN), SN))
\* a file field under a passphrase gives back the key under that passphrase only
Pass(n) == [i \in 1..n |-> 96 + i]
Opened(f, pw) == CbcD(Schedule(PassKey(pw)), Zero16, f)
Field == go /\ part = "field" =>
  LET pw == Pass(it[2])
      f == FileKey(it[1], pw)
  IN IF pw = << >> THEN f = LenKey(it[1])
     ELSE /\ Len(f) % 16 = 0 /\ SubSeq(Opened(f, pw), 1, 34) = LenKey(it[1])
          /\ SubSeq(Opened(f, << 1 >> \o pw), 1, 34) # LenKey(it[1])
          /\ (it[2] >= 16 => SamePass(pw, Append(pw, 9))) /\ (it[2] < 16 => ~ SamePass(pw, Append(pw, 9)))
\* BIP-32, first vector
Vectors == go /\ part = "vector" =>
  LET m == Master(Seed1, 0, 0)
      c == Child(m, << 128, 0, 0, 0 >>)
      d == Child(c, << 0, 0, 0, 1 >>)
  IN /\ XText(m, TRUE) = << 120, 112, 114, 118, 57, 115, 50, 49, 90, 114, 81, 72, 49, 52, 51, 75, 51, 81, 84, 68, 76, 52, 76, 88, 119, 50, 70, 55, 72, 69, 75, 51, 119, 74, 85, 68, 50, 110, 87, 50, 110, 82, 107, 52, 115, 116, 98, 80, 121, 54, 99, 113, 51, 106, 80, 80, 113, 106, 105, 67, 104, 107, 86, 118, 118, 78, 75, 109, 80, 71, 74, 120, 87, 85, 116, 103, 54, 76, 110, 70, 53, 107, 101, 106, 77, 82, 78, 78, 85, 51, 84, 71, 116, 82, 66, 101, 74, 103, 107, 51, 51, 121, 117, 71, 66, 120, 114, 77, 80, 72, 105 >>
     /\ XText(m, FALSE) = << 120, 112, 117, 98, 54, 54, 49, 77, 121, 77, 119, 65, 113, 82, 98, 99, 70, 116, 88, 103, 83, 53, 115, 89, 74, 65, 66, 113, 113, 71, 57, 89, 76, 109, 67, 52, 81, 49, 82, 100, 97, 112, 57, 103, 83, 69, 56, 78, 113, 116, 119, 121, 98, 71, 104, 101, 80, 89, 50, 103, 90, 50, 57, 69, 83, 70, 106, 113, 74, 111, 67, 117, 49, 82, 117, 112, 106, 101, 56, 89, 116, 71, 113, 115, 101, 102, 68, 50, 54, 53, 84, 77, 103, 55, 117, 115, 85, 68, 70, 100, 112, 54, 87, 49, 69, 71, 77, 99, 101, 116, 56 >>
     /\ XText(c, TRUE) = << 120, 112, 114, 118, 57, 117, 72, 82, 90, 90, 104, 107, 54, 75, 65, 74, 67, 49, 97, 118, 88, 112, 68, 65, 112, 52, 77, 68, 99, 51, 115, 81, 75, 78, 120, 68, 105, 80, 118, 118, 107, 88, 56, 66, 114, 53, 110, 103, 76, 78, 118, 49, 84, 120, 118, 85, 120, 116, 52, 99, 86, 49, 114, 71, 76, 53, 104, 106, 54, 75, 67, 101, 115, 110, 68, 89, 85, 104, 100, 55, 111, 87, 103, 84, 49, 49, 101, 90, 71, 55, 88, 110, 120, 72, 114, 110, 89, 101, 83, 118, 107, 122, 89, 55, 100, 50, 98, 104, 107, 74, 55 >>
     /\ XText(c, FALSE) = << 120, 112, 117, 98, 54, 56, 71, 109, 121, 53, 69, 100, 118, 103, 105, 98, 81, 86, 102, 80, 100, 113, 107, 66, 66, 67, 72, 120, 65, 53, 104, 116, 105, 113, 103, 53, 53, 99, 114, 88, 89, 117, 88, 111, 81, 82, 75, 102, 68, 66, 70, 65, 49, 87, 69, 106, 87, 103, 80, 54, 76, 72, 104, 119, 66, 90, 101, 78, 75, 49, 86, 84, 115, 102, 84, 70, 85, 72, 67, 100, 114, 102, 112, 49, 98, 103, 119, 81, 57, 120, 118, 53, 115, 107, 105, 56, 80, 88, 57, 114, 76, 50, 100, 90, 88, 118, 103, 71, 68, 110, 119 >>
     /\ XText(d, FALSE) = << 120, 112, 117, 98, 54, 65, 83, 117, 65, 114, 110, 88, 75, 80, 98, 102, 69, 119, 104, 113, 78, 54, 101, 51, 109, 119, 66, 99, 68, 84, 103, 122, 105, 115, 81, 78, 49, 119, 88, 78, 57, 66, 74, 99, 77, 52, 55, 115, 83, 105, 107, 72, 106, 74, 102, 51, 85, 70, 72, 75, 107, 78, 65, 87, 98, 87, 77, 105, 71, 106, 55, 87, 102, 53, 117, 77, 97, 115, 104, 55, 83, 121, 89, 113, 53, 50, 55, 72, 113, 99, 107, 50, 65, 120, 89, 121, 115, 65, 65, 55, 120, 109, 65, 76, 112, 112, 117, 67, 107, 119, 81 >>
=============================================================================
