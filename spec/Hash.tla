-------------------------------- MODULE Hash --------------------------------
(* The hash functions, evaluated by spec/java/Hash.java (the JDK, and RIPEMD *)
(* by hand, compared with published digests by BigSelf).                      *)
EXTENDS Big
SHA1(m) == CHOOSE d \in Seq(0..255) : Len(d) = 20
SHA224(m) == CHOOSE d \in Seq(0..255) : Len(d) = 28
SHA256(m) == CHOOSE d \in Seq(0..255) : Len(d) = 32
SHA384(m) == CHOOSE d \in Seq(0..255) : Len(d) = 48
SHA512(m) == CHOOSE d \in Seq(0..255) : Len(d) = 64
MD5(m) == CHOOSE d \in Seq(0..255) : Len(d) = 16
RIPEMD160(m) == CHOOSE d \in Seq(0..255) : Len(d) = 20

SHA256d(m) == SHA256(SHA256(m))
HASH160(m) == RIPEMD160(SHA256(m))
Digest(h, m) == CASE h = "SHA1" -> SHA1(m) [] h = "SHA224" -> SHA224(m) [] h = "SHA256" -> SHA256(m)
                  [] h = "SHA384" -> SHA384(m) [] h = "SHA512" -> SHA512(m) [] h = "MD5" -> MD5(m)

\* HMAC (RFC 2104); h names the hash function
HMAC(h, k, m) ==
  LET bs == IF h \in {"SHA384", "SHA512"} THEN 128 ELSE 64
      k0 == IF Len(k) > bs THEN Digest(h, k) ELSE k
      kk == [i \in 1..bs |-> IF i <= Len(k0) THEN k0[i] ELSE 0]
      ip == XorBytes(kk, [i \in 1..bs |-> 54])
      op == XorBytes(kk, [i \in 1..bs |-> 92])
  IN Digest(h, op \o Digest(h, ip \o m))
=============================================================================
