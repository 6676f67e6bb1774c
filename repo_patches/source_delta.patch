From 154df30957ad8c814b137496dd9066e2929928ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 01/55] fix: r of an ECDSA signature is reduced modulo the
 order

---
 nbc/util/ecdsa/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 8ed0247..13c7361 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -143,7 +143,7 @@ class Private_key( object ):
     n = G.order()
     k = random_k % n
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( hash + ( self.secret_multiplier * r ) % n ) ) % n
-- 
2.43.0


From 493845b4fa2f10b7d0270b73ed5dadb0956dc796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 02/55] fix: point coordinates are checked against the field,
 not the group order

---
 nbc/util/ecdsa/ecdsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 13c7361..79f2fc5 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -86,7 +86,8 @@ class Public_key( object ):
       raise RuntimeError("Generator point must have order.")
     if not n * point == ellipticcurve.INFINITY:
       raise RuntimeError("Generator point order is bad.")
-    if point.x() < 0 or n <= point.x() or point.y() < 0 or n <= point.y():
+    p = self.curve.p()
+    if point.x() < 0 or p <= point.x() or point.y() < 0 or p <= point.y():
       raise RuntimeError("Generator point has x or y out of range.")
 
 
@@ -194,7 +195,8 @@ def point_is_valid( generator, x, y ):
 
   n = generator.order()
   curve = generator.curve()
-  if x < 0 or n <= x or y < 0 or n <= y:
+  p = curve.p()
+  if x < 0 or p <= x or y < 0 or p <= y:
     return False
   if not curve.contains_point( x, y ):
     return False
-- 
2.43.0


From f964a85d9954307ebc70ed380876e7164151f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 03/55] fix: verifying a signature that leads to the point at
 infinity fails instead of crashing

---
 nbc/util/ecdsa/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 79f2fc5..f7d54de 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -108,6 +108,7 @@ class Public_key( object ):
     u1 = ( hash * c ) % n
     u2 = ( r * c ) % n
     xy = u1 * G + u2 * self.point
+    if xy == ellipticcurve.INFINITY: return False
     v = xy.x() % n
     return v == r
 
-- 
2.43.0


From 9d783a2e8d681f983cfa74c23c3e7a4016abaf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 04/55] fix: doubling a point of order two gives infinity

---
 nbc/util/ecdsa/ellipticcurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index ba83847..27df7c1 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -151,6 +151,8 @@ class Point( object ):
 
     if self == INFINITY:
       return INFINITY
+    if self.__y == 0:
+      return INFINITY
 
     # X9.62 B.3:
 
-- 
2.43.0


From b84bbf1cf91f14a585a9a177d8b2a0d27a061bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 05/55] fix: multiplying a point never yields a negative
 coordinate

---
 nbc/util/ecdsa/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index 27df7c1..c99850e 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -124,7 +124,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
-- 
2.43.0


From ad2c713989676d85d80b0887026eeb50c55a30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 06/55] fix: low-s signatures are decided with integers, not
 floats

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 5d2f373..e170f5d 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -201,17 +201,17 @@ def sigencode_der(r, s, order):
 # these enforce low S values, by negating the value (modulo the order) if above order/2
 # see CECKey::Sign() https://github.com/bitcoin/bitcoin/blob/master/src/key.cpp#L214
 def sigencode_strings_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_strings(r, s, order)
 
 def sigencode_string_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_string(r, s, order)
 
 def sigencode_der_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_der(r, s, order)
 
-- 
2.43.0


From ed8e6a1d60a0d18beb0a24b660b7bb76a44b88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 07/55] fix: RFC 6979 candidates consume exactly the blocks
 they need

---
 nbc/util/ecdsa/rfc6979.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/rfc6979.py b/nbc/util/ecdsa/rfc6979.py
index 377e877..384afc1 100644
--- a/nbc/util/ecdsa/rfc6979.py
+++ b/nbc/util/ecdsa/rfc6979.py
@@ -61,7 +61,7 @@ def generate_k(generator, secexp, hash_func, data):
 
     qlen = bit_length(generator.order())
     holen = hash_func().digest_size
-    rolen = (qlen + 7) / 8
+    rolen = (qlen + 7) // 8
     bx = number_to_string(secexp, generator.order()) + bits2octets(data, generator.order())
 
     # Step B
-- 
2.43.0


From 0f4ceecd4868c409d85f0b1576ab093fdae7f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 08/55] fix: multiplicative order of elements not smaller than
 the modulus

---
 nbc/util/ecdsa/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/numbertheory.py b/nbc/util/ecdsa/numbertheory.py
index f2be882..fd6372b 100644
--- a/nbc/util/ecdsa/numbertheory.py
+++ b/nbc/util/ecdsa/numbertheory.py
@@ -353,7 +353,7 @@ def order_mod( x, m ):
 
   assert gcd( x, m ) == 1
 
-  z = x
+  z = x % m
   result = 1
   while z != 1:
     z = ( z * x ) % m
-- 
2.43.0


From 95dad39a86c206b4381944f6d31f5a8566e5faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 09/55] fix: DER integers of 128 bytes and more get a long form
 length

---
 nbc/util/ecdsa/der.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index abcec34..927bbb1 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -17,12 +17,12 @@ def encode_integer(r):
     s = binascii.unhexlify(h)
     num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
     if num <= 0x7f:
-        return b("\x02") + int2byte(len(s)) + s
+        return b("\x02") + encode_length(len(s)) + s
     else:
         # DER integers are two's complement, so if the first byte is
         # 0x80-0xff then we need an extra 0x00 byte to prevent it from
         # looking negative.
-        return b("\x02") + int2byte(len(s)+1) + b("\x00") + s
+        return b("\x02") + encode_length(len(s)+1) + b("\x00") + s
 
 def encode_bitstring(s):
     return b("\x03") + encode_length(len(s)) + s
-- 
2.43.0


From f5be08533f3cacbd4bb92284447e186fa357dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 10/55] fix: truncated DER structures are refused

---
 nbc/util/ecdsa/der.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index 927bbb1..aff22ee 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -48,6 +48,11 @@ def encode_number(n):
     b128_digits[-1] &= 0x7f
     return b('').join([int2byte(d) for d in b128_digits])
 
+def check_length(string, end):
+    if end > len(string):
+        raise UnexpectedDER("truncated: %d bytes declared, got %d"
+                            % (end, len(string)))
+
 def remove_constructed(string):
     s0 = string[0] if isinstance(string[0], integer_types) else ord(string[0])
     if (s0 & 0xe0) != 0xa0:
@@ -55,6 +60,7 @@ def remove_constructed(string):
                             % s0)
     tag = s0 & 0x1f
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return tag, body, rest
@@ -65,6 +71,7 @@ def remove_sequence(string):
         raise UnexpectedDER("wanted sequence (0x30), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
     endseq = 1+lengthlength+length
+    check_length(string, endseq)
     return string[1+lengthlength:endseq], string[endseq:]
 
 def remove_octet_string(string):
@@ -72,6 +79,7 @@ def remove_octet_string(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted octetstring (0x04), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
@@ -81,6 +89,7 @@ def remove_object(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted object (0x06), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
+    check_length(string, 1+lengthlength+length)
     body = string[1+lengthlength:1+lengthlength+length]
     rest = string[1+lengthlength+length:]
     numbers = []
@@ -100,6 +109,7 @@ def remove_integer(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     nbytes = numberbytes[0] if isinstance(numberbytes[0], integer_types) else ord(numberbytes[0])
@@ -154,6 +164,7 @@ def remove_bitstring(string):
     if not string.startswith(b("\x03")):
         raise UnexpectedDER("wanted bitstring (0x03), got 0x%02x" % num)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
-- 
2.43.0


From e22f114c0962efe4da67933307616477746022ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 11/55] fix: truncating seeds to scalars works on bytes and
 masks the excess bits

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index e170f5d..ab4da7b 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -120,7 +120,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     if extrabits:
         bytes += 1
     base = hashmod(seed).digest()[:bytes]
-    base = "\x00"*(bytes-len(base)) + base
+    base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
@@ -131,10 +131,10 @@ def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     bits = int(math.log(order-1, 2)+1)
     maxbytes = (bits+7) // 8
     base = hashmod(seed).digest()[:maxbytes]
-    base = "\x00"*(maxbytes-len(base)) + base
+    base = b("\x00")*(maxbytes-len(base)) + base
     topbits = 8*maxbytes - bits
     if topbits:
-        base = int2byte(ord(base[0]) & lsb_of_ones(topbits)) + base[1:]
+        base = int2byte(ord(base[:1]) & lsb_of_ones(8-topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
-- 
2.43.0


From 5350d1e9e2e9fc281813021218d1b31a940e81c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 12/55] fix: comparing two outpoints of the same transaction
 does not crash

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..895d2ce 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -446,7 +446,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From c325e80203c1fe3bd0c054063ee9a64c44fc7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 13/55] fix: 64 bit variable length integers can be read

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 895d2ce..0585622 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From ef38a8dd57aa5363e6533e19cb0f99b3c5af0524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 14/55] fix: variable length integers always take their
 shortest form

---
 nbc/protocol/format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 0585622..8571a73 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
-- 
2.43.0


From 3dfa966f9d4f374094fd8ac67aa0928f227b238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 15/55] fix: variable length integers that cannot be serialised
 are refused

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 8571a73..1e99bd6 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -227,7 +227,7 @@ class FtNumber(FormatType):
 class FtVarInteger(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj, int):
+    if isinstance(obj, integer_types) and 0 <= obj < 0x10000000000000000:
       return obj
     return None
   
-- 
2.43.0


From 2303ee2678ffa37188256a9b384159ddfc1740f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 16/55] fix: byte strings of fixed length are not read from too
 short data

---
 nbc/protocol/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 1e99bd6..faaeaf2 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -339,7 +339,10 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
-    return (self._length, data[:self._length])
+    obj = data[:self._length]
+    if len(obj) != self._length:
+      raise ValueError('not enough data')
+    return (self._length, obj)
   
   def str(self, obj):
     return b'0x' + hexlify(obj)
-- 
2.43.0


From 1a1dc2634c7e9a598c596a27343975230241bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 17/55] fix: variable length strings are not read from too
 short data

---
 nbc/protocol/format.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index faaeaf2..7fe09a0 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -371,7 +371,9 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
-    return (vl + len(obj), obj)
+    if len(obj) != length:
+      raise ValueError('not enough data')
+    return (vl + length, obj)
   
   def str(self, obj):
     return repr(obj)
-- 
2.43.0


From 14edd4071cab3fb46f9a93d82aa8e5a9afade971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 18/55] fix: text that cannot be serialised is refused

---
 nbc/protocol/format.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 7fe09a0..a8ea84e 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -353,7 +353,13 @@ class FtBytes(FormatType):
 class FtVarString(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj,(bytes,str)):
+    if isinstance(obj,bytes):
+      return obj
+    if isinstance(obj,str):
+      try:
+        obj.encode('latin-1')
+      except UnicodeError:
+        return None
       return obj
     return None
   
-- 
2.43.0


From b3c215c76859968ffdf39b0e82c0dabce158707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 19/55] fix: message types marked not_regist are not registered

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index a8ea84e..0d1f4df 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -50,7 +50,7 @@ class _AutoRegister(type):
     
     for base in bases:
       if hasattr(base,'register'):
-        if hasattr(base,'not_regist') and not base.not_regist:
+        if not getattr(cls,'not_regist',False):
           base.register(cls)
         break
 
-- 
2.43.0


From 875fc07060b8fc886d05f23a943e58d058bd83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 20/55] fix: surplus arguments of messages are refused

---
 nbc/protocol/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 0d1f4df..4cafbde 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -61,6 +61,9 @@ class CompoundType(object):
   def __init__(self, *args, **kw):
     keys = [k for (k, t) in self.properties] # self.properties defines all args and kw
     
+    if len(args) > len(keys):
+      raise TypeError('takes at most %d arguments (%d given)' % (len(keys),len(args)))
+    
     # convert the positional arguments into kw
     params = dict(zip(keys,args))
     for k in kw:
-- 
2.43.0


From 84d66c32556b8af9e90cda77ec8ef7457ce8aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 21/55] fix: IPv6 addresses are accepted exactly when they have
 eight groups

---
 nbc/protocol/format.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 4cafbde..0aca3d0 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -7,6 +7,7 @@ from .. import util
 
 _ZERO_STR10  = b'\x00' * 10
 _IP_HEAD_STR = _ZERO_STR10 + b'\xff\xff'
+_HEX_DIGITS = frozenset('0123456789abcdefABCDEF')
 
 def ORD(ch):   # compatible to python3
   return ch if type(ch) == int else ord(ch)
@@ -277,30 +278,20 @@ class FtIPAddress(FormatType):
   
   @staticmethod
   def _ipv6_groups(obj):  # not support '::192.1.56.10/96'
-    # multiple double-colons or more than 8 groups; bad address
-    objs = obj.split(':')
-    if len(objs) < 2: return None
-    if objs[0] == '' and objs[1] == '':      # starts with ::
-      del objs[0]
-    elif objs[-1] == '' and objs[-2] == '':  # ends with ::
-      del objs[-1]
-    if objs.count('') > 1 or len(objs) > 8:
+    # a double-colon stands for one or more groups of zeros
+    (head, gap, tail) = obj.partition('::')
+    head = head.split(':') if head else []
+    tail = tail.split(':') if tail else []
+    missing = 8 - len(head) - len(tail)
+    if (missing < 1) if gap else (missing != 0):
       return None
     
-    # calculate each group's value
-    groups = []
-    for group in objs:
-      if group == '':
-        groups.extend([ 0 ] * (9 - len(objs)))
-      else:
-        groups.append(int(group,16))
-    
-    # is each group in the correct range?
-    for group in groups:
-      if not (0x0000 <= group <= 0xffff):
+    # every group has one to four hexadecimal digits
+    for group in head + tail:
+      if not (1 <= len(group) <= 4 and set(group) <= _HEX_DIGITS):
         return None
     
-    return groups
+    return [int(group,16) for group in head + ['0'] * missing + tail]
   
   @staticmethod
   def validate(obj):
-- 
2.43.0


From 53dad3d96e0dab9e0ed6dc6b64358206c0790eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 22/55] fix: signs, blanks and underscores are not part of IPv4
 addresses

---
 nbc/protocol/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 0aca3d0..6d90dca 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -7,6 +7,7 @@ from .. import util
 
 _ZERO_STR10  = b'\x00' * 10
 _IP_HEAD_STR = _ZERO_STR10 + b'\xff\xff'
+_IPV4_CHARS = frozenset('0123456789.')
 _HEX_DIGITS = frozenset('0123456789abcdefABCDEF')
 
 def ORD(ch):   # compatible to python3
@@ -263,6 +264,8 @@ class FtIPAddress(FormatType):
   @staticmethod
   def _ipv4_groups(obj):
     # convert each group to its value
+    if not set(obj) <= _IPV4_CHARS:
+      return None
     try:
       groups = [int(i) for i in obj.split('.')]
     except ValueError as e:
-- 
2.43.0


From 20939d7de129416c552be6abed48d7821e723e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 23/55] fix: hex conversions work on python 3

---
 nbc/util/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..8a2a958 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -21,6 +21,7 @@
 # THE SOFTWARE.
 
 
+import binascii
 import hashlib
 import json
 import math
@@ -96,11 +97,11 @@ def get_merkle_root(transactions):
 # Hexlify Helpers
 
 def hex_to_bin(data):
-    return data.decode('hex')[::-1]
+    return binascii.unhexlify(data)[::-1]
 
 
 def bin_to_hex(data):
-    return data[::-1].encode('hex')
+    return binascii.hexlify(data[::-1])
 
 
 # Protocl Version Helpers
-- 
2.43.0


From 0318c8e60eb6ceff32be33f44526b89b1461ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 24/55] fix: the target of compact bits is computed with
 integers and works on python 3

---
 nbc/util/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 8a2a958..cd79a10 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -73,8 +73,10 @@ def verify_target(coin, block_header):
     return pow <= get_target(block_header.bits)
 
 def get_target(bits):
-    target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
-    return ("%064x" % target).decode('hex')
+    target = bits & 0x7fffff
+    shift = 8 * ((bits >> 24) - 3)
+    target = (target << shift) if shift >= 0 else (target >> -shift)
+    return binascii.unhexlify(("%064x" % target).encode())
 
 
 DifficultyOneTarget = 26959535291011309493156476344723991336010898738574164086137773096960.0
-- 
2.43.0


From 3ca01aac9a07c8d0bc07c051320d9e56cb8ba597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 25/55] fix: getaddr is answered on python 3

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..4bd671e 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -326,11 +326,11 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
+    def lastSeen(address):
+      return self._addresses[address][0]
     
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=lastSeen,reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From 712cb4063c64a88949b5d4e5c01bd99327d43cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 26/55] fix: incoming connections are checked against the
 banned IP addresses

---
 nbc/node/basenode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 4bd671e..cb827ad 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,12 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    ip = address[0]
+    if ip in self._banned:
+      if time.time() - self._banned[ip] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[ip]      # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From 9486fe91ac831c314998f2c97963fca6547e18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 27/55] fix: the address book keeps at most MAX_ADDRESSES
 entries and still updates known ones when full

---
 nbc/node/basenode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index cb827ad..947e51e 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -343,8 +343,9 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
-      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
+      key = (address.address,address.port)
+      if key not in self._addresses and len(self._addresses) >= MAX_ADDRESSES: continue
+      self._addresses[key] = (address.timestamp,address.services)
 
 def startServer(node):
   ts = Thread(target=node.serve_forever)
-- 
2.43.0


From 71ca34bbf5c6139dbc97cad9415e447416282ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 28/55] fix: a known peer that acknowledges updates its entry
 of a full address book

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 947e51e..ed3bb51 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -323,7 +323,7 @@ class BaseNode(asyncore.dispatcher, object):
     peer.send_message(protocol.VersionAck())
   
   def command_version_ack(self, peer): # a peer acknowledged us, record address
-    if len(self._addresses) < MAX_ADDRESSES:
+    if peer.address in self._addresses or len(self._addresses) < MAX_ADDRESSES:
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-- 
2.43.0


From b1342078685a7ef00631b67d6dc52378f97b945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 29/55] fix: nodes can be bound to a random port

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index ed3bb51..609aa33 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -79,7 +79,7 @@ class BaseNode(asyncore.dispatcher, object):
       self.listen(5)
       
       if address[1] == 0: # if bound to a random port, keep track
-        self._address = self.getsockname()
+        self._address = self.socket.getsockname()
     except socket.error as e:  # port in use... Maybe already running
       if e.errno == 48:
         raise AddrInUseError()
-- 
2.43.0


From 936f973d01987918241e0a149cd91d8b45146535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 30/55] fix: the timestamp of a peer is the time it was last
 heard from

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..89d39ae 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -93,7 +93,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From 49467b111eacd92d666c3862749b82e01dd9d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 31/55] fix: comparing connections does not recurse for ever

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 89d39ae..62b2402 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -223,7 +223,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return self is other
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From e6349d0f4ae897a0218fbd3aeb5876c7b0ae2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 32/55] fix: a closed connection neither handles further
 messages nor asks to be written

---
 nbc/node/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 62b2402..7ce2c5e 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -181,6 +181,8 @@ class Connection(asyncore.dispatcher):
       self.close()
     except Exception as e:
       pass
+    self._send_buffer = b''  # nothing more to send to it
+    self._recv_buffer = b''  # and nothing more to handle from it
     self.node.disconnected(self)
   
   def handle_message(self, message):
-- 
2.43.0


From aa45d3151e58107c1ca4989e53ee1e877a153e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 33/55] fix: messages with lists of hashes can be logged on
 python 3

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 6d90dca..548bcad 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -342,7 +342,7 @@ class FtBytes(FormatType):
     return (self._length, obj)
   
   def str(self, obj):
-    return b'0x' + hexlify(obj)
+    return '0x' + hexlify(obj).decode('latin-1')
   
   def __str__(self):
     return '<FtBytes length=%d>' % self._length
-- 
2.43.0


From 5d90c0c456b828e29cf682ddbf02b6cf467d848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 34/55] fix: alerts with sub versions can be logged on python 3

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 1bda2e1..4e7c31f 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -408,7 +408,7 @@ class Alert(Message):
     return util.ecc.verify(self.payload, public_key, self.signature)
   
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(str(v) for v in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
   
   def _debug(self):
     return _debug(self, [('s', self.status_bar)])
-- 
2.43.0


From 7e727da3521297e8663e2eaf41aee02c19c6c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 35/55] fix: nodes serve without a port mapping where miniupnpc
 is not available

---
 nbc/node/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 5388a01..c85d47a 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -18,9 +18,9 @@ def _init_upnp():
   global _upnp
   if _upnp: return _upnp
   
-  u = miniupnpc.UPnP()
-  u.discoverdelay = 200
   try:
+    u = miniupnpc.UPnP()
+    u.discoverdelay = 200
     print('discovering... delay = %ums' % u.discoverdelay)
     devices = u.discover()
     print('%u device(s) detected' % devices)
-- 
2.43.0


From 546ada97bf5ea645653e048a454fd804951ae0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 36/55] fix: AES with 256 bit keys on python 3

---
 nbc/util/pyaes/aes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 1b062ad..5afbaea 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -158,16 +158,16 @@ class AES(object):
 
             # Key expansion for 256-bit keys is "slightly different" (fips-197)
             else:
-                for i in xrange(1, KC / 2):
+                for i in xrange(1, KC // 2):
                     tk[i] ^= tk[i - 1]
-                tt = tk[KC / 2 - 1]
+                tt = tk[KC // 2 - 1]
 
-                tk[KC / 2] ^= (self.S[ tt        & 0xFF]        ^
+                tk[KC // 2] ^= (self.S[ tt        & 0xFF]        ^
                               (self.S[(tt >>  8) & 0xFF] <<  8) ^
                               (self.S[(tt >> 16) & 0xFF] << 16) ^
                               (self.S[(tt >> 24) & 0xFF] << 24))
 
-                for i in xrange(KC / 2 + 1, KC):
+                for i in xrange(KC // 2 + 1, KC):
                     tk[i] ^= tk[i-1]
 
             # Copy values into round key arrays
-- 
2.43.0


From 7a5cdc953db88e7a0f88762e35a2929d27588e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 37/55] fix: block feeders work on python 3

---
 nbc/util/pyaes/blockfeeder.py | 4 ++--
 nbc/util/pyaes/util.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/pyaes/blockfeeder.py b/nbc/util/pyaes/blockfeeder.py
index c0ec3ab..cc487df 100644
--- a/nbc/util/pyaes/blockfeeder.py
+++ b/nbc/util/pyaes/blockfeeder.py
@@ -111,7 +111,7 @@ class BlockFeeder(object):
         self._mode = mode
         self._feed = feed
         self._final = final
-        self._buffer = ""
+        self._buffer = b""
 
     def feed(self, data = None):
         '''Provide bytes to encrypt (or decrypt), returning any bytes
@@ -133,7 +133,7 @@ class BlockFeeder(object):
         self._buffer += data
 
         # We keep 16 bytes around so we can determine padding
-        result = ''
+        result = b''
         while len(self._buffer) > 16:
             can_consume = self._mode._can_consume(len(self._buffer) - 16)
             if can_consume == 0: break
diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 5c7c140..ed655e3 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -31,7 +31,7 @@ def strip_PKCS7_padding(data):
     if len(data) % 16 != 0:
         raise ValueError("invalid length")
 
-    pad = ord(data[-1])
+    pad = ord(data[-1:])
 
     if pad > 16:
         raise ValueError("invalid padding byte")
-- 
2.43.0


From 36bcd41930f2f6215d0e7a6c26d6f65dcf42a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 38/55] fix: removing PKCS7 padding checks all padding bytes

---
 nbc/util/pyaes/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index ed655e3..efea62d 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -33,7 +33,7 @@ def strip_PKCS7_padding(data):
 
     pad = ord(data[-1:])
 
-    if pad > 16:
+    if pad < 1 or pad > 16 or data[-pad:] != pad * CHR(pad):
         raise ValueError("invalid padding byte")
 
     return data[:-pad]
-- 
2.43.0


From 43334f0af5f773ff78758b7360c3b92266e76209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 39/55] fix: private keys in import format with a wrong
 checksum are refused as such

---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 4fc05f7..95589fd 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -83,6 +83,8 @@ def privkey_to_wif(privkey, prefix = b'\x80'):
 # See: https://en.bitcoin.it/wiki/Wallet_import_format
 def privkey_from_wif(privkey, prefix = b'\x80'):
     key = base58.decode_check(privkey)
+    if not key:
+        raise ValueError('invalid wif private key')
     if ORD(prefix) != ORD(key[0]):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
-- 
2.43.0


From 5363819b1d1a20765fa508d963daf9d7df582eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 40/55] fix: decompressing a point respects the parity of y

---
 nbc/wallet/hdwallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..0da3319 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,13 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
   
   x = string_to_number(data[1:])
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (y & 1) != (ch & 1):
+    y = curve.p() - y
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From ed78d369eb8c22de8fb5ae7439fc01398a522333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 41/55] fix: importing extended keys

---
 nbc/wallet/hdwallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 0da3319..564c410 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -194,9 +194,9 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):
+    decoded = base58.b58decode(extended_key)
+    assert(len(decoded) == 78+4)
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -221,7 +221,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From cf786c8e0661bcb9c56fe1e086ed4daf16c3e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 42/55] fix: child wallets keep the chain number

---
 nbc/wallet/hdwallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 564c410..1b23199 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -114,7 +114,7 @@ class HDWallet(object):
       
       childKey = childPubkey
     
-    return self.__class__(childKey, childChain, 
+    return self.__class__(childKey, childChain, vcn=self.vcn,
       testnet=self._testnet,
       depth=self._depth + 1,
       parentfp=self.fingerprint(),
-- 
2.43.0


From 848e273f6316082a5607560a413e751921411118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 43/55] fix: watch-only compressed wallets stay compressed when
 saved

---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..0d94050 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -187,7 +187,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
     return cfg
   
   @classmethod
-- 
2.43.0


From c6d5ba72fcd6195de06ee6b5c95a9bd738f49ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 44/55] fix: saving a wallet replaces the file only when the
 new one is complete

---
 nbc/wallet/__init__.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 8a72ac8..4ab4c80 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,5 +1,5 @@
 
-import json
+import json, os, shutil
 from .address import Address
 from .hdwallet import HDWallet
 
@@ -8,8 +8,20 @@ __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
-  with open(fileName,'w') as f:
-    f.write(sCfg)
+  fileName = os.path.realpath(fileName)
+  tmpName = fileName + '.tmp'
+  try:
+    with open(tmpName,'w') as f:
+      f.write(sCfg)
+      f.flush()
+      os.fsync(f.fileno())
+    if os.path.exists(fileName):
+      shutil.copymode(fileName,tmpName)
+    os.rename(tmpName,fileName)
+  except:
+    if os.path.exists(tmpName):
+      os.remove(tmpName)
+    raise
 
 def loadFrom(fileName, passphrase=''):
   with open(fileName,'r') as f:
-- 
2.43.0


From 104560e078562c475cdd0bf5063df390d79b435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 45/55] fix: a wrong passphrase or damage never loads another
 hierarchical key

---
 nbc/wallet/hdwallet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 1b23199..fd7ac47 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -244,6 +244,7 @@ class HDWallet(object):
       'depth': self._depth,
       'parentfp': hexlify(self.parentfp()).decode('latin-1'),
       'childnum': self._childnum,
+      'fingerprint': hexlify(self.fingerprint()).decode('latin-1'),
     }
     
     if self._prvkey:   # int or long, can not be 0
@@ -281,9 +282,14 @@ class HDWallet(object):
     elif pubKey:
       pubKey = point_decompress(curve.curve,unhexlify(pubKey))
     
-    return HDWallet( prvKey or pubKey, unhexlify(cfg['chain']), vcn=cfg['vcn'],
+    wallet = HDWallet( prvKey or pubKey, unhexlify(cfg['chain']), vcn=cfg['vcn'],
       testnet=cfg['testnet'], depth=cfg['depth'],
       childnum=cfg['childnum'], parentfp=unhexlify(cfg['parentfp']) )
+    
+    # files of earlier versions have no fingerprint
+    if 'fingerprint' in cfg and unhexlify(cfg['fingerprint']) != wallet.fingerprint():
+      raise ValueError('invalid private key')
+    return wallet
   
   def __str__(self):
     privateKey = 'None'
-- 
2.43.0


From 46fb59b7b58f63a121345c0f123d68eab3f238f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 46/55] fix: the address of a piecewise key is that of the
 combined key

---
 nbc/util/piecewise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 1d9ec86..c2c531e 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -58,11 +58,11 @@ __all__ = ['get_address', 'combine_private_keys']
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
-def get_address(public_key, private_key, version = b'\x00'):
+def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
-    if len(public_key) != 65 or public_key[0] != b'\x04':
+    if len(public_key) != 65 or public_key[0:1] != b'\x04':
         raise ValueError('public key must be decompressed')
 
     # the public key's elliptic curve point
@@ -81,10 +81,10 @@ def get_address(public_key, private_key, version = b'\x00'):
     # compute the new public key
     x = number_to_string(combined.x(), curve.order)
     y = number_to_string(combined.y(), curve.order)
-    key_combined = b'\x00' + x + y
+    key_combined = b'\x04' + x + y
 
     # return the public key's address
-    return publickey_to_address(key_combined, version = version)
+    return publickey_to_address(key_combined, vcn, version = version)
 
 
 def combine_private_keys(private_keys):
-- 
2.43.0


From 7451e3ae61c48f3c53397c9598fdbcda3403eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 47/55] fix: splitting private keys works on python 3

---
 nbc/util/piecewise.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index c2c531e..7cc7626 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -45,6 +45,11 @@
 
 import base64
 
+try:
+    xrange
+except NameError:
+    xrange = range
+
 from .base58 import decode_check, encode_check
 from .hash import sha256d
 from .ecdsa import SECP256k1 as curve
@@ -58,6 +63,9 @@ __all__ = ['get_address', 'combine_private_keys']
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
+def ORD(ch):  # compatible to python3
+  return ch if type(ch) == int else ord(ch)
+
 def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     'Returns the address generated by combiningn a public key and private key.'
 
@@ -233,11 +241,11 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
 
         # ...convert private keys to binary form
         private_key = decode_check(key)
-        if not private_key.startswith('\x10\x01'):
+        if not private_key.startswith(b'\x10\x01'):
             raise ValueError('invalid combined key: %s' % key)
 
         # ...verify the required number of keys
-        r = ord(private_key[3])
+        r = ORD(private_key[3])
         if required is None:
             required = r
         elif required != r:
@@ -255,7 +263,7 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
             raise ValueError('key checksum does not match set: %s' % key)
 
         # ...add this key to the correct key-set
-        index = ord(private_key[2])
+        index = ORD(private_key[2])
         if index not in parts: parts[index] = set()
         parts[index].add(private_key[8:])
 
-- 
2.43.0


From fe61eeae406b3b50e315f3a22eac68160ca13c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 48/55] fix: compact text form of split keys on python 3

---
 nbc/util/piecewise.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 7cc7626..b911506 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -288,12 +288,12 @@ def partial_split_qr_encode(private_keys):
     binary = []
 
     for private_key in map(decode_check, private_keys):
-        if private_key[0:2] != '\x10\x01':
+        if private_key[0:2] != b'\x10\x01':
             raise ValueError('invalid combined key')
 
         if required is None:
-            required = ord(private_key[3])
-        elif ord(private_key[3]) != required:
+            required = ORD(private_key[3])
+        elif ORD(private_key[3]) != required:
             raise ValueError('unmatched private keys')
 
         if checksum is None:
@@ -301,7 +301,7 @@ def partial_split_qr_encode(private_keys):
         elif private_key[4:8] != checksum:
             raise ValueError('unmatched private keys')
 
-        binary.append((ord(private_key[2]), private_key[8:]))
+        binary.append((ORD(private_key[2]), private_key[8:]))
 
     binary.sort()
     missing = len(binary)
@@ -313,7 +313,7 @@ def partial_split_qr_encode(private_keys):
     for private_key in binary:
         qr += private_key[1]
 
-    return base64.b32encode(qr).strip('=')
+    return base64.b32encode(qr).decode('ascii').strip('=')
 
 def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
@@ -323,13 +323,13 @@ def partial_split_qr_decode(qr_code):
     binary = base64.b32decode(qr_code + ('=' * padding))
 
     # check the header
-    if not binary.startswith('\x84\x7c\x20'):
+    if not binary.startswith(b'\x84\x7c\x20'):
         raise ValueError('invalid header')
 
     # the missing index for this set
-    missing = ord(binary[3])
+    missing = ORD(binary[3])
 
-    required = ord(binary[4])
+    required = ORD(binary[4])
     checksum = binary[5:9]
 
     # extract each binary key and recompose the key
-- 
2.43.0


From 8c3934fcba9019ce848e5f2cdabfd0a65c7a651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 49/55] fix: padding of the compact text form of split keys

---
 nbc/util/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index b911506..0b2586d 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -319,7 +319,7 @@ def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
 
     # calculate padding that would have been stripped
-    padding = (len(qr_code) * 5 - 9 * 8) % 32
+    padding = -len(qr_code) % 8
     binary = base64.b32decode(qr_code + ('=' * padding))
 
     # check the header
-- 
2.43.0


From 5297a03659c4fe204652a3ea0533b391f710a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 50/55] fix: block height sources can lead through lists

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index cd79a10..1a1e78c 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -149,7 +149,7 @@ def fetch_url_json_path_int(url, path):
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0


From fa2de75894fe62a8113c0275e7d0486f9b115f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 51/55] fix: remove the port mapping that was made, and make
 none without a free port

---
 nbc/node/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index c85d47a..8b9e264 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -13,6 +13,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
+_mapped = dict()  # (port,proto) to external port of the mapping we made
 
 def _init_upnp():
   global _upnp
@@ -43,11 +44,12 @@ def add_portmap(port, proto, label=''):
     # find a free port for the redirection
     eport = port
     r = u.getspecificportmapping(eport,proto)
-    while r != None and eport < 65536:
+    while r != None and eport < 65535:
       eport = eport + 1
       r = u.getspecificportmapping(eport,proto)
-    b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
+    b = r == None and u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
+      _mapped[(port,proto)] = eport
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -56,9 +58,10 @@ def add_portmap(port, proto, label=''):
     print('!! meet Exception: %s' % e)
 
 def remove_portmap(port, proto):
-  if not _upnp: return
+  eport = _mapped.pop((port,proto),None)
+  if eport is None: return  # no mapping of ours
   try:
-    b = _upnp.deleteportmapping(port,proto)
+    b = _upnp.deleteportmapping(eport,proto)
     if b:
       print('successfully deleted port mapping')
     else:
-- 
2.43.0


From b1ee8ae2b7af33e0b2373c5b6ddb143a2dda7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 52/55] fix: report an address in use as AddrInUseError on
 every platform

---
 nbc/node/basenode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 609aa33..2721304 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, asyncore, socket, random
+import sys, time, asyncore, socket, random, errno
 from threading import Event, Thread
 
 from six import print_
@@ -81,7 +81,7 @@ class BaseNode(asyncore.dispatcher, object):
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.socket.getsockname()
     except socket.error as e:  # port in use... Maybe already running
-      if e.errno == 48:
+      if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
   
-- 
2.43.0


From 3328ae97f4a0b889ec93e2359268f06409f7f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:45 +0000
Subject: [PATCH 53/55] fix: messages: logging an alert does not fail on a
 payload that cannot be read

At the log levels that show messages, an alert whose payload could not be
parsed raised from the logging call, so that the alert was reported as an
invalid message or skipped instead of being handed to command_alert.
---
 nbc/protocol/messages.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 4e7c31f..e151247 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -407,8 +407,15 @@ class Alert(Message):
   def verify(self, public_key):
     return util.ecc.verify(self.payload, public_key, self.signature)
   
+  # the payload comes from the network, it can be anything
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(str(v) for v in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    try:
+      return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(str(v) for v in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    except Exception as e:
+      return '<message.Alert payload=%r signature=%r>' % (self.payload, self.signature)
   
   def _debug(self):
-    return _debug(self, [('s', self.status_bar)])
+    try:
+      return _debug(self, [('s', self.status_bar)])
+    except Exception as e:
+      return _debug(self, [('p', self.payload)])
-- 
2.43.0


From 656752ac1d92b801c00cd7c07bf618b5770847d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:49 +0000
Subject: [PATCH 54/55] fix: a point was accepted with any order, its order was
 checked by multiplying with it modulo itself

---
 nbc/util/ecdsa/ellipticcurve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index c99850e..57c1d3c 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -71,7 +71,8 @@ class Point( object ):
     self.__order = order
     # self.curve is allowed to be None only for INFINITY:
     if self.__curve: assert self.__curve.contains_point( x, y )
-    if order: assert self * order == INFINITY
+    # multiplying self would reduce the order by itself and prove nothing:
+    if self.__curve and order: assert Point( curve, x, y ) * order == INFINITY
 
   def __eq__( self, other ):
     """Return True if the points are identical, False otherwise."""
@@ -124,7 +125,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p() )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
-- 
2.43.0


From 7b389b9fafca17c814de866365eec9e3f1cafa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:10 +0000
Subject: [PATCH 55/55] fix: keys exported under another version byte could not
 be imported

---
 nbc/util/key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 95589fd..e7eb7b8 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -89,14 +89,14 @@ def privkey_from_wif(privkey, prefix = b'\x80'):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
         ch = ORD(privkey[0])
-        if ch != 53:  # 53 is '5'
+        if ORD(prefix) == 0x80 and ch != 53:  # 53 is '5'
             raise ValueError('uncompressed wif private key does not begin with 5')
         return key[1:]
     elif len(key) == 34:
         if ORD(key[-1]) != 1:  # not 0x01
             raise ValueError('compressed wif private key missing compression bit')
         ch = ORD(privkey[0])
-        if ch != 76 and ch != 75:  # 76 is 'L', 75 is 'K'
+        if ORD(prefix) == 0x80 and ch != 76 and ch != 75:  # 76 is 'L', 75 is 'K'
             raise ValueError('uncompressed wif private key does not begin with 5')
         return key[1:-1]
     raise ValueError('invalid wif private key')
-- 
2.43.0

