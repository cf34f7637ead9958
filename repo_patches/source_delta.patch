From 6981f8dc665bbcefd2eaa0229afb60a40233d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 01/47] fix: decode 9-byte variable-length integers, encode
 boundary values in shortest form, reject unencodable ones

---
 nbc/protocol/format.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..cc9ab2b 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -227,7 +227,7 @@ class FtNumber(FormatType):
 class FtVarInteger(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj, int):
+    if isinstance(obj, integer_types) and 0 <= obj <= 0xffffffffffffffff:
       return obj
     return None
   
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From 727cbdaf2629b0e6ace38e1bb05d32b04bd7e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 02/47] fix: reject truncated fixed-size and variable-length
 strings instead of returning short values

---
 nbc/protocol/format.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index cc9ab2b..2ed81c4 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -339,6 +339,8 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
+    if len(data) < self._length:
+      raise ValueError('truncated data')
     return (self._length, data[:self._length])
   
   def str(self, obj):
@@ -368,7 +370,9 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
-    return (vl + len(obj), obj)
+    if len(obj) != length:
+      raise ValueError('truncated data')
+    return (vl + length, obj)
   
   def str(self, obj):
     return repr(obj)
-- 
2.43.0


From 0656519621c4d0aa9912c1164e9d9011970758ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 03/47] fix: enforce the declared array length limits when
 parsing

---
 nbc/protocol/format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 2ed81c4..e33d438 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -401,6 +401,11 @@ class FtArray(FormatType):
              b''.join(self._child_type.binary(o) for o in obj))
   
   def parse(self, data):
+    (vl, count) = FtVarInteger.parse(data)
+    if self._min_length and count < self._min_length:
+      raise ValueError('too few items')
+    if self._max_length and count > self._max_length:
+      raise ValueError('too many items')
     return parse_var_set(data, self._child_type)
   
   def str(self, obj):
-- 
2.43.0


From 8af9b639d7587e88cb9124758a27bc05b445aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 04/47] fix: IPv6 validation: require eight groups, accept
 '::', reject non-hex groups instead of raising

---
 nbc/protocol/format.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index e33d438..f476f0b 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -276,10 +276,12 @@ class FtIPAddress(FormatType):
   def _ipv6_groups(obj):  # not support '::192.1.56.10/96'
     # multiple double-colons or more than 8 groups; bad address
     objs = obj.split(':')
-    if len(objs) < 2: return None
-    if objs[0] == '' and objs[1] == '':      # starts with ::
+    if len(objs) < 3: return None
+    if objs[0] == '':                        # starts with ::
+      if objs[1] != '': return None
       del objs[0]
-    elif objs[-1] == '' and objs[-2] == '':  # ends with ::
+    if objs[-1] == '':                       # ends with ::
+      if objs[-2] != '': return None
       del objs[-1]
     if objs.count('') > 1 or len(objs) > 8:
       return None
@@ -290,7 +292,12 @@ class FtIPAddress(FormatType):
       if group == '':
         groups.extend([ 0 ] * (9 - len(objs)))
       else:
-        groups.append(int(group,16))
+        try:
+          groups.append(int(group,16))
+        except ValueError as e:
+          return None
+    if len(groups) != 8:
+      return None
     
     # is each group in the correct range?
     for group in groups:
-- 
2.43.0


From 370e8eed22f9d518f4b0d49c7962b406c1166c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 05/47] fix: OutPoint equality raised NameError

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index f476f0b..496228f 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -462,7 +462,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From 746a296799b65d89980274e0358029c7cd56c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 06/47] fix: reject text that a variable-length string cannot
 encode

---
 nbc/protocol/format.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 496228f..e7c301d 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -359,7 +359,13 @@ class FtBytes(FormatType):
 class FtVarString(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj,(bytes,str)):
+    if isinstance(obj,bytes):
+      return obj
+    if isinstance(obj,str):
+      try:
+        obj.encode('latin-1')
+      except UnicodeError:   # can not be serialized
+        return None
       return obj
     return None
   
-- 
2.43.0


From 75fd62a9d72a89514a94d5cc84b533263d7bd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 07/47] fix: messages marked not_regist were registered;
 FilterAdd was named FilterLoad

---
 nbc/protocol/format.py   | 2 +-
 nbc/protocol/messages.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index e7c301d..25bdca5 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -50,7 +50,7 @@ class _AutoRegister(type):
     
     for base in bases:
       if hasattr(base,'register'):
-        if hasattr(base,'not_regist') and not base.not_regist:
+        if hasattr(base,'not_regist') and not cls.not_regist:
           base.register(cls)
         break
 
diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 1bda2e1..d2f298a 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -280,7 +280,7 @@ class FilterLoad(Message):
     ('n_flags', format.FtNumber('B')),
   ]
 
-class FilterLoad(Message):
+class FilterAdd(Message):
   command = 'filteradd'
   name = "filter_add"
   
-- 
2.43.0


From e3def9e41d40a57fbeb06d72c792366e576c5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 08/47] fix: describing messages with byte fields raised
 TypeError on python3

---
 nbc/protocol/format.py   | 2 +-
 nbc/protocol/messages.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 25bdca5..bd6d47e 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -351,7 +351,7 @@ class FtBytes(FormatType):
     return (self._length, data[:self._length])
   
   def str(self, obj):
-    return b'0x' + hexlify(obj)
+    return '0x' + hexlify(obj).decode('latin-1')
   
   def __str__(self):
     return '<FtBytes length=%d>' % self._length
diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index d2f298a..feb0e42 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -408,7 +408,7 @@ class Alert(Message):
     return util.ecc.verify(self.payload, public_key, self.signature)
   
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(str(i) for i in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
   
   def _debug(self):
     return _debug(self, [('s', self.status_bar)])
-- 
2.43.0


From acf530db980c9547d5bb88fb09fde012913fca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 09/47] fix: ECDSA verification crashed when u1*G + u2*Q is the
 point at infinity

---
 nbc/util/ecdsa/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 8ed0247..ddc67d1 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -107,6 +107,7 @@ class Public_key( object ):
     u1 = ( hash * c ) % n
     u2 = ( r * c ) % n
     xy = u1 * G + u2 * self.point
+    if xy == ellipticcurve.INFINITY: return False
     v = xy.x() % n
     return v == r
 
-- 
2.43.0


From 0b61be5350a2db061c1e3d1ec9305c33ff335d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 10/47] fix: ECDSA signing: reduce r modulo the group order

---
 nbc/util/ecdsa/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index ddc67d1..3b8378f 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -144,7 +144,7 @@ class Private_key( object ):
     n = G.order()
     k = random_k % n
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( hash + ( self.secret_multiplier * r ) % n ) ) % n
-- 
2.43.0


From b355f307d2d9a0e9664ee40c76ffe66e830ee308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 11/47] fix: public key range check used the group order
 instead of the field prime

---
 nbc/util/ecdsa/ecdsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 3b8378f..f7d54de 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -86,7 +86,8 @@ class Public_key( object ):
       raise RuntimeError("Generator point must have order.")
     if not n * point == ellipticcurve.INFINITY:
       raise RuntimeError("Generator point order is bad.")
-    if point.x() < 0 or n <= point.x() or point.y() < 0 or n <= point.y():
+    p = self.curve.p()
+    if point.x() < 0 or p <= point.x() or point.y() < 0 or p <= point.y():
       raise RuntimeError("Generator point has x or y out of range.")
 
 
@@ -195,7 +196,8 @@ def point_is_valid( generator, x, y ):
 
   n = generator.order()
   curve = generator.curve()
-  if x < 0 or n <= x or y < 0 or n <= y:
+  p = curve.p()
+  if x < 0 or p <= x or y < 0 or p <= y:
     return False
   if not curve.contains_point( x, y ):
     return False
-- 
2.43.0


From 6e75b47760385a88a76dbdda9993e9d5fce6c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 12/47] fix: doubling a point of order two failed instead of
 giving infinity

---
 nbc/util/ecdsa/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index ba83847..c84da42 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -152,6 +152,9 @@ class Point( object ):
     if self == INFINITY:
       return INFINITY
 
+    if self.__y % self.__curve.p() == 0:  # a point of order two
+      return INFINITY
+
     # X9.62 B.3:
 
     p = self.__curve.p()
-- 
2.43.0


From b0be6b4b6f770880014a30ac7a451f5241b89c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 13/47] fix: point multiplication could return an unreduced y
 coordinate

---
 nbc/util/ecdsa/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index c84da42..f34acbe 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -124,7 +124,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
-- 
2.43.0


From 42b15bc439f088fa9c551ea57c7e731bc238bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 14/47] fix: DER length of integers of 128 bytes and more

---
 nbc/util/ecdsa/der.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index abcec34..927bbb1 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -17,12 +17,12 @@ def encode_integer(r):
     s = binascii.unhexlify(h)
     num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
     if num <= 0x7f:
-        return b("\x02") + int2byte(len(s)) + s
+        return b("\x02") + encode_length(len(s)) + s
     else:
         # DER integers are two's complement, so if the first byte is
         # 0x80-0xff then we need an extra 0x00 byte to prevent it from
         # looking negative.
-        return b("\x02") + int2byte(len(s)+1) + b("\x00") + s
+        return b("\x02") + encode_length(len(s)+1) + b("\x00") + s
 
 def encode_bitstring(s):
     return b("\x03") + encode_length(len(s)) + s
-- 
2.43.0


From 99e88adcccf2bbd188cc9eec78604e708103abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 15/47] fix: malformed or truncated DER is rejected with
 UnexpectedDER

---
 nbc/util/ecdsa/der.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index 927bbb1..dd13a29 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -48,39 +48,56 @@ def encode_number(n):
     b128_digits[-1] &= 0x7f
     return b('').join([int2byte(d) for d in b128_digits])
 
+def check_body(string, llen, length):
+    # string starts with the tag, llen bytes of length follow
+    if length > len(string) - 1 - llen:
+        raise UnexpectedDER("length %d is longer than the buffer" % length)
+
 def remove_constructed(string):
+    if not string:
+        raise UnexpectedDER("ran out of data")
     s0 = string[0] if isinstance(string[0], integer_types) else ord(string[0])
     if (s0 & 0xe0) != 0xa0:
         raise UnexpectedDER("wanted constructed tag (0xa0-0xbf), got 0x%02x"
                             % s0)
     tag = s0 & 0x1f
     length, llen = read_length(string[1:])
+    check_body(string, llen, length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return tag, body, rest
 
 def remove_sequence(string):
+    if not string:
+        raise UnexpectedDER("ran out of data")
     if not string.startswith(b("\x30")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted sequence (0x30), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
+    check_body(string, lengthlength, length)
     endseq = 1+lengthlength+length
     return string[1+lengthlength:endseq], string[endseq:]
 
 def remove_octet_string(string):
+    if not string:
+        raise UnexpectedDER("ran out of data")
     if not string.startswith(b("\x04")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted octetstring (0x04), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_body(string, llen, length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
 
 def remove_object(string):
+    if not string:
+        raise UnexpectedDER("ran out of data")
     if not string.startswith(b("\x06")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted object (0x06), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
+    check_body(string, lengthlength, length)
     body = string[1+lengthlength:1+lengthlength+length]
     rest = string[1+lengthlength+length:]
     numbers = []
@@ -88,6 +105,8 @@ def remove_object(string):
         n, ll = read_number(body)
         numbers.append(n)
         body = body[ll:]
+    if not numbers:
+        raise UnexpectedDER("empty object identifier")
     n0 = numbers.pop(0)
     first = n0//40
     second = n0-(40*first)
@@ -96,19 +115,25 @@ def remove_object(string):
     return tuple(numbers), rest
 
 def remove_integer(string):
+    if not string:
+        raise UnexpectedDER("ran out of data")
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_body(string, llen, length)
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
+    if not numberbytes:
+        raise UnexpectedDER("empty integer")
     nbytes = numberbytes[0] if isinstance(numberbytes[0], integer_types) else ord(numberbytes[0])
     #print("I", (-int(binascii.hexlify(numberbytes), 16) % 115792089237316195423570985008687907852837564279074904382605163141518161494337))
 
     # added by RicMoo for pycoind
     #if nbytes < 0x80:
     #    return -int(binascii.hexlify(numberbytes), 16), rest
-    assert nbytes < 0x80 # can't support negative numbers yet
+    if nbytes >= 0x80:   # can't support negative numbers yet
+        raise UnexpectedDER("negative integer")
     return int(binascii.hexlify(numberbytes), 16), rest
 
 def read_number(string):
@@ -116,7 +141,7 @@ def read_number(string):
     llen = 0
     # base-128 big endian, with b7 set in all but the last byte
     while True:
-        if llen > len(string):
+        if llen >= len(string):
             raise UnexpectedDER("ran out of length bytes")
         number = number << 7
         d = string[llen] if isinstance(string[llen], integer_types) else ord(string[llen])
@@ -138,6 +163,8 @@ def encode_length(l):
     return int2byte(0x80|llen) + s
 
 def read_length(string):
+    if not string:
+        raise UnexpectedDER("ran out of length bytes")
     num = string[0] if isinstance(string[0], integer_types) else ord(string[0])
     if not (num & 0x80):
         # short form
@@ -145,15 +172,18 @@ def read_length(string):
     # else long-form: b0&0x7f is number of additional base256 length bytes,
     # big-endian
     llen = num & 0x7f
-    if llen > len(string)-1:
+    if llen == 0 or llen > len(string)-1:
         raise UnexpectedDER("ran out of length bytes")
     return int(binascii.hexlify(string[1:1+llen]), 16), 1+llen
 
 def remove_bitstring(string):
+    if not string:
+        raise UnexpectedDER("ran out of data")
     num = string[0] if isinstance(string[0], integer_types) else ord(string[0])
     if not string.startswith(b("\x03")):
         raise UnexpectedDER("wanted bitstring (0x03), got 0x%02x" % num)
     length, llen = read_length(string[1:])
+    check_body(string, llen, length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
-- 
2.43.0


From a1229c7f7adf2d7de5c6d2894949b69103d8ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 16/47] fix: RFC 6979: whole number of nonce octets

---
 nbc/util/ecdsa/rfc6979.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/rfc6979.py b/nbc/util/ecdsa/rfc6979.py
index 377e877..384afc1 100644
--- a/nbc/util/ecdsa/rfc6979.py
+++ b/nbc/util/ecdsa/rfc6979.py
@@ -61,7 +61,7 @@ def generate_k(generator, secexp, hash_func, data):
 
     qlen = bit_length(generator.order())
     holen = hash_func().digest_size
-    rolen = (qlen + 7) / 8
+    rolen = (qlen + 7) // 8
     bx = number_to_string(secexp, generator.order()) + bits2octets(data, generator.order())
 
     # Step B
-- 
2.43.0


From 906ee2b5a66782b0590c5c224192fe8f0ae5b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 17/47] fix: low-S threshold was compared as a rounded float

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 5d2f373..e170f5d 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -201,17 +201,17 @@ def sigencode_der(r, s, order):
 # these enforce low S values, by negating the value (modulo the order) if above order/2
 # see CECKey::Sign() https://github.com/bitcoin/bitcoin/blob/master/src/key.cpp#L214
 def sigencode_strings_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_strings(r, s, order)
 
 def sigencode_string_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_string(r, s, order)
 
 def sigencode_der_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_der(r, s, order)
 
-- 
2.43.0


From 5900a2e32ef1a49e3c0e7fd91799b51a1b4a7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 18/47] fix: randrange_from_seed__truncate_* failed on python3

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index e170f5d..28724f4 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -120,7 +120,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     if extrabits:
         bytes += 1
     base = hashmod(seed).digest()[:bytes]
-    base = "\x00"*(bytes-len(base)) + base
+    base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
@@ -131,10 +131,10 @@ def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     bits = int(math.log(order-1, 2)+1)
     maxbytes = (bits+7) // 8
     base = hashmod(seed).digest()[:maxbytes]
-    base = "\x00"*(maxbytes-len(base)) + base
+    base = b("\x00")*(maxbytes-len(base)) + base
     topbits = 8*maxbytes - bits
     if topbits:
-        base = int2byte(ord(base[0]) & lsb_of_ones(topbits)) + base[1:]
+        base = int2byte(ord(base[:1]) & lsb_of_ones(topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
-- 
2.43.0


From 2a2535a48c09c82b53d6e99d801e650ab9257df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 19/47] fix: a message cut short raised struct.error instead of
 MsgFormatError

---
 nbc/protocol/messages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index feb0e42..be66cf6 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -86,9 +86,13 @@ class Message(format.CompoundType):
   def parse(cls, data, magic):
     if data[0:4] != magic:  # check magic
       raise MsgFormatError('bad magic number')
+    if len(data) < 24:
+      raise MsgFormatError('truncated header')
     
     # get binary payload
     (length, ) = struct.unpack('<I', data[16:20])
+    if len(data) < 24 + length:
+      raise MsgFormatError('truncated payload')
     payload = data[24:24 + length]
     
     # check the checksum
-- 
2.43.0


From d3d4b89761905e78d59bdb0dc923b321ee5b6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 20/47] fix: verify() raised on malformed DER signatures
 instead of returning False

---
 nbc/util/ecc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 156212d..b07b06c 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -43,11 +43,15 @@ def twos_comp(val, bits):
     return val
 
 def remove_integer(string):
+    if not string:
+        raise der.UnexpectedDER("wanted integer (0x02), got nothing")
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], der.integer_types) else ord(string[0])
-        raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
+        raise der.UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = der.read_length(string[1:])
     numberbytes = string[1+llen:1+llen+length]
+    if length == 0 or len(numberbytes) != length:
+        raise der.UnexpectedDER("integer is empty or truncated")
     rest = string[1+llen+length:]
     #nbytes = numberbytes[0] if isinstance(numberbytes[0], der.integer_types) else ord(numberbytes[0])
     value = int(binascii.hexlify(numberbytes), 16)
@@ -87,7 +91,7 @@ def verify(data, public_key, signature):
     key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)
     try:
         return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)
-    except ecdsa.BadSignatureError as e:
+    except (ecdsa.BadSignatureError, der.UnexpectedDER) as e:
         return False
 
 from .ecdsa.util import number_to_string, string_to_number
-- 
2.43.0


From 4cf0fc5ac904581aacf88a7030f290506627142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 21/47] fix: public keys that are empty or not on the curve are
 rejected with ValueError

---
 nbc/util/key.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 4fc05f7..c7def87 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -25,7 +25,7 @@ from . import base58
 
 from .ecdsa.ecdsa import point_is_valid
 from .ecdsa import SECP256k1 as curve
-from .ecdsa.numbertheory import square_root_mod_prime
+from .ecdsa.numbertheory import square_root_mod_prime, SquareRootError
 from .ecdsa.util import number_to_string, string_to_number
 
 import hashlib
@@ -54,6 +54,8 @@ _p = curve.curve.p()
 _n = curve.order
 
 def decompress_public_key(public_key):
+    if not public_key:
+        raise ValueError('invalid public key')
     ch = ORD(public_key[0])
     if ch == 4 and len(public_key) == 65:
         x = string_to_number(public_key[1:33])
@@ -66,7 +68,10 @@ def decompress_public_key(public_key):
         raise ValueError('invalid compressed public key')
 
     x = string_to_number(public_key[1:])
-    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    try:
+        y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    except SquareRootError:
+        raise ValueError('invalid public key')
     if not point_is_valid(curve.generator, x, y):
         raise ValueError('invalid public key')
 
-- 
2.43.0


From d4bb09909006c6ea08c83786da4ce7fcf4718fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 22/47] fix: a WIF key with a bad checksum raised TypeError
 instead of ValueError

---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index c7def87..a1ba685 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -88,6 +88,8 @@ def privkey_to_wif(privkey, prefix = b'\x80'):
 # See: https://en.bitcoin.it/wiki/Wallet_import_format
 def privkey_from_wif(privkey, prefix = b'\x80'):
     key = base58.decode_check(privkey)
+    if not key:
+        raise ValueError('invalid wif private key')
     if ORD(prefix) != ORD(key[0]):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
-- 
2.43.0


From 2ed93c96de34dc4b16f8ce0a9377c7c7893f94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 23/47] fix: HD public keys were decompressed to the wrong y
 parity

---
 nbc/wallet/hdwallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..26f185d 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,13 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
   
   x = string_to_number(data[1:])
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (y & 1) != (ch & 1):  # take the root of the wanted parity
+    y = curve.p() - y
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From 8308e5b08664e56a99a986df74bf5f42e0c83bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 24/47] fix: HDWallet raised NameError on python3 for a bad key
 type

---
 nbc/wallet/hdwallet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 26f185d..e6029b6 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -3,6 +3,8 @@ from random import randint
 import hashlib, hmac
 from binascii import hexlify, unhexlify
 
+from six import integer_types
+
 from .. import util
 from ..util import base58, ecc
 from ..util.ecdsa import numbertheory, ellipticcurve, curves
@@ -52,7 +54,7 @@ class HDWallet(object):
   def __init__(self, key, chain, vcn=None, testnet=False, depth=None, parentfp=None, childnum=None):
     if type(key) == ellipticcurve.Point:        # public key is a point
       self._pubkey = key  
-    elif type(key) == int or type(key) == long: # private key an integer
+    elif isinstance(key,integer_types): # private key an integer
       assert(0 < key < curve.order)
       self._prvkey = key
     else:
-- 
2.43.0


From 118eb6a25863a450c2525e3d5e1731528a44d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 25/47] fix: HDWallet.from_extended_key always failed (unknown
 argument and name)

---
 nbc/wallet/hdwallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index e6029b6..08e065d 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -196,9 +196,9 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):
+    decoded = base58.b58decode(extended_key)
+    assert(len(decoded) == 78+4)
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -223,7 +223,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From cfc18f846f17e6091068f8fb255c8eb02187752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 26/47] fix: a derived HD wallet got a random vcn instead of
 its parent's

---
 nbc/wallet/hdwallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 08e065d..54bd87f 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -116,7 +116,7 @@ class HDWallet(object):
       
       childKey = childPubkey
     
-    return self.__class__(childKey, childChain, 
+    return self.__class__(childKey, childChain, vcn=self.vcn,
       testnet=self._testnet,
       depth=self._depth + 1,
       parentfp=self.fingerprint(),
-- 
2.43.0


From 567738e485cde2eb1c82f9425da48ddcb20818ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 27/47] fix: a saved watch-only wallet with a compressed key
 came back with another address

---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..e4682eb 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -187,7 +187,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')  # keeps compressed or not
     return cfg
   
   @classmethod
-- 
2.43.0


From 7861606e721ea315405633f0cb68a7c6fb99ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 28/47] fix: Address accepted uncompressed public keys that are
 not on the curve

---
 nbc/wallet/address.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index e4682eb..938369b 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -86,6 +86,7 @@ class Address(object):
       if ch == 4:  # prefix with 0x04 means decompressed
         if len(pubKey) != 65:
           raise ValueError('invalid uncomprssed public key')
+        pubKey = util.key.decompress_public_key(pubKey)  # checks the point
       elif ch == 2 or ch == 3:
         pubKey = util.key.decompress_public_key(pubKey)
         self._compressed = True
-- 
2.43.0


From 4c41de9347193837515a7d99b4e56e1d6a104fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 29/47] fix: an interrupted saveTo destroyed the previous
 wallet file

---
 nbc/wallet/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 8a72ac8..0726d46 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,4 +1,5 @@
 
+import os
 import json
 from .address import Address
 from .hdwallet import HDWallet
@@ -8,8 +9,13 @@ __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
-  with open(fileName,'w') as f:
+  
+  tmpName = fileName + '.tmp'    # never leave a half written wallet file
+  with open(tmpName,'w') as f:
     f.write(sCfg)
+    f.flush()
+    os.fsync(f.fileno())
+  os.replace(tmpName,fileName)
 
 def loadFrom(fileName, passphrase=''):
   with open(fileName,'r') as f:
-- 
2.43.0


From 5d5994d666204f12802e2b546bec0aecb234fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 30/47] fix: hex_to_bin and bin_to_hex failed on python3

---
 nbc/util/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..1921e2f 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -21,6 +21,7 @@
 # THE SOFTWARE.
 
 
+import binascii
 import hashlib
 import json
 import math
@@ -96,11 +97,11 @@ def get_merkle_root(transactions):
 # Hexlify Helpers
 
 def hex_to_bin(data):
-    return data.decode('hex')[::-1]
+    return binascii.unhexlify(data)[::-1]
 
 
 def bin_to_hex(data):
-    return data[::-1].encode('hex')
+    return binascii.hexlify(data[::-1]).decode('latin-1')
 
 
 # Protocl Version Helpers
-- 
2.43.0


From 246bd238141c37f8f5df2e23e787216bc4e34cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 31/47] fix: get_target failed on python3 and for exponents
 below 3

---
 nbc/util/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 1921e2f..137dab9 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -73,8 +73,10 @@ def verify_target(coin, block_header):
     return pow <= get_target(block_header.bits)
 
 def get_target(bits):
-    target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
-    return ("%064x" % target).decode('hex')
+    mantissa = bits & 0x7fffff
+    shift = 8 * ((bits >> 24) - 3)
+    target = mantissa << shift if shift >= 0 else mantissa >> -shift
+    return binascii.unhexlify("%064x" % target)
 
 
 DifficultyOneTarget = 26959535291011309493156476344723991336010898738574164086137773096960.0
-- 
2.43.0


From 91432838a27e850913a95d9dcedd357538af79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 32/47] fix: AES-256 key expansion raised TypeError on python3

---
 nbc/util/pyaes/aes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 1b062ad..5afbaea 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -158,16 +158,16 @@ class AES(object):
 
             # Key expansion for 256-bit keys is "slightly different" (fips-197)
             else:
-                for i in xrange(1, KC / 2):
+                for i in xrange(1, KC // 2):
                     tk[i] ^= tk[i - 1]
-                tt = tk[KC / 2 - 1]
+                tt = tk[KC // 2 - 1]
 
-                tk[KC / 2] ^= (self.S[ tt        & 0xFF]        ^
+                tk[KC // 2] ^= (self.S[ tt        & 0xFF]        ^
                               (self.S[(tt >>  8) & 0xFF] <<  8) ^
                               (self.S[(tt >> 16) & 0xFF] << 16) ^
                               (self.S[(tt >> 24) & 0xFF] << 24))
 
-                for i in xrange(KC / 2 + 1, KC):
+                for i in xrange(KC // 2 + 1, KC):
                     tk[i] ^= tk[i-1]
 
             # Copy values into round key arrays
-- 
2.43.0


From d5c240fc89ed1b04bc1ec47612c5e96b0d2de22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 33/47] fix: PKCS7 padding: python3 TypeError on strip; reject
 malformed padding

---
 nbc/util/pyaes/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 5c7c140..15223be 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -31,9 +31,9 @@ def strip_PKCS7_padding(data):
     if len(data) % 16 != 0:
         raise ValueError("invalid length")
 
-    pad = ord(data[-1])
+    pad = ord(data[-1:]) if data else 0
 
-    if pad > 16:
+    if pad == 0 or pad > 16 or data[-pad:] != pad * CHR(pad):
         raise ValueError("invalid padding byte")
 
     return data[:-pad]
-- 
2.43.0


From 25d00e68adf80abe317c0858b42efcc355e416db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 34/47] fix: pyaes block feeder mixed text and bytes on python3

---
 nbc/util/pyaes/blockfeeder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/blockfeeder.py b/nbc/util/pyaes/blockfeeder.py
index c0ec3ab..b8fcdb4 100644
--- a/nbc/util/pyaes/blockfeeder.py
+++ b/nbc/util/pyaes/blockfeeder.py
@@ -111,7 +111,7 @@ class BlockFeeder(object):
         self._mode = mode
         self._feed = feed
         self._final = final
-        self._buffer = ""
+        self._buffer = b''
 
     def feed(self, data = None):
         '''Provide bytes to encrypt (or decrypt), returning any bytes
@@ -133,7 +133,7 @@ class BlockFeeder(object):
         self._buffer += data
 
         # We keep 16 bytes around so we can determine padding
-        result = ''
+        result = b''
         while len(self._buffer) > 16:
             can_consume = self._mode._can_consume(len(self._buffer) - 16)
             if can_consume == 0: break
-- 
2.43.0


From 998158f353ca0d597e4aaab78269379fe0e04a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 35/47] fix: piecewise.get_address always failed (header byte
 check, key prefix, missing vcn)

---
 nbc/util/piecewise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 1d9ec86..bffb816 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -58,11 +58,11 @@ __all__ = ['get_address', 'combine_private_keys']
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
-def get_address(public_key, private_key, version = b'\x00'):
+def get_address(public_key, private_key, vcn, version = b'\x00'):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
-    if len(public_key) != 65 or public_key[0] != b'\x04':
+    if len(public_key) != 65 or public_key[:1] != b'\x04':
         raise ValueError('public key must be decompressed')
 
     # the public key's elliptic curve point
@@ -81,10 +81,10 @@ def get_address(public_key, private_key, version = b'\x00'):
     # compute the new public key
     x = number_to_string(combined.x(), curve.order)
     y = number_to_string(combined.y(), curve.order)
-    key_combined = b'\x00' + x + y
+    key_combined = b'\x04' + x + y
 
     # return the public key's address
-    return publickey_to_address(key_combined, version = version)
+    return publickey_to_address(key_combined, vcn, version = version)
 
 
 def combine_private_keys(private_keys):
-- 
2.43.0


From 198ee84f858ba75d7546f6ef823880e7f9d17d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 36/47] fix: piecewise.split_private_key raised NameError on
 python3

---
 nbc/util/piecewise.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index bffb816..a97c597 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -55,6 +55,11 @@ from .key import privkey_from_wif, privkey_to_wif, publickey_to_address
 
 __all__ = ['get_address', 'combine_private_keys']
 
+try:
+    range = xrange
+except NameError:  # range same to xrange in python3
+    pass
+
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
@@ -113,7 +118,7 @@ def split_private_key(private_key, count = 2):
     secexp = string_to_number(private_key)
 
     # generate random secret exponents, less one
-    secexps = [randrange(curve.order) for i in xrange(count - 1)]
+    secexps = [randrange(curve.order) for i in range(count - 1)]
 
     # compute the missing secret exponent that will sum to the given key
     secexp_missing = (secexp - sum(secexps)) % curve.order
@@ -203,13 +208,13 @@ def partial_split_private_key(private_key, required, total):
         return [partial_encode_key(k, index) for k in keys]
 
     # total sets of required keys
-    keys = [get_keys(i) for i in xrange(0, total)]
+    keys = [get_keys(i) for i in range(0, total)]
 
     # create linearly independent immutable sets of keys
     groups = []
-    for i in xrange(0, total):
+    for i in range(0, total):
         group = []
-        for j in xrange(0, required):
+        for j in range(0, required):
             group.append(keys[(i + j) % total][j])
         groups.append(frozenset(group))
 
@@ -297,7 +302,7 @@ def partial_split_qr_encode(private_keys):
 
     binary.sort()
     missing = len(binary)
-    for i in xrange(0, len(binary)):
+    for i in range(0, len(binary)):
         if binary[i][0] != i:
             missing = i
             break
-- 
2.43.0


From 239b472a24b73889183edfb3de0575d9bdfe8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 37/47] fix: banned peers were never refused: ban list is keyed
 by ip

---
 nbc/node/basenode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..b024b49 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,12 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    ip = address[0]           # peers are banned by ip
+    if ip in self._banned:
+      if time.time() - self._banned[ip] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[ip]      # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From a76e1a92a6ae01e2828d296b1bef66d076d9af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 38/47] fix: answering getaddr failed on python3

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index b024b49..a0943b3 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -327,11 +327,11 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
+    def timeOf(address):
+      return self._addresses[address][0]
     
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=timeOf,reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From 170ea94d134e367e432cca94fd71b5547a5e4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 39/47] fix: address book could exceed MAX_ADDRESSES

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index a0943b3..25d1844 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -343,7 +343,7 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
+      if len(self._addresses) >= MAX_ADDRESSES: return
       self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
 
 def startServer(node):
-- 
2.43.0


From c9b4206a12e436c7f867a5034845933354c991b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 40/47] fix: comparing two connections recursed for ever

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..6e24667 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -223,7 +223,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return self is other
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From c94e57e5cc098349bde5a305a5924629fa9dc79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 41/47] fix: a peer was recorded with the age of its last
 message instead of its time

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 6e24667..62b2402 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -93,7 +93,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From 164b4f8f644235bf12d31355bf756bd7c2c58e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 42/47] fix: FtIPAddress accepts only plain digits in address
 groups

int() also takes signs, blanks, underscores, 0x and non-ASCII digits, so
' 1.+2.3.4' or '0x1:0:0:0:0:0:0:1_0' were accepted as addresses.
---
 nbc/protocol/format.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index bd6d47e..5606e5a 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -255,17 +255,20 @@ class FtVarInteger(FormatType):
   def str(self, obj):
     return str(obj)
 
+_DEC_DIGITS = '0123456789'
+_HEX_DIGITS = '0123456789abcdefABCDEF'
+
 class FtIPAddress(FormatType):
   @staticmethod
   def _ipv4_groups(obj):
     # convert each group to its value
-    try:
-      groups = [int(i) for i in obj.split('.')]
-    except ValueError as e:
-      return None
-    
-    if len(groups) != 4:
+    objs = obj.split('.')
+    if len(objs) != 4:
       return None
+    for group in objs:                       # int() also takes signs, blanks, '_'
+      if group == '' or group.strip(_DEC_DIGITS) != '':
+        return None
+    groups = [int(i) for i in objs]
     for group in groups:
       if not (0x00 <= group <= 0xff):
         return None
@@ -292,10 +295,9 @@ class FtIPAddress(FormatType):
       if group == '':
         groups.extend([ 0 ] * (9 - len(objs)))
       else:
-        try:
-          groups.append(int(group,16))
-        except ValueError as e:
+        if group.strip(_HEX_DIGITS) != '':   # int() also takes signs, blanks, '_', '0x'
           return None
+        groups.append(int(group,16))
     if len(groups) != 8:
       return None
     
-- 
2.43.0


From 83b0cd01c574efe801934ac0464bc41f7b4a9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 43/47] fix: point_decompress refuses invalid encodings with
 ValueError

---
 nbc/wallet/hdwallet.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 54bd87f..3d636f1 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,19 @@ def point_compress(point):
   return CHR(2 + (y & 1)) + number_to_string(x,curve.p())
 
 def point_decompress(curve, data):
-  prefix = data[0]; ch = ORD(prefix)
-  assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
+  if len(data) != 33 or ORD(data[0]) not in (2,3):  # data[0] should be b'\x02' or b'\x03'
+    raise ValueError('invalid compressed public key')
+  ch = ORD(data[0])
   
   x = string_to_number(data[1:])
-  y = numbertheory.square_root_mod_prime( 
-    ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
-  )
+  if x >= curve.p():
+    raise ValueError('invalid compressed public key')
+  try:
+    y = numbertheory.square_root_mod_prime( 
+      ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
+    )
+  except numbertheory.SquareRootError:
+    raise ValueError('invalid compressed public key')
   if (y & 1) != (ch & 1):  # take the root of the wanted parity
     y = curve.p() - y
   return ellipticcurve.Point(curve, x, y)
-- 
2.43.0


From d8f3c75385fcc4c617b1383da4951f4c2a030a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 44/47] fix: Address accepted private keys outside [1, n-1]

---
 nbc/wallet/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 938369b..1e6c4f1 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -75,6 +75,8 @@ class Address(object):
         raise ValueError('unknown private key type: %r' % privKey[0])
       
       secexp = string_to_number(util.key.privkey_from_wif(self._privKey))
+      if not (1 <= secexp < curve.order):
+        raise ValueError('invalid private key')
       point = curve.generator * secexp
       pubKey = _keyFromPoint(point,False)
     else: self._privKey = None
-- 
2.43.0


From 0750697f3e8d333ac57423d03ce49cab0b81ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 45/47] fix: CFB mode refuses segment sizes it cannot process

---
 nbc/util/pyaes/aes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 5afbaea..7f2a04d 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -408,6 +408,9 @@ class AESModeOfOperationCFB(AESSegmentModeOfOperation):
     def __init__(self, key, iv, segment_size = 1):
         if segment_size == 0: segment_size = 1
 
+        if not 1 <= segment_size <= 16:
+            raise ValueError('segment size must be between 1 and 16 bytes')
+
         if iv is None:
             self._shift_register = [ 0 ] * 16
         elif len(iv) != 16:
-- 
2.43.0


From 3c5e721a641ecb259e2a56712f6c12dda7229f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 46/47] fix: split_private_key could hand out zero as a part

---
 nbc/util/piecewise.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index a97c597..32df387 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -117,11 +117,17 @@ def split_private_key(private_key, count = 2):
     private_key = privkey_from_wif(private_key)
     secexp = string_to_number(private_key)
 
-    # generate random secret exponents, less one
-    secexps = [randrange(curve.order) for i in range(count - 1)]
+    while True:
+        # generate random secret exponents, less one
+        secexps = [randrange(curve.order) for i in range(count - 1)]
+
+        # compute the missing secret exponent that will sum to the given key
+        secexp_missing = (secexp - sum(secexps)) % curve.order
+
+        # zero is not a private key
+        if secexp_missing != 0 or count < 2:
+            break
 
-    # compute the missing secret exponent that will sum to the given key
-    secexp_missing = (secexp - sum(secexps)) % curve.order
     secexps.append(secexp_missing)
 
     # convert to wif encoded private keys
-- 
2.43.0


From 9c3efb2f942f99c3792c35c1d847c5dc66ba0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 47/47] fix: a JSON path through a list raised NameError
 instead of reaching its value

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 137dab9..d833dd6 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -149,7 +149,7 @@ def fetch_url_json_path_int(url, path):
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0

