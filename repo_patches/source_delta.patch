From 5471c68187678baca202871714a8bef461d674e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:13 +0000
Subject: [PATCH 01/57] fix: an empty BIT STRING was encoded and decoded as one
 zero bit

---
 asn1PERser/codec/per/decoder.py | 6 +++---
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0024a67..7a6dfe0 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -174,7 +174,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
             per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
@@ -210,7 +210,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
@@ -223,7 +223,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=0,
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7159457..ab68667 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -122,7 +122,7 @@ def encode_bitstring(bitstring):    # 16
     if bitstring.namedValues:    # 16.2, 16.3
         raise NotImplemented
 
-    bitstring_value = bitstring.asBinary()
+    bitstring_value = bitstring.asBinary() if len(bitstring) else ''    # asBinary() of an empty BIT STRING is '0'
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-- 
2.43.0


From e9ef3c7e397705064cf6bd99d55038a65d6da059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:17 +0000
Subject: [PATCH 02/57] fix: decoding a variable size OCTET STRING dropped
 leading zero octets

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7a6dfe0..314c519 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -290,7 +290,7 @@ def decode_octetstring(octetstring, per_bytes):
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
                 return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0), octet_align=True)
-            octetstring_val = hex(octetstring_val)[2:].rstrip("L")
+            octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
             logger.info("%s: decoding finished.", octetstring.__class__.__name__)
             return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))
-- 
2.43.0


From dcb95d406cf3014a6b1edf81de30ef28e4130c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 03/57] fix: an empty unconstrained OCTET STRING was decoded as
 one zero octet

---
 asn1PERser/codec/per/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 314c519..79d955a 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -301,6 +301,10 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            if octetstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
+                logger.info("%s: decoding finished.", octetstring.__class__.__name__)
+                return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0))
             octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
-- 
2.43.0


From e46cdb8fab1d2c2e7725812bdd19261cd422ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:43 +0000
Subject: [PATCH 04/57] fix: no octet alignment in front of zero-length string
 content (X.691 11.9.3.3)

---
 asn1PERser/codec/per/decoder.py | 6 ++++--
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 79d955a..ba152ce 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -209,7 +209,8 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
-            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
+            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant),
+                                           octet_align=bitstring_length_determinant > 0)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
@@ -222,7 +223,8 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
-            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
+            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant),
+                                           octet_align=bitstring_length_determinant > 0)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index ab68667..149556f 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -40,7 +40,7 @@ def encode(asn1Spec):
 def _produce_complete_encoding(field_list):    # 11.1
     complete_encoding = ''
     for field in field_list:
-        if field.octet_align:
+        if field.octet_align and field.value:    # 11.9.3.3 - no padding in front of zero-length content
             if len(complete_encoding) % 8 != 0:
                 complete_encoding += ''.zfill(abs(len(complete_encoding) % 8 - 8))
             complete_encoding += field.value
-- 
2.43.0


From f958aee69d1565a6cf87632b864a4fe443032162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:47 +0000
Subject: [PATCH 05/57] fix: extension bit of an extensible zero-size string
 was not encoded

---
 asn1PERser/codec/per/decoder.py | 4 ++--
 asn1PERser/codec/per/encoder.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index ba152ce..c77fdfc 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -181,7 +181,7 @@ def decode_bitstring(bitstring, per_bytes):
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", bitstring.__class__.__name__)
         logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-        return ''
+        return bitstring.__class__('')
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", bitstring.__class__.__name__, bitstring.subtypeSpec.lowerEndpoint)
         if bitstring.subtypeSpec.lowerEndpoint <= 16:    # 16.9
@@ -258,7 +258,7 @@ def decode_octetstring(octetstring, per_bytes):
     if octetstring.subtypeSpec.upperEndpoint == 0:  # 17.5
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", octetstring.__class__.__name__)
         logger.info("%s: decoding finished.", octetstring.__class__.__name__)
-        return ''
+        return octetstring.__class__('')
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 149556f..d1ddfd6 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -139,7 +139,7 @@ def encode_bitstring(bitstring):    # 16
             return [extension_bit_field] + bitstring_length_determinant + [bitstring_bit_field]
     # else:    # 16.7
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         if bitstring_len <= 16:    # 16.9
             bitstring_bit_field = bit_field(octet_align=False, value=bitstring_value)
@@ -195,7 +195,7 @@ def encode_octetstring(octetstring):
                                                                        upperBound=None)
             return [extension_bit_field] + octetstring_length_determinant + [octetstring_bit_field]
     if octetstring.subtypeSpec.upperEndpoint == 0:    # 17.5
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         if octetstring_len <= 2:    # 17.6
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
-- 
2.43.0


From 48fe548f9b03c619c9a9e6f20ec80aca3edafd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:21 +0000
Subject: [PATCH 06/57] fix: decoding an empty SEQUENCE OF raised, and gave an
 object without a value

---
 asn1PERser/codec/per/decoder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index c77fdfc..7163cdd 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -68,10 +68,7 @@ class PerBytes(object):
 def decode(per_stream, asn1Spec, **kwargs):
     per_bytes = PerBytes(binascii.hexlify(per_stream))
     logger.debug("Decoding of bytes: '%s' started. Binary representation: '%s'", codecs.encode(per_stream, "hex_codec"), per_bytes.binary_string)
-    decoded = asn1Spec.create_field_list(per_bytes)
-    if decoded == '':
-        return asn1Spec.__class__('')
-    return decoded
+    return asn1Spec.create_field_list(per_bytes)
 
 
 def decode_boolean(boolean, per_bytes):    # 12
@@ -422,6 +419,7 @@ def decode_sequence(sequence, per_bytes):
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
     new_seq_of = sequence_of.__class__()
+    new_seq_of.extend([])    # SEQUENCE OF without components is a value too
     component_type = sequence_of.getComponentType()
     if sequence_of.subtypeSpec.extensionMarker:  # 20.4
         logger.info("%s: extension marker should be present", sequence_of.__class__.__name__)
-- 
2.43.0


From b2423be947643e541ce880e64f929366b14e2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:25 +0000
Subject: [PATCH 07/57] fix: a whole number constrained to a single value was
 decoded as 0

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7163cdd..d35e0d4 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -637,7 +637,7 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     field_size = get_bit_field_size(range)
     logger.debug("constrained whole number: range: %s; size: %s", range, field_size)
     if range == 1:
-        return 0
+        return lowerBound
     elif range <= 255:
         non_negative_binary_integer = decode_non_negative_binary_integer(per_bytes, field_size, octet_align=False)
     elif range == 256:
-- 
2.43.0


From 8f17c1976deb6e862ff4b45ae6f80d562e0314ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:29 +0000
Subject: [PATCH 08/57] fix: length 16384 was encoded as an unfragmented length
 determinant

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index d1ddfd6..18f404f 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -567,7 +567,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
             encoded_length_determinant_with_8th_bit_zero = bit_field(octet_align=encoded_length_determinant.octet_align,
                                                                      value= '0' + encoded_length_determinant.value)
             return [encoded_length_determinant_with_8th_bit_zero]
-        elif 127 < n <= 16384:    # 11.9.3.7
+        elif 127 < n < 16384:    # 11.9.3.7
             determinant_size = bit_field_size(octets=1, bits=6)
             encoded_length_determinant = encode_non_negative_binary_integer(value=n, size=determinant_size,
                                                                             octet_align=True)
-- 
2.43.0


From 922d70338587dc7af5ea93c9ccc331afa037bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:32 +0000
Subject: [PATCH 09/57] fix: truncated messages were decoded to wrong values
 instead of being rejected

---
 asn1PERser/codec/per/decoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index d35e0d4..d2d61c3 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -11,6 +11,10 @@ __all__ = ['decode']
 logger = logging.getLogger("asn1perser.decoder")
 
 
+class PerDecodingException(Exception):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -59,6 +63,9 @@ class PerBytes(object):
         bits_stop = (item.stop.curr_octets * 8) + item.stop.curr_bits
         if bits_start == bits_stop:
             return '0'
+        if bits_stop > len(self.binary_string):
+            raise PerDecodingException("Message is too short: bit {} requested, {} bits available".format(
+                bits_stop, len(self.binary_string)))
         return self.binary_string[bits_start:bits_stop]
 
     def __len__(self):
-- 
2.43.0


From ed78d76d328cbf798a509d23b8a0dcea604f5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:46 +0000
Subject: [PATCH 10/57] fix: size constraints with an upper bound of 64K and
 more need an unconstrained length (X.691 11.9.4.1)

---
 asn1PERser/codec/per/decoder.py | 4 ++--
 asn1PERser/codec/per/encoder.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index d2d61c3..46dab4d 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -285,7 +285,7 @@ def decode_octetstring(octetstring, per_bytes):
     else:  # 17.8
         logger.info("%s: lowerEndpoint = %s; upperEndpoint = %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint, octetstring.subtypeSpec.upperEndpoint)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = decode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=per_bytes,
@@ -477,7 +477,7 @@ def decode_sequence_of(sequence_of, per_bytes):
     else:  # 20.6
         logger.info("%s: lowerEndpoint = %s and upperEndpoint = %s", sequence_of.__class__.__name__,
                     sequence_of.subtypeSpec.lowerEndpoint, sequence_of.subtypeSpec.upperEndpoint)
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = decode_length_determinant(normally_small_length=False,
                                                            constrained=True,
                                                            n=per_bytes,
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 18f404f..4c8b808 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -211,7 +211,7 @@ def encode_octetstring(octetstring):
             raise NotImplemented
     else:    # 17.8
         octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=octetstring_len,
@@ -379,7 +379,7 @@ def encode_sequence_of(sequence_of):    # 20
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
-- 
2.43.0


From 1c98a206e1a47519c9c95b39f3f0d1981feb2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:49 +0000
Subject: [PATCH 11/57] fix: unconstrained INTEGER of more than 127 octets had
 a wrong length determinant

---
 asn1PERser/codec/per/decoder.py | 6 +++++-
 asn1PERser/codec/per/encoder.py | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 46dab4d..45041cb 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -678,7 +678,11 @@ def decode_normally_small_non_negative_whole_number(per_bytes, lower_bound):
 
 def decode_unconstrained_whole_number(per_bytes):
     logger.debug("function: decode_unconstrained_whole_number; params: per_bytes: (hidden)")
-    unconstrained_length_determinant = per_bytes.next(octet_align=True)
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=0,
+                                                                 upperBound=None)
     logger.debug("unconstarined length determinant: %s", unconstrained_length_determinant)
     unconstrained_whole_number = twos_comp(
         per_bytes=per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0)),
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 4c8b808..c5f6194 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -525,8 +525,12 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
 def create_field_list_for_unconstrained_whole_number(integer):
     unconstrained_length_determinant = get_twos_complement_octet_len(integer)
     unconstrained_whole_number = encode_unconstrained_whole_number(integer, unconstrained_length_determinant)
-    unconstrained_length_determinant = '{0:08b}'.format(unconstrained_length_determinant)
-    return [bit_field(octet_align=True, value=unconstrained_length_determinant + unconstrained_whole_number.value)]
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=unconstrained_length_determinant,
+                                                                 lowerBound=0,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [unconstrained_whole_number]
 
 
 def encode_unconstrained_whole_number(integer, unconstrained_length_determinant):    # 11.8
-- 
2.43.0


From 2dfd46efd765f08dbd8cde421dbe66535d6a3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:52 +0000
Subject: [PATCH 12/57] fix: ENUMERATED is encoded by index of its number, not
 by the number itself (X.691 14.1)

---
 asn1PERser/codec/per/decoder.py | 7 +++----
 asn1PERser/codec/per/encoder.py | 6 ++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 45041cb..f5aed23 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -142,7 +142,7 @@ def decode_enumerated(enumerated, per_bytes):
         enumeration_index = decode_constrained_whole_number(per_bytes, lowerBound=0, upperBound=len(list(enumerated.namedValues)) - 1)
         logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
         logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-        return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+        return enumerated.__class__(sorted(enumerated.namedValues.values())[enumeration_index])
     else:    # 14.3
         logger.info("%s: extension marker should be present", enumerated.__class__.__name__)
         value_is_extension_addition = per_bytes.next(size=bit_field_size(octets=0, bits=1))
@@ -152,13 +152,12 @@ def decode_enumerated(enumerated, per_bytes):
                                                                 upperBound=len(list(enumerated.enumerationRoot)) - 1)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(sorted(enumerated.enumerationRoot.values())[enumeration_index])
         else:
             enumeration_index = decode_normally_small_non_negative_whole_number(per_bytes, lower_bound=0)
-            enumeration_index += len(enumerated.enumerationRoot)
             logger.info("%s: index: %s", enumerated.__class__.__name__, enumeration_index)
             logger.info("%s: decoding finished.", enumerated.__class__.__name__)
-            return enumerated.__class__(enumerated.namedValues.getName(enumeration_index))
+            return enumerated.__class__(list(enumerated.extensionAddition.values())[enumeration_index])
 
 
 def decode_bitstring(bitstring, per_bytes):
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index c5f6194..a395e35 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -102,12 +102,14 @@ def encode_integer(integer):
 
 def encode_enumerated(enumerated):
     if not enumerated.subtypeSpec.extensionMarker:    # 14.2
-        return create_field_list_for_constrained_whole_number(n=enumerated._value, lowerEndpoint=0,
+        return create_field_list_for_constrained_whole_number(n=sorted(enumerated.namedValues.values()).index(enumerated._value),
+                                                              lowerEndpoint=0,
                                                               upperEndpoint=len(list(enumerated.namedValues)) - 1)
     else:    # 14.3
         if enumerated._value in list(enumerated.enumerationRoot.values()):
             extension_bit_field = bit_field(octet_align=False, value='0')
-            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=enumerated._value,
+            n = sorted(enumerated.enumerationRoot.values()).index(enumerated._value)
+            constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=n,
                                                                                                  lowerEndpoint=0,
                                                                                                  upperEndpoint=len(list(enumerated.enumerationRoot)) - 1)
             return [extension_bit_field] + constrained_whole_number_field_list
-- 
2.43.0


From a27df6242f41016484b5e855e572c842775c4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:48 +0000
Subject: [PATCH 13/57] fix: SIZE(MIN..n) could not be encoded nor decoded

---
 asn1PERser/classes/types/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index c563c5f..60bfbed 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,7 +45,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # sizes have no value below 0
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(SequenceOfValueSize, self).__init__()
 
@@ -77,7 +77,7 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # sizes have no value below 0
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
-- 
2.43.0


From 89536c979ecadef3df8c5eece94be981e0e104b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:51 +0000
Subject: [PATCH 14/57] fix: extensible constraints without a lower or an upper
 bound raised TypeError

---
 asn1PERser/codec/per/decoder.py | 12 +++++++++++-
 asn1PERser/codec/per/encoder.py | 34 ++++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index f5aed23..0828730 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -97,6 +97,15 @@ def decode_integer(integer, per_bytes):
             logger.info("%s: value: %s", integer.__class__.__name__, unconstrained_whole_number)
             logger.info("%s: decoding finished.", integer.__class__.__name__)
             return integer.__class__(unconstrained_whole_number)
+        elif not is_constrained_whole_number(integer):    # root without lower or upper bound
+            if is_semi_constrained_whole_number(integer):
+                whole_number = decode_semi_constrained_whole_number_from_field_list(per_bytes=per_bytes,
+                                                                                    lowerBound=integer.subtypeSpec.lowerEndpoint)
+            else:
+                whole_number = decode_unconstrained_whole_number(per_bytes)
+            logger.info("%s: value: %s", integer.__class__.__name__, whole_number)
+            logger.info("%s: decoding finished.", integer.__class__.__name__)
+            return integer.__class__(whole_number)
         else:
             constrained_whole_number = decode_constrained_whole_number_from_field_list(per_bytes=per_bytes,
                                                                                        lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
@@ -432,8 +441,9 @@ def decode_sequence_of(sequence_of, per_bytes):
         extension_bit_field = per_bytes.next(size=bit_field_size(octets=0, bits=1), octet_align=False)
         logger.info("%s: extension bit: %s", sequence_of.__class__.__name__, extension_bit_field)
         if not extension_bit_field:
+            has_constrained_length = sequence_of.subtypeSpec.upperEndpoint is not None and sequence_of.subtypeSpec.upperEndpoint < 65536
             length_determinant = decode_length_determinant(normally_small_length=False,
-                                                           constrained=True,
+                                                           constrained=has_constrained_length,
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index a395e35..e25c3e5 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -66,7 +66,9 @@ def encode_boolean(boolean):    # 12
 
 def encode_integer(integer):
     if integer.subtypeSpec.extensionMarker:    # 13.1
-        if integer.subtypeSpec.lowerEndpoint <= integer._value <= integer.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(integer._value, integer.subtypeSpec):
+            if not is_constrained_whole_number(integer):    # root without lower or upper bound
+                return [bit_field(octet_align=False, value='0')] + create_field_list_for_whole_number_without_bound(integer)
             constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=integer._value,
                                                                                                  lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
@@ -128,7 +130,7 @@ def encode_bitstring(bitstring):    # 16
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-        if bitstring.subtypeSpec.lowerEndpoint <= bitstring_len <= bitstring.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(bitstring_len, bitstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             bitstring_bit_field = bit_field(octet_align=True, value=bitstring_value)
@@ -185,7 +187,7 @@ def encode_octetstring(octetstring):
 
     extension_bit_field = None
     if octetstring.subtypeSpec.extensionMarker:    # 17.3
-        if octetstring.subtypeSpec.lowerEndpoint <= octetstring_len <= octetstring.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(octetstring_len, octetstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
@@ -362,9 +364,10 @@ def encode_sequence_of(sequence_of):    # 20
     for component in sequence_of:
         component.fill_field_list(sequence_of_field_list)
     if sequence_of.subtypeSpec.extensionMarker:    #20.4
-        if sequence_of.subtypeSpec.lowerEndpoint <= n <= sequence_of.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(n, sequence_of.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
-            length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
+            has_constrained_length = sequence_of.subtypeSpec.upperEndpoint is not None and sequence_of.subtypeSpec.upperEndpoint < 65536
+            length_determinant = encode_length_determinant(normally_small_length=False, constrained=has_constrained_length,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             return [extension_bit_field] + length_determinant + sequence_of_field_list
@@ -524,6 +527,19 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
     return semi_constrained_whole_number
 
 
+def create_field_list_for_whole_number_without_bound(integer):
+    if not is_semi_constrained_whole_number(integer):    # 13.2.4
+        return create_field_list_for_unconstrained_whole_number(integer)
+    semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,    # 13.2.3
+                                                                         lower_bound=integer.subtypeSpec.lowerEndpoint)
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=int(len(semi_constrained_whole_number.value) / 8),
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [semi_constrained_whole_number]
+
+
 def create_field_list_for_unconstrained_whole_number(integer):
     unconstrained_length_determinant = get_twos_complement_octet_len(integer)
     unconstrained_whole_number = encode_unconstrained_whole_number(integer, unconstrained_length_determinant)
@@ -654,6 +670,14 @@ def is_semi_constrained_whole_number(integer):
     return False
 
 
+def is_within_extension_root(n, subtypeSpec):
+    if (subtypeSpec.lowerEndpoint is not None) and (n < subtypeSpec.lowerEndpoint):
+        return False
+    if (subtypeSpec.upperEndpoint is not None) and (n > subtypeSpec.upperEndpoint):
+        return False
+    return True
+
+
 def is_constant(integer):
     return False
 
-- 
2.43.0


From 52d822939cd3230baae783de888b199fef8e01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:56 +0000
Subject: [PATCH 15/57] fix: decoder skipped to the next octet after a BIT
 STRING outside of its extension root

---
 asn1PERser/codec/per/decoder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0828730..0eb9c5d 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -185,7 +185,6 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=0,
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
-            per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-- 
2.43.0


From 92fc395c1f5c4e28874d89a842b41aac3e75f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:23 +0000
Subject: [PATCH 16/57] fix: SEQUENCE with more or fewer extension additions
 than the schema knows was decoded wrongly

---
 asn1PERser/codec/per/decoder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0eb9c5d..93d59dd 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -390,7 +390,7 @@ def decode_sequence(sequence, per_bytes):
                                                                           lowerBound=None,
                                                                           upperBound=None)
         extension_addition_bit_field_value = per_bytes.next(size=bit_field_size(octets=0, bits=extension_addition_length_determinant))
-        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_bit_field_len)
+        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_length_determinant)
         logger.info("%s: extension bits: '%s'; within that: extension addition bits: '%s'; extension addition group bits: '%s'",
                     sequence.__class__.__name__,
                     extension_addition_bit_field_bits,
@@ -426,6 +426,10 @@ def decode_sequence(sequence, per_bytes):
                 else:
                     logger.info("%s: extension addition group number %s not present",
                                 sequence.__class__.__name__, group_index)
+        for is_present_bit in extension_addition_bit_field_bits[extension_addition_bit_field_len:]:
+            if int(is_present_bit):
+                logger.info("%s: skipping extension addition unknown to this schema", sequence.__class__.__name__)
+                skip_open_type_field(per_bytes)
     logger.info("%s: decoding finished.", sequence.__class__.__name__)
     return new_seq
 
@@ -645,6 +649,15 @@ def decode_open_type_field(type, per_bytes):
     return decoded
 
 
+def skip_open_type_field(per_bytes):
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
+    per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
+
+
 def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     logger.debug("function: decode_constrained_whole_number; params: per_bytes: (hidden), lowerBound: %s, "
                  "upperBound: %s", lowerBound, upperBound)
-- 
2.43.0


From a3f595ea71007a61ad3ad38e87a9a16a57b9e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:26 +0000
Subject: [PATCH 17/57] fix: decode() modified the object passed as asn1Spec

---
 asn1PERser/codec/per/decoder.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 93d59dd..fd7a6f1 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -354,7 +354,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding optional component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -366,7 +366,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding default component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -376,7 +376,7 @@ def decode_sequence(sequence, per_bytes):
         else:
             logger.info("%s: decoding component: '%s' of type '%s' ...", sequence.__class__.__name__,
                         namedType.name, namedType.asn1Object.__class__.__name__)
-            componentType = sequence.getComponentByName(namedType.name)
+            componentType = namedType.asn1Object
             decoded = componentType.create_field_list(per_bytes)
             logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
             new_seq[namedType.name] = decoded
@@ -403,7 +403,7 @@ def decode_sequence(sequence, per_bytes):
                 if int(is_present_bit):
                     logger.info("%s: extension addition component '%s' present. Decoding...", sequence.__class__.__name__,
                                 extensionNamedType.name)
-                    componentType = sequence.getComponentByName(extensionNamedType.name)
+                    componentType = extensionNamedType.asn1Object
                     decoded = decode_open_type_field(componentType, per_bytes)
                     logger.info("%s: decoded extension addition component: '%s'", sequence.__class__.__name__, extensionNamedType.name)
                     new_seq[extensionNamedType.name] = decoded
@@ -529,7 +529,7 @@ def decode_choice(choice, per_bytes):    # 23
         if len(choice.rootComponent.namedTypes) == 1:  # 23.4
             logger.info("%s: length of choice list is 1", choice.__class__.__name__)
             selected_type = choice.rootComponent.namedTypes[0]
-            selected_component = choice.getComponentByName(selected_type.name)
+            selected_component = selected_type.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...", choice.__class__.__name__,
                         selected_type.name, selected_component.__class__.__name__)
             val = selected_component.create_field_list(per_bytes)
@@ -540,7 +540,7 @@ def decode_choice(choice, per_bytes):    # 23
         else:    # 23.6
             index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
             namedType = choice.rootComponent.namedTypes[index]
-            selected_component = choice.getComponentByPosition(index)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...", choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
             val = selected_component.create_field_list(per_bytes)
@@ -556,7 +556,7 @@ def decode_choice(choice, per_bytes):    # 23
             if len(choice.rootComponent.namedTypes) == 1:  # 23.4
                 logger.info("%s: length of choice list is 1", choice.__class__.__name__)
                 selected_type = choice.rootComponent.namedTypes[0]
-                selected_component = choice.getComponentByName(selected_type.name)
+                selected_component = selected_type.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...",
                             choice.__class__.__name__,
                             selected_type.name, selected_component.__class__.__name__)
@@ -569,7 +569,7 @@ def decode_choice(choice, per_bytes):    # 23
             else:
                 index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
                 namedType = choice.rootComponent.namedTypes[index]
-                selected_component = choice.getComponentByPosition(index)
+                selected_component = namedType.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...",
                             choice.__class__.__name__,
                             namedType.name, selected_component.__class__.__name__, index)
@@ -595,7 +595,7 @@ def decode_choice(choice, per_bytes):    # 23
                              choice.__class__.__name__)
                 raise NotImplemented
             namedType = choice_extension.namedTypes[index]
-            selected_component = choice.getComponentByName(namedType.name)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices). Decoding...",
                         choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
-- 
2.43.0


From 7341e4a38f98a72de397f225470df799355edb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:52 +0000
Subject: [PATCH 18/57] fix: DEFAULT of BIT STRING was compared without its
 length, DEFAULT of constructed type raised

---
 asn1PERser/codec/per/encoder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index e25c3e5..a575e5d 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -235,6 +235,13 @@ def encode_octetstring(octetstring):
             return octetstring_length_determinant + [octetstring_bit_field]
 
 
+def is_default_value(namedType, component):
+    default_field_list, component_field_list = [], []
+    namedType.asn1Object.fill_field_list(default_field_list)
+    component.fill_field_list(component_field_list)
+    return default_field_list == component_field_list
+
+
 def encode_sequence(sequence):    # 19
     sequence_field_list = []
     rootComponentFieldList = []
@@ -258,7 +265,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType._NamedType__type._value != componentType._value:    # hacky...:) no other way for now
+            if not is_default_value(namedType, componentType):
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
-- 
2.43.0


From 4a2a202cd92a3d4b27ef6802a3811963371c387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:21 +0000
Subject: [PATCH 19/57] fix: OPTIONAL SEQUENCE OF without components was
 encoded as absent, and reading an absent OPTIONAL SEQUENCE made it present

---
 asn1PERser/codec/per/encoder.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index a575e5d..8466224 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -1,6 +1,7 @@
 from collections import namedtuple
 from collections import defaultdict
 import codecs
+from pyasn1.type.univ import Sequence, noValue
 
 
 __all__ = ['encode']
@@ -235,6 +236,18 @@ def encode_octetstring(octetstring):
             return octetstring_length_determinant + [octetstring_bit_field]
 
 
+def has_component_values(component):
+    # SEQUENCE which has only optional components counts as a value as soon as it is instantiated (which happens
+    # also when it is only read), so it is present only if any of its components was given a value
+    if not isinstance(component, Sequence):
+        return True
+    for namedType, value in zip(component.componentType.namedTypes, component.components):
+        if value is not noValue and value.isValue:
+            if not namedType.isOptional or not hasattr(value, '_componentValues') or has_component_values(value):
+                return True
+    return False
+
+
 def is_default_value(namedType, component):
     default_field_list, component_field_list = [], []
     namedType.asn1Object.fill_field_list(default_field_list)
@@ -254,7 +267,7 @@ def encode_sequence(sequence):    # 19
                     optional_default_bit_field_value += '1'
                     componentType.fill_field_list(rootComponentFieldList)
                 else:
-                    if len(componentType._componentValues) > 0:
+                    if has_component_values(componentType):
                         optional_default_bit_field_value += '1'
                         componentType.fill_field_list(rootComponentFieldList)
                     else:
@@ -299,7 +312,7 @@ def encode_sequence(sequence):    # 19
                             open_type_field_list = encode_open_type_field(extensionComponentType)
                             extension_addition_field_list.extend(open_type_field_list)
                         else:
-                            if len(extensionComponentType._componentValues) > 0:
+                            if has_component_values(extensionComponentType):
                                 extension_addition_bit_field_value += '1'
                                 open_type_field_list = encode_open_type_field(extensionComponentType)
                                 extension_addition_field_list.extend(open_type_field_list)
@@ -324,7 +337,7 @@ def encode_sequence(sequence):    # 19
                                 extension_addition_group_present = True
                                 previous_extension_addition_group_component_present = True
                             else:
-                                if len(extensionComponentType._componentValues) > 0:
+                                if has_component_values(extensionComponentType):
                                     extension_addition_group_present = True
                                     previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
-- 
2.43.0


From ecaa579d3714dcea42ba5cf462984b254d8cc475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:49 +0000
Subject: [PATCH 20/57] fix: extension addition with DEFAULT was always encoded
 as present

---
 asn1PERser/codec/per/encoder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 8466224..e9a23fa 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -303,7 +303,7 @@ def encode_sequence(sequence):    # 19
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
-                    if extensionComponentType.isValue:
+                    if extensionComponentType.isValue and not (namedType.isDefaulted and is_default_value(namedType, extensionComponentType)):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
@@ -322,7 +322,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '0'
                     previous_extensionComponent = {'name': namedType.name,
                                                    'present': bool(int(extension_addition_bit_field_value[-1])),
-                                                   'optional': namedType.isOptional}
+                                                   'optional': namedType.isOptional or namedType.isDefaulted}
             if sequence.extensionAdditionGroups:
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
@@ -330,7 +330,7 @@ def encode_sequence(sequence):    # 19
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
                         extensionComponentType = sequence.getComponentByName(namedType.name)
-                        if extensionComponentType.isValue:
+                        if extensionComponentType.isValue and not (namedType.isDefaulted and is_default_value(namedType, extensionComponentType)):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
                             if not hasattr(extensionComponentType, '_componentValues'):
@@ -342,7 +342,7 @@ def encode_sequence(sequence):    # 19
                                     previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
-                                                            'optional': namedType.isOptional}
+                                                            'optional': namedType.isOptional or namedType.isDefaulted}
                         extension_group_components[index_group].append(previous_extensionGroupComponent)
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
-- 
2.43.0


From 44ea2d66954052c0b3662002e5f89b9857d44a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:51 +0000
Subject: [PATCH 21/57] fix: a missing mandatory extension addition was noticed
 only if the very next one was present

---
 asn1PERser/codec/per/encoder.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index e9a23fa..7246e23 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -300,12 +300,13 @@ def encode_sequence(sequence):    # 19
             extension_addition_field_list = []
             encoded_extension_addition_groups = []
             extension_group_components = defaultdict(list)
+            missing_extension = None    # first mandatory extension addition (or group) which is not present
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
                     if extensionComponentType.isValue and not (namedType.isDefaulted and is_default_value(namedType, extensionComponentType)):
-                        if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
-                            raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
+                        if missing_extension is not None:
+                            raise MandatoryExtensionFieldNotPresent(missing_extension)
 
                         if not hasattr(extensionComponentType, '_componentValues'):
                             extension_addition_bit_field_value += '1'
@@ -323,6 +324,8 @@ def encode_sequence(sequence):    # 19
                     previous_extensionComponent = {'name': namedType.name,
                                                    'present': bool(int(extension_addition_bit_field_value[-1])),
                                                    'optional': namedType.isOptional or namedType.isDefaulted}
+                    if (missing_extension is None) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
+                        missing_extension = namedType.name
             if sequence.extensionAdditionGroups:
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
@@ -346,13 +349,11 @@ def encode_sequence(sequence):    # 19
                         extension_group_components[index_group].append(previous_extensionGroupComponent)
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
+                        if (missing_extension is None) and not any(component['optional'] for component in extension_group_components[index_group]):
+                            missing_extension = extension_group_components[index_group][0]['name']
                     else:
-                        if (index_group > 1):
-                            for previous_extension_group_component in extension_group_components[index_group - 1]:
-                                if previous_extension_group_component['present'] or previous_extension_group_component['optional']:
-                                    break
-                            else:
-                                raise MandatoryExtensionFieldNotPresent(extension_group_components[index_group - 1][0]['name'])
+                        if missing_extension is not None:
+                            raise MandatoryExtensionFieldNotPresent(missing_extension)
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-- 
2.43.0


From ba6a016b722de1f64cf066195e2b663252b4f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:40 +0000
Subject: [PATCH 22/57] fix: SEQUENCE without components, or with mandatory
 components only in its extension, was not a value when empty

---
 asn1PERser/classes/data/builtin/SequenceType.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 21f88c2..90263dc 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -17,11 +17,13 @@ class SequenceType(Sequence):
         if base_isValue:
             return base_isValue
         if self.components is noValue:
-            return False
+            return self.rootComponent is not None and not self.componentType    # SEQUENCE without any component
         for component in self.components:
             if component is not noValue and component.isValue:
                 return True
-        return False
+        # only extension additions are mandatory
+        return self.rootComponent is not None and all(namedType.isOptional or namedType.isDefaulted
+                                                      for namedType in self.rootComponent.namedTypes)
 
     def fill_field_list(self, field_list):
         sequence_field_list = encode_sequence(self)
-- 
2.43.0


From d07d3c2f6bba02cc39ed9317a3135f4189275c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:44 +0000
Subject: [PATCH 23/57] fix: to_dict() instantiated absent components of
 SEQUENCE and could show them as present

---
 asn1PERser/classes/data/builtin/SequenceType.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 90263dc..eb8a7e7 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -36,11 +36,14 @@ class SequenceType(Sequence):
 
     def to_dict(self, is_root=True):
         component_dict = OrderedDict()
-        for componentType, componentValue in self.items():
-            if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
+        for idx, namedType in enumerate(self.componentType.namedTypes):
+            componentValue = self.getComponentByPosition(idx, instantiate=False)    # do not make absent component present
+            if componentValue is noValue and namedType.isDefaulted:
+                componentValue = namedType.asn1Object
+            if componentValue is not noValue:
                 value_dict = componentValue.to_dict(is_root=False)
                 if value_dict is not noValue:
-                    component_dict[componentType] = value_dict
+                    component_dict[namedType.name] = value_dict
 
         if is_root:
             return component_dict
-- 
2.43.0


From 73a8fd9dc630796f83eb9b8a1cf1defa87d59a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:46 +0000
Subject: [PATCH 24/57] fix: to_dict() dropped empty SEQUENCE and SEQUENCE OF
 from SEQUENCE OF, CHOICE and SEQUENCE

---
 asn1PERser/classes/data/builtin/ChoiceType.py     | 5 +----
 asn1PERser/classes/data/builtin/SequenceOfType.py | 8 +-------
 2 files changed, 2 insertions(+), 11 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index 92e5cd7..b0f0e83 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -22,7 +22,4 @@ class ChoiceType(Choice):
     def to_dict(self, is_root=True):
         for componentType, componentValue in self.items():
             if componentValue is not noValue and componentValue.isValue:
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    return {componentType: value_dict}
-                return {}
+                return {componentType: componentValue.to_dict()}
diff --git a/asn1PERser/classes/data/builtin/SequenceOfType.py b/asn1PERser/classes/data/builtin/SequenceOfType.py
index 1fc7c2d..d87b877 100644
--- a/asn1PERser/classes/data/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/data/builtin/SequenceOfType.py
@@ -20,12 +20,6 @@ class SequenceOfType(SequenceOf):
         component_list = []
         for componentValue in self:
             if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_list.append(value_dict)
+                component_list.append(componentValue.to_dict())
 
-        if is_root:
-            return component_list
-        if not component_list:
-            return noValue
         return component_list
-- 
2.43.0


From d91a10e9e2efd03d82725bbdfab001125311c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:09 +0000
Subject: [PATCH 25/57] fix: SEQUENCE OF with SIZE(0) accepted components

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7246e23..40a3e00 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -400,7 +400,7 @@ def encode_sequence_of(sequence_of):    # 20
             return [extension_bit_field] + length_determinant + sequence_of_field_list
     elif n < sequence_of.subtypeSpec.lowerEndpoint:
         raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
-    elif sequence_of.subtypeSpec.upperEndpoint and (n > sequence_of.subtypeSpec.upperEndpoint):
+    elif (sequence_of.subtypeSpec.upperEndpoint is not None) and (n > sequence_of.subtypeSpec.upperEndpoint):
         raise InvalidComponentIndexIntoStructuredType('invalid index: {}'.format(sequence_of.subtypeSpec.upperEndpoint + 1))
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
-- 
2.43.0


From 2c6f8a705eb549c06a590a5632087697885e4b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:11 +0000
Subject: [PATCH 26/57] fix: bounds of ConstraintAnd were not the intersection,
 ConstraintOr did not accept MIN and MAX

---
 asn1PERser/classes/types/constraint.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 60bfbed..dfd936b 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -89,8 +89,10 @@ class ValueSize(ValueSizeConstraint):
 class ConstraintOr(ConstraintsUnion):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints]
+        self.lowerEndpoint = None if None in lower_endpoints else min(lower_endpoints)
+        self.upperEndpoint = None if None in upper_endpoints else max(upper_endpoints)
         super(ConstraintOr, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
@@ -101,8 +103,10 @@ class ConstraintOr(ConstraintsUnion):
 class ConstraintAnd(ConstraintsIntersection):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints if constraint.lowerEndpoint is not None]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints if constraint.upperEndpoint is not None]
+        self.lowerEndpoint = max(lower_endpoints) if lower_endpoints else None
+        self.upperEndpoint = min(upper_endpoints) if upper_endpoints else None
         super(ConstraintAnd, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 11aee14ec7112286add9d9aaf5301b5433a8ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:41 +0000
Subject: [PATCH 27/57] fix: numbers above the upper bound of an extensible
 constraint were accepted by decoder as root values

---
 asn1PERser/codec/per/decoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index fd7a6f1..fe18975 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -620,9 +620,15 @@ def decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint, up
                                                                    upperBound=upperBound)
 
         val = per_bytes.next(bit_field_size(octets=constrained_length_determinant, bits=0), octet_align=True)
+        check_upper_bound(lowerEndpoint + val, upperEndpoint)
         return lowerEndpoint + val
 
 
+def check_upper_bound(value, upperBound):
+    if value > upperBound:
+        raise PerDecodingException("Constrained whole number {} is greater than its upper bound {}".format(value, upperBound))
+
+
 def decode_semi_constrained_whole_number_from_field_list(per_bytes, lowerBound):
     logger.debug("function: decode_semi_constrained_whole_number_from_field_list; params: per_bytes: (hidden), lowerBound: %s",
                  lowerBound)
@@ -679,6 +685,7 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
                                                                          octet_align=True,
                                                                          minimum_number_of_octets=True)
         return non_negative_binary_integer
+    check_upper_bound(lowerBound + non_negative_binary_integer, upperBound)
     return lowerBound + non_negative_binary_integer
 
 
-- 
2.43.0


From 9a98c023527b30a25d0d28baa8d5ff96ba8b4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:10 +0000
Subject: [PATCH 28/57] fix: numbers outside of an extension root without lower
 bound were accepted by decoder as root values

---
 asn1PERser/codec/per/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index fe18975..a86723e 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,7 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, is_within_extension_root
 
 
 __all__ = ['decode']
@@ -103,6 +103,8 @@ def decode_integer(integer, per_bytes):
                                                                                     lowerBound=integer.subtypeSpec.lowerEndpoint)
             else:
                 whole_number = decode_unconstrained_whole_number(per_bytes)
+            if not is_within_extension_root(whole_number, integer.subtypeSpec):
+                raise PerDecodingException("{} is outside of extension root".format(whole_number))
             logger.info("%s: value: %s", integer.__class__.__name__, whole_number)
             logger.info("%s: decoding finished.", integer.__class__.__name__)
             return integer.__class__(whole_number)
-- 
2.43.0


From a509fae869b65067f2a6c97015ada6efc8a557d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:48 +0000
Subject: [PATCH 29/57] fix: decoder accepted fewer components or a shorter
 string than allowed when the upper bound is not set

---
 asn1PERser/codec/per/decoder.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a86723e..7cffd7e 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -236,6 +236,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            check_size(bitstring_length_determinant, bitstring)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant),
                                            octet_align=bitstring_length_determinant > 0)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
@@ -316,6 +317,7 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            check_size(octetstring_length_determinant, octetstring)
             if octetstring_length_determinant == 0:
                 logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
@@ -452,6 +454,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
+            check_size(length_determinant, sequence_of)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -512,6 +515,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=None)
+            check_size(length_determinant, sequence_of)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -631,6 +635,11 @@ def check_upper_bound(value, upperBound):
         raise PerDecodingException("Constrained whole number {} is greater than its upper bound {}".format(value, upperBound))
 
 
+def check_size(size, type):
+    if not is_within_extension_root(size, type.subtypeSpec):
+        raise PerDecodingException("Size {} violates constraint of {}".format(size, type.__class__.__name__))
+
+
 def decode_semi_constrained_whole_number_from_field_list(per_bytes, lowerBound):
     logger.debug("function: decode_semi_constrained_whole_number_from_field_list; params: per_bytes: (hidden), lowerBound: %s",
                  lowerBound)
-- 
2.43.0


From c7b41e83c80d5ffbf5ca2970cda1865a539c3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 30/57] fix: OPTIONAL SEQUENCE which was set without
 components, or decoded as such, was encoded as absent, and reading DEFAULT
 component of an absent SEQUENCE made it present

---
 asn1PERser/classes/data/builtin/SequenceType.py | 16 +++++++++++++++-
 asn1PERser/codec/per/encoder.py                 | 11 ++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index eb8a7e7..40ad774 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -1,6 +1,6 @@
 from collections import OrderedDict
 from pyasn1.type.univ import Sequence, noValue
-from asn1PERser.codec.per.encoder import encode_sequence
+from asn1PERser.codec.per.encoder import encode_sequence, has_component_values
 from asn1PERser.codec.per.decoder import decode_sequence
 from asn1PERser.classes.types.constraint import NoConstraint
 
@@ -10,6 +10,20 @@ class SequenceType(Sequence):
     rootComponent = None
     extensionAddition = None
     extensionAdditionGroups = []
+    instantiated_by_access = False    # component of other SEQUENCE, which was read but never set
+
+    def setComponentByPosition(self, idx, value=noValue, *args, **kwargs):
+        super(SequenceType, self).setComponentByPosition(idx, value, *args, **kwargs)
+        component = self._componentValues[idx]
+        if isinstance(component, SequenceType):
+            component.instantiated_by_access = value is noValue
+        return self
+
+    def getComponentByPosition(self, idx, default=noValue, instantiate=True):
+        component = super(SequenceType, self).getComponentByPosition(idx, default=default, instantiate=instantiate)
+        if not instantiate and component is not default and not has_component_values(component):
+            return default
+        return component
 
     @property
     def isValue(self):
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 40a3e00..c590962 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -238,13 +238,14 @@ def encode_octetstring(octetstring):
 
 def has_component_values(component):
     # SEQUENCE which has only optional components counts as a value as soon as it is instantiated (which happens
-    # also when it is only read), so it is present only if any of its components was given a value
-    if not isinstance(component, Sequence):
+    # also when it is only read or encoded), so unless it was set it is present only if any of its components was
+    if not isinstance(component, Sequence) or not getattr(component, 'instantiated_by_access', False):
         return True
     for namedType, value in zip(component.componentType.namedTypes, component.components):
-        if value is not noValue and value.isValue:
-            if not namedType.isOptional or not hasattr(value, '_componentValues') or has_component_values(value):
-                return True
+        if value is noValue or value is namedType.asn1Object or not value.isValue:
+            continue
+        if has_component_values(value) and not (namedType.isDefaulted and is_default_value(namedType, value)):
+            return True
     return False
 
 
-- 
2.43.0


From a710c7dc8b8b83169e7619fb01fd242ec563d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:29 +0000
Subject: [PATCH 31/57] fix: encode() instantiated absent components of the
 message, which changed how it is printed and compared

---
 asn1PERser/codec/per/encoder.py | 60 +++++++++++++--------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index c590962..4db5bc1 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -256,35 +256,35 @@ def is_default_value(namedType, component):
     return default_field_list == component_field_list
 
 
+def get_component(sequence, namedType):
+    # component is noValue if it is absent; it must not be instantiated, as message would change when it is encoded
+    return sequence.getComponentByName(namedType.name, instantiate=False)
+
+
 def encode_sequence(sequence):    # 19
     sequence_field_list = []
     rootComponentFieldList = []
     optional_default_bit_field_value = ''
     for namedType in sequence.rootComponent.namedTypes:
-        componentType = sequence.getComponentByName(namedType.name)
+        componentType = get_component(sequence, namedType)
         if namedType.isOptional:    # 19.2
-            if componentType.isValue:
-                if not hasattr(componentType, '_componentValues'):
-                    optional_default_bit_field_value += '1'
-                    componentType.fill_field_list(rootComponentFieldList)
-                else:
-                    if has_component_values(componentType):
-                        optional_default_bit_field_value += '1'
-                        componentType.fill_field_list(rootComponentFieldList)
-                    else:
-                        optional_default_bit_field_value += '0'
+            if componentType is not noValue:
+                optional_default_bit_field_value += '1'
+                componentType.fill_field_list(rootComponentFieldList)
             else:
                 optional_default_bit_field_value += '0'
         elif namedType.isDefaulted:    # 19.2
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if not is_default_value(namedType, componentType):
+            if componentType is not noValue and not is_default_value(namedType, componentType):
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
                 optional_default_bit_field_value += '0'
         else:
+            if componentType is noValue:
+                componentType = namedType.asn1Object
             componentType.fill_field_list(rootComponentFieldList)
     if optional_default_bit_field_value:
         if len(optional_default_bit_field_value) < 65536:    # 19.3
@@ -304,22 +304,13 @@ def encode_sequence(sequence):    # 19
             missing_extension = None    # first mandatory extension addition (or group) which is not present
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
-                    extensionComponentType = sequence.getComponentByName(namedType.name)
-                    if extensionComponentType.isValue and not (namedType.isDefaulted and is_default_value(namedType, extensionComponentType)):
+                    extensionComponentType = get_component(sequence, namedType)
+                    if extensionComponentType is not noValue and not (namedType.isDefaulted and is_default_value(namedType, extensionComponentType)):
                         if missing_extension is not None:
                             raise MandatoryExtensionFieldNotPresent(missing_extension)
-
-                        if not hasattr(extensionComponentType, '_componentValues'):
-                            extension_addition_bit_field_value += '1'
-                            open_type_field_list = encode_open_type_field(extensionComponentType)
-                            extension_addition_field_list.extend(open_type_field_list)
-                        else:
-                            if has_component_values(extensionComponentType):
-                                extension_addition_bit_field_value += '1'
-                                open_type_field_list = encode_open_type_field(extensionComponentType)
-                                extension_addition_field_list.extend(open_type_field_list)
-                            else:
-                                extension_addition_bit_field_value += '0'
+                        extension_addition_bit_field_value += '1'
+                        open_type_field_list = encode_open_type_field(extensionComponentType)
+                        extension_addition_field_list.extend(open_type_field_list)
                     else:
                         extension_addition_bit_field_value += '0'
                     previous_extensionComponent = {'name': namedType.name,
@@ -333,17 +324,12 @@ def encode_sequence(sequence):    # 19
                     previous_extensionGroupComponent = {}
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
-                        extensionComponentType = sequence.getComponentByName(namedType.name)
-                        if extensionComponentType.isValue and not (namedType.isDefaulted and is_default_value(namedType, extensionComponentType)):
+                        extensionComponentType = get_component(sequence, namedType)
+                        if extensionComponentType is not noValue and not (namedType.isDefaulted and is_default_value(namedType, extensionComponentType)):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
-                            if not hasattr(extensionComponentType, '_componentValues'):
-                                extension_addition_group_present = True
-                                previous_extension_addition_group_component_present = True
-                            else:
-                                if has_component_values(extensionComponentType):
-                                    extension_addition_group_present = True
-                                    previous_extension_addition_group_component_present = True
+                            extension_addition_group_present = True
+                            previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
                                                             'optional': namedType.isOptional or namedType.isDefaulted}
@@ -358,7 +344,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-                            componentType = sequence.getComponentByName(namedType.name)
+                            componentType = get_component(sequence, namedType)
                             group_sequence._componentValues.append(componentType)
                         encoded = encode_open_type_field(group_sequence)
                         encoded_extension_addition_groups.extend(encoded)
@@ -718,7 +704,7 @@ def create_new_fake_empty_sequence(rootComponent):
             if sequence_field_list:
                 field_list.extend(sequence_field_list)
 
-        def getComponentByName(self, name):
+        def getComponentByName(self, name, instantiate=True):
             idx = self.rootComponent.getPositionByName(name)
             return self._componentValues[idx]
 
-- 
2.43.0


From 9ceb706c62ff30687f588117ce33e78dbbbf7deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:08 +0000
Subject: [PATCH 32/57] fix: BIT STRING with DEFAULT ''H generated a module
 that could not be imported

---
 README.md                                        | 11 -----------
 asn1PERser/classes/data/builtin/BitStringType.py |  6 ++++++
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/README.md b/README.md
index 69429c0..1d6f8e4 100644
--- a/README.md
+++ b/README.md
@@ -556,17 +556,6 @@ Above will print logging.INFO level logs to console.
 See CHANGES file.
 
 ## Known bugs
-- Defining BitStringType type with default hexValue set to empty string (''), like:
-```
-...
-d15     BIT STRING DEFAULT ''H,
-...
-```
-will parse to Python code but running it will cause exception:
-```
-pyasn1.error.PyAsn1Error: BitStringType.fromHexString() error: invalid literal for int() with base 16: ''
-```
-
 - This will parse, but sorting algorith may not sort it corretly:
 ```
     
diff --git a/asn1PERser/classes/data/builtin/BitStringType.py b/asn1PERser/classes/data/builtin/BitStringType.py
index 8b9b62a..337b707 100644
--- a/asn1PERser/classes/data/builtin/BitStringType.py
+++ b/asn1PERser/classes/data/builtin/BitStringType.py
@@ -7,6 +7,12 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class BitStringType(BitString):
     subtypeSpec = NoConstraint()
 
+    @classmethod
+    def fromHexString(cls, value, internalFormat=False, prepend=None):
+        if not value:
+            return cls.fromBinaryString(value, internalFormat, prepend)
+        return super(BitStringType, cls).fromHexString(value, internalFormat, prepend)
+
     def fill_field_list(self, field_list):
         bitstring_field_list = encode_bitstring(self)
         if bitstring_field_list:
-- 
2.43.0


From dbef79c63fd5f9abc0c1ea6f5685cdf941e9bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:49 +0000
Subject: [PATCH 33/57] fix: numbers of ENUMERATED items generated a module
 that could not be imported

---
 .../classes/types/builtin/EnumeratedType.py   | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index b96cd3c..9e72cf8 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -13,18 +13,29 @@ class EnumeratedType(SimpleType):
         root_named_values = []
         addition_named_values = []
         extension_marker_present = False
+        used_numbers = self._get_root_numbers()
         enumeration_index = 0
         for EnumerationItem in self.EnumerationItems:
             if EnumerationItem == '...':
                 extension_marker_present = True
+                enumeration_index = 0
                 continue
+            if isinstance(EnumerationItem, dict):
+                (number, name), = EnumerationItem.items()
+                number = int(number)
+            else:
+                name = EnumerationItem
+                while enumeration_index in used_numbers:
+                    enumeration_index += 1
+                number = enumeration_index
+            used_numbers.add(number)
             if not extension_marker_present:
-                root_named_values.append({'field_name': str(EnumerationItem).strip(),
-                                          'field_index': enumeration_index})
+                root_named_values.append({'field_name': str(name).strip(),
+                                          'field_index': number})
             else:
-                addition_named_values.append({'field_name': str(EnumerationItem).strip(),
-                                              'field_index': enumeration_index})
-            enumeration_index += 1
+                enumeration_index = number + 1
+                addition_named_values.append({'field_name': str(name).strip(),
+                                              'field_index': number})
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
@@ -38,6 +49,15 @@ class EnumeratedType(SimpleType):
         already_filled_template.add(filled_template)
         return filled_template
 
+    def _get_root_numbers(self):
+        numbers = set()
+        for EnumerationItem in self.EnumerationItems:
+            if EnumerationItem == '...':
+                break
+            if isinstance(EnumerationItem, dict):
+                numbers.update(int(number) for number in EnumerationItem)
+        return numbers
+
     @property
     def EnumerationItems(self):
         return self._EnumerationItems
-- 
2.43.0


From 1d0ff294d41f54bfe018bc3281ba91abde499791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:53 +0000
Subject: [PATCH 34/57] fix: constraint additions after extension marker were
 taken as root of the constraint

---
 asn1PERser/classes/parse_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 1f0a662..a156dbd 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -184,6 +184,6 @@ def parse_Constraint(toks):
     parsed = list(Constraint.parseString(constraint))
     ext_mark = False
     if '...' in parsed:
-        parsed.remove('...')
+        parsed = parsed[:parsed.index('...')]    # root only; values after marker are not PER-visible
         ext_mark = True
     return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
-- 
2.43.0


From c334b163d06af0a6e95019949d2f564f36398f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:57 +0000
Subject: [PATCH 35/57] fix: extension marker after SIZE constraint was lost

---
 asn1PERser/classes/parse_actions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index a156dbd..fb633b2 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -179,6 +179,8 @@ def parse_EnumeratedType(toks):
 def parse_Constraint(toks):
     constraint = toks[0]
     if constraint[0] == 'SIZE':
+        if '...' in ' '.join(token for token in constraint[2:] if isinstance(token, str)):
+            return constraint[1]._replace(extensionMarker=True)
         return constraint[1]
     constraint = '(' + ' '.join(constraint) + ')'
     parsed = list(Constraint.parseString(constraint))
-- 
2.43.0


From 7eb0a650e524078ff31f67f7ae607aea237fa44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:00 +0000
Subject: [PATCH 36/57] fix: reference with hyphen to a value in a constraint
 generated a module that could not be imported

---
 asn1PERser/classes/parse_actions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index fb633b2..160cb4f 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -188,4 +188,11 @@ def parse_Constraint(toks):
     if '...' in parsed:
         parsed = parsed[:parsed.index('...')]    # root only; values after marker are not PER-visible
         ext_mark = True
-    return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
+    return constraint_tuple(lowerEndpoint=_to_python_name(parsed[0]), upperEndpoint=_to_python_name(parsed[-1]),
+                            extensionMarker=ext_mark)
+
+
+def _to_python_name(endpoint):
+    if endpoint[0].isalpha():
+        return endpoint.replace('-', '_')
+    return endpoint
-- 
2.43.0


From c5b5f85821be62c73297cbacdd4a2d350d736728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:02 +0000
Subject: [PATCH 37/57] fix: root components after second extension marker were
 generated as extension additions

---
 asn1PERser/classes/types/builtin/SequenceType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 4013c19..a8eadda 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -18,6 +18,7 @@ class SequenceType(ComponentType):
         single_extension_group = []
         in_extension_addition_group = False
         extension_marker_present = False
+        in_extension = False
         for ComponentType in self.ComponentTypeList:
             if ComponentType == '[[':
                 in_extension_addition_group = True
@@ -30,10 +31,11 @@ class SequenceType(ComponentType):
             if in_extension_addition_group:
                 single_extension_group.append(self._fill_named_types(ComponentType))
             if ComponentType == '...':
+                in_extension = not extension_marker_present    # second marker ends extension additions
                 extension_marker_present = True
                 continue
             if not in_extension_addition_group:
-                if not extension_marker_present:
+                if not in_extension:
                     root_named_types.append(self._fill_named_types(ComponentType))
                 else:
                     addition_named_types.append(self._fill_named_types(ComponentType))
-- 
2.43.0


From d7c55c8cc9f2c7825603dd5a3934e7b905b6c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:06 +0000
Subject: [PATCH 38/57] fix: CHOICE alternative after an extension addition
 group was generated in front of the group

---
 asn1PERser/classes/types/builtin/ChoiceType.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/classes/types/builtin/ChoiceType.py b/asn1PERser/classes/types/builtin/ChoiceType.py
index 658a2f5..201211b 100644
--- a/asn1PERser/classes/types/builtin/ChoiceType.py
+++ b/asn1PERser/classes/types/builtin/ChoiceType.py
@@ -35,6 +35,8 @@ class ChoiceType(ComponentType):
             if not in_extension_addition_group:
                 if not extension_marker_present:
                     root_alternatives_types.append(self._fill_named_types(AlternativeType))
+                elif extension_addition_groups:    # groups come last, so this keeps order of alternatives
+                    extension_addition_groups.append([self._fill_named_types(AlternativeType)])
                 else:
                     addition_alternatives_types.append(self._fill_named_types(AlternativeType))
             if AlternativeType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-- 
2.43.0


From 56500c6e9dd0d05154eda3869d2c24a5900cab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:09 +0000
Subject: [PATCH 39/57] fix: types and values could be placed above the types
 and values they refer to, which caused NameError

---
 README.md                    | 34 ---------------------------------
 asn1PERser/classes/module.py | 37 +++++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/README.md b/README.md
index 1d6f8e4..badfaaf 100644
--- a/README.md
+++ b/README.md
@@ -20,7 +20,6 @@ Table of contents:
 3. [Dictionary creation](#dictionary-creation)
 4. [Additional info](#additional-info)
 5. [History](#history)
-6. [Known bugs](#known-bugs)
 
 ## Examples
 Following ASN.1 schema:
@@ -554,36 +553,3 @@ Above will print logging.INFO level logs to console.
 ## History
 
 See CHANGES file.
-
-## Known bugs
-- This will parse, but sorting algorith may not sort it corretly:
-```
-    
-    MySeq2 ::= MySeq1   -- ok since one level of nesting is ok
-
-    MySeq3 ::= MySeq1   -- ok since one level of nesting is ok
-    
-    MySeq1 ::= SEQUENCE {
-        d00     INTEGER
-    }
-
-    MySeq4 ::= MySeq2   -- NOT OK! 2nd level of nesting 
-```
-This will parse into:
-```python
-MySeq4 = MySeq2
-
-
-class MySeq1(SequenceType):
-    rootComponent = AdditiveNamedTypes(
-        NamedType('d00', IntegerType()),
-    )
-    componentType = rootComponent
-
-
-MySeq3 = MySeq1
-
-
-MySeq2 = MySeq1
-```
-so Python will not find MySeq2 - this will lead to NameError.
diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1007edd..405fcb2 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -58,7 +58,42 @@ class ModuleDefinition(Template):
                 component_type_assignments.append(assignment)
         component_type_assignments = self.sort_components(component_type_assignments)
         type_type_assignments, component_type_assignments = self.additional_sort(type_type_assignments, component_type_assignments)
-        return [] + value_assignments + simple_type_assignments + type_type_assignments + constant_assignments + component_type_assignments
+        return self.sort_by_dependencies(value_assignments + simple_type_assignments + type_type_assignments +
+                                         constant_assignments + component_type_assignments)
+
+    def sort_by_dependencies(self, assignments):
+        assignment_by_name = {self._get_assignment_name(assignment): assignment for assignment in assignments}
+        sorted_names = set()
+        sorted_assignments = []
+
+        def append_after_dependencies(assignment):
+            name = self._get_assignment_name(assignment)
+            if name in sorted_names:
+                return
+            sorted_names.add(name)
+            for dependency in self._get_dependencies(assignment):
+                if dependency in assignment_by_name:
+                    append_after_dependencies(assignment_by_name[dependency])
+            sorted_assignments.append(assignment)
+
+        for assignment in assignments:
+            append_after_dependencies(assignment)
+        return sorted_assignments
+
+    def _get_assignment_name(self, assignment):
+        name = assignment.valuereference or assignment.identifier or assignment.typereference
+        return name.replace('-', '_')
+
+    def _get_dependencies(self, Type):
+        dependencies = [Type.constraint.lowerEndpoint, Type.constraint.upperEndpoint, Type.default, Type.Value]
+        if isinstance(Type, DefType):
+            dependencies.append(Type.typereference)
+        dependencies = [name.replace('-', '_') for name in dependencies if isinstance(name, str)]
+        if isinstance(Type, ComponentType):
+            for subcomponent in Type:
+                if not isinstance(subcomponent, str):
+                    dependencies += self._get_dependencies(subcomponent)
+        return dependencies
 
     def sort_components(self, component_type_assignments):
         MAX_ITERATIONS = 100
-- 
2.43.0


From a44a4f6613d4a0f5551b79da9a980b73798371c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:36 +0000
Subject: [PATCH 40/57] fix: type of SEQUENCE OF elements that is defined in
 place lost its constraint, or was generated under the name of its base class

---
 .../templates/files/SequenceOfType.txt        |  5 +++
 .../classes/types/builtin/SequenceOfType.py   | 32 +++++++++++++++----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/templates/files/SequenceOfType.txt b/asn1PERser/classes/templates/files/SequenceOfType.txt
index f1c1cd7..afd9b8d 100644
--- a/asn1PERser/classes/templates/files/SequenceOfType.txt
+++ b/asn1PERser/classes/templates/files/SequenceOfType.txt
@@ -1,4 +1,9 @@
 class {{ class_name }}({{ class_type }}):
+{%- filter indent(width=4) %}
+{%- for template in subtemplates %}
+{{ template }}
+{%- endfor %}
+{%- endfilter %}
 {%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
diff --git a/asn1PERser/classes/types/builtin/SequenceOfType.py b/asn1PERser/classes/types/builtin/SequenceOfType.py
index b698562..07b478b 100644
--- a/asn1PERser/classes/types/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/types/builtin/SequenceOfType.py
@@ -1,6 +1,6 @@
 from ..type import ComponentType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template
+from asn1PERser.classes.module import already_filled_template, typereference_to_type
 
 
 class SequenceOfType(ComponentType):
@@ -10,22 +10,42 @@ class SequenceOfType(ComponentType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
+        subtypes_templates = []
+        components_templates = []
+        field_type = self.ComponentType.template_field_type
+        if self._is_component_defined_inline():
+            self.ComponentType.identifier = 'Element'
+            field_type = self.ComponentType.template_class_name
+            inner_defined_templates, subtypes_template = self.ComponentType.fill_template(has_parent=True)
+            subtypes_templates.append(subtypes_template[:-2])    # remove 2 last new line characters
+            if inner_defined_templates:
+                components_templates.extend(inner_defined_templates)
+        elif self.ComponentType.typereference not in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+            components_templates.append(self.ComponentType)
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
-                                               field_type=self.ComponentType.template_field_type,
+                                               subtemplates=subtypes_templates,
+                                               field_type=field_type,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
         if has_parent:
-            return ([self.ComponentType], filled_template)
+            return (components_templates, filled_template)
         if filled_template in already_filled_template:
             return ''
         already_filled_template.add(filled_template)
+        filled_component_template_str = ''
+        for component_template in components_templates:
+            if component_template.typereference in typereference_to_type.keys():
+                continue
+            filled_component_template_str += component_template.fill_template()
+        return filled_component_template_str + filled_template
+
+    def _is_component_defined_inline(self):
         if self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-            return filled_template
-        components_template = self.ComponentType.fill_template()
-        return components_template + filled_template
+            return self.ComponentType.is_constrained()
+        return self.ComponentType.typereference in ['ChoiceType', 'SequenceType', 'EnumeratedType', 'SequenceOfType']
 
     @property
     def ComponentType(self):
-- 
2.43.0


From 40b739a85eb7a0fb142a011b358155af9d1f4006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:10 +0000
Subject: [PATCH 41/57] fix: types and values of previously parsed schemas
 changed the code generated from the next one

---
 asn1PERser/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 61e044d..6c129cd 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,6 +1,6 @@
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
-from asn1PERser.classes.module import remove_comments
+from asn1PERser.classes.module import remove_comments, typereference_to_type, constants
 from asn1PERser.asn_definitions.module_def import ModuleDefinition
 from asn1PERser.logging_setup import asn1perser_logging_setup
 
@@ -10,6 +10,8 @@ __all__ = ['decode', 'encode', 'parse_asn1_schema']
 asn1perser_logging_setup()
 
 def parse_asn1_schema(asn1_schema, output_folder=None):
+    typereference_to_type.clear()
+    constants.clear()
     no_comment_schema = remove_comments(asn1_schema)
     parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
     return parsed_asn.create_python_template(path=output_folder)
-- 
2.43.0


From a99c8b45a4a12982fcf2ae0cce75852311c18a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 42/57] fix: value of ENUMERATED or constructed type made the
 parser loop forever

---
 asn1PERser/classes/types/builtin/DefinedType.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index fc3df2b..59d14c1 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -17,15 +17,14 @@ class DefinedType(DefType):
                                         typereference=self.typereference.replace('-', '_'))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
-            while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+            while isinstance(defined_type, DefinedType):
                 defined_type = typereference_to_type[defined_type.typereference]
-            defined_type.valuereference = self.valuereference
-            defined_type.typereference = self.typereference
-            defined_type.Value = self.Value
+            if not isinstance(defined_type, SimpleType):
+                raise NotImplementedError('value {} of constructed type {}'.format(self.valuereference, self.typereference))
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
                                         class_type=self.typereference.replace('-','_'),
-                                        value=defined_type.Value)
+                                        value=defined_type.parse_value(self.Value))
         if self.Value:
             defined_type.Value = self.Value
             return defined_type.fill_template()
-- 
2.43.0


From 5f64720657db40a976451d5456d1694e21375b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:18 +0000
Subject: [PATCH 43/57] fix: DEFAULT that is a reference to a value, or of a
 type that is an alias of other type, was lost or generated a module that
 could not be imported

---
 asn1PERser/classes/parse_actions.py           |  7 ++++---
 .../classes/types/builtin/BitStringType.py    |  7 ++++---
 .../classes/types/builtin/BooleanType.py      |  8 +++++---
 .../classes/types/builtin/EnumeratedType.py   |  7 +++++--
 .../classes/types/builtin/IntegerType.py      |  7 ++++++-
 .../classes/types/builtin/OctetStringType.py  |  7 ++++---
 .../classes/types/builtin/SequenceType.py     | 19 ++++++++++---------
 asn1PERser/classes/types/type.py              |  6 +++++-
 8 files changed, 43 insertions(+), 25 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 160cb4f..147937f 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -4,6 +4,7 @@ from asn1PERser.classes.types.builtin import SequenceType, DefinedType, \
     VisibleString, NumericString, IntegerType, DateType, RealType, BooleanType, \
     ChoiceType, EnumeratedType, IA5String, UTF8String, OctetStringType, \
     BitStringType, SequenceOfType, builtin_types
+from asn1PERser.classes.types.type import to_python_name
 from asn1PERser.classes.module import ModuleDefinition, typereference_to_type
 from asn1PERser.asn_definitions.constraint_def import Constraint
 
@@ -188,11 +189,11 @@ def parse_Constraint(toks):
     if '...' in parsed:
         parsed = parsed[:parsed.index('...')]    # root only; values after marker are not PER-visible
         ext_mark = True
-    return constraint_tuple(lowerEndpoint=_to_python_name(parsed[0]), upperEndpoint=_to_python_name(parsed[-1]),
+    return constraint_tuple(lowerEndpoint=_endpoint_to_python(parsed[0]), upperEndpoint=_endpoint_to_python(parsed[-1]),
                             extensionMarker=ext_mark)
 
 
-def _to_python_name(endpoint):
+def _endpoint_to_python(endpoint):
     if endpoint[0].isalpha():
-        return endpoint.replace('-', '_')
+        return to_python_name(endpoint)
     return endpoint
diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index f3b89f4..7dd42de 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -1,4 +1,4 @@
-from ..type import SimpleType
+from ..type import SimpleType, to_python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -26,7 +26,8 @@ class BitStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if value.endswith('B'):
+        if value.endswith("'B"):
             return "binValue={}".format(value[:-1])
-        if value.endswith('H'):
+        if value.endswith("'H"):
             return "hexValue={}".format(value[:-1])
+        return to_python_name(value)
diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 71f74c0..9afe12f 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -1,4 +1,4 @@
-from ..type import SimpleType
+from ..type import SimpleType, to_python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -9,7 +9,7 @@ class BooleanType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if isinstance(self.Value, bool):
+        if self.Value is not None:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
@@ -25,4 +25,6 @@ class BooleanType(SimpleType):
     def parse_value(self, value):
         if value == 'TRUE':
             return True
-        return False
+        if value == 'FALSE':
+            return False
+        return to_python_name(value)
diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index 9e72cf8..dbcd1d5 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -1,4 +1,4 @@
-from ..type import SimpleType
+from ..type import SimpleType, to_python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -70,7 +70,10 @@ class EnumeratedType(SimpleType):
             self._EnumerationItems.append({EnumerationItem[1]: EnumerationItem[0]})
 
     def parse_value(self, value):
-        return "'" + value + "'"
+        for EnumerationItem in self.EnumerationItems:
+            if value == EnumerationItem or isinstance(EnumerationItem, dict) and value in EnumerationItem.values():
+                return "'" + value + "'"
+        return to_python_name(value)
 
     def __repr__(self):
         return '\n\t'.join([super(EnumeratedType, self).__repr__()] + \
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 40c6107..9d2e6b0 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -1,4 +1,4 @@
-from ..type import SimpleType
+from ..type import SimpleType, to_python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -24,3 +24,8 @@ class IntegerType(SimpleType):
             already_filled_template.add(filled_template)
             return filled_template
         return ''
+
+    def parse_value(self, value):
+        if value[0].isalpha():
+            return to_python_name(value)
+        return value
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index e1f1cdc..df8cd71 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -1,4 +1,4 @@
-from ..type import SimpleType
+from ..type import SimpleType, to_python_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -26,7 +26,8 @@ class OctetStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
-        if value.endswith('B'):
+        if value.endswith("'B"):
             return "binValue={}".format(value[:-1])
-        if value.endswith('H'):
+        if value.endswith("'H"):
             return "hexValue={}".format(value[:-1])
+        return to_python_name(value)
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index a8eadda..6da46ab 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -1,4 +1,4 @@
-from ..type import ComponentType
+from ..type import ComponentType, DefType
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants
 
@@ -96,14 +96,15 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            if ComponentType.default in constants.keys():
-                named_type_properties['is_constant'] = True;
-                named_type_properties['default_value'] = str(ComponentType.default)
-            else:
-                if ComponentType.typereference in typereference_to_type.keys():
-                    named_type_properties['default_value'] = typereference_to_type[ComponentType.typereference].parse_value(ComponentType.default)
-                else:
-                    named_type_properties['default_value'] = str(ComponentType.default)
+            default_value = ComponentType.default
+            defined_type = ComponentType
+            while defined_type.typereference in typereference_to_type.keys() and isinstance(defined_type, DefType):
+                defined_type = typereference_to_type[defined_type.typereference]
+            if defined_type is not ComponentType:
+                default_value = defined_type.parse_value(default_value)
+            named_type_properties['default_value'] = str(default_value)
+            if default_value in constants.keys() and constants[default_value].typereference == ComponentType.typereference:
+                named_type_properties['is_constant'] = True
         else:
             pass
         return named_type_properties
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 1d196af..e33a991 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -3,6 +3,10 @@ from asn1PERser.classes.templates import Template
 from asn1PERser.classes.types.constraint import NoConstraint
 
 
+def to_python_name(reference):
+    return reference.replace('-', '_')
+
+
 class Type(Template):
     def __init__(self):
         self._typereference = ''
@@ -46,7 +50,7 @@ class Type(Template):
 
     @valuereference.setter
     def valuereference(self, valuereference):
-        self._valuereference = valuereference.replace('-', '_')
+        self._valuereference = to_python_name(valuereference)
 
     @property
     def Value(self):
-- 
2.43.0


From 4b8426bfea984d2bb324259997aafc6024d9df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:44 +0000
Subject: [PATCH 44/57] fix: BIT STRING, OCTET STRING, SEQUENCE OF and
 AUTOMATIC TAGS were parsed only with exactly one space inside

---
 asn1PERser/asn_definitions/module_def.py | 4 ++--
 asn1PERser/asn_definitions/type_def.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/asn_definitions/module_def.py b/asn1PERser/asn_definitions/module_def.py
index d0469ec..ba8a9be 100644
--- a/asn1PERser/asn_definitions/module_def.py
+++ b/asn1PERser/asn_definitions/module_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, Group
+from pyparsing import Or, And, Forward, Literal, ZeroOrMore, Group, Regex
 from asn1PERser.classes.parse_actions import parse_ModuleDefinition
 from .assignment_def import TypeAssignment, ValueAssignment
 from .common_def import DefinedValue
@@ -10,7 +10,7 @@ from .lexical_items import COMMA, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, \
 FROM = Literal("FROM")
 EXPLICIT_TAGS = Literal("EXPLICIT TAGS")
 IMPLICIT_TAGS = Literal("IMPLICIT TAGS")
-AUTOMATIC_TAGS = Literal("AUTOMATIC TAGS")
+AUTOMATIC_TAGS = Regex(r"AUTOMATIC\s+TAGS")
 DEFINITIONS = Literal("DEFINITIONS").setResultsName("DEFINITIONS")
 BEGIN = Literal("BEGIN").setResultsName("BEGIN")
 END = Literal("END").setResultsName("END")
diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 3911105..ac15541 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
+from pyparsing import Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group, Regex
 from asn1PERser.classes.parse_actions import parse_SequenceType, parse_ComponentType, \
     parse_ConstrainedType, parse_DateType, parse_TypeWithConstraint, \
     parse_RealType, parse_ChoiceType, parse_AlternativeTypeList, \
@@ -24,10 +24,10 @@ INTEGER = Literal("INTEGER")
 OPTIONAL = Literal("OPTIONAL")
 DEFAULT = Literal("DEFAULT")
 COMPONENTS_OF = Literal("COMPONENTS OF")
-BIT_STRING = Literal("BIT STRING")
+BIT_STRING = Regex(r"BIT\s+STRING")
 ENUMERATED = Literal("ENUMERATED")
 SEQUENCE = Literal("SEQUENCE")
-SEQUENCE_OF = Literal("SEQUENCE OF")
+SEQUENCE_OF = Regex(r"SEQUENCE\s+OF")
 CHOICE = Literal("CHOICE")
 SET = Literal("SET")
 OF = Literal("OF")
@@ -163,7 +163,7 @@ BitStringType = Or([
 
 
 # 23.1
-OctetStringType = Literal("OCTET STRING").setParseAction(parse_OctetStringType)
+OctetStringType = Regex(r"OCTET\s+STRING").setParseAction(parse_OctetStringType)
 
 
 # 24.1
-- 
2.43.0


From a32f4669e69b42e57ee6b42c26e7cc8a30aca183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:47 +0000
Subject: [PATCH 45/57] fix: comment that ends with -- in the middle of a line
 removed the rest of the line

---
 asn1PERser/classes/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 405fcb2..1386752 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -238,7 +238,7 @@ def remove_comments(asn1_schema):
 def _remove_line_comments(asn1_schema):
     no_comments = ''
     for line in asn1_schema.splitlines():
-        line = re.sub('--.*', '', line)
+        line = re.sub('--+.*?(--+|$)', ' ', line)
         line += '\n'
         no_comments += line
     return no_comments
-- 
2.43.0


From 82b602752807d4fb92b7d5da28e401ddb7c0fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:59 +0000
Subject: [PATCH 46/57] fix: SEQUENCE without components could not be printed,
 which broke generated modules that have one among their extension additions

---
 asn1PERser/classes/data/builtin/SequenceType.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 40ad774..0e46314 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -12,6 +12,11 @@ class SequenceType(Sequence):
     extensionAdditionGroups = []
     instantiated_by_access = False    # component of other SEQUENCE, which was read but never set
 
+    def __init__(self, **kwargs):
+        super(SequenceType, self).__init__(**kwargs)
+        if self.rootComponent is not None and not self.componentType:
+            self.clear()    # SEQUENCE without any component has exactly one value
+
     def setComponentByPosition(self, idx, value=noValue, *args, **kwargs):
         super(SequenceType, self).setComponentByPosition(idx, value, *args, **kwargs)
         component = self._componentValues[idx]
@@ -31,7 +36,7 @@ class SequenceType(Sequence):
         if base_isValue:
             return base_isValue
         if self.components is noValue:
-            return self.rootComponent is not None and not self.componentType    # SEQUENCE without any component
+            return False
         for component in self.components:
             if component is not noValue and component.isValue:
                 return True
-- 
2.43.0


From f258be17f83c2685fe3bf890f92fa95e0425ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:17 +0000
Subject: [PATCH 47/57] fix: OCTET STRING given as ''B was one zero octet

---
 asn1PERser/classes/data/builtin/OctetStringType.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/OctetStringType.py b/asn1PERser/classes/data/builtin/OctetStringType.py
index 5f7577a..fd93c4b 100644
--- a/asn1PERser/classes/data/builtin/OctetStringType.py
+++ b/asn1PERser/classes/data/builtin/OctetStringType.py
@@ -7,6 +7,12 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class OctetStringType(OctetString):
     subtypeSpec = NoConstraint()
 
+    @staticmethod
+    def fromBinaryString(value):
+        if not value:
+            return b''
+        return OctetString.fromBinaryString(value)
+
     def fill_field_list(self, field_list):
         octetstring_field_list = encode_octetstring(self)
         if octetstring_field_list:
-- 
2.43.0


From 8ed48801ba6b88a108d890da1457faf8b33b2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:55 +0000
Subject: [PATCH 48/57] fix: bounds given by reference to a value raised
 TypeError or ValueConstraintError, as they were used in arithmetic as objects
 of INTEGER type

---
 asn1PERser/classes/types/constraint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index dfd936b..e3b9a3b 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,16 +45,16 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # sizes have no value below 0
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else int(lower_endpoint)    # sizes have no value below 0
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(SequenceOfValueSize, self).__init__()
 
 
 class ValueRange(ValueRangeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = None if lower_endpoint == MIN else int(lower_endpoint)
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(ValueRange, self).__init__(lower_endpoint, upper_endpoint)
 
     def _testValue(self, value, idx):
@@ -77,8 +77,8 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint    # sizes have no value below 0
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else int(lower_endpoint)    # sizes have no value below 0
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From aa390dc9c08094f7c8350caf8ef5c204706bbc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:23 +0000
Subject: [PATCH 49/57] fix: parsing time was exponential in the depth of
 nesting, more than an hour for a SEQUENCE within SEQUENCE within SEQUENCE

---
 asn1PERser/asn_definitions/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1PERser/asn_definitions/__init__.py b/asn1PERser/asn_definitions/__init__.py
index e69de29..d909156 100644
--- a/asn1PERser/asn_definitions/__init__.py
+++ b/asn1PERser/asn_definitions/__init__.py
@@ -0,0 +1,3 @@
+from pyparsing import ParserElement
+
+ParserElement.enablePackrat(cache_size_limit=None)    # without it parsing time is exponential in depth of nesting
-- 
2.43.0


From fc24587617623cdd2d47eefd4ed8234cf5c18d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:48 +0000
Subject: [PATCH 50/57] fix: minus sign of a number directly after the end of a
 comment was taken for part of the comment

---
 asn1PERser/classes/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1386752..228a6d1 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -238,7 +238,7 @@ def remove_comments(asn1_schema):
 def _remove_line_comments(asn1_schema):
     no_comments = ''
     for line in asn1_schema.splitlines():
-        line = re.sub('--+.*?(--+|$)', ' ', line)
+        line = re.sub('--+.*?(--(?=-?[0-9])|--+|$)', ' ', line)
         line += '\n'
         no_comments += line
     return no_comments
-- 
2.43.0


From 9cd8644444e528ade72e6c09206790a5a3e28ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:19 +0000
Subject: [PATCH 51/57] fix: to_dict() of CHOICE with alternative named "items"
 which is constrained in place raised TypeError

---
 asn1PERser/classes/data/builtin/ChoiceType.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index b0f0e83..2299ea2 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -20,6 +20,6 @@ class ChoiceType(Choice):
         return decoded
 
     def to_dict(self, is_root=True):
-        for componentType, componentValue in self.items():
+        for componentType, componentValue in super(ChoiceType, self).items():
             if componentValue is not noValue and componentValue.isValue:
                 return {componentType: componentValue.to_dict()}
-- 
2.43.0


From 0a69122553e5fe821625af1981122671aac0a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:22 +0000
Subject: [PATCH 52/57] fix: SEQUENCE with component named "components" which
 is constrained in place could not be encoded

---
 asn1PERser/classes/data/builtin/SequenceType.py | 5 +++--
 asn1PERser/codec/per/encoder.py                 | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 0e46314..e818fb1 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -35,9 +35,10 @@ class SequenceType(Sequence):
         base_isValue = super(SequenceType, self).isValue
         if base_isValue:
             return base_isValue
-        if self.components is noValue:
+        components = super(SequenceType, self).components
+        if components is noValue:
             return False
-        for component in self.components:
+        for component in components:
             if component is not noValue and component.isValue:
                 return True
         # only extension additions are mandatory
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 4db5bc1..b9545d1 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -241,7 +241,7 @@ def has_component_values(component):
     # also when it is only read or encoded), so unless it was set it is present only if any of its components was
     if not isinstance(component, Sequence) or not getattr(component, 'instantiated_by_access', False):
         return True
-    for namedType, value in zip(component.componentType.namedTypes, component.components):
+    for namedType, value in zip(component.componentType.namedTypes, component._componentValues):
         if value is noValue or value is namedType.asn1Object or not value.isValue:
             continue
         if has_component_values(value) and not (namedType.isDefaulted and is_default_value(namedType, value)):
-- 
2.43.0


From e1126e8c0f517f2a2d0bd0067ecf9c8660088b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:45 +0000
Subject: [PATCH 53/57] fix: a constraint with items missing or superfluous is
 refused instead of misread

---
 asn1PERser/asn_definitions/constraint_def.py | 6 +++---
 asn1PERser/classes/parse_actions.py          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/asn_definitions/constraint_def.py b/asn1PERser/asn_definitions/constraint_def.py
index 7f9b411..870e101 100644
--- a/asn1PERser/asn_definitions/constraint_def.py
+++ b/asn1PERser/asn_definitions/constraint_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, Literal, nestedExpr, Optional, OneOrMore, Forward
+from pyparsing import Or, Literal, nestedExpr, Optional, ZeroOrMore, Forward
 from .value_def import Value
 # from .type_def import Type
 from .common_def import SignedNumber, NamedNumber, NamedNumberList, DefinedValue, NULL
@@ -131,7 +131,7 @@ IntersectionElements = Or([
 
 # 50.1
 Intersections = Or([
-    OneOrMore(IntersectionElements + Optional(IntersectionMark + IntersectionElements)),
+    IntersectionElements + ZeroOrMore(IntersectionMark + IntersectionElements),
     # IntersectionElements,    # ORIGINAL
     # IElems + IntersectionMark + IntersectionElements    # ORIGINAL
 ])
@@ -142,7 +142,7 @@ Intersections = Or([
 
 # 50.1
 Unions = Or([
-    OneOrMore(Intersections + Optional(UnionMark)),
+    Intersections + ZeroOrMore(UnionMark + Intersections),
     # Intersections,    # ORIGINAL
     # UElems + UnionMark + Intersections    # ORIGINAL
 ])
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 147937f..070c8cc 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -180,9 +180,9 @@ def parse_EnumeratedType(toks):
 def parse_Constraint(toks):
     constraint = toks[0]
     if constraint[0] == 'SIZE':
-        if '...' in ' '.join(token for token in constraint[2:] if isinstance(token, str)):
-            return constraint[1]._replace(extensionMarker=True)
-        return constraint[1]
+        # inner constraints are parsed already, '(0)' only keeps their place
+        parsed = list(Constraint.parseString('(' + ' '.join(token if isinstance(token, str) else '(0)' for token in constraint) + ')'))
+        return constraint[1]._replace(extensionMarker=True) if '...' in parsed else constraint[1]
     constraint = '(' + ' '.join(constraint) + ')'
     parsed = list(Constraint.parseString(constraint))
     ext_mark = False
-- 
2.43.0


From 6696250a21623860425e7e82adb811aadb4da607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:08 +0000
Subject: [PATCH 54/57] fix: a semi-constrained integer without octets is
 refused

---
 asn1PERser/codec/per/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7cffd7e..8a61a67 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -649,6 +649,8 @@ def decode_semi_constrained_whole_number_from_field_list(per_bytes, lowerBound):
                                                                  lowerBound=1,
                                                                  upperBound=None)
     logger.debug("semi constranied length determinant: %s", unconstrained_length_determinant)
+    if unconstrained_length_determinant == 0:
+        raise PerDecodingException("Semi constrained whole number without octets")
     val = per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0))
     logger.debug("semi constrained whole number value: %s", val)
     return lowerBound + val
-- 
2.43.0


From 2db203da4fb52006b92a0cb80d1a97fee4c60f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:41 +0000
Subject: [PATCH 55/57] fix: an open type field without octets is refused

---
 asn1PERser/codec/per/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 8a61a67..505f149 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -662,6 +662,8 @@ def decode_open_type_field(type, per_bytes):
                                                                  n=per_bytes,
                                                                  lowerBound=None,
                                                                  upperBound=None)
+    if unconstrained_length_determinant == 0:    # 11.1.3 - complete encoding has at least one octet
+        raise PerDecodingException("Open type field of {} without octets".format(type.__class__.__name__))
     val = per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
     open_type_value = PerBytes(hex(val)[2:].rstrip("L").zfill(unconstrained_length_determinant * 2))
     decoded = type.create_field_list(open_type_value)
-- 
2.43.0


From de97fb236a771a6b6d8695432dee4b2520212e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:42 +0000
Subject: [PATCH 56/57] fix: digits of other scripts are no digits of a number

---
 asn1PERser/asn_definitions/lexical_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/asn_definitions/lexical_items.py b/asn1PERser/asn_definitions/lexical_items.py
index 63a7efa..c92fd21 100644
--- a/asn1PERser/asn_definitions/lexical_items.py
+++ b/asn1PERser/asn_definitions/lexical_items.py
@@ -64,7 +64,7 @@ Page 18
 '''
 # number = Word(digits.replace('0', ''), digits, min=2) | \
 #          Word(digits, max=1)
-number = Regex(r'\d+')
+number = Regex(r'[0-9]+')
 
 '''
 Rec. ITU-T X.680 (08/2015)
-- 
2.43.0


From 6a628468842d07264f403a1db4bc6d0a9e1e22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 57/57] fix: a reserved word is not found at the beginning of a
 longer name

---
 asn1PERser/asn_definitions/constraint_def.py |  8 +++----
 asn1PERser/asn_definitions/lexical_items.py  |  6 ++++-
 asn1PERser/asn_definitions/module_def.py     | 10 ++++----
 asn1PERser/asn_definitions/type_def.py       | 24 ++++++++++----------
 asn1PERser/asn_definitions/value_def.py      |  6 ++---
 5 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/asn1PERser/asn_definitions/constraint_def.py b/asn1PERser/asn_definitions/constraint_def.py
index 870e101..4a2fbaf 100644
--- a/asn1PERser/asn_definitions/constraint_def.py
+++ b/asn1PERser/asn_definitions/constraint_def.py
@@ -7,16 +7,16 @@ from .lexical_items import identifier, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET,
     LEFT_PARENTHESIS, RIGHT_PARENTHESIS, EXCLAMATION_MARK, COLON, \
     CIRCUMFLEX_ACCENT, VERTICAL_LINE, LESS_THAN_SIGN, rangeseparator, \
     ellipsis, number, LEFT_SQUARE_BRACKET, RIGHT_SQUARE_BRACKET, \
-    encodingreference, modulereference, typereference, FULL_STOP
+    encodingreference, modulereference, typereference, FULL_STOP, reserved_word
 
 
 INTERSECTION = Literal("INTERSECTION")
 UNION = Literal("UNION")
 EXCEPT = Literal("EXCEPT")
 ALL = Literal("ALL")
-MAX = Literal("MAX")
-MIN = Literal("MIN")
-SIZE = Literal("SIZE")
+MAX = reserved_word("MAX")
+MIN = reserved_word("MIN")
+SIZE = reserved_word("SIZE")
 FROM = Literal("FROM")
 
 
diff --git a/asn1PERser/asn_definitions/lexical_items.py b/asn1PERser/asn_definitions/lexical_items.py
index c92fd21..fc36020 100644
--- a/asn1PERser/asn_definitions/lexical_items.py
+++ b/asn1PERser/asn_definitions/lexical_items.py
@@ -1,4 +1,4 @@
-from pyparsing import oneOf, Word, ZeroOrMore, Regex, Literal, Empty
+from pyparsing import oneOf, Word, ZeroOrMore, Regex, Literal, Empty, Keyword
 from .character_and_word_set import A_to_Z_latin, a_to_z_latin, \
     digits, hyphen_minus, non_breaking_hyphen, allowed_character_set, newline
 
@@ -22,6 +22,10 @@ identifier = Word(a_to_z_latin,
                   a_to_z_latin + A_to_Z_latin + digits + hyphen_minus+ non_breaking_hyphen)
 
 
+def reserved_word(word):    # 12.38 - not the beginning or the end of a longer name
+    return Keyword(word, A_to_Z_latin + a_to_z_latin + digits + hyphen_minus)
+
+
 '''
 Rec. ITU-T X.680 (08/2015)
 12.4 Value references
diff --git a/asn1PERser/asn_definitions/module_def.py b/asn1PERser/asn_definitions/module_def.py
index ba8a9be..c7a1dd5 100644
--- a/asn1PERser/asn_definitions/module_def.py
+++ b/asn1PERser/asn_definitions/module_def.py
@@ -4,16 +4,16 @@ from .assignment_def import TypeAssignment, ValueAssignment
 from .common_def import DefinedValue
 from .lexical_items import COMMA, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, \
     assignment, typereference, valuereference, empty, modulereference, \
-    number, identifier
+    number, identifier, reserved_word
 
 
 FROM = Literal("FROM")
 EXPLICIT_TAGS = Literal("EXPLICIT TAGS")
 IMPLICIT_TAGS = Literal("IMPLICIT TAGS")
-AUTOMATIC_TAGS = Regex(r"AUTOMATIC\s+TAGS")
-DEFINITIONS = Literal("DEFINITIONS").setResultsName("DEFINITIONS")
-BEGIN = Literal("BEGIN").setResultsName("BEGIN")
-END = Literal("END").setResultsName("END")
+AUTOMATIC_TAGS = Regex(r"AUTOMATIC\s+TAGS(?![A-Za-z0-9-])")
+DEFINITIONS = reserved_word("DEFINITIONS").setResultsName("DEFINITIONS")
+BEGIN = reserved_word("BEGIN").setResultsName("BEGIN")
+END = reserved_word("END").setResultsName("END")
 
 
 # 13.1
diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index ac15541..3f1e13a 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -11,7 +11,7 @@ from .lexical_items import identifier, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET,
     LEFT_PARENTHESIS, RIGHT_PARENTHESIS, EXCLAMATION_MARK, COLON, \
     CIRCUMFLEX_ACCENT, VERTICAL_LINE, LESS_THAN_SIGN, rangeseparator, \
     ellipsis, number, LEFT_SQUARE_BRACKET, RIGHT_SQUARE_BRACKET, \
-    encodingreference, modulereference, typereference, FULL_STOP
+    encodingreference, modulereference, typereference, FULL_STOP, reserved_word
 from .value_def import Value
 
 
@@ -19,18 +19,18 @@ Type = Forward()
 Constraint = nestedExpr(opener='(', closer=')').setParseAction(parse_Constraint)
 
 
-BOOLEAN = Literal("BOOLEAN")
-INTEGER = Literal("INTEGER")
-OPTIONAL = Literal("OPTIONAL")
-DEFAULT = Literal("DEFAULT")
+BOOLEAN = reserved_word("BOOLEAN")
+INTEGER = reserved_word("INTEGER")
+OPTIONAL = reserved_word("OPTIONAL")
+DEFAULT = reserved_word("DEFAULT")
 COMPONENTS_OF = Literal("COMPONENTS OF")
-BIT_STRING = Regex(r"BIT\s+STRING")
-ENUMERATED = Literal("ENUMERATED")
-SEQUENCE = Literal("SEQUENCE")
-SEQUENCE_OF = Regex(r"SEQUENCE\s+OF")
-CHOICE = Literal("CHOICE")
+BIT_STRING = Regex(r"BIT\s+STRING(?![A-Za-z0-9-])")
+ENUMERATED = reserved_word("ENUMERATED")
+SEQUENCE = reserved_word("SEQUENCE")
+SEQUENCE_OF = Regex(r"SEQUENCE\s+OF(?![A-Za-z0-9-])")
+CHOICE = reserved_word("CHOICE")
 SET = Literal("SET")
-OF = Literal("OF")
+OF = reserved_word("OF")
 DATE = Literal("DATE")
 IMPLICIT = Literal("IMPLICIT")
 EXPLICIT = Literal("EXPLICIT")
@@ -163,7 +163,7 @@ BitStringType = Or([
 
 
 # 23.1
-OctetStringType = Regex(r"OCTET\s+STRING").setParseAction(parse_OctetStringType)
+OctetStringType = Regex(r"OCTET\s+STRING(?![A-Za-z0-9-])").setParseAction(parse_OctetStringType)
 
 
 # 24.1
diff --git a/asn1PERser/asn_definitions/value_def.py b/asn1PERser/asn_definitions/value_def.py
index 388f1da..4a8d3fa 100644
--- a/asn1PERser/asn_definitions/value_def.py
+++ b/asn1PERser/asn_definitions/value_def.py
@@ -1,11 +1,11 @@
 from pyparsing import Or, Forward, Literal, ZeroOrMore
 from .common_def import SignedNumber, DefinedValue, NULL, CharacterStringList, Quadruple, Tuple
 from .lexical_items import identifier, realnumber, HYPHEN_MINUS, COMMA, \
-    LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, bstring, hstring, cstring
+    LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, bstring, hstring, cstring, reserved_word
 
 
-TRUE = Literal("TRUE")
-FALSE = Literal("FALSE")
+TRUE = reserved_word("TRUE")
+FALSE = reserved_word("FALSE")
 PLUS_INFINITY = Literal("PLUS-INFINITY")
 MINUS_INFINITY = Literal("MINUS-INFINITY")
 NOT_A_NUMBER = Literal("NOT-A-NUMBER")
-- 
2.43.0

