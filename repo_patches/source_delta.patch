From b6e1464d4d57671ca7caa04be5461e9757fba995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 1/8] fix: report an undefined field in the bitmap as
 DecodeError instead of KeyError

---
 iso8583/decoder.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..8e50c72 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -155,7 +155,18 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
-        idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
+        try:
+            field_spec = spec[field]
+        except KeyError:
+            raise DecodeError(
+                "Failed to decode field, field is not defined in specifications",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field,
+            ) from None
+        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)
 
     if idx != len(s):
         raise DecodeError(
-- 
2.43.0


From 6b447ebccc5b9c870bacbaaceb1a9622cb7bcdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 2/8] fix: report a field missing from the specification as
 EncodeError instead of KeyError

---
 iso8583/encoder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..73c7fba 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -157,7 +157,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
-        s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
+        try:
+            field_spec = spec[field_key]
+        except KeyError:
+            raise EncodeError(
+                "Failed to encode field, field is not defined in specifications",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
+        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
 
     return s, doc_enc
 
-- 
2.43.0


From 531f7cdc0b488e6667ecb2eeb484a25759b73b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 3/8] fix: reject numeric keys that do not name a field when
 encoding

---
 iso8583/encoder.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 73c7fba..93fef39 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -102,6 +102,21 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             doc_enc,
             "p",
         ) from None
+    except ValueError as e:
+        # Numeric but not a decimal number, e.g. superscript two
+        raise EncodeError(
+            f"Dictionary contains invalid fields, {e}", doc_dec, doc_enc, "p"
+        ) from None
+
+    # Other spellings of a decimal number do not name a field, e.g. "02"
+    invalid_fields = [k for k in doc_dec.keys() if k.isnumeric() and k != str(int(k))]
+    if invalid_fields:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {invalid_fields}",
+            doc_dec,
+            doc_enc,
+            "p",
+        )
 
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
-- 
2.43.0


From d50ec6f11368f8ebaaa5be8fe84d9d3e867c5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 4/8] fix: do not skip whitespace when decoding a text bitmap

---
 iso8583/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 8e50c72..c9212d5 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,4 +1,5 @@
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
+import binascii
 
 __all__ = ["decode", "DecodeError"]
 
@@ -391,7 +392,8 @@ def _decode_bitmap(
         )
 
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            # Unlike bytes.fromhex, a2b_hex does not skip whitespace
+            bitmap = binascii.a2b_hex(decoded_field_data)
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
-- 
2.43.0


From 2f14c5776775b17e38469e047749ab1b1ee00dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 5/8] fix: accept only digits in a text field length

---
 iso8583/decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index c9212d5..4b41a13 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -531,6 +531,9 @@ def _decode_field(
                 ) from None
 
             try:
+                # int also accepts a sign, whitespace, and underscores
+                if not (decoded_length.isascii() and decoded_length.isdigit()):
+                    raise ValueError
                 enc_field_len = int(decoded_length)
             except Exception:
                 raise DecodeError(
-- 
2.43.0


From 386f3cea4c66fe81d42bd89428752e10a5614095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 6/8] fix: reject an odd number of nibbles in a text field when
 decoding

---
 iso8583/decoder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 4b41a13..2d31751 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -601,6 +601,16 @@ def _decode_field(
                 enc_field_len,
             )
     else:
+        # Text data takes up whole bytes, it cannot be an odd number of nibbles
+        if len_count == "nibbles" and enc_field_len & 1:
+            raise DecodeError(
+                f"Field data is {byte_field_len * 2} {len_count}, expecting {enc_field_len}",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field_key,
+            )
         doc_dec[field_key] = _decode_text_data(
             s,
             doc_enc[field_key]["data"],
-- 
2.43.0


From 116ddecb1c632d92e00a04cad89e46f2a28492f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 7/8] fix: report non-string binary field data as EncodeError

---
 iso8583/encoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 93fef39..3611ec4 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -579,6 +579,13 @@ def _encode_bindary_field(
             data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
     except Exception:
+        if not isinstance(field_data, str):
+            raise EncodeError(
+                "Failed to encode field, invalid data",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
         if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
             raise EncodeError(
                 "Failed to encode field, odd-length nibble data, specify pad",
-- 
2.43.0


From b3de19a04d3a24e83ad319c19c6a57e108ad96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:35 +0000
Subject: [PATCH 8/8] fix: match a lower case pad when decoding odd-length
 nibble data

---
 iso8583/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 2d31751..64192fa 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -663,11 +663,11 @@ def _remove_pad_field(
     DecodeError
         An error decoding ISO8583 bytearray.
     """
-    pad: str = field_spec.get("left_pad", "")[:1]
+    pad: str = field_spec.get("left_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][:1] == pad:
         return doc_dec[field_key][1:]
 
-    pad = field_spec.get("right_pad", "")[:1]
+    pad = field_spec.get("right_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
         return doc_dec[field_key][:-1]
 
-- 
2.43.0

