From 184526105000b8be9977b87b9a084808772ae8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 001/117] fix: write the length octet of an empty new-format
 packet body

---
 pgp/packets/packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..c33e820 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -129,17 +129,19 @@ class Packet(object):
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
-            while remaining:
+            while True:
                 # "An implementation MAY use Partial Body Lengths for data
                 #  packets, be they literal, compressed, or encrypted."
                 allow_partial = self.type in constants.DATA_TYPES
                 packet_length_bytes, remaining = \
                     utils.new_packet_length_to_bytes(
-                            data_length,
+                            remaining,
                             allow_partial)
                 result.extend(packet_length_bytes)
                 result.extend(data[offset:data_length - remaining])
                 offset = data_length - remaining
+                if not remaining:
+                    break
 
         else:
             tag += (packet_type << 2)
-- 
2.43.0


From fa1d3c03b2453bad75ecac6a0d08f34095520826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 002/117] fix: give old-format packets of 16 MiB and more an
 explicit length

An indeterminate length swallows every packet that follows.
---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..86277d4 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -765,7 +765,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From 58af07eb757f62f9bb5704d64b13273ad5fa3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 003/117] fix: read partial body lengths from a stream

Only the length is repeated between the parts of a body, not the tag.
---
 pgp/packets/packets.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index c33e820..40b76e9 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1624,25 +1624,14 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     incomplete = True
-    previous_tag = None
-    previous_header_type = None
+    first = ord(fh.read(1))
+    tag = first & 0x3f
+    header_type = (
+            constants.NEW_PACKET_HEADER_TYPE
+            if bool(first & 0x40)
+            else constants.OLD_PACKET_HEADER_TYPE
+        )
     while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
         if header_type == constants.NEW_PACKET_HEADER_TYPE:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
-- 
2.43.0


From 7c4882a9e4ed89e8538f2ae731bfd8e866863f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 004/117] fix: read packets of indeterminate length from a
 stream

---
 pgp/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 86277d4..5912759 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -665,7 +665,9 @@ def old_packet_length_from_stream(fh):
         length = long_to_int(bytearray(fh.read(4)), 0)
     else:
         # with & 3 and the other cases, this has to be 3.
-        raise ValueError
+        start = fh.tell()
+        length = fh.seek(0, 2) - start
+        fh.seek(start)
     return length
 
 
-- 
2.43.0


From c747705738301432e69d4841a5820c9c1821a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 005/117] fix: reject packets whose body is truncated

---
 pgp/packets/packets.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 40b76e9..ed5949f 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1641,7 +1641,10 @@ def packet_from_packet_stream(fh):
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
 
-        packet_data.extend(fh.read(data_length))
+        part = fh.read(data_length)
+        if len(part) != data_length:
+            raise ValueError('Packet is shorter than its declared length.')
+        packet_data.extend(part)
 
     cls = PACKET_TYPES.get(tag, Packet)
 
@@ -1678,7 +1681,10 @@ def packet_from_packet_data(data, offset=0):
             offset, data_length = utils.old_packet_length(data, offset)
             incomplete = False
 
-        packet_data.extend(data[offset:offset + data_length])
+        part = data[offset:offset + data_length]
+        if len(part) != data_length:
+            raise ValueError('Packet is shorter than its declared length.')
+        packet_data.extend(part)
         offset += data_length
 
     cls = PACKET_TYPES.get(tag, Packet)
-- 
2.43.0


From 1c866fcde1cef3db2434ede02bacce8c19e7265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 006/117] fix: measure integers exactly when encoding them

A floating point logarithm rounds up just below a power of two, which gave
multiprecision integers a wrong bit length and an extra zero octet.
---
 pgp/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 5912759..1ebfe60 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -560,8 +560,7 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bytes_required = (i.bit_length() + 7) // 8
     result = bytearray(
         [(i >> (j * 8)) & 0xff
          for j in range(bytes_required - 1, -1, -1)
@@ -644,8 +643,8 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bits_required = i.bit_length()
+    bytes_required = (bits_required + 7) // 8
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
         result.append((i >> (b * 8)) & 0xff)
-- 
2.43.0


From 484dad70e3d7569d3d230dcb377ea93636d359a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 007/117] fix: refuse integers too large for a multiprecision
 integer

---
 pgp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/utils.py b/pgp/utils.py
index 1ebfe60..7977b33 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -644,6 +644,8 @@ def int_to_mpi(i):
     elif i == 0:
         return bytearray([0, 0])
     bits_required = i.bit_length()
+    if bits_required > 0xffff:
+        raise ValueError(i)
     bytes_required = (bits_required + 7) // 8
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
-- 
2.43.0


From 00177e876da4cbd79e88a2570ea006f0c415d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 008/117] fix: keep unknown armor headers when reading and
 writing

---
 pgp/armor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..b138dae 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -168,7 +168,7 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset, extra_headers)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
@@ -232,7 +232,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in self.extra_headers.items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From 459cfab9bcc7b15e2cecac02c4b1de62bffb97d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 009/117] fix: split armored text at line endings only

Other characters str.splitlines breaks at may occur in header values.
---
 pgp/armor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index b138dae..a26db5f 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -72,7 +72,7 @@ class ASCIIArmor(object):
 
     @classmethod
     def from_ascii(cls, text):
-        lines = text.splitlines()
+        lines = re.split(r'\r\n|\r|\n', text)
         line_no = 0
 
         # Skip blank lines before header line
-- 
2.43.0


From 3e07b4f970ce6e93caf3f69f72ab5914a123ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 010/117] fix: recognise the wild card key id of an encrypted
 session key

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index ed5949f..eefa058 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -167,7 +167,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
-- 
2.43.0


From ec6c86129ce943c713e1319d4d848f104ba2da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 011/117] fix: read and write the whole key id of version 3
 signatures

---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index eefa058..04168a9 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -331,7 +331,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -476,7 +476,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
-- 
2.43.0


From f40f5bced4b7f98f87657a692de80c1112cd8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 012/117] fix: compare version 3 signature packets

---
 pgp/packets/packets.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 04168a9..0a39b58 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -447,10 +447,14 @@ class SignaturePacket(Packet):
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
             and self.signature_values == other.signature_values
-            and set(self.hashed_subpackets) == set(other.hashed_subpackets)
-            and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
+            and self._version_fields() == other._version_fields()
             )
 
+    def _version_fields(self):
+        if self.version in (2, 3):
+            return self.creation_time, self.key_id
+        return set(self.hashed_subpackets), set(self.unhashed_subpackets)
+
     @property
     def content(self):
         data = bytearray()
-- 
2.43.0


From f4bf840fc6bac75396e5946cc51f87854ea53e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 013/117] fix: read the whole key id of one-pass signatures

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0a39b58..a6ae4f1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -647,7 +647,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
-- 
2.43.0


From 647ebff0df954f1f258be881e26ef1bf2f90de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 014/117] fix: read encrypted session keys longer than the key
 encrypting them

---
 pgp/packets/packets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a6ae4f1..a7f6fd4 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -540,11 +540,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The rest of the packet, as the session key may be for a cipher with
+        # another key length than the one it is encrypted with.
+        encrypted_session_key = data[offset:]
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
-- 
2.43.0


From f1507efc3682a5e7d9948ff4a5facdf2d1848bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 015/117] fix: read and write secret keys without a
 string-to-key specifier

Unencrypted secret keys and GnuPG dummy and smartcard keys were refused.
---
 pgp/packets/packets.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a7f6fd4..22d0f52 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -864,8 +864,11 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             symmetric_algorithm = s2k_usage
 
-        # 101 is GnuPG's dummy & smartcard mode
-        if s2k_usage not in (0, 101):
+        # Unencrypted keys have no IV and neither have GnuPG's dummy &
+        # smartcard modes.
+        iv = bytearray()
+        if s2k_usage != 0 and not isinstance(s2k_specification,
+                                             s2k.GnuPGS2K):
             block_length = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm, None)
             if block_length is None:
@@ -897,7 +900,7 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
             raise ValueError
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
@@ -1078,7 +1081,9 @@ class SecretKeyPacket(PublicKeyPacket):
             data.extend(bytes(self.s2k_specification))
         if self.symmetric_algorithm != 0:
             data.extend(self.iv)
-        if self.encrypted_portion:
+        if (
+                self.encrypted_portion
+                or isinstance(self.s2k_specification, s2k.GnuPGS2K)):
             data.extend(self.encrypted_portion)
         else:
             if self.public_key_algorithm in (1, 2, 3):
@@ -1116,7 +1121,7 @@ class SecretSubkeyPacket(SecretKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
             raise ValueError
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
@@ -1136,6 +1141,12 @@ class SecretSubkeyPacket(SecretKeyPacket):
         self.encrypted_portion = encrypted_portion
         self.checksum = checksum
         self.hash = hash_
+        self.passphrase = passphrase
+        self.exponent_d = exponent_d
+        self.prime_p = prime_p
+        self.prime_q = prime_q
+        self.multiplicative_inverse_u = multiplicative_inverse_u
+        self.exponent_x = exponent_x
 
 
 class CompressedDataPacket(Packet):
-- 
2.43.0


From ec00ce33fca79a46480d61cc235dc4908a4eacc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 016/117] fix: write GnuPG string-to-key extensions and read
 whole serial numbers

---
 pgp/s2k.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..e10fc3b 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -161,7 +161,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(data, offset,
+                                                   serial_len * 2)
             offset += serial_len
         else:
             raise ValueError(
@@ -191,11 +192,9 @@ class GnuPGS2K(SimpleS2K):
         pass
 
     def __bytes__(self):
-        result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
-                [self.mode - 1000]
-                )
+        result = bytearray([101, self.hash_algorithm])
+        result.extend(b'GNU')
+        result.append(self.mode - 1000)
         if self.mode == 1002 and self.serial_number is not None:
             result.append(self.serial_number_length)
             result.extend(utils.hex_to_bytes(self.serial_number,
-- 
2.43.0


From ff83a187ede97f1b0b0cdf83f70c6a39ea13d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 017/117] fix: read marker packets

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 22d0f52..9650263 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1237,7 +1237,7 @@ class MarkerPacket(Packet):
     def __init__(self, header_format, content, old_literal=False):
         Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
         self.old_literal = old_literal
-        self.content = content
+        self._content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 35264ef5fc0e6a0f65e49dee5ba3e65724df485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 018/117] fix: write literal data packets as they were read

The time is an integer once parsed, the length of the file name is in octets
and the file name need not be valid UTF-8.
---
 pgp/packets/packets.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9650263..ff580cc 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,9 +14,9 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import datetime
 import math
 import os
-import time
 import warnings
 
 from Crypto import Random
@@ -1259,7 +1259,7 @@ class LiteralDataPacket(Packet):
         filename = data[offset:offset + filename_length]
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        filename = filename.decode('utf8', 'replace')
+        filename = filename.decode('utf8', 'surrogateescape')
         offset += filename_length
         time = utils.long_to_int(data, offset)
         offset += 4
@@ -1309,11 +1309,14 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
-        timestamp = int(time.mktime(self.time.timetuple()))
+        filename = self.filename.encode('utf8', 'surrogateescape')
+        data.append(len(filename))
+        data.extend(filename)
+        timestamp = self.time
+        if isinstance(timestamp, datetime.datetime):
+            timestamp = int(timestamp.timestamp())
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
-- 
2.43.0


From 29494ae13059867e22a0e09f4319e37557f6feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 019/117] fix: keep all octets of trust packets

---
 pgp/packets/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index ff580cc..47c89c6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1344,6 +1344,8 @@ class TrustPacket(Packet):
                 raise ValueError
 
         result = cls(header_format, trust_value, sig_cache)
+        if sig_cache is None:
+            result.extra = data[1:]
         result._content = data
         return result
 
@@ -1351,12 +1353,15 @@ class TrustPacket(Packet):
         Packet.__init__(self, header_format, constants.TRUST_PACKET_TYPE)
         self.trust_value = trust_value
         self.sig_cache = sig_cache
+        # Octets with a meaning we don't know
+        self.extra = bytearray()
 
     def __eq__(self, other):
         return (
             super(TrustPacket, self).__eq__(other)
             and self.trust_value == other.trust_value
             and self.sig_cache == other.sig_cache
+            and self.extra == other.extra
             )
 
     @property
@@ -1372,6 +1377,7 @@ class TrustPacket(Packet):
         data = bytearray([self.trust_value])
         if self.sig_cache is not None:
             data.append(self.sig_cache)
+        data.extend(self.extra)
         return data
 
 
-- 
2.43.0


From 3f30bbe474f4f909908c9343f73636a50c06231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 020/117] fix: keep user ids that are not valid UTF-8

Replacing octets changes what certifications were made over.
---
 pgp/packets/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 47c89c6..9d9d29e 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1385,7 +1385,7 @@ class UserIDPacket(Packet):
 
     @classmethod
     def from_packet_content(cls, header_format, type_, data):
-        result = cls(header_format, data.decode('utf8', 'replace'))
+        result = cls(header_format, data.decode('utf8', 'surrogateescape'))
         result._content = data
         return result
 
@@ -1406,7 +1406,7 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        return self.user_id.encode('utf8', 'surrogateescape')
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
-- 
2.43.0


From 411ac2cb1bd706d6ff152917661627922f4bc5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 021/117] fix: keep the content of unknown user attribute
 subpackets

---
 pgp/packets/user_attribute_subpackets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 8a9185a..e980d26 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -22,20 +22,22 @@ class UserAttributeSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
-        return cls(sub_type)
+        return cls(sub_type, sub_data)
 
-    def __init__(self, sub_type):
+    def __init__(self, sub_type, content=None):
         self.sub_type = sub_type
+        self._content = content or bytearray()
 
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
             and self.sub_type == other.sub_type
+            and self.content == other.content
             )
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._content)
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From b87a7199f248838017590095b1a5303b916f2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 022/117] fix: keep the form of user attribute subpacket
 lengths

Certifications are made over these octets.
---
 pgp/packets/user_attribute_subpackets.py | 11 +++++++++--
 pgp/utils.py                             |  6 +++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index e980d26..25570aa 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -35,6 +35,9 @@ class UserAttributeSubpacket(object):
             and self.content == other.content
             )
 
+    # How many octets the length had when this was read
+    _length_octets = 1
+
     @property
     def content(self):
         return bytearray(self._content)
@@ -44,7 +47,7 @@ class UserAttributeSubpacket(object):
         result = bytearray()
         # +1 for sub type
         result.extend(utils.new_packet_length_to_bytes(
-            len(data) + 1, False)[0])
+            len(data) + 1, False, self._length_octets)[0])
         result.append(self.sub_type)
         result.extend(data)
         return bytes(result)
@@ -121,6 +124,7 @@ USER_ATTRIBUTE_SUBPACKET_TYPES = {
 
 def user_attribute_subpacket_from_data(data, offset=0):
     sub_data = bytearray()
+    length_start = offset
     offset, sub_len, sub_partial = utils.new_packet_length(data, offset)
     if sub_partial:
         # "An implementation MAY use Partial Body Lengths for data
@@ -128,6 +132,7 @@ def user_attribute_subpacket_from_data(data, offset=0):
         #  Partial Body Lengths MUST NOT be used for any other packet
         #  types."
         raise ValueError
+    length_octets = offset - length_start
     sub_type = int(data[offset])
     # + 1 for sub type
     sub_data_start = offset + 1
@@ -135,4 +140,6 @@ def user_attribute_subpacket_from_data(data, offset=0):
     sub_data.extend(data[sub_data_start:sub_data_end])
     offset = sub_data_end
     cls = USER_ATTRIBUTE_SUBPACKET_TYPES.get(sub_type, UserAttributeSubpacket)
-    return cls.from_subpacket_content(sub_type, sub_data), offset
+    result = cls.from_subpacket_content(sub_type, sub_data)
+    result._length_octets = length_octets
+    return result, offset
diff --git a/pgp/utils.py b/pgp/utils.py
index 7977b33..f2c1597 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -723,13 +723,13 @@ def new_packet_length(data, offset):
     return offset, length, partial
 
 
-def new_packet_length_to_bytes(data_length, allow_partial):
+def new_packet_length_to_bytes(data_length, allow_partial, min_octets=1):
     result = bytearray()
     remaining = 0
-    if data_length < 192:
+    if data_length < 192 and min_octets <= 1:
         # one-octet body length
         result.append(data_length)
-    elif data_length < 8384:
+    elif 192 <= data_length < 8384 and min_octets <= 2:
         # two-octet body length
         stored_length = data_length - 192
         result.append((stored_length >> 8) + 192)
-- 
2.43.0


From 9f96cc76463b687e817e84b3a91142370c2a605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 023/117] fix: read two-octet subpacket lengths of user
 attributes

---
 pgp/packets/user_attribute_subpackets.py | 12 ++------
 pgp/utils.py                             | 35 ++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 25570aa..c2b98ac 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -46,8 +46,8 @@ class UserAttributeSubpacket(object):
         data = self.content
         result = bytearray()
         # +1 for sub type
-        result.extend(utils.new_packet_length_to_bytes(
-            len(data) + 1, False, self._length_octets)[0])
+        result.extend(utils.subpacket_length_to_bytes(
+            len(data) + 1, self._length_octets))
         result.append(self.sub_type)
         result.extend(data)
         return bytes(result)
@@ -125,13 +125,7 @@ USER_ATTRIBUTE_SUBPACKET_TYPES = {
 def user_attribute_subpacket_from_data(data, offset=0):
     sub_data = bytearray()
     length_start = offset
-    offset, sub_len, sub_partial = utils.new_packet_length(data, offset)
-    if sub_partial:
-        # "An implementation MAY use Partial Body Lengths for data
-        #  packets, be they literal, compressed, or encrypted.  [...]
-        #  Partial Body Lengths MUST NOT be used for any other packet
-        #  types."
-        raise ValueError
+    offset, sub_len = utils.subpacket_length(data, offset)
     length_octets = offset - length_start
     sub_type = int(data[offset])
     # + 1 for sub type
diff --git a/pgp/utils.py b/pgp/utils.py
index f2c1597..df6a692 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -723,13 +723,42 @@ def new_packet_length(data, offset):
     return offset, length, partial
 
 
-def new_packet_length_to_bytes(data_length, allow_partial, min_octets=1):
+def subpacket_length(data, offset):
+    """Read the length of a subpacket. Unlike for packets, there are no
+    partial lengths, so two octets can hold greater values.
+    """
+    length = int(data[offset])
+    if 192 <= length < 255:
+        length = ((length - 192) << 8) + data[offset + 1] + 192
+        offset += 2
+    elif length == 255:
+        length = long_to_int(data, offset + 1)
+        offset += 5
+    else:
+        offset += 1
+    return offset, length
+
+
+def subpacket_length_to_bytes(data_length, octets=1):
+    """Write the length of a subpacket in the given number of octets, or
+    more if they are needed.
+    """
+    if octets == 2 and 8384 <= data_length < 16320:
+        stored_length = data_length - 192
+        return bytearray([(stored_length >> 8) + 192, stored_length & 0xff])
+    if octets == 5:
+        return bytearray([0xff]) + int_to_4byte(data_length)
+    result, _ = new_packet_length_to_bytes(data_length, False)
+    return result
+
+
+def new_packet_length_to_bytes(data_length, allow_partial):
     result = bytearray()
     remaining = 0
-    if data_length < 192 and min_octets <= 1:
+    if data_length < 192:
         # one-octet body length
         result.append(data_length)
-    elif 192 <= data_length < 8384 and min_octets <= 2:
+    elif data_length < 8384:
         # two-octet body length
         stored_length = data_length - 192
         result.append((stored_length >> 8) + 192)
-- 
2.43.0


From 5fd032c1ee94f9b4b04da57dddcd88ce64feb971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 024/117] fix: keep the content of unknown signature subpackets

Without it a parsed signature does not cover what was signed.
---
 pgp/packets/signature_subpackets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..757f8f2 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -25,11 +25,12 @@ class SignatureSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        return cls(type_, critical)
+        return cls(type_, critical, sub_data)
 
-    def __init__(self, type_, critical):
+    def __init__(self, type_, critical, content=None):
         self.type = type_
         self.critical = critical
+        self._content = content
 
     def __eq__(self, other):
         return (
@@ -42,7 +43,7 @@ class SignatureSubpacket(object):
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self._content or b'')
 
     def __bytes__(self):
         data = self.content
-- 
2.43.0


From f52f932f864966c521a161d58c8f00257a424be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 025/117] fix: keep the form of signature subpacket lengths

Signatures are made over these octets. Lengths from 8384 to 16319 may be
two octets long here.
---
 pgp/packets/signature_subpackets.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 757f8f2..f16f24e 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -41,6 +41,9 @@ class SignatureSubpacket(object):
     def __hash__(self):
         return crc24.crc24(bytes(self))
 
+    # How many octets the length had when this was read
+    _length_octets = 1
+
     @property
     def content(self):
         return bytearray(self._content or b'')
@@ -49,9 +52,8 @@ class SignatureSubpacket(object):
         data = self.content
         data_len = len(data) + 1  # For the type
         result = bytearray()
-        packet_length_bytes, _ = \
-                utils.new_packet_length_to_bytes(data_len, False)
-        result.extend(packet_length_bytes)
+        result.extend(utils.subpacket_length_to_bytes(
+            data_len, self._length_octets))
         raw = self.type + (0x80 if self.critical else 0x00)
         result.append(raw)
         result.extend(data)
@@ -641,9 +643,9 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
-    offset, length, partial = utils.new_packet_length(data, offset)
-    # TODO: smarter error
-    assert not partial
+    length_start = offset
+    offset, length = utils.subpacket_length(data, offset)
+    length_octets = offset - length_start
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
@@ -652,7 +654,6 @@ def signature_subpacket_from_data(data, offset=0):
     sub_data = data[offset:offset + length]
     offset += length
     cls = SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)
-    return (
-        cls.from_subpacket_content(subpacket_type, critical, sub_data),
-        offset
-        )
+    subpacket = cls.from_subpacket_content(subpacket_type, critical, sub_data)
+    subpacket._length_octets = length_octets
+    return subpacket, offset
-- 
2.43.0


From 4e0102dd76b565d2d96c1ef4ffd34d900da751fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 026/117] fix: refuse signature subpackets that overrun their
 area

---
 pgp/packets/packets.py              | 6 ++++--
 pgp/packets/signature_subpackets.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9d9d29e..b524ea5 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -367,7 +367,8 @@ class SignaturePacket(Packet):
             hashed_subpackets = []
             while offset < subpacket_end:
                 hashed_subpacket, offset = \
-                    signature_subpacket_from_data(data, offset)
+                    signature_subpacket_from_data(
+                        data[:subpacket_end], offset)
                 hashed_subpackets.append(hashed_subpacket)
 
             # followed by subpackets
@@ -377,7 +378,8 @@ class SignaturePacket(Packet):
             unhashed_subpackets = []
             while offset < subpacket_end:
                 unhashed_subpacket, offset = \
-                    signature_subpacket_from_data(data, offset)
+                    signature_subpacket_from_data(
+                        data[:subpacket_end], offset)
                 unhashed_subpackets.append(unhashed_subpacket)
 
             hash2 = data[offset:offset + 2]
diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index f16f24e..7befdd9 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -646,6 +646,8 @@ def signature_subpacket_from_data(data, offset=0):
     length_start = offset
     offset, length = utils.subpacket_length(data, offset)
     length_octets = offset - length_start
+    if not 0 < length <= len(data) - offset:
+        raise ValueError('Invalid signature subpacket length.')
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
-- 
2.43.0


From 2c89c4510417d55294f5c97349567f6cc66eebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 027/117] fix: write all octets of regular expression
 subpackets

---
 pgp/packets/signature_subpackets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 7befdd9..5d26967 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -134,7 +134,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         assert sub_data[-1] == 0
-        pattern = sub_data[:-1].decode('ascii', 'replace')
+        pattern = sub_data[:-1].decode('utf8', 'surrogateescape')
         return cls(critical, pattern)
 
     def __init__(self, critical, pattern):
@@ -144,7 +144,8 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        return bytearray(
+            self.pattern.encode('utf8', 'surrogateescape') + b'\x00')
 
 
 class RevocableSubpacket(SignatureSubpacket):
-- 
2.43.0


From f76a851491a4a63b69db9653af121de6eb88f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 028/117] fix: read the whole fingerprint of an additional
 recipient

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 5d26967..91d2363 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -191,7 +191,7 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
                    fingerprint)
 
-- 
2.43.0


From 0968119705024a53effa7cc7aa05000ffdba65ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 029/117] fix: read and write revocation key subpackets

---
 pgp/packets/signature_subpackets.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 91d2363..3fcdf70 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -242,11 +242,11 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = sub_data[0]
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, fingerprint, public_key_algorithm,
                    sensitive=sensitive)
 
@@ -255,7 +255,7 @@ class RevocationKeySubpacket(SignatureSubpacket):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -267,10 +267,8 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @property
     def content(self):
         tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
-- 
2.43.0


From 47b14fca984348115c0af9f0b8b2d71c5859ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 030/117] fix: keep every octet of notations

The human readable flag was always set, an empty namespace lost its
separator and text that is not UTF-8 was replaced.
---
 pgp/packets/signature_subpackets.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 3fcdf70..f06daf6 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -303,7 +303,7 @@ class NotationSubpacket(SignatureSubpacket):
         offset += 4
         assert not any(flags[1:])
         assert not flags[0] & 0x7f
-        human_readable = 0x80
+        human_readable = bool(flags[0] & 0x80)
         name_length = utils.short_to_int(sub_data, offset)
         offset += 2
         value_length = utils.short_to_int(sub_data, offset)
@@ -314,11 +314,11 @@ class NotationSubpacket(SignatureSubpacket):
         offset += value_length
         assert offset == len(sub_data)
 
-        name_and_namespace = raw_name.decode('utf8', 'replace')
+        name_and_namespace = raw_name.decode('utf8', 'surrogateescape')
         name, namespace = (name_and_namespace.split('@', 1) + [None])[:2]
 
         if human_readable:
-            value = value.decode('utf8', 'replace')
+            value = value.decode('utf8', 'surrogateescape')
 
         return cls(critical, name, namespace, human_readable, value)
 
@@ -332,12 +332,13 @@ class NotationSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        raw_name = self.name.encode('utf8', 'replace')
-        if self.namespace:
-            raw_name += b'@' + self.namespace.encode('utf8', 'replace')
+        raw_name = self.name.encode('utf8', 'surrogateescape')
+        if self.namespace is not None:
+            raw_name += b'@' + self.namespace.encode(
+                'utf8', 'surrogateescape')
         raw_value = self.value
         if self.human_readable:
-            raw_value = raw_value.encode('utf8', 'replace')
+            raw_value = raw_value.encode('utf8', 'surrogateescape')
         data = bytearray([0x80 if self.human_readable else 0, 0, 0, 0])
         data.extend(utils.int_to_2byte(len(raw_name)))
         data.extend(utils.int_to_2byte(len(raw_value)))
-- 
2.43.0


From 25a2f0563521026dcf557996e2a41452c44ed40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 031/117] fix: keep unknown flags of signature subpackets

---
 pgp/packets/signature_subpackets.py | 70 +++++++++++++++++++----------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index f06daf6..9e0f17b 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -370,13 +370,37 @@ class PreferredCompressionAlgorithmsSubpacket(
         self.preferred_algorithms = preferred_algorithms
 
 
-class KeyServerPreferencesSubpacket(SignatureSubpacket):
+class FlagsSubpacket(SignatureSubpacket):
+    """Flags may be stored in any number of octets, some of them not known
+    here.
+    """
+
+    # The flags as they were read
+    _flags = bytearray(1)
+
+    def _flags_content(self, known, value):
+        data = bytearray(self._flags)
+        if value and not data:
+            data.append(0)
+        if data:
+            data[0] = (data[0] & ~known) | value
+        return data
+
+    @staticmethod
+    def _known_flags(sub_data):
+        # "If a list is shorter than an implementation expects, the unstated
+        #  flags are considered to be zero."
+        return sub_data[0] if len(sub_data) else 0
+
+
+class KeyServerPreferencesSubpacket(FlagsSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
-        no_modify = bool(sub_data[0] & 0x80)
-        return cls(critical, no_modify)
+        no_modify = bool(cls._known_flags(sub_data) & 0x80)
+        result = cls(critical, no_modify)
+        result._flags = bytearray(sub_data)
+        return result
 
     def __init__(self, critical, no_modify):
         SignatureSubpacket.__init__(self,
@@ -385,7 +409,7 @@ class KeyServerPreferencesSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray([0x80 if self.no_modify else 0x00])
+        return self._flags_content(0x80, 0x80 if self.no_modify else 0x00)
 
 
 class PreferredKeyServerSubpacket(SignatureSubpacket):
@@ -432,12 +456,11 @@ class PolicyURISubpacket(PreferredKeyServerSubpacket):
         self.uri = uri
 
 
-class KeyFlagsSubpacket(SignatureSubpacket):
+class KeyFlagsSubpacket(FlagsSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
-        known_flags = sub_data[0]
+        known_flags = cls._known_flags(sub_data)
         may_certify_others = bool(known_flags & 0x01)
         may_sign_data = bool(known_flags & 0x02)
         may_encrypt_comms = bool(known_flags & 0x04)
@@ -445,10 +468,12 @@ class KeyFlagsSubpacket(SignatureSubpacket):
         may_be_used_for_auth = bool(known_flags & 0x20)
         may_have_been_split = bool(known_flags & 0x10)
         may_have_multiple_owners = bool(known_flags & 0x80)
-        return cls(critical, may_certify_others, may_sign_data,
-                   may_encrypt_comms, may_encrypt_storage,
-                   may_be_used_for_auth, may_have_been_split,
-                   may_have_multiple_owners)
+        result = cls(critical, may_certify_others, may_sign_data,
+                     may_encrypt_comms, may_encrypt_storage,
+                     may_be_used_for_auth, may_have_been_split,
+                     may_have_multiple_owners)
+        result._flags = bytearray(sub_data)
+        return result
 
     def __init__(self, critical, may_certify_others=True, may_sign_data=True,
                  may_encrypt_comms=True, may_encrypt_storage=True,
@@ -466,7 +491,8 @@ class KeyFlagsSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        data = bytearray([
+        return self._flags_content(
+            0xbf,
             (0x01 if self.may_certify_others else 0x00) +
             (0x02 if self.may_sign_data else 0x00) +
             (0x04 if self.may_encrypt_comms else 0x00) +
@@ -474,8 +500,7 @@ class KeyFlagsSubpacket(SignatureSubpacket):
             (0x10 if self.may_have_been_split else 0x00) +
             (0x20 if self.may_be_used_for_auth else 0x00) +
             (0x80 if self.may_have_multiple_owners else 0x00)
-            ])
-        return data
+            )
 
 
 class UserIDSubpacket(SignatureSubpacket):
@@ -519,13 +544,14 @@ class RevocationReasonSubpacket(SignatureSubpacket):
         return data
 
 
-class FeaturesSubpacket(SignatureSubpacket):
+class FeaturesSubpacket(FlagsSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
-        supports_modification_detection = sub_data[0] & 0x01
-        return cls(critical, supports_modification_detection)
+        supports_modification_detection = cls._known_flags(sub_data) & 0x01
+        result = cls(critical, supports_modification_detection)
+        result._flags = bytearray(sub_data)
+        return result
 
     def __init__(self, critical, supports_modification_detection):
         SignatureSubpacket.__init__(
@@ -534,10 +560,8 @@ class FeaturesSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        data = bytearray([
-                        0x01 if self.supports_modification_detection else 0x00
-                        ])
-        return data
+        return self._flags_content(
+            0x01, 0x01 if self.supports_modification_detection else 0x00)
 
 
 class TargetSubpacket(SignatureSubpacket):
-- 
2.43.0


From 31eddc8372b8111b0767b0464b7fd2cc825049c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 032/117] fix: keep the octets of text in signature subpackets

---
 pgp/packets/signature_subpackets.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 9e0f17b..ba8ccd8 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -416,8 +416,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        assert len(sub_data) > 0
-        uri = sub_data.decode('utf8', 'replace')
+        uri = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, uri)
 
     def __init__(self, critical, uri):
@@ -427,7 +426,7 @@ class PreferredKeyServerSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.uri.encode('utf8', 'replace'))
+        return bytearray(self.uri.encode('utf8', 'surrogateescape'))
 
 
 class PrimaryUserIDSubpacket(SignatureSubpacket):
@@ -507,7 +506,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
-        user_id = sub_data.decode('utf8')
+        user_id = sub_data.decode('utf8', 'surrogateescape')
         return cls(critical, user_id)
 
     def __init__(self, critical, user_id):
@@ -517,7 +516,7 @@ class UserIDSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.user_id.encode('utf8', 'replace'))
+        return bytearray(self.user_id.encode('utf8', 'surrogateescape'))
 
 
 class RevocationReasonSubpacket(SignatureSubpacket):
@@ -525,7 +524,7 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         revocation_code = sub_data[0]
-        revocation_reason = sub_data[1:].decode('utf8', 'replace')
+        revocation_reason = sub_data[1:].decode('utf8', 'surrogateescape')
         return cls(critical, revocation_code, revocation_reason)
 
     def __init__(self, critical, revocation_code, revocation_reason):
@@ -539,7 +538,8 @@ class RevocationReasonSubpacket(SignatureSubpacket):
     def content(self):
         data = bytearray([self.revocation_code])
         data += bytearray(
-                        self.revocation_reason.encode('utf8', 'replace')
+                        self.revocation_reason.encode(
+                            'utf8', 'surrogateescape')
                     )
         return data
 
-- 
2.43.0


From 4a92a17088439f7ef046c334e9ff7effe84ed7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 033/117] fix: read and write the hash of target signatures

---
 pgp/packets/signature_subpackets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index ba8ccd8..97b9d1e 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -576,7 +576,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2, 2 * (len(sub_data) - 2))
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -599,11 +599,12 @@ class TargetSubpacket(SignatureSubpacket):
         if hash_length is None:
             hash_length = self.hash_length
 
-        return bytearray([
+        data = bytearray([
                             int(self.public_key_algorithm),
                             int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+                        ])
+        data.extend(utils.hex_to_bytes(self.hash, hash_length))
+        return data
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From c28108014748c64d0d42166af0cddbc7c0c87917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 034/117] fix: hash the whole passphrase when it is longer than
 the octet count

---
 pgp/s2k.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index e10fc3b..a7ce011 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -49,7 +49,9 @@ class SimpleS2K(object):
         # Length of content hashed on each iteration
         len2 = len(passphrase) + 8
         count = self.count
-        if count is None:
+        if count is None or count < len2:
+            # "[...] if the octet count is less than the size of the salt
+            #  plus passphrase, the full salt plus passphrase will be hashed"
             count = len2
 
         while (pass_ * hash_length) < required_length:
-- 
2.43.0


From 155f4246bfbd17928983bccb1fe5e7b6091a4116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 035/117] fix: use keys of 256 bits for Twofish

"10 - Twofish with 256-bit key"
---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index df6a692..eec96b2 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -85,7 +85,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From 0469309815461541acd65273c9135fa3d5c39b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 036/117] fix: compute the fingerprint of version 3 keys

---
 pgp/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index eec96b2..37af583 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -924,11 +924,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(int_to_bytes(packet.modulus))
+            md5.update(int_to_bytes(packet.exponent))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(int_to_bytes(packet.prime))
+            md5.update(int_to_bytes(packet.group_generator))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From 75853100f51cbbbcab2e2627da159799bfa3de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 037/117] fix: take the key id of version 3 key packets from
 the modulus

---
 pgp/packets/packets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b524ea5..711de3c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -820,6 +820,11 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4:
+            # "[...] the low 64 bits of the public modulus of the RSA key"
+            if self.public_key_algorithm in (1, 2, 3):
+                return utils.int_to_hex(self.modulus, 16)
+            return utils.int_to_hex(self.prime, 16)
         return self.fingerprint[-16:]
 
     @property
-- 
2.43.0


From c548b539c8601c9fd0deb98b7dfc3b2a8e682713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 038/117] fix: keep the validity period of version 3 keys

---
 pgp/transferrable_keys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..b1e191d 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -196,7 +196,7 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
             expiration_time = \
@@ -224,9 +224,10 @@ class BasePublicKey(SignedMixin):
         creation_time = int(time.mktime(self.creation_time.timetuple()))
         expiration_days = None
         if self.version < 4:
+            expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = (expiration_time - self.creation_time).days
 
         return (
             header_format, self.version, creation_time,
-- 
2.43.0


From 7461069f45cf93f065eb63b669d31d02f866285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 039/117] fix: keep key creation times that fall into a
 repeated hour

The creation time is part of what the fingerprint is computed from.
---
 pgp/transferrable_keys.py | 2 +-
 pgp/utils.py              | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b1e191d..52901c8 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -221,7 +221,7 @@ class BasePublicKey(SignedMixin):
         return result
 
     def _to_packet_args(self, header_format=None):
-        creation_time = int(time.mktime(self.creation_time.timetuple()))
+        creation_time = utils.datetime_to_timestamp(self.creation_time)
         expiration_days = None
         if self.version < 4:
             expiration_days = 0
diff --git a/pgp/utils.py b/pgp/utils.py
index 37af583..0aab9ee 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -526,6 +526,15 @@ def hash_packet_for_signature(packet_for_hash,
     return hash_
 
 
+def datetime_to_timestamp(dt):
+    """Given a datetime in local time, return the seconds since the
+    epoch, telling the two occurrences of an hour repeated by a clock
+    change apart.
+    """
+
+    return int(dt.timestamp())
+
+
 def bytes_to_int(bytes_, offset, length):
     result = 0
     for i in range(length):
-- 
2.43.0


From d30aea624e37d34fc5c8ab07270571463b206dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 040/117] fix: report no self-signature attributes for version
 3 keys

---
 pgp/transferrable_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 52901c8..5058ba9 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -116,6 +116,7 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
+            result = default
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
                 result = getattr(most_recent_selfsig, name, default)
-- 
2.43.0


From 9dd0443127b7316b3bc6dc99c1ad2eceb70f7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 041/117] fix: allow the expiration time of keys to be set

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5058ba9..08b375e 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -298,7 +298,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
-- 
2.43.0


From 22a83ddd1d7ff36584b7194ecaa13b3ce06bf36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 042/117] fix: construct encrypt-only RSA keys

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 08b375e..045322f 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -377,7 +377,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -496,7 +496,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
-- 
2.43.0


From 00bf0af1a49643291201bb1f80e401d0b19350df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 043/117] fix: report the exact size of keys

---
 pgp/transferrable_keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 045322f..015cefb 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,6 @@
 
 import datetime
 import email.utils
-import math
 import time
 import weakref
 
@@ -325,7 +324,7 @@ class BasePublicKey(SignedMixin):
         elif self.public_key_algorithm in (16, 20):
             n = self.prime_p
 
-        return int(math.ceil(float(math.log(n, 2))))
+        return n.bit_length()
 
     @property
     def key_id(self):
-- 
2.43.0


From 864e0e191ba8e6a87fdab54df5700af7d69aa4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:17 +0000
Subject: [PATCH 044/117] fix: keep the secret prime of RSA keys out of their
 public part

---
 pgp/transferrable_keys.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 015cefb..c60a031 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -229,10 +229,15 @@ class BasePublicKey(SignedMixin):
             if expiration_time is not None:
                 expiration_days = (expiration_time - self.creation_time).days
 
+        prime_p = self.prime_p
+        if self.public_key_algorithm in (1, 2, 3):
+            # This is a secret value of RSA keys
+            prime_p = None
+
         return (
             header_format, self.version, creation_time,
             self.public_key_algorithm, expiration_days, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_order_q,
+            self.exponent_e, prime_p, self.group_order_q,
             self.group_generator_g, self.key_value_y
             )
 
-- 
2.43.0


From 672217d602f054fb0445f31787326e43015e8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 045/117] fix: hash the primary key once in signatures that
 bind secret subkeys

Secret subkeys included the primary key both by themselves and by way of
their public key.
---
 pgp/transferrable_keys.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index c60a031..aad288c 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -248,7 +248,7 @@ class BasePublicKey(SignedMixin):
         return self._PacketClass(*args)
 
     def to_signable_data(self, signature_type, signature_version=3):
-        key_packet_data = self.to_packet().content
+        key_packet_data = self.to_packet().public_content
         key_length = len(key_packet_data)
         result = bytearray([0x99])
         result.extend(utils.int_to_2byte(key_length))
@@ -462,10 +462,6 @@ class BaseSecretKey(BasePublicKey):
         self.checksum = checksum
         self.hash = hash_
 
-    def to_signable_data(self, signature_type, signature_version=3):
-        return self.to_public_key().to_signable_data(signature_type,
-                                                     signature_version)
-
     def to_public_key(self):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
-- 
2.43.0


From 3c74c860e0a91221f61f190e3ac80927930599a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 046/117] fix: leave the subpackets given for a signature as
 they are

Using the same list for another signature gave it the creation time and
issuer of the first one as well.
---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index aad288c..ea26257 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -536,7 +536,7 @@ class BaseSecretKey(BasePublicKey):
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
-- 
2.43.0


From fd82ef01f2992fa5f826dc104549f9b81c54b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 047/117] fix: let public keys made from secret keys stand on
 their own

Their identities, subkeys and signatures belonged to the secret key, so
that they were no longer usable once it was released, and so that a change
of either key changed the other one as well.  The public key of an unlocked
RSA key also carried one of its secret primes.
---
 pgp/transferrable_keys.py | 55 ++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index ea26257..1957b99 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import datetime
 import email.utils
 import time
@@ -181,6 +182,14 @@ class KeySignature(BaseSignature):
         return bool(set(self.issuer_key_ids) & set(own_key_ids))
 
 
+def _copy_signatures(signatures, target):
+    result = []
+    for signature in signatures:
+        packet = copy.deepcopy(signature.to_packet())
+        result.append(signature.__class__.from_packet(packet, target))
+    return result
+
+
 @implementer(interfaces.IPublicKey)
 class BasePublicKey(SignedMixin):
 
@@ -462,15 +471,24 @@ class BaseSecretKey(BasePublicKey):
         self.checksum = checksum
         self.hash = hash_
 
-    def to_public_key(self):
-        key = self._PublicClass(
+    def _to_public_key(self, *args):
+        prime_p = self.prime_p
+        if self.public_key_algorithm in (1, 2, 3):
+            # This is a secret value of RSA keys
+            prime_p = None
+        args += (
             self.version, self.public_key_algorithm, self.creation_time,
-            self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
-            self.key_value_y, self.signatures)
+            self._expiration_time, self.modulus_n, self.exponent_e,
+            prime_p, self.group_generator_g, self.group_order_q,
+            self.key_value_y)
+        key = self._PublicClass(*args)
+        key.signatures = _copy_signatures(self.signatures, key)
         key.packet_header_type = self.packet_header_type
         return key
 
+    def to_public_key(self):
+        return self._to_public_key()
+
     def _to_packet_args(self, header_format=None):
         args = BasePublicKey._to_packet_args(self, header_format)
         args += (self.s2k_specification, self.symmetric_algorithm, self.iv,
@@ -655,13 +673,7 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         BaseSecretKey.__init__(self, *args, **kwargs)
 
     def to_public_key(self):
-        key = self._PublicClass(
-            self.primary_public_key, self.version, self.public_key_algorithm,
-            self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
-            self.group_order_q, self.key_value_y, self.signatures)
-        key.packet_header_type = self.packet_header_type
-        return key
+        return self._to_public_key(self.primary_public_key)
 
 
 @implementer(interfaces.IUserID)
@@ -1090,10 +1102,23 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         self.subkeys = []
 
     def to_public_key(self):
+        # The components of a key only refer weakly to it, so those of the
+        # public key must not be shared with this key.
         key = super(TransferableSecretKey, self).to_public_key()
-        key.user_ids = self.user_ids
-        key.user_attributes = self.user_attributes
-        key.subkeys = list(map(lambda k: k.to_public_key(), self.subkeys))
+        for user_id in self.user_ids:
+            new_user_id = UserID(key, user_id.user_id)
+            new_user_id.packet_header_type = user_id.packet_header_type
+            new_user_id.signatures = _copy_signatures(user_id.signatures,
+                                                      new_user_id)
+            key.user_ids.append(new_user_id)
+        for attribute in self.user_attributes:
+            new_attribute = UserAttribute(key, list(attribute.content_items))
+            new_attribute.packet_header_type = attribute.packet_header_type
+            new_attribute.signatures = _copy_signatures(attribute.signatures,
+                                                        new_attribute)
+            key.user_attributes.append(new_attribute)
+        for subkey in self.subkeys:
+            key.subkeys.append(subkey._to_public_key(key))
         return key
 
     def unlock(self, passphrase):
-- 
2.43.0


From 6ac2d1574b8282c15f3c8ba953aa0ecbfa3f63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 048/117] fix: read, write and verify version 3 signatures

---
 pgp/signature.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..a21db2d 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -135,8 +135,7 @@ class BaseSignature(object):
         hash2 = packet.hash2
         signature_values = packet.signature_values
         if version in (2, 3):
-            creation_time = datetime.datetime.fromtimestamp(
-                                packet.creation_time)
+            creation_time = packet.creation_time
             issuer_key_id = packet.key_id
             hashed_subpackets = []
             unhashed_subpackets = []
@@ -171,7 +170,7 @@ class BaseSignature(object):
                         hashed_subpackets=hashed_subpackets,
                         unhashed_subpackets=unhashed_subpackets)
         elif self.version in (2, 3):
-            creation_time = int(time.mktime(self.creation_time.timetuple()))
+            creation_time = utils.datetime_to_timestamp(self.creation_time)
             packet = packets.SignaturePacket(
                         header_format, self.version, self.signature_type,
                         self.public_key_algorithm, self.hash_algorithm,
@@ -186,7 +185,7 @@ class BaseSignature(object):
         result.append(self.signature_type)
         if self.version < 4:
             result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
+                utils.datetime_to_timestamp(self.creation_time)
             ))
         else:
             result.append(self.public_key_algorithm)
@@ -324,7 +323,7 @@ class BaseSignature(object):
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-- 
2.43.0


From 9ccc43bdf9d1fcd921525ded8266755bfc632fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 049/117] fix: unlock secret keys that are protected by a
 checksum or not at all

This concerns keys whose secret values are in the clear, and version 3
keys.
---
 pgp/packets/packets.py | 51 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 711de3c..89fb6a3 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -965,6 +965,19 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             raise ValueError
 
+    @classmethod
+    def _apply_cipher(cls, method, symmetric_algorithm, key, iv, data):
+        """Encrypt or decrypt data of any length in CFB mode."""
+        if symmetric_algorithm == 0:
+            # not encrypted
+            return bytearray(data)
+        cipher = utils.get_symmetric_cipher(
+                    symmetric_algorithm, key, utils.CFB, iv)
+        block_size = utils.symmetric_cipher_block_lengths[symmetric_algorithm]
+        padding = bytearray([0x00] * (-len(data) % block_size))
+        result = getattr(cipher, method)(bytes(data + padding))
+        return bytearray(result[:len(data)])
+
     @classmethod
     def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
                            iv, checksum=False, hash_=False):
@@ -1010,30 +1023,24 @@ class SecretKeyPacket(PublicKeyPacket):
                                       iv, encrypted_data, checksum=False,
                                       hash_=False):
 
-        sym_block_size = utils.symmetric_cipher_block_lengths.get(
-            symmetric_algorithm, 8)
         if version >= 4:
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv)
-            padding = bytearray([0x00] * (
-                sym_block_size - (len(encrypted_data) % sym_block_size)))
-            decrypted_data = cipher.decrypt(
-                bytes(encrypted_data + padding)
-                )[:-len(padding)]
+            # With V4 keys, the checksum is encrypted like the
+            # algorithm-specific data.
+            decrypted_data = cls._apply_cipher(
+                'decrypt', symmetric_algorithm, key, iv, encrypted_data)
         elif version in (2, 3):
             # "With V3 keys, the MPI bit count prefix (i.e., the first two
             #  octets) is not encrypted.  Only the MPI non-prefix data is
             #  encrypted.  Furthermore, the CFB state is resynchronized at the
             #  beginning of each new MPI value, so that the CFB block boundary
             #  is aligned with the start of the MPI data."
-
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
             offset = 0
+            end = len(encrypted_data)
+            if checksum:
+                # The checksum is not encrypted either
+                end -= 2
             decrypted_data = bytearray()
-            while offset < len(encrypted_data):
-                cipher.sync()
+            while offset < end:
                 decrypted_data.extend(
                         encrypted_data[offset:offset + 2])
                 mpi_length = utils.mpi_length(encrypted_data, offset)
@@ -1041,20 +1048,18 @@ class SecretKeyPacket(PublicKeyPacket):
                 encrypted_mpi_content = \
                     encrypted_data[offset:offset + mpi_length]
                 offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
-                decrypted_data.extend(mpi_content)
+                decrypted_data.extend(cls._apply_cipher(
+                    'decrypt', symmetric_algorithm, key, iv,
+                    encrypted_mpi_content))
+                iv = (bytearray(iv) + encrypted_mpi_content)[-len(iv):]
+            decrypted_data.extend(encrypted_data[offset:])
         else:
             raise ValueError
 
         data_length = len(decrypted_data)
         if checksum:
             data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
-                    )
+            expected_checksum = utils.short_to_int(decrypted_data, data_length)
             actual_checksum = sum(decrypted_data[:-2]) & 0xffff
             if actual_checksum != expected_checksum:
                 raise ValueError
-- 
2.43.0


From 038329cfb4ab8814c5bff163d831749ebffc337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 050/117] fix: protect the secret values of keys the way they
 are read back

They were encrypted in another mode than they are decrypted in.
---
 pgp/packets/packets.py | 49 ++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 89fb6a3..f58875b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -15,7 +15,6 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import datetime
-import math
 import os
 import warnings
 
@@ -982,41 +981,29 @@ class SecretKeyPacket(PublicKeyPacket):
     def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
                            iv, checksum=False, hash_=False):
 
-        cipher = utils.get_symmetric_cipher(
-                    symmetric_algorithm, key, utils.OPENPGP, iv,
-                    syncable=True)
-
         unencrypted_data = bytearray()
         for value in values:
             unencrypted_data.extend(utils.int_to_mpi(value))
 
-        if version >= 4:
-            encrypted_data = cipher.encrypt(unencrypted_data)
-        elif version in (2, 3):
-            encrypted_data = bytearray()
-            for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-                bytes_required = int(math.ceil(bits_required / 8.0))
-                encrypted_data.extend(utils.int_to_2byte(bytes_required))
-                cipher.sync()
-                mpi_value_bytes = utils.int_to_bytes(i)
-                if len(mpi_value_bytes) < bytes_required:
-                    mpi_value_bytes = bytearray(
-                            [0] * (bytes_required - len(mpi_value_bytes))
-                        ) + mpi_value_bytes
-                encrypted_data.extend(cipher.encrypt(mpi_value_bytes))
-
+        trailer = bytearray()
         if checksum:
-            checksum = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
-            if version >= 4:
-                encrypted_data.extend(cipher.encrypt(checksum))
-            else:
-                encrypted_data.extend(checksum)
-
+            trailer.extend(utils.int_to_2byte(sum(unencrypted_data) & 0xffff))
         if hash_:
-            hash_ = SHA.new(unencrypted_data).digest()
-            encrypted_data.extend(cipher.encrypt(hash_))
-        return encrypted_data
+            trailer.extend(SHA.new(unencrypted_data).digest())
+
+        if version >= 4:
+            return cls._apply_cipher('encrypt', symmetric_algorithm, key, iv,
+                                     unencrypted_data + trailer)
+
+        encrypted_data = bytearray()
+        for value in values:
+            mpi = utils.int_to_mpi(value)
+            encrypted_mpi_content = cls._apply_cipher(
+                'encrypt', symmetric_algorithm, key, iv, mpi[2:])
+            encrypted_data.extend(mpi[:2])
+            encrypted_data.extend(encrypted_mpi_content)
+            iv = (bytearray(iv) + encrypted_mpi_content)[-len(iv):]
+        return encrypted_data + trailer
 
     @classmethod
     def decrypt_encrypted_key_portion(cls, version, key, symmetric_algorithm,
@@ -1116,7 +1103,7 @@ class SecretKeyPacket(PublicKeyPacket):
                 key = self.passphrase
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-                        self.iv, s2k_usage in (0, 255), s2k_usage == 254)
+                        self.iv, self.checksum, self.hash)
             data.extend(encrypted_data)
 
         return data
-- 
2.43.0


From f3dae74d5fcd5f95ea2742baf1a817392056bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 051/117] fix: unlock secret keys without a string-to-key
 specifier

Those of older keys are encrypted with a key that is the MD5 digest of the
passphrase, and others are not encrypted at all.
---
 pgp/packets/packets.py    | 37 ++++++++++++++++++++-----------------
 pgp/transferrable_keys.py | 11 ++++++-----
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index f58875b..4cb26ee 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -883,15 +883,9 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
-            hash_ = True
-            checksum = False
-        else:
-            checksum = False
-            hash_ = False
+        # Only usage 254 has a hash, all others have a checksum.
+        hash_ = s2k_usage == 254
+        checksum = not hash_
 
         values += (s2k_specification, symmetric_algorithm, iv,
                    encrypted_portion, checksum, hash_)
@@ -943,11 +937,21 @@ class SecretKeyPacket(PublicKeyPacket):
             and self.hash == other.hash
             )
 
+    @classmethod
+    def passphrase_to_key(cls, s2k_specification, symmetric_algorithm,
+                          passphrase):
+        if s2k_specification is None:
+            if symmetric_algorithm == 0:
+                # not encrypted
+                return None
+            # The usage octet is the id of the cipher, whose key is the MD5
+            # digest of the passphrase.
+            s2k_specification = s2k.SimpleS2K(1, symmetric_algorithm)
+        return s2k_specification.to_key(passphrase)
+
     def decrypt(self, passphrase):
-        if self.s2k_specification is not None:
-            key = self.s2k_specification.to_key(passphrase)
-        else:
-            key = passphrase
+        key = self.passphrase_to_key(self.s2k_specification,
+                                     self.symmetric_algorithm, passphrase)
         values = self.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
@@ -1097,10 +1101,9 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 raise ValueError
 
-            if self.s2k_specification is not None:
-                key = self.s2k_specification.to_key(self.passphrase)
-            else:
-                key = self.passphrase
+            key = self.passphrase_to_key(self.s2k_specification,
+                                         self.symmetric_algorithm,
+                                         self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
                         self.iv, self.checksum, self.hash)
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 1957b99..35299c2 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -588,11 +588,12 @@ class BaseSecretKey(BasePublicKey):
         return sig
 
     def unlock(self, passphrase):
-        if self.s2k_specification is not None:
-            # TODO: Check encoding
-            key = self.s2k_specification.to_key(passphrase.encode('utf8'))
-        else:
-            key = passphrase
+        # TODO: Check encoding
+        if passphrase is not None:
+            passphrase = passphrase.encode('utf8')
+        key = packets.SecretKeyPacket.passphrase_to_key(
+                    self.s2k_specification, self.symmetric_algorithm,
+                    passphrase)
 
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
-- 
2.43.0


From c38647737b949f74df4c243658c5781c90494489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 052/117] fix: refuse to unlock keys without secret values

---
 pgp/s2k.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index a7ce011..33d6370 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -191,7 +191,8 @@ class GnuPGS2K(SimpleS2K):
 
     def to_key(self, passphrase):
         # TODO: complete OpenPGP card & GnuPG dummy s2k
-        pass
+        raise NotImplementedError(
+            'The secret values are not part of this key.')
 
     def __bytes__(self):
         result = bytearray([101, self.hash_algorithm])
-- 
2.43.0


From 6ba4dbd48210df8a666c4f86cf94be70beb2ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 053/117] fix: leave a key locked when not all of it can be
 unlocked

The primary key stayed usable if the passphrase was wrong for a subkey.
---
 pgp/transferrable_keys.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 35299c2..c422f28 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -588,6 +588,9 @@ class BaseSecretKey(BasePublicKey):
         return sig
 
     def unlock(self, passphrase):
+        self._set_secret_values(self._get_secret_values(passphrase))
+
+    def _get_secret_values(self, passphrase):
         # TODO: Check encoding
         if passphrase is not None:
             passphrase = passphrase.encode('utf8')
@@ -599,6 +602,12 @@ class BaseSecretKey(BasePublicKey):
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
 
+        expected_count = 4 if self.public_key_algorithm in (1, 2, 3) else 1
+        if len(values) != expected_count:
+            raise ValueError('Unexpected number of secret values.')
+        return values
+
+    def _set_secret_values(self, values):
         if self.public_key_algorithm in (1, 2, 3):
             # RSA
             self.exponent_d = values[0]
@@ -1123,9 +1132,11 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         return key
 
     def unlock(self, passphrase):
-        super(TransferableSecretKey, self).unlock(passphrase)
-        for sk in self.subkeys:
-            sk.unlock(passphrase)
+        # Make no key usable unless the passphrase is right for all of them
+        keys = [self] + self.subkeys
+        values = [key._get_secret_values(passphrase) for key in keys]
+        for key, key_values in zip(keys, values):
+            key._set_secret_values(key_values)
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From b8125acc97404884b877b540e64ee9c61aec95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 054/117] fix: ECB, CBC, OFB and OpenPGP modes of
 get_symmetric_cipher

---
 pgp/utils.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 0aab9ee..1607a8f 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -277,24 +277,21 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
     if segment_size is None and mode == blockalgo.MODE_CFB:
         segment_size = cipher.block_size * 8
 
+    args = ()
+    kwargs = {}
+    if mode != blockalgo.MODE_ECB and iv is not None:
+        # Not as a keyword, which is spelled differently for OPENPGP mode
+        args = (bytes(iv),)
+    if segment_size is not None:
+        kwargs['segment_size'] = segment_size
+
     if syncable and cipher not in (aidea, twofish, camellia):
         # We need to wrap the PyCrypto implementation so we can re-sync
         # for OpenPGP's weird CFB mode.
-        try:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               IV=bytes(iv),
-                                               segment_size=segment_size)
-        except TypeError:
-            return syncable_cipher_wrapper.new(cipher, bytes(key), mode,
-                                               iv=bytes(iv),
-                                               segment_size=segment_size)
-
-    try:
-        return cipher.new(bytes(key), mode, IV=bytes(iv),
-                          segment_size=segment_size)
-    except TypeError:
-        return cipher.new(bytes(key), mode, iv=bytes(iv),
-                          segment_size=segment_size)
+        return syncable_cipher_wrapper.new(cipher, bytes(key), mode, *args,
+                                           **kwargs)
+
+    return cipher.new(bytes(key), mode, *args, **kwargs)
 
 
 class NoopCompression(object):
-- 
2.43.0


From 691294bbc18a08d132f093eabf5412fe1f580edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 055/117] fix: check trust-scope expressions against the
 standard's grammar

Repetitions, groups, escapes and ranges were misjudged, some with a
NameError.
---
 pgp/regex.py | 284 ++++++++++++---------------------------------------
 1 file changed, 63 insertions(+), 221 deletions(-)

diff --git a/pgp/regex.py b/pgp/regex.py
index c748896..95a7358 100644
--- a/pgp/regex.py
+++ b/pgp/regex.py
@@ -22,235 +22,77 @@ specification provided by RFC 4880.
 http://tools.ietf.org/html/rfc4880#section-8
 """
 
-import re
-
 from pgp.exceptions import RegexValueError
 
 
-re_tokenizer = re.compile(r'(\\.|[\]|*?+()\[]|[^\\])')
-
-
-class Regex(object):
-
-    complete = True
-
-    def __init__(self):
-        self.branches = []
-
-    def __str__(self):
-        return '|'.join(map(str, self.branches))
-
-
-class Branch(object):
-
-    complete = True
-
-    def __init__(self, regex):
-        self.regex = regex
-        self.pieces = []
-
-    def __str__(self):
-        return ''.join(map(str, self.pieces))
-
-
-class Piece(object):
-
-    complete = False
-
-    def __init__(self, branch):
-        self.branch = branch
-        self.atom = None
-        self.terminator = ''
-
-    def __str__(self):
-        return '{0}{1}'.format(self.atom, self.terminator)
-
-
-class Atom(object):
-
-    complete = True
-    start = ''
-    end = ''
-
-    def __init__(self, piece):
-        self.piece = piece
-        self.content = ''
-
-    def __str__(self):
-        return '{0}{1}{2}'.format(self.start, self.content,
-                                  self.end if self.complete else '')
-
-
-class Group(Atom):
-
-    complete = False
-    start = '('
-    end = ')'
-
-
-class Range(Atom):
-
-    complete = False
-    start = '['
-    end = ']'
-
-
-def validate_partial_subpacket_regex(tokens):
-    root = Regex()
-    current = Branch(root)
-    root.branches.append(current)
-    valid = True
-    unterminated = False
-    while valid and tokens:
-        tok = tokens.pop(0)
-        if tok == '|':
-            piece = None
-            if isinstance(current, Range) and not current.complete:
-                current.content += tok
-                continue
-            if isinstance(current, Atom):
-                if not current.complete:
-                    valid = False
-                    continue
-                else:
-                    piece = current.piece
-                    regex = current.piece.branch.regex
-            elif isinstance(current, Piece):
-                piece = current
-                regex = current.branch.regex
-            elif isinstance(current, Branch):
-                regex = current.regex
-            if piece:
-                piece.complete = True
-            current = Branch(regex)
-            regex.branches.append(current)
-        elif tok in '*+?':
-            if isinstance(current, Range) and not current.complete:
-                current.content += tok
-                continue
-            if isinstance(current, Atom):
-                if not current.complete:
-                    valid = False
-                    continue
-                else:
-                    piece = current.piece
-            elif isinstance(current, Piece):
-                if piece.complete:
-                    valid = False
-                piece = current
-            else:
-                valid = False
-                continue
-            piece.terminator = tok
-            piece.complete = True
-            current = piece.branch
+def _scan_range(re_str, position):
+    """Return the position after the range that starts at `position`, or
+    `None` if it does not end.
+
+    "A range is a sequence of characters enclosed in '[]'. [...] To include a
+     literal ']' in the sequence, make it the first character (following a
+     possible '^')."
+    """
+
+    position += 1
+    if re_str[position:position + 1] == '^':
+        position += 1
+    end = re_str.find(']', position + 1)
+    if end < 0:
+        return None
+    return end + 1
+
+
+def validate_partial_subpacket_regex(re_str):
+    """Return a tuple of whether the expression is unterminated, whether it
+    is valid as far as it goes, and the length of the valid portion.
+    """
+
+    position = 0
+    depth = 0
+    # Whether the previous token is an atom that may be repeated
+    repeatable = False
+    while position < len(re_str):
+        tok = re_str[position]
+        if tok == '\\':
+            if position + 1 == len(re_str):
+                return True, True, position
+            position += 2
+            repeatable = True
+            continue
+        if tok == '[':
+            end = _scan_range(re_str, position)
+            if end is None:
+                return True, True, position
+            position = end
+            repeatable = True
+            continue
+
+        if tok in '*+?':
+            if not repeatable:
+                return False, False, position
+            repeatable = False
         elif tok == '(':
-            if isinstance(current, Range) and not current.complete:
-                current.content += tok
-                continue
-            if isinstance(current, Atom):
-                if not current.complete:
-                    valid = False
-                    continue
-                current.piece.complete = True
-                branch = current.piece.branch
-            elif isinstance(current, Branch):
-                branch = current
-            piece = Piece(branch)
-            branch.pieces.append(piece)
-            current = Group(piece)
-            piece.atom = current
-            # We don't care about the validity of the sub expression, really,
-            # just so long as we've parsed as much terminated data as we can.
-            unterminated, _valid, sub_expr = validate_partial_subpacket_regex(
-                                        tokens
-                                    )
-            current.content = sub_expr
+            depth += 1
+            repeatable = False
         elif tok == ')':
-            if isinstance(current, Range) and not current.complete:
-                current.content += tok
-                continue
-            if not isinstance(current, Group):
-                valid = False
-                continue
-            current.complete = True
-            current = current.piece
-        elif tok == '[':
-            if isinstance(current, Range):
-                current.content += tok
-                continue
-            elif isinstance(current, Atom):
-                if not current.complete:
-                    valid = False
-                    continue
-                current.piece.complete = True
-                branch = current.piece.branch
-            elif isinstance(current, Branch):
-                branch = current
-            piece = Piece(branch)
-            branch.pieces.append(piece)
-            current = Range(piece)
-            piece.atom = current
+            if not depth:
+                return False, False, position
+            depth -= 1
+            repeatable = True
+        elif tok == '|':
+            repeatable = False
         elif tok == ']':
-            if isinstance(current, Range):
-                if current.content in ('', '^'):
-                    current.content += tok
-                    continue
-                if not current.complete:
-                    current.complete = True
-                    current = current.piece
-                else:
-                    valid = False
-                    continue
-            else:
-                valid = False
-                continue
-        else:  # .^$ \\
-            # anything
-            if isinstance(current, Branch):
-                branch = current
-                piece = Piece(branch)
-                branch.pieces.append(piece)
-                current = Atom(piece)
-                piece.atom = current
-            elif isinstance(current, Piece):
-                if not current.complete:
-                    # Should always be false
-                    current.complete = True
-                branch = current.branch
-                piece = Piece(branch)
-                branch.pieces.append(piece)
-                current = Atom(piece)
-                piece.atom = current
-            elif isinstance(current, Atom):
-                if current.complete:
-                    current.piece.complete = True
-                    branch = current.piece.branch
-                    piece = Piece(branch)
-                    branch.pieces.append(piece)
-                    current = Atom(piece)
-                    piece.atom = current
-
-            current.content += (tok)
-
-    if (
-            valid and
-            (isinstance(current, Range) or isinstance(current, Group))
-            and not current.complete
-        ):
-
-        unterminated = True
-
-    if not valid:
-        tokens.insert(0, tok)
-    return unterminated, valid, str(root)
+            return False, False, position
+        else:  # .^$ or anything without other significance
+            repeatable = True
+        position += 1
+    return bool(depth), True, position
 
 
 def validate_subpacket_regex(re_str):
-    tokens = re_tokenizer.findall(re_str)
-    unterminated, valid, valid_portion = \
-        validate_partial_subpacket_regex(tokens)
+    unterminated, valid, position = validate_partial_subpacket_regex(re_str)
     if unterminated:
-        raise RegexValueError(len(valid_portion), re_str, unterminated=True)
+        raise RegexValueError(position, re_str, unterminated=True)
     if not valid:
-        raise RegexValueError(len(valid_portion), re_str)
+        raise RegexValueError(position, re_str)
-- 
2.43.0


From 797ea6755696b0e56d16ec17e57a8bec3bc8c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 056/117] fix: split and recombine user IDs without losing or
 inventing parts

Names and comments containing each other, special characters or non-ASCII
text, quoted local parts and missing parts were misread or rewritten.
---
 pgp/transferrable_keys.py |  7 ++-----
 pgp/user_id.py            | 43 ++++++++++++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index c422f28..ee043ee 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,6 @@
 
 import copy
 import datetime
-import email.utils
 import time
 import weakref
 
@@ -32,6 +31,7 @@ from pgp.packets import packets
 from pgp.packets import signature_subpackets
 from pgp.packets import user_attribute_subpackets
 from pgp.signature import BaseSignature
+from pgp.user_id import make_user_id
 from pgp.user_id import parse_user_id
 from pgp import utils
 
@@ -735,10 +735,7 @@ class UserID(SignedMixin):
         return self._primary_public_key_ref()
 
     def _make_user_id(self, name, emailaddr, comment):
-        result = email.utils.formataddr((name, emailaddr), 'utf8')
-        if comment:
-            result = u"{0} ({1})".format(result, comment)
-        return result
+        return make_user_id(name, emailaddr, comment)
 
     def _get_user_name(self):
         return parse_user_id(self.user_id)[0]
diff --git a/pgp/user_id.py b/pgp/user_id.py
index 8dc93a6..9b90259 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -12,16 +12,18 @@
 """User ID parsing code."""
 
 
-try:
-    from urllib.parse import quote
-except ImportError:
-    from urllib import quote
+import re
 
 
 EMPTYSTRING = ''
 SPACE = ' '
 
 
+def quote(string):
+    """Prepare string to be used in a quoted string."""
+    return string.replace('\\', '\\\\').replace('"', r'\"')
+
+
 class AddrlistClass:
     """Address parser class by Ben Escoto.
 
@@ -317,7 +319,34 @@ class AddrlistClass:
 
 def parse_user_id(user_id):
     a = AddrlistClass(user_id)
-    user_name, user_email = a.getaddress()[0]
-    user_comment = ' '.join(a.commentlist)
-    user_name = user_name.replace(user_comment, '').strip()
+    user_name = SPACE.join(a.getphraselist())
+    user_email = ''
+    following = a.field[a.pos:a.pos + 1]
+    if following == '<':
+        user_email = a.getrouteaddr()
+    elif following == '@':
+        # Only an address, start over
+        a = AddrlistClass(user_id)
+        user_name = ''
+        user_email = a.getaddrspec()
+    a.gotonext()
+    user_comment = SPACE.join(a.commentlist)
     return user_name, user_email, user_comment
+
+
+# A name of which `parse_user_id` returns the very same characters
+plain_name = re.compile(r'[^][()<>@,:;"\\\s]+( [^][()<>@,:;"\\\s]+)*\Z')
+
+
+def make_user_id(user_name, user_email, user_comment):
+    """Return the user ID that `parse_user_id` splits into these parts."""
+    result = []
+    if user_name:
+        if not plain_name.match(user_name):
+            user_name = '"%s"' % quote(user_name)
+        result.append(user_name)
+    if user_email:
+        result.append('<%s>' % user_email)
+    if user_comment:
+        result.append('(%s)' % re.sub(r'([()\\])', r'\\\1', user_comment))
+    return SPACE.join(result)
-- 
2.43.0


From a66e93d9353db09ff45a4cd783fb1204f7d89692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 057/117] fix: ZlibCompression kept only the first piece of the
 data

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 1607a8f..fa55b46 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -323,7 +323,7 @@ class ZlibCompression(object):
         if self._obj is None:
             self._compress = True
             self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
-- 
2.43.0


From d656e21afb3618af5ae88ff72f17bdd834d6f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 058/117] fix: default compression levels and decompressing
 BZip2

---
 pgp/utils.py | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index fa55b46..1469778 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -308,7 +308,9 @@ class NoopCompression(object):
 
 class ZlibCompression(object):
 
-    def __init__(self, level):
+    def __init__(self, level=None):
+        if level is None:
+            level = zlib.Z_DEFAULT_COMPRESSION
         self._obj = None
         self._compress = None
         self._result = b''
@@ -354,7 +356,9 @@ _DecompressionObj = zlib.decompressobj().__class__
 
 class DeflateCompression(object):
 
-    def __init__(self, level):
+    def __init__(self, level=None):
+        if level is None:
+            level = zlib.Z_DEFAULT_COMPRESSION
         self._obj = None
         self._compress = None
         self._result = b''
@@ -399,6 +403,37 @@ class DeflateCompression(object):
         return result
 
 
+class Bzip2Compression(object):
+
+    def __init__(self, level=None):
+        if level is None:
+            level = 9
+        self._obj = None
+        self._compress = None
+        self.level = level
+
+    def compress(self, data):
+        if self._compress is False:
+            raise ValueError
+        if self._obj is None:
+            self._compress = True
+            self._obj = bz2.BZ2Compressor(self.level)
+        return self._obj.compress(data)
+
+    def decompress(self, data):
+        if self._compress is True:
+            raise ValueError
+        if self._obj is None:
+            self._compress = False
+            self._obj = bz2.BZ2Decompressor()
+        return self._obj.decompress(data)
+
+    def flush(self):
+        if self._compress:
+            return self._obj.flush()
+        return b''
+
+
 def get_compression_instance(type_, level=None):
 
     instance = None
@@ -411,7 +446,8 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        # BZip2
+        instance = Bzip2Compression(level)
 
     return instance
 
-- 
2.43.0


From e8597666c6f0ecaaf5738f5a0a9698c0450fbc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 059/117] fix: refuse truncated compressed data

---
 pgp/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 1469778..1c52a7d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -346,6 +346,8 @@ class ZlibCompression(object):
             raise ValueError
         result = self._result
         result += self._obj.flush()
+        if not self._compress and not self._obj.eof:
+            raise ValueError('Compressed data is incomplete.')
         self._result = None
         return result
 
@@ -384,9 +386,8 @@ class DeflateCompression(object):
             raise ValueError
         if self._obj is None:
             self._compress = False
-            self._obj = zlib.decompressobj()
-            # Fake header
-            self._obj.decompress(b'\x78\x9c')
+            # Without header and checksum
+            self._obj = zlib.decompressobj(-zlib.MAX_WBITS)
         self._result += self._obj.decompress(data)
         return b''
 
@@ -396,6 +397,8 @@ class DeflateCompression(object):
             raise ValueError
         result = self._result
         result += self._obj.flush()
+        if not self._compress and not self._obj.eof:
+            raise ValueError('Compressed data is incomplete.')
         self._result = None
         if self._compress:
             # Discard header and checksum
@@ -431,6 +434,8 @@ class Bzip2Compression(object):
     def flush(self):
         if self._compress:
             return self._obj.flush()
+        if not self._obj.eof:
+            raise ValueError('Compressed data is incomplete.')
         return b''
 
 
-- 
2.43.0


From c1963054a06b24bf6cb553723b072a3f9d0567bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 060/117] fix: text signatures dropped characters next to line
 endings

---
 pgp/message.py | 34 +++++++++++++++++++++-------------
 pgp/utils.py   |  9 +++++++++
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..b7bc632 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -17,7 +17,6 @@
 import abc
 import collections
 import datetime
-import re
 import six
 
 from Crypto import Random
@@ -30,9 +29,6 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
-
-
 class MessageSignature(BaseSignature):
 
     one_pass = None
@@ -148,7 +144,10 @@ class LiteralMessage(BaseMessage):
         filename = packet.filename
         timestamp = datetime.datetime.fromtimestamp(packet.time)
         data = packet.data
-        return class_(data, filename, timestamp)
+        result = class_(data, filename, timestamp)
+        if class_ is TextMessage:
+            result.data_format = data_format
+        return result
 
     @abc.abstractmethod
     def __init__(self, data, filename, timestamp):
@@ -163,29 +162,38 @@ class LiteralMessage(BaseMessage):
     def to_packets(self, header_format=None):
         return [self.to_packet(header_format)]
 
+    def _data_octets(self):
+        return bytes(self.data)
+
     def to_signable_data(self, signature_type, signature_version=3):
-        return self.data
+        data = self._data_octets()
+        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+            return utils.canonical_text(data)
+        return data
 
 
 class TextMessage(LiteralMessage):
 
+    # "Unless otherwise specified, the character set for text is the UTF-8"
+    data_format = b'u'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'u', self.filename, self.timestamp,
-                    self.data)
+                    header_format, self.data_format, self.filename,
+                    self.timestamp, self.data)
 
     def __init__(self, data, filename, timestamp):
         self.data = data
         self.filename = filename
         self.timestamp = timestamp
 
-    def to_signable_data(self, signature_type, signature_version=3):
-        data = self.data.encode('utf8')
-        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return INCOMPLETE_CRLF.sub(b'\r\n', data)
-        return data
+    def _data_octets(self):
+        # As in the packet
+        if self.data_format == b't':
+            return self.data.encode('latin-1', 'replace')
+        return self.data.encode('utf8', 'replace')
 
 
 class BinaryMessage(LiteralMessage):
diff --git a/pgp/utils.py b/pgp/utils.py
index 1c52a7d..ec37a2f 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -16,6 +16,7 @@
 
 import bz2
 import math
+import re
 import zlib
 
 from Crypto.Cipher import blockalgo
@@ -573,6 +574,14 @@ def datetime_to_timestamp(dt):
     return int(dt.timestamp())
 
 
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
+
+
+def canonical_text(data):
+    """Text with every line ending as CRLF, as text signatures cover it."""
+    return LINE_ENDING.sub(b'\r\n', bytes(data))
+
+
 def bytes_to_int(bytes_, offset, length):
     result = 0
     for i in range(length):
-- 
2.43.0


From cdb5a9c8c023588d7db17f16020aab0afad01b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 061/117] fix: signing and verifying plain octets, strings and
 signatures

---
 pgp/signature.py          | 14 +++++++++++++-
 pgp/transferrable_keys.py | 33 +++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index a21db2d..412f280 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -126,6 +126,8 @@ class BaseSignature(object):
     # Packet level options
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
 
+    _target_ref = None
+
     @classmethod
     def from_packet(cls, packet, target):
         version = packet.version
@@ -178,6 +180,14 @@ class BaseSignature(object):
                         self.issuer_key_ids[0])
         return packet
 
+    def to_confirmable_data(self):
+        """What a third-party confirmation of this signature covers."""
+        packet = self.to_packet()
+        if self.version >= 4:
+            packet.unhashed_subpackets = []
+        content = packet.content
+        return b'\x88' + bytes(utils.int_to_4byte(len(content))) + content
+
     def to_signable_data(self, signature_type, signature_version=3):
         result = bytearray()
         if self.version >= 4:
@@ -218,7 +228,7 @@ class BaseSignature(object):
                  issuer_key_id=None, hashed_subpackets=None,
                  unhashed_subpackets=None, current_time_fn=None):
 
-        if target:
+        if target is not None:
             self._target_ref = weakref.ref(target)
         self.version = version
         self.signature_type = signature_type
@@ -792,6 +802,8 @@ class BaseSignature(object):
 
     @property
     def parent(self):
+        if self._target_ref is None:
+            return None
         return self._target_ref()
 
     @property
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index ee043ee..370f957 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -190,6 +190,21 @@ def _copy_signatures(signatures, target):
     return result
 
 
+def _signable_data(item, signature_type, signature_version):
+    """The octets of a document, key, identity, or signature that a
+    signature of this type covers.
+    """
+    if isinstance(item, BaseSignature):
+        return item.to_confirmable_data()
+    if isinstance(item, str):
+        item = item.encode('utf8')
+    if isinstance(item, (bytes, bytearray)):
+        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+            return utils.canonical_text(item)
+        return bytes(item)
+    return bytes(item.to_signable_data(signature_type, signature_version))
+
+
 @implementer(interfaces.IPublicKey)
 class BasePublicKey(SignedMixin):
 
@@ -413,8 +428,8 @@ class BasePublicKey(SignedMixin):
 
         key_obj = self._get_key_obj()
         hash_ = utils.get_hash_instance(signature.hash_algorithm)
-        hash_.update(item.to_signable_data(signature.signature_type,
-                                           signature.version))
+        hash_.update(_signable_data(item, signature.signature_type,
+                                    signature.version))
         hash_.update(signature.to_signable_data(signature.signature_type,
                                                 signature.version))
         if hash_.digest()[:2] != signature.hash2:
@@ -541,13 +556,7 @@ class BaseSecretKey(BasePublicKey):
         key_obj = self._get_key_obj()
 
         hash_ = utils.get_hash_instance(hash_algorithm)
-        if isinstance(item, str):
-            hash_.update(item.encode('utf8'))
-        elif isinstance(item, bytes):
-            hash_.update(item)
-
-        else:
-            hash_.update(item.to_signable_data(signature_type, version))
+        hash_.update(_signable_data(item, signature_type, version))
         if isinstance(item, (BasePublicKey, UserID, UserAttribute)):
             SigClass = KeySignature
         else:
@@ -570,7 +579,11 @@ class BaseSecretKey(BasePublicKey):
             hashed_subpackets.insert(0, creation_time_subpacket)
             hashed_subpackets.insert(0, issuer_subpacket)
 
-        sig = SigClass(item, version, signature_type,
+        target = item
+        if isinstance(item, (str, bytes, bytearray)):
+            # Can't be referred to
+            target = None
+        sig = SigClass(target, version, signature_type,
                        self.public_key_algorithm, hash_algorithm, hash2=b'',
                        signature_values=(), creation_time=creation_time_arg,
                        issuer_key_id=issuer_key_id_arg,
-- 
2.43.0


From 0b4c80c51488d2347d5c3161262338fe0f5d9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 062/117] fix: RSA signatures with leading zeros were refused,
 values out of range accepted

---
 pgp/utils.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index ec37a2f..af35de9 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -114,22 +114,29 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
         if k is None:
-            k = random.StrongRandom().randint(1, q - 1)
+            k = random.StrongRandom().randint(2, q - 1)
 
-        digest = hash_.digest()[:qbytes]
-        return secret_key.sign(bytes_to_long(digest), k)
+        return secret_key.sign(dsa_digest(hash_, q), k)
     else:
         # TODO: complete
         raise ValueError
 
 
+def dsa_digest(hash_, q):
+    """The leftmost bits of the digest, as many as the group order has."""
+    digest = hash_.digest()
+    excess = len(digest) * 8 - int(q).bit_length()
+    return bytes_to_long(digest) >> max(excess, 0)
+
+
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        if len(values) != 1 or values[0] >= public_key.n:
+            return False
+        # Leading zeros count
+        s = long_to_bytes(values[0], (public_key.size() + 8) // 8)
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
@@ -139,17 +146,9 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
         return public_key.verify(sig_string, values)
     elif pub_algorithm_type == 17:
         # DSA
-        q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
-
-        digest = hash_.digest()
-        # Discard empty leading bytes
-        start = 0
-        while digest[start] == b'\x00':
-            start += 1
-        digest = digest[start:start + qbytes]
-        return public_key.verify(bytes_to_long(digest), values)
+        if len(values) != 2:
+            return False
+        return public_key.verify(dsa_digest(hash_, public_key.q), values)
     else:
         # TODO: complete this
         raise ValueError
-- 
2.43.0


From 011c78a9190cf193c9a00190d358e8e83cd0fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 063/117] fix: user attributes changed when they were read and
 written

---
 pgp/transferrable_keys.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 370f957..b137315 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -783,24 +783,38 @@ class UserAttributeContentItem(object):
 
     mime_type = None
     data = None
+    # What this was read from
+    _subpacket = None
 
     @classmethod
     def from_subpacket(cls, subpacket):
-        if subpacket.image_format == C.JPEG_IMAGE_FORMAT:
+        image_format = getattr(subpacket, 'image_format', None)
+        data = getattr(subpacket, 'data', subpacket.content)
+        if image_format == C.JPEG_IMAGE_FORMAT:
             mime_type = 'image/jpeg'
         else:
-            mime_type = magic.from_buffer(subpacket.data[:1024],
-                                          mime=True).decode('ascii')
-        return cls(mime_type, subpacket.data)
+            mime_type = magic.from_buffer(bytes(data[:1024]), mime=True)
+            if isinstance(mime_type, bytes):
+                mime_type = mime_type.decode('ascii')
+        result = cls(mime_type, data)
+        result._subpacket = subpacket
+        result._read_as = mime_type, bytes(data)
+        return result
 
     def __init__(self, mime_type, data):
         self.mime_type = mime_type
         self.data = data
 
     def __repr__(self):
-        return '<{0} at 0x{2:x}>'.format(self.__class__.__name__, id(self))
+        return '<{0} at 0x{1:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
+        if (
+                self._subpacket is not None
+                and self._read_as == (self.mime_type, bytes(self.data))
+                ):
+            # Signatures cover it as it was
+            return self._subpacket
         if self.mime_type.split('/', 1)[0] != 'image':
             return None
         header_version = 1
-- 
2.43.0


From 34b6f06e6b958cfa9894b6504869b9faa5fa8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 064/117] fix: a signature of a document verified as one of a
 key or identity

---
 pgp/transferrable_keys.py | 41 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b137315..0fb5311 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -190,10 +190,43 @@ def _copy_signatures(signatures, target):
     return result
 
 
+_certification_types = (C.GENERIC_CERTIFICATION,
+                        C.CASUAL_CERTIFICATION,
+                        C.PERSONA_CERTIFICATION,
+                        C.POSITIVE_CERTIFICATION,
+                        C.CERTIFICATION_REVOCATION_SIGNATURE)
+_key_types = (C.SIGNATURE_DIRECTLY_ON_A_KEY,
+              C.KEY_REVOCATION_SIGNATURE,
+              C.CERTIFICATION_REVOCATION_SIGNATURE)
+_subkey_types = (C.SUBKEY_BINDING_SIGNATURE,
+                 C.PRIMARY_KEY_BINDING_SIGNATURE,
+                 C.SUBKEY_REVOCATION_SIGNATURE)
+
+
+def _may_cover(signature_type, item):
+    """Whether a signature of this type can be about such an item. The
+    octets alone don't tell: a document may have those of a certified
+    identity.
+    """
+    if isinstance(item, (UserID, UserAttribute)):
+        return signature_type in _certification_types
+    if isinstance(item, PublicSubkey):
+        return signature_type in _subkey_types
+    if isinstance(item, BasePublicKey):
+        return signature_type in _key_types
+    if isinstance(item, BaseSignature):
+        return signature_type == C.THIRD_PARTY_CONFIRMATION_SIGNATURE
+    return signature_type not in (
+        _certification_types + _key_types + _subkey_types +
+        (C.THIRD_PARTY_CONFIRMATION_SIGNATURE,))
+
+
 def _signable_data(item, signature_type, signature_version):
     """The octets of a document, key, identity, or signature that a
     signature of this type covers.
     """
+    if not _may_cover(signature_type, item):
+        raise ValueError('Signatures of this type are about something else.')
     if isinstance(item, BaseSignature):
         return item.to_confirmable_data()
     if isinstance(item, str):
@@ -428,8 +461,12 @@ class BasePublicKey(SignedMixin):
 
         key_obj = self._get_key_obj()
         hash_ = utils.get_hash_instance(signature.hash_algorithm)
-        hash_.update(_signable_data(item, signature.signature_type,
-                                    signature.version))
+        try:
+            signable_data = _signable_data(item, signature.signature_type,
+                                           signature.version)
+        except ValueError:
+            raise exceptions.SignatureVerificationFailed()
+        hash_.update(signable_data)
         hash_.update(signature.to_signable_data(signature.signature_type,
                                                 signature.version))
         if hash_.digest()[:2] != signature.hash2:
-- 
2.43.0


From 78a316dc5c16e4d0b0777ebca4aa80eff8864fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 065/117] fix: user attribute subpackets that overrun the
 packet were accepted

---
 pgp/packets/user_attribute_subpackets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index c2b98ac..ce027c8 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -127,6 +127,8 @@ def user_attribute_subpacket_from_data(data, offset=0):
     length_start = offset
     offset, sub_len = utils.subpacket_length(data, offset)
     length_octets = offset - length_start
+    if not 1 <= sub_len <= len(data) - offset:
+        raise ValueError('User attribute subpacket of wrong length.')
     sub_type = int(data[offset])
     # + 1 for sub type
     sub_data_start = offset + 1
-- 
2.43.0


From f995cab29b2aa947dda30da19334d607d4afc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 066/117] fix: encrypted data was not as the standard has it,
 its integrity checked late

---
 pgp/message.py | 162 +++++++++++++++++++++----------------------------
 1 file changed, 68 insertions(+), 94 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index b7bc632..9e9ffae 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -397,6 +397,20 @@ SymEncAndIPDPacket = \
     packets.SymmetricallyEncryptedAndIntegrityProtectedDataPacket
 
 
+# Tag and length of the packet
+MDC_HEADER = b'\xd3\x14'
+
+
+def _cfb(symmetric_algo, key, iv, data, encrypt):
+    """Data of any length encrypted or decrypted in CFB mode."""
+    cipher = utils.get_symmetric_cipher(symmetric_algo, key, utils.CFB, iv)
+    length = len(data)
+    data += b'\x00' * (-length % len(iv))
+    if encrypt:
+        return cipher.encrypt(data)[:length]
+    return cipher.decrypt(data)[:length]
+
+
 class SymmetricallyEncryptedMessageData(object):
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
 
@@ -409,11 +423,16 @@ class SymmetricallyEncryptedMessageData(object):
         version = None
         if integrity_protected:
             version = packet.version
-        return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data = packet.encrypted_data
+        else:
+            encrypted_data = packet.data
+        result = cls(
+            encrypted_data=encrypted_data,
             integrity_protected=integrity_protected,
             version=version
             )
+        result.packet_header_type = packet.header_format
+        return result
 
     def __init__(self, symmetric_algorithm=None, session_key=None, data=None,
                  encrypted_data=None, integrity_protected=False, version=None):
@@ -425,112 +444,67 @@ class SymmetricallyEncryptedMessageData(object):
 
     def encrypt(self, symmetric_algo, key, message):
         block_len = utils.symmetric_cipher_block_lengths[symmetric_algo]
-        iv = Random.new().read(block_len)
-        data = bytearray()
-        cipher = utils.get_symmetric_cipher(
-            symmetric_algo,
-            key,
-            utils.CFB,
-            b'\x00' * block_len
-            )
-        padding = 0
-        if not self.integrity_protected:
-            padding = block_len - len(message) % block_len
-            message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
-            cipher = utils.get_symmetric_cipher(
-                symmetric_algo,
-                key,
-                utils.CFB,
-                iv
-                )
-            data.extend(cipher.encrypt(message))
+        prefix = Random.new().read(block_len)
+        prefix += prefix[-2:]
+        message = bytes(message)
+        iv = b'\x00' * block_len
+        if self.integrity_protected:
+            message += MDC_HEADER
+            message += SHA.new(prefix + message).digest()
+            data = _cfb(symmetric_algo, key, iv, prefix + message, True)
         else:
-            padding = block_len - (len(message) + 2 + 22) % block_len
-            data.extend(cipher.encrypt(iv))
-            hash_ = SHA.new(iv)
-            hash_.update(iv[-2:])
-            message = message + b'\xd3\x14'
-            hash_.update(message)
-            mdc = hash_.digest()
-            message = message + mdc + (b'\x00' * padding)
-            data.extend(cipher.encrypt(iv[-2:] + message)[:-padding])
+            # "The Symmetrically Encrypted Data packet resynchronizes the
+            #  cipher after encrypting this prefix data."
+            data = _cfb(symmetric_algo, key, iv, prefix, True)
+            data += _cfb(symmetric_algo, key, data[2:], message, True)
 
-        self.data = data
+        self.data = bytearray(data)
 
-    def decrypt(self, symmetric_algo, key):
+    def _decrypt_data(self, symmetric_algo, key):
+        """The octets of the packets that were encrypted."""
         encrypted_data = bytes(self.data)
-        decrypted_data = bytearray()
-        offset = 0
-        padding = 0
+        if utils.symmetric_cipher_key_lengths.get(symmetric_algo) != len(key):
+            raise ValueError('Session key of wrong length.')
         block_len = utils.symmetric_cipher_block_lengths[symmetric_algo]
-        encrypted_iv = encrypted_data[:block_len + 2]
-        cipher = utils.get_symmetric_cipher(
-            symmetric_algo,
-            key,
-            utils.CFB,
-            b'\x00' * block_len)
-        decrypted_iv = cipher.decrypt(encrypted_data[:block_len])
+        iv = b'\x00' * block_len
         if self.integrity_protected:
             # "Unlike the Symmetrically Encrypted Data Packet, no special CFB
             #  resynchronization is done after encrypting this prefix data."
-            offset += block_len
-            first_block = cipher.decrypt(
-                encrypted_data[offset:offset + block_len])
-            offset += block_len
-            iv_check = first_block[:2]
-            if iv_check != decrypted_iv[-2:]:
-                raise ValueError()
-
-            decrypted_data.extend(first_block[2:])
-
-            # Pad the remaining data manually
-            padding = block_len - (len(encrypted_data) - offset) % block_len
-            encrypted_data += b'\x00' * padding
+            data = _cfb(symmetric_algo, key, iv, encrypted_data, False)
         else:
-            cipher = utils.get_symmetric_cipher(
-                symmetric_algo,
-                key,
-                utils.OPENPGP,
-                encrypted_iv)
-
-        decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
-        decrypted_data = decrypted_data[:-padding]
-        # We run into trouble here with partial body lengths and the MDC.
-        # Let's make pretend.
-        mdc_data = bytearray()
-        main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
-            # It's there. Hold it back.
-            mdc_data = decrypted_data[-22:]
-            main_data = decrypted_data[:-22]
-        data_len = len(main_data)
+            data = _cfb(symmetric_algo, key, iv,
+                        encrypted_data[:block_len + 2], False)
+            data += _cfb(symmetric_algo, key, encrypted_data[2:block_len + 2],
+                         encrypted_data[block_len + 2:], False)
+
+        prefix = data[:block_len + 2]
+        if len(prefix) < block_len + 2 or prefix[-2:] != prefix[-4:-2]:
+            raise ValueError('Session key or start of the data is wrong.')
+
+        if not self.integrity_protected:
+            return data[len(prefix):]
+
+        # The modification detection code is the last packet. Nothing is done
+        # with the data unless it matches.
+        if (len(data) < len(prefix) + 22 or data[-22:-20] != MDC_HEADER):
+            raise ValueError(
+                'Integrity protected message is missing modification '
+                'detection code.')
+        if SHA.new(data[:-20]).digest() != data[-20:]:
+            raise ValueError(
+                'Integrity protected message does not match modification '
+                'detection code.')
+        return data[len(prefix):-22]
+
+    def decrypt(self, symmetric_algo, key):
+        data = self._decrypt_data(symmetric_algo, key)
+        data_len = len(data)
         offset = 0
         decrypted_packets = []
         while offset < data_len:
-            offset, packet = packets.packet_from_packet_data(main_data, offset)
-            decrypted_packets.append(packet)
-
-        if mdc_data:
-            # One more for the MDC
-            offset, packet = packets.packet_from_packet_data(mdc_data, 0)
+            offset, packet = packets.packet_from_packet_data(data, offset)
             decrypted_packets.append(packet)
 
-        if self.integrity_protected:
-            if (decrypted_packets[-1].type !=
-                    C.MODIFICATION_DETECTION_CODE_PACKET_TYPE):
-                raise ValueError(
-                    'Integrity protected message is missing modification '
-                    'detection code.')
-            mdc = decrypted_packets.pop()
-            hash_ = SHA.new(decrypted_iv)
-            hash_.update(decrypted_iv[-2:])
-            hash_.update(decrypted_data[:-20])
-            if mdc.data != hash_.digest():
-                raise ValueError(
-                    'Integrity protected message does not match modification '
-                    'detection code.')
-
         return open_pgp_message_from_packets(decrypted_packets)
 
     def to_packet(self, header_format=None):
-- 
2.43.0


From d58c364870a32d59b3d2d5210a4b6ac499caa976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 067/117] fix: hidden recipients were named, or could not be
 alone

---
 pgp/message.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 9e9ffae..79175f4 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -63,6 +63,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        if public_keys is None:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
@@ -348,6 +350,9 @@ class PublicKeySessionKey(object):
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
             self.key_id = public_key.key_id
+        if hide_key_id:
+            # "Wild card"
+            self.key_id = None
         if encrypted_key:
             self.encrypted_key = encrypted_key
         if session_key:
-- 
2.43.0


From 92d5a18a0280c7566278895f74da0ebead003b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 068/117] fix: session keys whose encryption has leading zeros
 could not be read

---
 pgp/packets/packets.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 4cb26ee..b95165c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -204,28 +204,35 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             cipher = PKCS115_ElGamal_Cipher(secret_key_obj)
         else:
             cipher = secret_key_obj
-        sentinel = Random.new().read((secret_key_obj.size() + 1) // 8)
+        # Not of a length that a session key can have
+        sentinel = b''
         encrypted_session_key_length = len(encrypted_session_key)
         decrypted_values = []
         offset = 0
         ems = []
 
-        while offset < (encrypted_session_key_length - 2):
+        while offset < encrypted_session_key_length:
             mpilen = utils.mpi_length(encrypted_session_key, offset)
             offset += 2
             em = encrypted_session_key[offset:offset + mpilen]
             offset += mpilen
             ems.append(bytes(em))
 
+        if offset != encrypted_session_key_length:
+            raise ValueError('Encrypted session key is incomplete.')
+        if len(ems) != (1 if public_key_algorithm in (1, 2, 3) else 2):
+            raise ValueError('Encrypted session key of wrong kind.')
+
         if len(ems) == 1:
-            # RSA takes a single argument.
-            em = ems[0]
+            # RSA takes a single argument, which has the length of the
+            # modulus.
+            em = ems[0].rjust((secret_key_obj.size() + 8) // 8, b'\x00')
         else:
             # ElGamal takes a 2-tuple.
             em = tuple(ems)
 
         m = cipher.decrypt(em, sentinel)
-        if m == sentinel:
+        if len(m) < 3:
             raise ValueError()
         decrypted_values.append(m)
 
-- 
2.43.0


From dd0d16162fc683ce1584d58ebe25a3dba20bddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 069/117] fix: a message opened only if its first session key
 fitted

---
 pgp/message.py | 56 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 79175f4..3f3ce0b 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -265,6 +265,9 @@ class SymmetricSessionKey(object):
         if passphrase is not None:
             self.set_session_key(passphrase, session_key)
 
+    def may_open_with(self, secret_key_or_passphrase):
+        return isinstance(secret_key_or_passphrase, (str, bytes, bytearray))
+
     def get_algorithm_and_session_key(self, passphrase):
         PacketCls = packets.SymmetricKeyEncryptedSessionKeyPacket
         if isinstance(passphrase, str):
@@ -360,6 +363,19 @@ class PublicKeySessionKey(object):
                                                symmetric_algorithm,
                                                session_key)
 
+    def may_open_with(self, secret_key_or_passphrase):
+        secret_key = secret_key_or_passphrase
+        if not hasattr(secret_key, 'key_id'):
+            return False
+        # "An implementation MAY accept or use a Key ID of zero as a "wild
+        #  card""
+        if self.key_id is not None and self.key_id != secret_key.key_id:
+            return False
+        rsa = (1, 2, 3)
+        return (self.public_key_algorithm == secret_key.public_key_algorithm
+                or (self.public_key_algorithm in rsa
+                    and secret_key.public_key_algorithm in rsa))
+
     def get_algorithm_and_session_key(self, secret_key):
         if secret_key.is_locked():
             raise RuntimeError('Key must be unlocked.')
@@ -387,7 +403,16 @@ class DefaultSessionKey(object):
     symmetric_algorithm = 1  # IDEA
     key_hash_algorithm = 1  # MD5
 
+    def may_open_with(self, secret_key_or_passphrase):
+        return isinstance(secret_key_or_passphrase, (str, bytes, bytearray))
+
+    def to_packet(self, header_format=None):
+        # There is none
+        return None
+
     def get_algorithm_and_session_key(self, passphrase):
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         hash_ = utils.get_hash_instance(self.key_hash_algorithm)
         hash_.update(passphrase)
         key = hash_.digest()
@@ -576,31 +601,22 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Symmetrically Encrypted Integrity Protected Data packet as well as
         #  decompressing a Compressed Data packet must yield a valid OpenPGP
         #  Message."
-        sym_algo = None
-        sess_key = None
+        error = None
         for sess_key_obj in self.session_keys:
-            if isinstance(sess_key_obj, PublicKeySessionKey):
-                try:
-                    sym_algo, sess_key = \
-                        sess_key_obj.get_algorithm_and_session_key(
-                            secret_key_or_passphrase)
-                except ValueError:
+            try:
+                if not sess_key_obj.may_open_with(secret_key_or_passphrase):
                     continue
-            elif isinstance(sess_key_obj, SymmetricSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
-            elif isinstance(sess_key_obj, DefaultSessionKey):
                 sym_algo, sess_key = \
                     sess_key_obj.get_algorithm_and_session_key(
                         secret_key_or_passphrase)
-            else:
-                # TODO: consider raising an error
-                continue
-            return self.message_data_obj.decrypt(sym_algo, sess_key)
-
-        # TODO: raise a better error
-        raise ValueError()
+                return self.message_data_obj.decrypt(sym_algo, sess_key)
+            except ValueError as e:
+                # There may be another one for this key or passphrase
+                error = e
+
+        if error is not None:
+            raise error
+        raise ValueError('No session key for this key or passphrase.')
 
     def to_packets(self, header_format=None):
         packets = []
-- 
2.43.0


From 0a7a1069f8c320c9cf991f57eb9a657b2a0b9137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 070/117] fix: a passphrase could not be used with another
 cipher than the data

---
 pgp/message.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 3f3ce0b..14b9bb9 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -254,8 +254,10 @@ class SymmetricSessionKey(object):
 
     @classmethod
     def from_packet(cls, packet):
-        return cls(packet.symmetric_algorithm, packet.s2k_specification,
-                   encrypted_key=packet.encrypted_session_key)
+        result = cls(packet.symmetric_algorithm, packet.s2k_specification,
+                     encrypted_key=packet.encrypted_session_key)
+        result.packet_header_type = packet.header_format
+        return result
 
     def __init__(self, symmetric_algorithm, s2k_specification,
                  passphrase=None, session_key=None, encrypted_key=None):
@@ -298,6 +300,10 @@ class SymmetricSessionKey(object):
             self.encrypted_key = PacketCls._get_encrypted_key(
                 self.s2k_specification, self.symmetric_algorithm, passphrase,
                 session_key)
+            # The one that the session key is encrypted with; that of the
+            # data is stored with the session key.
+            self.symmetric_algorithm = \
+                self.s2k_specification.symmetric_algorithm
 
     def to_packet(self, header_format=None):
         if header_format is None:
-- 
2.43.0


From da09f855674323eec01e19a20b333c6430208044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 071/117] fix: unusable ciphers of session keys gave odd errors

---
 pgp/message.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 14b9bb9..11810c3 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -274,6 +274,9 @@ class SymmetricSessionKey(object):
         PacketCls = packets.SymmetricKeyEncryptedSessionKeyPacket
         if isinstance(passphrase, str):
             passphrase = passphrase.encode('utf8')
+        if not utils.symmetric_cipher_block_lengths.get(
+                self.symmetric_algorithm):
+            raise ValueError('Session key for no usable cipher.')
 
         return PacketCls._get_key_and_cipher_algo(
                     self.s2k_specification, self.symmetric_algorithm,
@@ -499,9 +502,11 @@ class SymmetricallyEncryptedMessageData(object):
     def _decrypt_data(self, symmetric_algo, key):
         """The octets of the packets that were encrypted."""
         encrypted_data = bytes(self.data)
-        if utils.symmetric_cipher_key_lengths.get(symmetric_algo) != len(key):
+        block_len = utils.symmetric_cipher_block_lengths.get(symmetric_algo)
+        if not block_len:
+            raise ValueError('Session key for no usable cipher.')
+        if utils.symmetric_cipher_key_lengths[symmetric_algo] != len(key):
             raise ValueError('Session key of wrong length.')
-        block_len = utils.symmetric_cipher_block_lengths[symmetric_algo]
         iv = b'\x00' * block_len
         if self.integrity_protected:
             # "Unlike the Symmetrically Encrypted Data Packet, no special CFB
@@ -537,11 +542,16 @@ class SymmetricallyEncryptedMessageData(object):
         data_len = len(data)
         offset = 0
         decrypted_packets = []
-        while offset < data_len:
-            offset, packet = packets.packet_from_packet_data(data, offset)
-            decrypted_packets.append(packet)
-
-        return open_pgp_message_from_packets(decrypted_packets)
+        try:
+            while offset < data_len:
+                offset, packet = packets.packet_from_packet_data(data, offset)
+                decrypted_packets.append(packet)
+
+            return open_pgp_message_from_packets(decrypted_packets)
+        except Exception:
+            # Without integrity protection, this is how most wrong session
+            # keys that the prefix doesn't reveal show.
+            raise ValueError('Encrypted data is not a message.')
 
     def to_packet(self, header_format=None):
         if header_format is None:
-- 
2.43.0


From 13db8ca1d25c7f0d5f6ba3ac2718044fda2e6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 072/117] fix: signed messages were written in wrong order,
 illegal messages accepted

---
 pgp/message.py | 129 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 79 insertions(+), 50 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 11810c3..314e2f1 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -590,23 +590,19 @@ class EncryptedMessageWrapper(BaseMessage):
     @classmethod
     def from_packets(cls, packets):
         session_keys = []
-        packet = packets.popleft()
-        if packet.type in encrypted_message_data_packet_types:
-            # No session key
-            session_keys = [DefaultSessionKey()]
-        while packet.type in encrypted_message_session_key_packet_types:
-            session_keys.append(parse_session_key_packet(packet))
-            if not packets:
-                break
-            packet = packets.popleft()
+        while (packets and
+               packets[0].type in encrypted_message_session_key_packet_types):
+            session_keys.append(parse_session_key_packet(packets.popleft()))
 
-        if not session_keys:
-            raise ValueError
+        if (not packets or
+                packets[0].type not in encrypted_message_data_packet_types):
+            raise ValueError('Encrypted data is missing.')
 
-        if packet.type in encrypted_message_packet_types:
-            return cls(session_keys, parse_encrypted_message_packet(packet))
+        if not session_keys:
+            session_keys = [DefaultSessionKey()]
 
-        raise TypeError
+        return cls(session_keys,
+                   parse_encrypted_message_packet(packets.popleft()))
 
     def __init__(self, session_keys, message_data_obj):
         self.session_keys = session_keys
@@ -650,6 +646,15 @@ def parse_signature_from_packet(packet, message, one_pass=False):
     return result
 
 
+def _corresponds(packet, one_pass_packet):
+    return (packet is not None
+            and packet.type == C.SIGNATURE_PACKET_TYPE
+            and packet.signature_type == one_pass_packet.signature_type
+            and packet.hash_algorithm == one_pass_packet.hash_algorithm
+            and (packet.public_key_algorithm ==
+                 one_pass_packet.public_key_algorithm))
+
+
 class SignedMessageWrapper(BaseMessage):
     # A signature packet followed by any other message type, or a
     # one-pass signature packet followed by a message type, followed by a
@@ -657,23 +662,35 @@ class SignedMessageWrapper(BaseMessage):
 
     @classmethod
     def from_packets(cls, packets):
-        one_pass = False
-        signatures = []
-        message = None
-        for packet in packets:
-            if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
-                one_pass = True
-            elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if message:
-                    signature = parse_signature_from_packet(packet, message,
-                                                            one_pass=one_pass)
-                    signatures.append(signature)
-                else:
-                    raise TypeError()
-            elif message is None:
-                message = open_pgp_message_from_packets([packet])
-            else:
-                raise TypeError()
+        first = packets[0]
+        one_pass = first.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE
+        signed = [packets.popleft()]
+        # Further signatures of the same message
+        while packets and packets[0].type == first.type:
+            if one_pass and signed[-1].nested:
+                # "A zero value indicates that the next packet is another
+                #  One-Pass Signature packet that describes another signature
+                #  to be applied to the same message data."
+                break
+            signed.append(packets.popleft())
+
+        message = _message_from_packets(packets)
+        if one_pass:
+            # "The last signature packet in the message corresponds to the
+            #  first One-Pass Signature packet"
+            one_passes = signed
+            signed = []
+            for one_pass_packet in reversed(one_passes):
+                packet = packets.popleft() if packets else None
+                if not _corresponds(packet, one_pass_packet):
+                    raise ValueError(
+                        'One-pass signature without its signature.')
+                signed.insert(0, packet)
+
+        signatures = [
+            parse_signature_from_packet(packet, message, one_pass=one_pass)
+            for packet in signed
+            ]
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -701,12 +718,15 @@ class SignedMessageWrapper(BaseMessage):
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
                         sig.issuer_key_ids[0],
-                        nested=(i != len(self.signatures))
+                        # Not if the next one is for the same message
+                        nested=int(i == len(self.signatures))
                     ))
-        pkts.extend(self.message.to_packets(header_format))
-        for sig in self.signatures:
-            pkts.append(sig.to_packet(header_format))
-        return pkts
+        signature_pkts = [sig.to_packet(header_format)
+                          for sig in self.signatures]
+        message_pkts = self.message.to_packets(header_format)
+        if self.one_pass:
+            return pkts + message_pkts + signature_pkts[::-1]
+        return signature_pkts + message_pkts
 
 
 class CompressedMessageWrapper(BaseMessage):
@@ -747,21 +767,30 @@ class CompressedMessageWrapper(BaseMessage):
         return [self.to_packet(header_format)]
 
 
-def open_pgp_message_from_packets(pkts):
-    pkts = collections.deque(pkts)
-    packet = pkts.popleft()
-    if packet.type in encrypted_message_packet_types:
-        pkts.appendleft(packet)
-        result = EncryptedMessageWrapper.from_packets(pkts)
-    elif packet.type in (C.ONE_PASS_SIGNATURE_PACKET_TYPE,
-                         C.SIGNATURE_PACKET_TYPE):
-        pkts.appendleft(packet)
-        result = SignedMessageWrapper.from_packets(pkts)
-    elif packet.type == C.COMPRESSED_DATA_PACKET_TYPE:
-        result = CompressedMessageWrapper.from_packet(packet)
-    elif packet.type == C.LITERAL_DATA_PACKET_TYPE:
-        result = LiteralMessage.from_packet(packet)
+def _message_from_packets(pkts):
+    """Take the packets of one message from the start of a deque."""
+    if not pkts:
+        raise ValueError('Message is missing.')
+    type_ = pkts[0].type
+    if type_ in encrypted_message_packet_types:
+        return EncryptedMessageWrapper.from_packets(pkts)
+    elif type_ in (C.ONE_PASS_SIGNATURE_PACKET_TYPE,
+                   C.SIGNATURE_PACKET_TYPE):
+        return SignedMessageWrapper.from_packets(pkts)
+    elif type_ == C.COMPRESSED_DATA_PACKET_TYPE:
+        return CompressedMessageWrapper.from_packet(pkts.popleft())
+    elif type_ == C.LITERAL_DATA_PACKET_TYPE:
+        return LiteralMessage.from_packet(pkts.popleft())
+    raise ValueError('Unexpected packet in message.')
+
 
+def open_pgp_message_from_packets(pkts):
+    # Marker packets: "Such a packet MUST be ignored when received."
+    pkts = collections.deque(pkt for pkt in pkts
+                             if pkt.type != C.MARKER_PACKET_TYPE)
+    result = _message_from_packets(pkts)
+    if pkts:
+        raise ValueError('Unexpected packet after message.')
     return result
 
 
-- 
2.43.0


From f5e6cff9ce83978cb333c3bb8484e0da9e3d8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:01 +0000
Subject: [PATCH 073/117] fix: local mode and header format of messages were
 lost

---
 pgp/message.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 314e2f1..052faa8 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -147,8 +147,8 @@ class LiteralMessage(BaseMessage):
         timestamp = datetime.datetime.fromtimestamp(packet.time)
         data = packet.data
         result = class_(data, filename, timestamp)
-        if class_ is TextMessage:
-            result.data_format = data_format
+        result.data_format = data_format
+        result.packet_header_type = packet.header_format
         return result
 
     @abc.abstractmethod
@@ -200,12 +200,14 @@ class TextMessage(LiteralMessage):
 
 class BinaryMessage(LiteralMessage):
 
+    data_format = b'b'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'b', self.filename, self.timestamp,
-                    self.data)
+                    header_format, self.data_format, self.filename,
+                    self.timestamp, self.data)
 
     def __init__(self, data, filename, timestamp):
         self.data = data
@@ -735,8 +737,10 @@ class CompressedMessageWrapper(BaseMessage):
 
     @classmethod
     def from_packet(cls, packet):
-        return cls(packet.compression_algorithm,
-                   compressed_data=packet.compressed_data)
+        result = cls(packet.compression_algorithm,
+                     compressed_data=packet.compressed_data)
+        result.packet_header_type = packet.header_format
+        return result
 
     def __init__(self, compression_algorithm, compression_level=None,
                  message=None, compressed_data=None):
-- 
2.43.0


From 93497dc0291245c1bbc1825bddaa1895d7391e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 074/117] fix: compressed and signed messages could not be
 signed

---
 pgp/message.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 052faa8..3e25298 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -703,6 +703,10 @@ class SignedMessageWrapper(BaseMessage):
     def get_message(self):
         return self.message
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.message.to_signable_data(signature_type,
+                                             signature_version)
+
     def to_packets(self, header_format=None):
         pkts = []
         op_header_format = header_format
@@ -751,6 +755,11 @@ class CompressedMessageWrapper(BaseMessage):
         if message is not None:
             self.set_message(message)
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        # The text is what is signed, not a compressed form of it
+        return self.get_message().to_signable_data(signature_type,
+                                                   signature_version)
+
     def get_message(self):
         pkts = packets.CompressedDataPacket.decompress_data(
             self.compression_algorithm, self.data)
-- 
2.43.0


From bf39935895f932832947dcc3ee77deff3999f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 075/117] fix: one-pass signatures were not matched with their
 signatures

---
 pgp/message.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 3e25298..1b6d74a 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -648,13 +648,13 @@ def parse_signature_from_packet(packet, message, one_pass=False):
     return result
 
 
-def _corresponds(packet, one_pass_packet):
-    return (packet is not None
-            and packet.type == C.SIGNATURE_PACKET_TYPE
-            and packet.signature_type == one_pass_packet.signature_type
-            and packet.hash_algorithm == one_pass_packet.hash_algorithm
-            and (packet.public_key_algorithm ==
-                 one_pass_packet.public_key_algorithm))
+def _corresponds(signature, one_pass_packet):
+    key_ids = signature.issuer_key_ids
+    return (signature.signature_type == one_pass_packet.signature_type
+            and signature.hash_algorithm == one_pass_packet.hash_algorithm
+            and (signature.public_key_algorithm ==
+                 one_pass_packet.public_key_algorithm)
+            and (not key_ids or one_pass_packet.key_id in key_ids))
 
 
 class SignedMessageWrapper(BaseMessage):
@@ -683,16 +683,18 @@ class SignedMessageWrapper(BaseMessage):
             one_passes = signed
             signed = []
             for one_pass_packet in reversed(one_passes):
-                packet = packets.popleft() if packets else None
-                if not _corresponds(packet, one_pass_packet):
-                    raise ValueError(
-                        'One-pass signature without its signature.')
-                signed.insert(0, packet)
+                if (not packets
+                        or packets[0].type != C.SIGNATURE_PACKET_TYPE):
+                    raise ValueError('Signature is missing.')
+                signed.insert(0, packets.popleft())
 
         signatures = [
             parse_signature_from_packet(packet, message, one_pass=one_pass)
             for packet in signed
             ]
+        if one_pass and not all(map(_corresponds, signatures, one_passes)):
+            raise ValueError(
+                'Signature does not correspond to one-pass signature.')
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
-- 
2.43.0


From 42931092810bceb51d48fae893947c2ead57e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 076/117] fix: the version of integrity protected data was
 ignored

---
 pgp/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 1b6d74a..6038045 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -503,6 +503,8 @@ class SymmetricallyEncryptedMessageData(object):
 
     def _decrypt_data(self, symmetric_algo, key):
         """The octets of the packets that were encrypted."""
+        if self.integrity_protected and self.version != 1:
+            raise ValueError('Unknown version of integrity protected data.')
         encrypted_data = bytes(self.data)
         block_len = utils.symmetric_cipher_block_lengths.get(symmetric_algo)
         if not block_len:
-- 
2.43.0


From 82dadc36b706da2e1447bbb412a76b780907db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 077/117] fix: armored secret keys were labelled as public keys

---
 pgp/shortcuts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..ee7a8d4 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,11 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        # Secret keys are public keys too
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
-- 
2.43.0


From 4f2ea159c42f864aaaa898b19556fadf1dd31789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 078/117] fix: legal keys were refused or lost components,
 illegal ones were accepted

---
 pgp/transferrable_keys.py | 96 +++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 0fb5311..068ee8a 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -871,6 +871,8 @@ class UserAttribute(SignedMixin):
     content_items = None
     signatures = None
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
+    # How many user IDs this stands behind, where it was read from a key
+    _preceding_user_ids = None
     _self_sig_types = (C.GENERIC_CERTIFICATION,
                        C.CASUAL_CERTIFICATION,
                        C.PERSONA_CERTIFICATION,
@@ -925,6 +927,8 @@ def validate_transferrable_key(packets, secret=False):
 
     type_order = list(map(lambda p: p.type, packets))
     previous = None
+    if not packets:
+        raise exceptions.InvalidKeyPacketOrder("There are no packets")
     if not secret:
         key_packet_type = C.PUBLIC_KEY_PACKET_TYPE
         subkey_packet_type = C.PUBLIC_SUBKEY_PACKET_TYPE
@@ -957,7 +961,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
@@ -989,8 +994,9 @@ def validate_transferrable_key(packets, secret=False):
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
                 if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                        or packets[j].signature_type not in
+                        (C.SUBKEY_BINDING_SIGNATURE,
+                         C.SUBKEY_REVOCATION_SIGNATURE)):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
@@ -1010,11 +1016,14 @@ def validate_transferrable_key(packets, secret=False):
                             "public key, 0x{0:02x}.".format(sig_type))
         elif this == C.USER_ID_PACKET_TYPE:
             for t in type_order[:i]:
+                # "User Attribute packets and User ID packets may be freely
+                #  intermixed in this section"
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
-                             C.USER_ID_PACKET_TYPE, C.TRUST_PACKET_TYPE):
+                             C.USER_ID_PACKET_TYPE,
+                             C.USER_ATTRIBUTE_PACKET_TYPE,
+                             C.TRUST_PACKET_TYPE):
                     raise exceptions.InvalidKeyPacketOrder(
-                                "User IDs must appear before all user "
-                                "attributes and subkeys")
+                                "User IDs must appear before all subkeys")
         elif this == C.USER_ATTRIBUTE_PACKET_TYPE:
             for t in type_order[:i]:
                 if t not in (key_packet_type, C.SIGNATURE_PACKET_TYPE,
@@ -1024,12 +1033,11 @@ def validate_transferrable_key(packets, secret=False):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "User attributes must appear before all "
                                 "subkeys")
-        elif this in (C.PUBLIC_SUBKEY_PACKET_TYPE,
-                      C.SECRET_SUBKEY_PACKET_TYPE):
+        elif this == subkey_packet_type:
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+            if (type_order[i + 1:i + 2] != [C.SIGNATURE_PACKET_TYPE]
                     or packets[i + 1].signature_type !=
                         C.SUBKEY_BINDING_SIGNATURE):
 
@@ -1052,9 +1060,12 @@ class TransferablePublicKey(BasePublicKey):
 
     @classmethod
     def from_packets(cls, packets):
-        # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        # "Trust packets SHOULD NOT be emitted to output streams that are
+        #  transferred to other users, and they SHOULD be ignored on any input
+        #  other than local keyring files."
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
@@ -1069,42 +1080,40 @@ class TransferablePublicKey(BasePublicKey):
 
         primary_public_key.signatures = primary_public_key_signatures
         user_ids = primary_public_key.user_ids
-        while i < packet_count and packets[i].type == C.USER_ID_PACKET_TYPE:
-            user_id = UserID.from_packet(primary_public_key, packets[i])
-            user_ids.append(user_id)
-            i += 1
-            while (
-                i < packet_count
-                and packets[i].type == C.SIGNATURE_PACKET_TYPE
-                ):
-
-                user_id.signatures.append(
-                        KeySignature.from_packet(packets[i],
-                                                 user_id)
-                    )
-                i += 1
-
         user_attributes = primary_public_key.user_attributes
         while (
             i < packet_count
-            and packets[i].type == C.USER_ATTRIBUTE_PACKET_TYPE
+            and packets[i].type in (
+                C.USER_ID_PACKET_TYPE,
+                C.USER_ATTRIBUTE_PACKET_TYPE
+                )
             ):
 
-            user_attribute = UserAttribute.from_packet(primary_public_key,
-                                                       packets[i])
-            user_attributes.append(user_attribute)
+            if packets[i].type == C.USER_ID_PACKET_TYPE:
+                identity = UserID.from_packet(primary_public_key, packets[i])
+                user_ids.append(identity)
+            else:
+                identity = UserAttribute.from_packet(primary_public_key,
+                                                     packets[i])
+                identity._preceding_user_ids = len(user_ids)
+                user_attributes.append(identity)
             i += 1
             while (
                 i < packet_count
                 and packets[i].type == C.SIGNATURE_PACKET_TYPE
                 ):
 
-                user_attribute.signatures.append(
+                identity.signatures.append(
                         KeySignature.from_packet(packets[i],
-                                                 user_attribute)
+                                                 identity)
                     )
                 i += 1
 
+        for attribute in user_attributes:
+            if attribute._preceding_user_ids == len(user_ids):
+                # Also behind any that are added later
+                attribute._preceding_user_ids = None
+
         subkeys = primary_public_key.subkeys
         while (
             i < packet_count
@@ -1131,18 +1140,28 @@ class TransferablePublicKey(BasePublicKey):
 
         return primary_public_key
 
+    def _identities(self):
+        """The user IDs and attributes, where they were read from a key in
+        the order they had there.
+        """
+        result = []
+        attributes = list(self.user_attributes)
+        for i, user_id in enumerate(self.user_ids):
+            while attributes and (
+                    attributes[0]._preceding_user_ids is not None
+                    and attributes[0]._preceding_user_ids <= i):
+                result.append(attributes.pop(0))
+            result.append(user_id)
+        return result + attributes
+
     def to_packets(self, header_format=None):
         packets = []
         packets.append(self.to_packet(header_format))
         for sig in self.signatures:
             packets.append(sig.to_packet(header_format))
-        for user_id in self.user_ids:
-            packets.append(user_id.to_packet(header_format))
-            for sig in user_id.signatures:
-                packets.append(sig.to_packet(header_format))
-        for user_attribute in self.user_attributes:
-            packets.append(user_attribute.to_packet(header_format))
-            for sig in user_attribute.signatures:
+        for identity in self._identities():
+            packets.append(identity.to_packet(header_format))
+            for sig in identity.signatures:
                 packets.append(sig.to_packet(header_format))
         for subkey in self.subkeys:
             packets.append(subkey.to_packet(header_format))
@@ -1185,6 +1204,7 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
         for attribute in self.user_attributes:
             new_attribute = UserAttribute(key, list(attribute.content_items))
             new_attribute.packet_header_type = attribute.packet_header_type
+            new_attribute._preceding_user_ids = attribute._preceding_user_ids
             new_attribute.signatures = _copy_signatures(attribute.signatures,
                                                         new_attribute)
             key.user_attributes.append(new_attribute)
-- 
2.43.0


From b4c24e44b8bb2cb89ea6305972e0f8975d40f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:21 +0000
Subject: [PATCH 079/117] fix: packets of types above 15 were written as other
 types in old format

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b95165c..c8c243f 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -123,7 +123,9 @@ class Packet(object):
         packet_type = self.type
         tag = 0x80
         result = bytearray()
-        if self.header_format == constants.NEW_PACKET_HEADER_TYPE:
+        # "Note that old format headers only have 4 bits of packet tags"
+        if (self.header_format == constants.NEW_PACKET_HEADER_TYPE
+                or packet_type > 15):
             remaining = data_length
             offset = 0
             tag += 0x40 + packet_type
-- 
2.43.0


From 440ad5a3a3e7601563c71832158d00f2e651f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 080/117] fix: statements that a signature does not cover were
 taken for its own

---
 pgp/signature.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 412f280..5eae28a 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -128,6 +128,13 @@ class BaseSignature(object):
 
     _target_ref = None
 
+    # Anybody can add to the unhashed subpackets, so only those that can be
+    # checked otherwise are taken from there.
+    _self_checking_subpacket_types = (
+        C.ISSUER_KEY_ID_SUBPACKET_TYPE,
+        C.EMBEDDED_SIGNATURE_SUBPACKET_TYPE,
+        )
+
     @classmethod
     def from_packet(cls, packet, target):
         version = packet.version
@@ -258,7 +265,10 @@ class BaseSignature(object):
 
     def _get_subpackets(self, type_):
         result = []
-        for s in self.hashed_subpackets + self.unhashed_subpackets:
+        subpackets = self.hashed_subpackets
+        if type_ in self._self_checking_subpacket_types:
+            subpackets = subpackets + self.unhashed_subpackets
+        for s in subpackets:
             if s.type == type_:
                 result.append(s)
         return result
-- 
2.43.0


From 75aca80849e10a274c3d1461e8b5ba16f6241452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 081/117] fix: attributes of signatures were lost, mixed up or
 could not be set

---
 pgp/signature.py | 218 +++++++++++++++++++++++------------------------
 1 file changed, 107 insertions(+), 111 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 5eae28a..9a8b307 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -246,13 +246,14 @@ class BaseSignature(object):
         if version in (2, 3):
             self._creation_time = creation_time
             self._issuer_key_id = issuer_key_id
-        elif version >= 4:
+        self.hashed_subpackets = hashed_subpackets or []
+        self.unhashed_subpackets = unhashed_subpackets or []
+        if version >= 4:
             if creation_time is not None:
-                self._creation_time = creation_time
+                self._update_subpacket_values(
+                    C.CREATION_TIME_SUBPACKET_TYPE, 'time', creation_time)
             if issuer_key_id is not None:
                 self.issuer_key_ids = [issuer_key_id]
-        self.hashed_subpackets = hashed_subpackets or []
-        self.unhashed_subpackets = unhashed_subpackets or []
         if current_time_fn is None:
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
@@ -297,6 +298,20 @@ class BaseSignature(object):
             result = None
         return result
 
+    def _set_subpackets(self, type_, subpackets):
+        """Replace all subpackets of a type."""
+        if self._get_subpackets(type_) == subpackets:
+            return
+        if self.version < 4:
+            raise ValueError(
+                'Version {0} signatures have no subpackets.'.format(
+                    self.version))
+        self.hashed_subpackets = [
+            s for s in self.hashed_subpackets if s.type != type_
+            ] + subpackets
+        self.unhashed_subpackets = [
+            s for s in self.unhashed_subpackets if s.type != type_]
+
     def _update_subpacket_values(self, type_, attr, value):
         subpackets = self._get_subpackets(type_)
         if subpackets:
@@ -305,11 +320,28 @@ class BaseSignature(object):
         else:
             self._add_subpacket_values(type_, attr, value)
 
+    # What subpackets say about their other attributes when one is set
+    _subpacket_defaults = {
+        C.TRUST_SUBPACKET_TYPE: {'depth': 0, 'amount': 0},
+        C.REVOCATION_REASON_SUBPACKET_TYPE: {
+            'revocation_code': 0, 'revocation_reason': ''},
+        C.KEY_FLAGS_SUBPACKET_TYPE: {
+            'may_certify_others': False, 'may_sign_data': False,
+            'may_encrypt_comms': False, 'may_encrypt_storage': False,
+            'may_be_used_for_auth': False, 'may_have_been_split': False,
+            'may_have_multiple_owners': False},
+        }
+
     def _add_subpacket_values(self, type_, attr, value, hashed=True,
                               critical=False):
-        sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
-                **{attr: value, 'critical': critical})
-        self._add_subpacket(sub)
+        if self.version < 4:
+            raise ValueError(
+                'Version {0} signatures have no subpackets.'.format(
+                    self.version))
+        values = dict(self._subpacket_defaults.get(type_, ()))
+        values.update({attr: value, 'critical': critical})
+        sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](**values)
+        self._add_subpacket(sub, hashed)
 
     def _remove_subpacket_values(self, type_, attr, value):
         subpackets = self._get_subpackets(type_)
@@ -324,20 +356,27 @@ class BaseSignature(object):
             value = self._get_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time')
+        if value is None:
+            return None
         return datetime.datetime.fromtimestamp(value)
 
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        exp_time = self.signature_expiration_time
+        if exp_time is not None and dt >= exp_time:
+            raise ValueError('Signature would expire before its creation.')
+        value = utils.datetime_to_timestamp(dt)
+        if not 0 <= value < 2 ** 32:
+            raise ValueError('Creation time out of range.')
         if self.version in (2, 3):
             self._creation_time = value
         elif self.version >= 4:
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
@@ -350,25 +389,15 @@ class BaseSignature(object):
                 'key_id', as_list=True)
 
     def _set_issuer_key_ids(self, key_ids):
-        existing = self.issuer_key_ids
-        if self.version in (2, 3) and len(key_ids) != 1:
-            raise ValueError
-
-        for k in set(key_ids) | set(existing):
-            if k in existing and key_ids:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.ISSUER_KEY_ID_SUBPACKET_TYPE,
-                    'key_id', k
-                    )
+        if self.version in (2, 3):
+            if len(key_ids) != 1:
+                raise ValueError
+            self._issuer_key_id = key_ids[0]
+        elif key_ids != self.issuer_key_ids:
+            self._set_subpackets(
+                C.ISSUER_KEY_ID_SUBPACKET_TYPE,
+                [signature_subpackets.IssuerSubpacket(False, k)
+                 for k in key_ids])
 
     issuer_key_ids = property(_get_issuer_key_ids, _set_issuer_key_ids)
 
@@ -378,21 +407,22 @@ class BaseSignature(object):
             'time')
         # "If this is not present or has a value of zero, the key never
         #  expires."
-        if not seconds:
+        if not seconds or self.creation_time is None:
             return None
         return self.creation_time + datetime.timedelta(seconds=seconds)
 
     def _set_signature_expiration_time(self, dt):
         if dt is None:
-            value = 0
-        elif dt < self.creation_time:
-            raise ValueError
-        else:
-            td = dt - self.creation_time
-            value = td.seconds + td.days * 86400
-            self._update_subpacket_values(
-                C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
-                'time', value)
+            self._set_subpackets(C.EXPIRATION_SECONDS_SUBPACKET_TYPE, [])
+            return
+        # Zero would be for a signature that never expires
+        td = dt - self.creation_time
+        value = td.seconds + td.days * 86400
+        if not 0 < value < 2 ** 32:
+            raise ValueError('Expiration time out of range.')
+        self._update_subpacket_values(
+            C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
+            'time', value)
 
     signature_expiration_time = property(
         _get_signature_expiration_time,
@@ -413,24 +443,24 @@ class BaseSignature(object):
     def _get_trust_amount(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount')
+            'amount')
 
     def _set_trust_amount(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            'amount', value)
 
     trust_amount = property(_get_trust_amount, _set_trust_amount)
 
     def _get_trust_depth(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth')
+            'depth')
 
     def _set_trust_depth(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth', value)
+            'depth', value)
 
     trust_depth = property(_get_trust_depth, _set_trust_depth)
 
@@ -444,22 +474,11 @@ class BaseSignature(object):
     def _set_regular_expressions(self, regexes):
         existing = [regex.pattern for regex in self.regular_expressions]
         regexes = [regex.pattern for regex in regexes]
-
-        for k in set(regexes) | set(existing):
-            if k in existing and regexes:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
-            else:
-                # Add
-                self._add_subpacket_values(
-                    C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
-                    'pattern', k
-                    )
+        if regexes != existing:
+            self._set_subpackets(
+                C.REGULAR_EXPRESSION_SUBPACKET_TYPE,
+                [signature_subpackets.RegularExpressionSubpacket(False, k)
+                 for k in regexes])
 
     regular_expressions = property(_get_regular_expressions,
                                    _set_regular_expressions)
@@ -474,7 +493,7 @@ class BaseSignature(object):
             C.REVOCABLE_SUBPACKET_TYPE,
             'revocable', value)
 
-    revocable = property(_get_exportable, _set_exportable)
+    revocable = property(_get_revocable, _set_revocable)
 
     def _get_notations(self):
         subpackets = self._get_subpackets(C.NOTATION_SUBPACKET_TYPE)
@@ -484,21 +503,8 @@ class BaseSignature(object):
         ]
 
     def _set_notations(self, notations):
-        existing = self.notations
-
-        for k in set(notations) | set(existing):
-            if k in existing and notations:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        self._set_subpackets(C.NOTATION_SUBPACKET_TYPE,
+                             [k.to_subpacket() for k in notations])
 
     notations = property(_get_notations, _set_notations)
 
@@ -516,13 +522,13 @@ class BaseSignature(object):
 
     def _get_revocation_reason(self):
         return self._get_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
             'revocation_reason')
 
     def _set_revocation_reason(self, value):
         self._update_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
+            'revocation_reason', value)
 
     revocation_reason = property(_get_revocation_reason,
                                  _set_revocation_reason)
@@ -547,21 +553,10 @@ class BaseSignature(object):
         ]
 
     def _set_embedded_signatures(self, embedded_signatures):
-        existing = self.embedded_signatures
-
-        for k in set(embedded_signatures) | set(existing):
-            if k in existing and embedded_signatures:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
+        self._set_subpackets(
+            C.EMBEDDED_SIGNATURE_SUBPACKET_TYPE,
+            [signature_subpackets.EmbeddedSignatureSubpacket(
+                False, k.to_packet()) for k in embedded_signatures])
 
     embedded_signatures = property(_get_embedded_signatures,
                                    _set_embedded_signatures)
@@ -573,12 +568,26 @@ class BaseSignature(object):
         # "If this is not present or has a value of zero, the key never
         #  expires."
         if not seconds:  # 0 or None
-            return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+            return None
+        return (self._get_key_creation_time() +
+                datetime.timedelta(seconds=seconds))
+
+    def _get_key_creation_time(self):
+        # Of the key that this is about, or whose identity
+        key = self.parent
+        if hasattr(key, 'user_id') or hasattr(key, 'content_items'):
+            key = key.primary_public_key
+        return key.creation_time
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
+        if value is None:
+            self._set_subpackets(C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE, [])
+            return
+        # Zero would be for a key that never expires
+        delta = value - self._get_key_creation_time()
         seconds = delta.days * 86400 + delta.seconds
+        if not 0 < seconds < 2 ** 32:
+            raise ValueError('Expiration time out of range.')
         self._update_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
             'time', seconds)
@@ -636,21 +645,8 @@ class BaseSignature(object):
         ]
 
     def _set_revocation_keys(self, revocation_keys):
-        existing = self.revocation_keys
-
-        for k in set(revocation_keys) | set(existing):
-            if k in existing and revocation_keys:
-                continue
-            elif k in existing:
-                # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
-            else:
-                # Add
-                self._add_subpacket(
-                    k.to_subpacket()
-                    )
+        self._set_subpackets(C.REVOCATION_KEY_SUBPACKET_TYPE,
+                             [k.to_subpacket() for k in revocation_keys])
 
     revocation_keys = property(_get_revocation_keys, _set_revocation_keys)
 
-- 
2.43.0


From 01d0dc08b210091a97fc094ad91dcc164b19edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 082/117] fix: signatures were not expired at their expiration
 time

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 9a8b307..5949fdb 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -852,7 +852,7 @@ class BaseSignature(object):
     @property
     def expired(self):
         if self.signature_expiration_time:
-            return self.get_current_time() > self.signature_expiration_time
+            return self.get_current_time() >= self.signature_expiration_time
         return False
 
     @property
-- 
2.43.0


From 53f1b1196b0ca0736c35860f4fc0093ff2111af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 083/117] fix: capabilities of keys were those of other
 attributes

---
 pgp/transferrable_keys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 068ee8a..5754954 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -154,13 +154,13 @@ class SignedMixin(object):
     may_certify_others = __selfsig_attribute('may_certify_others')
     may_sign_data = __selfsig_attribute('may_sign_data')
     may_encrypt_comms = __selfsig_attribute('may_encrypt_comms')
-    may_encrypt_storage = __selfsig_attribute('may_encrypt_comms')
-    may_be_used_for_auth = __selfsig_attribute('may_encrypt_comms')
+    may_encrypt_storage = __selfsig_attribute('may_encrypt_storage')
+    may_be_used_for_auth = __selfsig_attribute('may_be_used_for_auth')
     may_have_been_split = __selfsig_attribute('may_have_been_split')
     may_have_multiple_owners = \
         __selfsig_attribute('may_have_multiple_owners')
     supports_modification_detection = \
-        __selfsig_attribute('may_have_multiple_owners')
+        __selfsig_attribute('supports_modification_detection')
 
     del __selfsig_attribute
 
-- 
2.43.0


From 6562a22ff01f9199e40c5f6eccceb35d1e1a4c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 084/117] fix: revocations of certifications were missed or
 misattributed

---
 pgp/signature.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 5949fdb..5a29ff6 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -857,19 +857,33 @@ class BaseSignature(object):
 
     @property
     def revoked(self):
-        if self.signature_type in (
-                C.SIGNATURE_DIRECTLY_ON_A_KEY,
-                C.SUBKEY_BINDING_SIGNATURE,
-                C.GENERIC_CERTIFICATION,
-                C.CASUAL_CERTIFICATION,
-                C.PERSONA_CERTIFICATION,
-                C.POSITIVE_CERTIFICATION,
-                ):
-            if not self.parent:
-                return None
-            for s in self.parent.signatures:
-                if s.revocation and s.target == self:
-                    return True
+        revocation_type = {
+            C.SIGNATURE_DIRECTLY_ON_A_KEY: C.KEY_REVOCATION_SIGNATURE,
+            C.SUBKEY_BINDING_SIGNATURE: C.SUBKEY_REVOCATION_SIGNATURE,
+            C.GENERIC_CERTIFICATION: C.CERTIFICATION_REVOCATION_SIGNATURE,
+            C.CASUAL_CERTIFICATION: C.CERTIFICATION_REVOCATION_SIGNATURE,
+            C.PERSONA_CERTIFICATION: C.CERTIFICATION_REVOCATION_SIGNATURE,
+            C.POSITIVE_CERTIFICATION: C.CERTIFICATION_REVOCATION_SIGNATURE,
+            }.get(self.signature_type)
+        if revocation_type is None:
+            return False
+        if not self.parent:
+            return None
+        for s in self.parent.signatures:
+            if s.signature_type != revocation_type or s.expired:
+                continue
+            if s.creation_time is None or s.validated is False:
+                continue
+            if not set(self.issuer_key_ids) & set(s.issuer_key_ids):
+                continue
+            # "This signature revokes an earlier User ID certification"
+            if (
+                    revocation_type == C.CERTIFICATION_REVOCATION_SIGNATURE
+                    and self.creation_time is not None
+                    and s.creation_time < self.creation_time
+                    ):
+                continue
+            return True
         return False
 
     @property
-- 
2.43.0


From d652601365c3292650acb673b77d248a297d5d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 085/117] fix: the status of keys was not that of their newest
 valid self-signature

---
 pgp/transferrable_keys.py | 53 +++++++++++----------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5754954..fd95cc2 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -46,18 +46,9 @@ class SignedMixin(object):
 
     @property
     def self_signatures(self):
-        result = []
-        for s in self.signatures:
-            pk = self.primary_public_key or self
-            key_ids = set([pk.key_id])
-            key_ids |= set([
-                subkey.key_id for subkey in
-                pk.subkeys
-                ])
-            if key_ids & set(s.issuer_key_ids):
-                # is selfsig
-                result.append(s)
-        return result
+        # Subkeys don't speak for the key
+        pk = self.primary_public_key or self
+        return [s for s in self.signatures if pk.key_id in s.issuer_key_ids]
 
     @property
     def current_self_signatures(self):
@@ -65,6 +56,8 @@ class SignedMixin(object):
         for s in self.self_signatures:
             if (
                     s.signature_type in self._self_sig_types
+                    and s.creation_time is not None
+                    and s.validated is not False
                     and not s.revoked
                     and not s.expired
                     and not s.issuer_key_expired
@@ -79,6 +72,8 @@ class SignedMixin(object):
         for s in self.self_signatures:
             if (
                     s.signature_type in self._revocation_sig_types
+                    and s.creation_time is not None
+                    and s.validated is not False
                     and not s.revoked
                     and not s.expired
                     and not s.issuer_key_expired
@@ -92,26 +87,13 @@ class SignedMixin(object):
         return bool(self.revocation_signatures)
 
     def get_most_recent_selfsig(self, revocation=False):
-        last_signature_created = datetime.datetime(1900, 1, 1)
-        most_recent_selfsig = None
-        for signature in self.signatures:
-            if not signature.is_self_signature():
-                continue
-            if (
-                    not revocation
-                    and signature.signature_type not in self._self_sig_types
-                    ):
-                continue
-            if (
-                    revocation
-                    and signature.signature_type not in
-                    self._revocation_sig_types
-                    ):
-                continue
-            if last_signature_created < signature.creation_time:
-                most_recent_selfsig = signature
-
-        return most_recent_selfsig
+        if revocation:
+            signatures = self.revocation_signatures
+        else:
+            signatures = self.current_self_signatures
+        if not signatures:
+            return None
+        return max(signatures, key=lambda s: s.creation_time)
 
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
@@ -169,17 +151,12 @@ class KeySignature(BaseSignature):
 
     def is_self_signature(self):
         parent = self.parent
-        own_key_ids = []
         if isinstance(parent, (TransferablePublicKey, TransferableSecretKey)):
             primary_public_key = parent
         else:
             primary_public_key = parent.primary_public_key
 
-        own_key_ids.append(primary_public_key.key_id)
-        for subkey in primary_public_key.subkeys:
-            own_key_ids.append(subkey.key_id)
-
-        return bool(set(self.issuer_key_ids) & set(own_key_ids))
+        return primary_public_key.key_id in self.issuer_key_ids
 
 
 def _copy_signatures(signatures, target):
-- 
2.43.0


From 5a04a4cae72b9eff597bc0bcb9e6c666ad5bc47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 086/117] fix: keyring locks were taken twice, not given back
 or never obtained

---
 pgp/db/gpg.py | 215 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 162 insertions(+), 53 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..74414fe 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -16,6 +16,11 @@
 
 import atexit
 from collections import OrderedDict
+import errno
+try:
+    import fcntl
+except ImportError:
+    fcntl = None
 try:
     from dbm import gnu as gdbm
     HAVE_GDBM = True
@@ -27,9 +32,9 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
-import signal
 import threading
 import time
+import weakref
 
 from pgp.packets import parse_binary_packet_data
 from pgp.packets import parse_binary_packet_stream
@@ -58,21 +63,27 @@ DEFAULT_RESOURCES = (
 )
 
 
-_locks = []
+_locks = weakref.WeakSet()
 
 
 @atexit.register
 def _clean_up_locks():
-    for l in _locks:
-        l.release()
-        try:
-            os.unlink(l.name)
-        except:
-            pass
-        try:
-            os.unlink(l.lock_template_name)
-        except:
-            pass
+    for l in list(_locks):
+        l._abandon()
+
+
+class _LockState(object):
+    """What all the locks of this process on the same file share."""
+
+    def __init__(self):
+        self.lock = threading.RLock()
+        self.pid = os.getpid()
+        self.thread = None
+        self.depth = 0
+
+
+_lock_states = weakref.WeakValueDictionary()
+_lock_states_lock = threading.Lock()
 
 
 class Lock(object):
@@ -80,72 +91,170 @@ class Lock(object):
     name = None
     template_name = None
     locked = False
+    # Between two attempts, in seconds
+    interval = 0.05
+    _state = None
+    _depth = 0
 
     def __init__(self, filename):
-        node_name = platform.node()
+        filename = os.path.abspath(filename)
         dirpart = os.path.dirname(filename)
-        self.template_name = '{0}{1}.#lk{2:x}.'.format(
-            dirpart,
-            os.path.sep,
-            id(self)
-            )
-        with open(self.template_name, 'w') as lock_fh:
-            lock_fh.write('{0:010d}'.format(os.getpid()))
-            lock_fh.write(node_name)
-            lock_fh.write('\n')
+        self.template_name = os.path.join(dirpart, '.#lk{0:x}.{1}'.format(
+            id(self),
+            os.getpid()
+            ))
         self.name = '{0}{1}lock'.format(
             filename,
             os.path.extsep)
-        self._lock = threading.RLock()
-        _locks.append(self)
+        _locks.add(self)
 
     def __del__(self):
         try:
-            self.release()
-            os.unlink(self.lock_template_name)
+            while self._depth and self.release():
+                pass
         except:
             # TODO: log an error
             pass
 
+    def _get_state(self):
+        # A forked process has none of the locks of its parent
+        if self._state is None or self._state.pid != os.getpid():
+            dirpart, name = os.path.split(self.name)
+            name = os.path.join(os.path.realpath(dirpart), name)
+            with _lock_states_lock:
+                state = _lock_states.get(name)
+                if state is None or state.pid != os.getpid():
+                    state = _LockState()
+                    _lock_states[name] = state
+            self._state = state
+            self._depth = 0
+            self.locked = False
+        return self._state
+
+    def _write_template(self):
+        self.template_name = '{0}.{1}'.format(
+            self.template_name.rsplit('.', 1)[0], os.getpid())
+        with open(self.template_name, 'w') as lock_fh:
+            lock_fh.write('{0:010d}'.format(os.getpid()))
+            lock_fh.write(platform.node())
+            lock_fh.write('\n')
+
+    def _parse(self, fh):
+        pid = int(fh.read(10))
+        node = fh.read().strip()
+        return pid, node == platform.node()
+
     def read(self):
         with open(self.name, 'r') as fh:
-            pid = int(fh.read(10))
-            node = fh.read().strip()
+            return self._parse(fh)
 
-        return pid, node == platform.node()
+    def _is_stale(self, fh):
+        try:
+            pid, same_node = self._parse(fh)
+        except ValueError:
+            return False
+        if not same_node or pid <= 0:
+            return False
+        if pid == os.getpid():
+            # Nothing here holds it, so it was another process with that ID
+            return True
+        try:
+            os.kill(pid, 0)
+        except OSError as e:
+            return e.errno == errno.ESRCH
+        return False
+
+    def _remove_stale(self):
+        """Whether there is no lock any more after removing that of a dead
+        process.
+        """
+        try:
+            with open(self.name, 'r') as fh:
+                if fcntl is not None:
+                    # Nobody else must remove it at the same time: they
+                    # might hit the lock of whoever comes next.
+                    try:
+                        fcntl.flock(fh, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                    except (IOError, OSError):
+                        return False
+                if not self._is_stale(fh):
+                    return False
+                this, there = os.fstat(fh.fileno()), os.stat(self.name)
+                if (this.st_dev, this.st_ino) == (there.st_dev, there.st_ino):
+                    os.unlink(self.name)
+        except (IOError, OSError) as e:
+            if e.errno != errno.ENOENT:
+                raise
+        return True
+
+    def _acquire_file(self, start, timeout):
+        self._write_template()
+        try:
+            while True:
+                try:
+                    os.link(self.template_name, self.name)
+                    return True
+                except OSError as e:
+                    if e.errno != errno.EEXIST:
+                        raise
+                removed = self._remove_stale()
+                if timeout is not None and (time.time() - start) > timeout:
+                    return False
+                if not removed:
+                    time.sleep(self.interval)
+        finally:
+            os.unlink(self.template_name)
 
     def acquire(self, timeout=None):
         start = time.time()
-        while not self.locked:
+        state = self._get_state()
+        while not state.lock.acquire(False):
             if timeout is not None and (time.time() - start) > timeout:
                 return False
-            self._lock.acquire()
-            os.link(self.template_name, self.name)
-            pid, same_node = self.read()
-            if pid == os.getpid() and same_node:
-                # OK
-                pass
-            elif same_node:
-                # attempt to kill the interloper
-                os.kill(pid, signal.SIG_DFL)
-                os.unlink(self.name)
-                continue
-            self.locked = True
-
+            time.sleep(self.interval)
+        try:
+            if not state.depth:
+                if not self._acquire_file(start, timeout):
+                    state.lock.release()
+                    return False
+        except BaseException:
+            state.lock.release()
+            raise
+        state.thread = threading.current_thread().ident
+        state.depth += 1
+        self._depth += 1
+        self.locked = True
         return True
 
     def release(self):
-        if not self.locked:
-            return
+        """Undo one acquire by this thread."""
+        state = self._get_state()
+        if not self._depth or \
+                state.thread != threading.current_thread().ident:
+            return False
 
-        pid, same_node = self.read()
-        if pid == os.getpid() and same_node:
-            os.unlink(self.name)
-            self.locked = False
-            self._lock.release()
-        else:
-            # TODO: error?
-            return
+        try:
+            if state.depth == 1:
+                self._remove_own()
+        finally:
+            self._depth -= 1
+            self.locked = bool(self._depth)
+            state.depth -= 1
+            state.lock.release()
+        return True
+
+    def _remove_own(self):
+        try:
+            pid, same_node = self.read()
+            if pid == os.getpid() and same_node:
+                os.unlink(self.name)
+        except (IOError, OSError) as e:
+            if e.errno != errno.ENOENT:
+                raise
+
+    def _abandon(self):
+        if self._depth and self._state.pid == os.getpid():
+            self._remove_own()
 
 
 class ResourceTypes:
-- 
2.43.0


From 0dd970e63a37f0783691c4cc9826ccb28e4b882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 087/117] fix: keyrings could not be created or iterated over

---
 pgp/db/gpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 74414fe..7fd383e 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -284,7 +284,7 @@ class BaseResource(object):
             yield self.get_transferrable_key(k)
 
     def __iter__(self):
-        return self.keys()
+        return iter(self.keys())
 
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
@@ -298,7 +298,7 @@ class BaseResource(object):
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
             if force:
-                self.create_db(self.filename)
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
@@ -474,8 +474,8 @@ class Keyring(BaseResource):
     def create_db(self):
         self.lock_db()
         try:
-            with open(self.filename, 'wb'):
-                os.chmod(self.filename, 0o600)
+            # Another process may have been faster
+            os.close(os.open(self.filename, os.O_WRONLY | os.O_CREAT, 0o600))
         finally:
             self.unlock_db()
 
-- 
2.43.0


From 3185a2efc99a5fcf3eeef1de40fa1a75ec72e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 088/117] fix: keyrings lost, mixed up or duplicated keys

---
 pgp/db/gpg.py | 171 +++++++++++++++++++++++---------------------------
 1 file changed, 79 insertions(+), 92 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 7fd383e..699ece2 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -416,60 +416,65 @@ class Keyring(BaseResource):
         self._update_offset_table()
 
     def keys(self):
-        return self._offset_table.keys()
+        self._update_offset_table()
+        return list(self._offset_table)
 
     def _update_offset_table(self):
-        offset_table = {}
+        # Where each key starts and ends
+        offset_table = OrderedDict()
+        key_ids = {}
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
                 packet_iter = parse_binary_packet_stream(fh)
+                fingerprint = None
                 last_offset = fh.tell()
                 for packet in packet_iter:
                     if self._preferred_header_format is None:
                         self._preferred_header_format = packet.header_format
+                    offset = fh.tell()
                     if packet.type in (
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
-                    last_offset = fh.tell()
+                        fingerprint = packet.fingerprint
+                        if fingerprint in offset_table:
+                            fingerprint = None
+                        else:
+                            key_ids[fingerprint] = packet.key_id
+                            offset_table[fingerprint] = last_offset, offset
+                    elif fingerprint is not None:
+                        offset_table[fingerprint] = (
+                            offset_table[fingerprint][0], offset)
+                    last_offset = offset
         finally:
             self.unlock_db()
 
         self._offset_table = offset_table
+        self._key_ids = key_ids
 
-    def _get_key(self, offset):
-        self.lock_db()
-        try:
-            with open(self.filename, 'rb') as fh:
-                fh.seek(offset)
-                packets = []
-                packet_iter = parse_binary_packet_stream(fh)
-                for packet in packet_iter:
-                    if packet.type == constants.COMPRESSED_DATA_PACKET_TYPE:
-                        continue
-                    elif packets and packet.type in (
-                            constants.PUBLIC_KEY_PACKET_TYPE,
-                            constants.SECRET_KEY_PACKET_TYPE,
-                            ):
-                        break
-                    else:
-                        packets.append(packet)
-        finally:
-            self.unlock_db()
-
-        key = None
-        if packets and packets[0].type == constants.PUBLIC_KEY_PACKET_TYPE:
-            key = TransferablePublicKey.from_packets(packets)
-        elif packets and packets[0].type == constants.SECRET_KEY_PACKET_TYPE:
-            key = TransferableSecretKey.from_packets(packets)
-        elif packets:
-            raise ValueError(packets[0])
+    def _find(self, fingerprint):
+        """The fingerprints of the keys that have this fingerprint or (short)
+        key ID.
+        """
+        if fingerprint in self._offset_table:
+            return [fingerprint]
+        if len(fingerprint) not in (8, 16):
+            return []
+        return [f for f in self._offset_table
+                if self._key_ids[f].endswith(fingerprint)]
+
+    def _get_key(self, fingerprint):
+        start, end = self._offset_table[fingerprint]
+        with open(self.filename, 'rb') as fh:
+            fh.seek(start)
+            data = bytearray(fh.read(end - start))
+        packets = [packet for packet in parse_binary_packet_data(data)
+                   if packet.type != constants.COMPRESSED_DATA_PACKET_TYPE]
+        if packets[0].type == constants.PUBLIC_KEY_PACKET_TYPE:
+            return TransferablePublicKey.from_packets(packets)
         else:
-            raise KeyError()
-
-        return key
+            return TransferableSecretKey.from_packets(packets)
 
     def create_db(self):
         self.lock_db()
@@ -479,27 +484,48 @@ class Keyring(BaseResource):
         finally:
             self.unlock_db()
 
+    def get_transferrable_keys(self, fingerprint):
+        # The file may have been changed by others
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            return [self._get_key(f) for f in self._find(fingerprint)]
+        finally:
+            self.unlock_db()
+
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
-        return self._get_key(offset)
+        keys = self.get_transferrable_keys(fingerprint)
+        if not keys:
+            raise KeyError(fingerprint)
+        return keys[0]
+
+    def _key_data(self, key):
+        return b''.join(map(bytes, key.to_packets(
+            self._preferred_header_format)))
+
+    def _write(self, data):
+        with open(self.filename, 'wb') as fh:
+            fh.write(data)
+
+    def _replace(self, fingerprint, replacement):
+        with open(self.filename, 'rb') as fh:
+            data = fh.read()
+        start, end = self._offset_table[fingerprint]
+        self._write(data[:start] + replacement + data[end:])
 
     def add_transferrable_key(self, key):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint in self._offset_table:
-            raise KeyError
-
         self.lock_db()
         try:
-            data = b''
+            self._update_offset_table()
+            if key.fingerprint in self._offset_table:
+                raise KeyError(key.fingerprint)
+            key_data = self._key_data(key)
             with open(self.filename, 'rb') as fh:
                 data = fh.read()
-
-            data += b''.join(map(bytes, key.to_packets(
-                self._preferred_header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data + key_data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -510,32 +536,12 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
-            data = b''
-            with open(self.filename, 'rb') as fh:
-                data = fh.read(offset)
-                packets = []
-                packet_iter = parse_binary_packet_stream(fh)
-                header_format = None
-                for packet in packet_iter:
-                    if header_format is None:
-                        header_format = packet.header_format
-                    if packets and packet.type in (
-                            constants.PUBLIC_KEY_PACKET_TYPE,
-                            constants.SECRET_KEY_PACKET_TYPE,
-                            ):
-                        break
-                    last_offset = fh.tell()
-                fh.seek(last_offset)
-                data += fh.read()
-            data += b''.join(map(bytes, key.to_packets(header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._update_offset_table()
+            if key.fingerprint not in self._offset_table:
+                raise KeyError(key.fingerprint)
+            self._replace(key.fingerprint, self._key_data(key))
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -544,31 +550,12 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint[-8:]]
         self.lock_db()
         try:
-            data = b''
-            with open(self.filename, 'rb') as fh:
-                data = fh.read(offset)
-                packets = []
-                packet_iter = parse_binary_packet_stream(fh)
-                header_format = None
-                for packet in packet_iter:
-                    if header_format is None:
-                        header_format = packet.header_format
-                    if packets and packet.type in (
-                            constants.PUBLIC_KEY_PACKET_TYPE,
-                            constants.SECRET_KEY_PACKET_TYPE,
-                            ):
-                        break
-                    last_offset = fh.tell()
-                fh.seek(last_offset)
-                data += fh.read()
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._update_offset_table()
+            if key.fingerprint not in self._offset_table:
+                raise KeyError(key.fingerprint)
+            self._replace(key.fingerprint, b'')
             self._update_offset_table()
         finally:
             self.unlock_db()
-- 
2.43.0


From 7041234c25f67c489c6b69e8f3666f720b64a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:39 +0000
Subject: [PATCH 089/117] fix: interrupted changes destroyed keyrings

---
 pgp/db/gpg.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 699ece2..9dfcc2f 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -32,6 +32,8 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
+import stat
+import tempfile
 import threading
 import time
 import weakref
@@ -504,8 +506,21 @@ class Keyring(BaseResource):
             self._preferred_header_format)))
 
     def _write(self, data):
-        with open(self.filename, 'wb') as fh:
-            fh.write(data)
+        # Whatever happens, the file has the old or the new content
+        filename = os.path.realpath(self.filename)
+        status = os.stat(filename)
+        fd, temporary = tempfile.mkstemp(dir=os.path.dirname(filename),
+                                         prefix='.#')
+        try:
+            with os.fdopen(fd, 'wb') as fh:
+                fh.write(data)
+                fh.flush()
+                os.fsync(fh.fileno())
+            os.chmod(temporary, stat.S_IMODE(status.st_mode))
+            os.rename(temporary, filename)
+        except BaseException:
+            os.unlink(temporary)
+            raise
 
     def _replace(self, fingerprint, replacement):
         with open(self.filename, 'rb') as fh:
-- 
2.43.0


From d67d697c8820053caab98ebe4befa0d34a1be56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:24 +0000
Subject: [PATCH 090/117] fix: GDBM key databases could not be used

---
 pgp/db/gpg.py | 67 +++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 9dfcc2f..87e44b6 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -291,6 +291,12 @@ class BaseResource(object):
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
 
+    def get_transferrable_key(self, fingerprint):
+        keys = self.get_transferrable_keys(fingerprint)
+        if not keys:
+            raise KeyError(fingerprint)
+        return keys[0]
+
     def lock_db(self):
         self._lock.acquire()
 
@@ -310,56 +316,61 @@ class GDBM(BaseResource):
 
     def __init__(self, *args, **kwargs):
         super(GDBM, self).__init__(*args, **kwargs)
-        first_key = self.firstkey()
-        if first_key is not None:
-            packet = next(parse_binary_packet_data(self[first_key]))
+        keys = self.keys()
+        if keys:
+            packet = next(parse_binary_packet_data(self._read(keys[0])))
             self._preferred_header_format = packet.header_format
         else:
             self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
 
     def keys(self):
+        result = []
         self.lock_db()
         try:
             with gdbm.open(self.filename, 'r') as db:
                 key = db.firstkey()
                 while key is not None:
-                    yield key
+                    result.append(key.decode('us-ascii'))
                     key = db.nextkey(key)
         finally:
             self.unlock_db()
+        return result
 
-    def create_db(self):
+    def _read(self, fingerprint):
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'c'):
-                os.chmod(self.filename, 0o600)
+            with gdbm.open(self.filename, 'r') as db:
+                return bytearray(db[fingerprint])
         finally:
             self.unlock_db()
 
-    def get_transferrable_key(self, fingerprint):
-        if len(fingerprint) != 40:
-            # Actually a key ID - find the fingerprint first.
-            fingerprint = ([
-                k for k in self.keys()
-                if k.endswith(fingerprint)
-                ] + [None]
-                )[0]
-
-        if fingerprint is None:
-            return None
+    def create_db(self):
+        self.lock_db()
+        try:
+            gdbm.open(self.filename, 'c', 0o600).close()
+        finally:
+            self.unlock_db()
 
+    def get_transferrable_keys(self, fingerprint):
+        result = []
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'r') as db:
-                packet_data = db[fingerprint]
-            packets = list(parse_binary_packet_data(packet_data))
-            if packets:
+            for k in self.keys():
+                if len(fingerprint) in (8, 16):
+                    # Actually a key ID
+                    packet = next(parse_binary_packet_data(self._read(k)))
+                    if not packet.key_id.endswith(fingerprint):
+                        continue
+                elif k != fingerprint:
+                    continue
+                packets = list(parse_binary_packet_data(self._read(k)))
                 if packets[0].type == constants.PUBLIC_KEY_PACKET_TYPE:
-                    return TransferablePublicKey.from_packets(packets)
+                    result.append(TransferablePublicKey.from_packets(packets))
                 elif packets[0].type == constants.SECRET_KEY_PACKET_TYPE:
-                    return TransferableSecretKey.from_packets(packets)
+                    result.append(TransferableSecretKey.from_packets(packets))
         finally:
             self.unlock_db()
+        return result
 
     def add_transferrable_key(self, key):
         if self.read_only:
@@ -401,8 +412,8 @@ class GDBM(BaseResource):
             with gdbm.open(self.filename, 'w') as db:
                 if key.fingerprint not in db:
                     raise KeyError(key.fingerprint)
-                gdbm.reorganize()
                 del db[key.fingerprint]
+                db.reorganize()
         finally:
             self.unlock_db()
 
@@ -495,12 +506,6 @@ class Keyring(BaseResource):
         finally:
             self.unlock_db()
 
-    def get_transferrable_key(self, fingerprint):
-        keys = self.get_transferrable_keys(fingerprint)
-        if not keys:
-            raise KeyError(fingerprint)
-        return keys[0]
-
     def _key_data(self, key):
         return b''.join(map(bytes, key.to_packets(
             self._preferred_header_format)))
-- 
2.43.0


From 3b541c2a5fafc8cdc053df811a9f418bf22a9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:24 +0000
Subject: [PATCH 091/117] fix: keyrings were taken for other kinds of databases

---
 pgp/db/gpg.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 87e44b6..5d427dd 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -46,8 +46,13 @@ from pgp.transferrable_keys import TransferableSecretKey
 
 
 GDBM_MAGIC = (
-    b'\x13\x57\x9a\xce'
-    b'\xce\x9a\x57\x13'
+    b'\x13\x57\x9a\xce',
+    b'\xce\x9a\x57\x13',
+    # Later versions
+    b'\x13\x57\x9a\xcd',
+    b'\xcd\x9a\x57\x13',
+    b'\x13\x57\x9a\xcf',
+    b'\xcf\x9a\x57\x13',
 )
 
 
@@ -587,10 +592,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[14:]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[10:]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
@@ -598,7 +603,7 @@ def get_resource(filename, force=False, secret=False, read_only=False,
         try:
             fh = open(filename, 'rb')
             magic = fh.read(4)
-        except OSError:
+        except (IOError, OSError):
             type_ = ResourceTypes.KEYRING
         else:
             if magic in GDBM_MAGIC:
-- 
2.43.0


From cbc02a40832dfe00c640178b6a42d9a0ff467e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:24 +0000
Subject: [PATCH 092/117] fix: secret keys were written into public keyrings

---
 pgp/db/gpg.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 5d427dd..c4840a8 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -647,42 +647,43 @@ class GPGDatabase(object):
         return resource
 
     def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys too
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.add_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.add_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.delete_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.delete_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.update_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.update_transferrable_key(key)
                     break
         else:
-- 
2.43.0


From fd67c0b95eb537d8c833458465edd84c0537ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:24 +0000
Subject: [PATCH 093/117] fix: searches missed keys with the same key ID

---
 pgp/db/gpg.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index c4840a8..486bf53 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -714,15 +714,14 @@ class GPGDatabase(object):
             return results
         for resource in self._resources.values():
             if fingerprint or key_id:
-                try:
-                    key = resource.get_transferrable_key(fingerprint or key_id)
-                except KeyError:
-                    continue
-                if user_id is not None:
-                    if self._matches_user_id(key, user_id):
+                # Several keys may have the same key ID
+                for key in resource.get_transferrable_keys(
+                        fingerprint or key_id):
+                    if user_id is not None:
+                        if self._matches_user_id(key, user_id):
+                            results.append(key)
+                    else:
                         results.append(key)
-                else:
-                    results.append(key)
             else:
                 # User ID only. Be really dumb and iterate.
                 for key in resource.values():
-- 
2.43.0


From 4af0e3b40b2733951787e0239fb2d3720e116d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:48 +0000
Subject: [PATCH 094/117] fix: GDBM key databases behind symbolic links were
 split

---
 pgp/db/gpg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 486bf53..9c88a6f 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -328,11 +328,15 @@ class GDBM(BaseResource):
         else:
             self._preferred_header_format = constants.OLD_PACKET_HEADER_TYPE
 
+    def _open(self, flag):
+        # Reorganizing would replace a symbolic link
+        return gdbm.open(os.path.realpath(self.filename), flag, 0o600)
+
     def keys(self):
         result = []
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'r') as db:
+            with self._open('r') as db:
                 key = db.firstkey()
                 while key is not None:
                     result.append(key.decode('us-ascii'))
@@ -344,7 +348,7 @@ class GDBM(BaseResource):
     def _read(self, fingerprint):
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'r') as db:
+            with self._open('r') as db:
                 return bytearray(db[fingerprint])
         finally:
             self.unlock_db()
@@ -352,7 +356,7 @@ class GDBM(BaseResource):
     def create_db(self):
         self.lock_db()
         try:
-            gdbm.open(self.filename, 'c', 0o600).close()
+            self._open('c').close()
         finally:
             self.unlock_db()
 
@@ -383,7 +387,7 @@ class GDBM(BaseResource):
 
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'w') as db:
+            with self._open('w') as db:
                 if key.fingerprint in db:
                     raise KeyError(key.fingerprint)
                 db[key.fingerprint] = \
@@ -399,7 +403,7 @@ class GDBM(BaseResource):
 
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'w') as db:
+            with self._open('w') as db:
                 if key.fingerprint not in db:
                     raise KeyError(key.fingerprint)
                 db[key.fingerprint] = \
@@ -414,7 +418,7 @@ class GDBM(BaseResource):
 
         self.lock_db()
         try:
-            with gdbm.open(self.filename, 'w') as db:
+            with self._open('w') as db:
                 if key.fingerprint not in db:
                     raise KeyError(key.fingerprint)
                 del db[key.fingerprint]
-- 
2.43.0


From 45468e2444fa9dae13eebc566b3e3f2062aa1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 095/117] fix: keyrings behind symbolic links had locks of
 their own

---
 pgp/db/gpg.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 9c88a6f..3dddb81 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -104,7 +104,8 @@ class Lock(object):
     _depth = 0
 
     def __init__(self, filename):
-        filename = os.path.abspath(filename)
+        # However it is called
+        filename = os.path.realpath(filename)
         dirpart = os.path.dirname(filename)
         self.template_name = os.path.join(dirpart, '.#lk{0:x}.{1}'.format(
             id(self),
@@ -126,13 +127,11 @@ class Lock(object):
     def _get_state(self):
         # A forked process has none of the locks of its parent
         if self._state is None or self._state.pid != os.getpid():
-            dirpart, name = os.path.split(self.name)
-            name = os.path.join(os.path.realpath(dirpart), name)
             with _lock_states_lock:
-                state = _lock_states.get(name)
+                state = _lock_states.get(self.name)
                 if state is None or state.pid != os.getpid():
                     state = _LockState()
-                    _lock_states[name] = state
+                    _lock_states[self.name] = state
             self._state = state
             self._depth = 0
             self.locked = False
-- 
2.43.0


From f4f914c069a7d58401de37ab0c203483ce514f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:18 +0000
Subject: [PATCH 096/117] fix: locks first used by several threads at once were
 not given back

---
 pgp/db/gpg.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3dddb81..e836dd7 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -126,16 +126,16 @@ class Lock(object):
 
     def _get_state(self):
         # A forked process has none of the locks of its parent
-        if self._state is None or self._state.pid != os.getpid():
-            with _lock_states_lock:
+        with _lock_states_lock:
+            if self._state is None or self._state.pid != os.getpid():
                 state = _lock_states.get(self.name)
                 if state is None or state.pid != os.getpid():
                     state = _LockState()
                     _lock_states[self.name] = state
-            self._state = state
-            self._depth = 0
-            self.locked = False
-        return self._state
+                self._state = state
+                self._depth = 0
+                self.locked = False
+            return self._state
 
     def _write_template(self):
         self.template_name = '{0}.{1}'.format(
-- 
2.43.0


From 980a858351c58844571f56901e467b1be00bdd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 097/117] fix: an agent closing the connection was waited for
 for ever

---
 pgp/pinentry/gpg_agent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 7ba9639..998b414 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -49,7 +49,9 @@ class GPGAgentPinentry(object):
         lines = []
         while 1:
             byte = self._sock.recv(1)
-            if byte == b'\n':
+            if not byte:
+                raise ValueError('Connection closed by the agent')
+            elif byte == b'\n':
                 lines.append(buf)
                 if buf[:2] == b'OK':
                     break
-- 
2.43.0


From c22d03fe7337d7258e11246403cea00e2eae4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 098/117] fix: only the first line of answers of the agent was
 read, as ISO-8859-1

---
 pgp/pinentry/gpg_agent.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 998b414..9468364 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -17,7 +17,7 @@
 import os
 import socket
 from urllib.parse import quote
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 
 
 class GPGAgentPinentry(object):
@@ -52,11 +52,17 @@ class GPGAgentPinentry(object):
             if not byte:
                 raise ValueError('Connection closed by the agent')
             elif byte == b'\n':
-                lines.append(buf)
-                if buf[:2] == b'OK':
+                keyword = buf.split(b' ', 1)[0]
+                if keyword == b'OK':
+                    lines.append(buf)
                     break
-                elif buf[:3] == b'ERR':
+                elif keyword == b'ERR':
                     raise ValueError(buf[4:].decode('latin-1'))
+                elif keyword == b'D':
+                    lines.append(buf)
+                elif keyword != b'S' and buf[:1] != b'#':
+                    # Neither status information nor a comment
+                    raise ValueError('Unexpected response from the agent')
                 buf = b''
             else:
                 buf += byte
@@ -94,7 +100,9 @@ class GPGAgentPinentry(object):
         self.send('GET_PASSPHRASE {0}'.format(params))
         response = self.get_response()
         self.disconnect()
-        return unquote(response[0][2:].decode('latin-1'))
+        # May be split anywhere, and only some octets are escaped
+        data = b''.join(line[2:] for line in response[:-1])
+        return unquote_to_bytes(data).decode('utf-8')
 
     def clear_passphrase(self, cache_id):
         self.connect()
-- 
2.43.0


From 557155067fe7eaaaddf67b750e6bccda2c84fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 099/117] fix: passphrases remembered by the agent were used
 although told not to

---
 pgp/pinentry/gpg_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 9468364..bcd1392 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -81,7 +81,7 @@ class GPGAgentPinentry(object):
             params += ' --repeat'
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
-        if cache_id:
+        if cache_id and use_cache:
             params += ' {0}'.format(quote(cache_id))
         else:
             params += ' X'
-- 
2.43.0


From 1c5c71446ab768a56dc2480ae76935e551923a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 100/117] fix: failures of the agent to clear passphrases were
 not noticed

---
 pgp/pinentry/gpg_agent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index bcd1392..4c57966 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -107,4 +107,5 @@ class GPGAgentPinentry(object):
     def clear_passphrase(self, cache_id):
         self.connect()
         self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
+        self.get_response()
         self.disconnect()
-- 
2.43.0


From 739b3f57d3053ff97e7b9e46dfaf3a783015a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 101/117] fix: cache IDs that start with dashes were options to
 the agent

---
 pgp/pinentry/gpg_agent.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 4c57966..e8fc0c3 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -20,6 +20,14 @@ from urllib.parse import quote
 from urllib.parse import unquote_to_bytes
 
 
+def _quote_first(text):
+    # Must not look like an option
+    quoted = quote(text)
+    if quoted.startswith('--'):
+        quoted = '%2D' + quoted[1:]
+    return quoted
+
+
 class GPGAgentPinentry(object):
 
     def __init__(self, name=None, socket_path=None):
@@ -82,7 +90,7 @@ class GPGAgentPinentry(object):
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
         if cache_id and use_cache:
-            params += ' {0}'.format(quote(cache_id))
+            params += ' {0}'.format(_quote_first(cache_id))
         else:
             params += ' X'
         if error_message:
@@ -106,6 +114,6 @@ class GPGAgentPinentry(object):
 
     def clear_passphrase(self, cache_id):
         self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
+        self.send('CLEAR_PASSPHRASE {0}'.format(_quote_first(cache_id)))
         self.get_response()
         self.disconnect()
-- 
2.43.0


From 6b27115172c3f02616fc1a534b2cb2ea150116c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 102/117] fix: long requests to the agent may have been cut

---
 pgp/pinentry/gpg_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index e8fc0c3..8a3df1d 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -50,7 +50,7 @@ class GPGAgentPinentry(object):
     def send(self, data):
         if isinstance(data, str):
             data = data.encode('latin-1')
-        self._sock.send(data + b'\n')
+        self._sock.sendall(data + b'\n')
 
     def get_response(self):
         buf = b''
-- 
2.43.0


From 984e142e5296ae60029af4614fb65da8870f56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 103/117] fix: keyservers given as https were asked without
 encryption

---
 pgp/keyserver/hkp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 23e3d87..2aef074 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -112,8 +112,9 @@ class HKPKeyserverClient(object):
 
     def __init__(self, base_url):
         parts = urlparse(base_url)
+        scheme = parts.scheme.lower()
         base_url = urlunparse(
-            (('https' if parts.scheme.lower() == 'hkps' else 'http'),)
+            (('https' if scheme in ('hkps', 'https') else 'http'),)
             + parts[1:6])
         self.base_url = base_url
 
-- 
2.43.0


From a1c84b3826de6c7ae765c2ed0624ab62edf3d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 104/117] fix: HKP keyservers were asked at the port of HTTP

---
 pgp/keyserver/hkp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 2aef074..5aa0a48 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -113,9 +113,13 @@ class HKPKeyserverClient(object):
     def __init__(self, base_url):
         parts = urlparse(base_url)
         scheme = parts.scheme.lower()
+        netloc = parts.netloc
+        if scheme == 'hkp' and parts.port is None:
+            # Has a port of its own
+            netloc = '{0}:11371'.format(netloc.rstrip(':'))
         base_url = urlunparse(
-            (('https' if scheme in ('hkps', 'https') else 'http'),)
-            + parts[1:6])
+            (('https' if scheme in ('hkps', 'https') else 'http'), netloc)
+            + parts[2:6])
         self.base_url = base_url
 
     @property
-- 
2.43.0


From 7f606229288c9921da45cf27b29ee2992e04769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 105/117] fix: keyserver answers with empty fields were refused

---
 pgp/keyserver/hkp.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 5aa0a48..c24be77 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -26,6 +26,16 @@ from pgp import armor
 from pgp.shortcuts import read_key
 
 
+def _number(field):
+    return int(field) if field else None
+
+
+def _time(field):
+    if not field:
+        return None
+    return datetime.datetime.fromtimestamp(int(field))
+
+
 def _add_colons(line, number):
     # "Colons for empty fields on the end of each line may be left off, if
     #  desired."
@@ -53,11 +63,8 @@ class HKPUserIdResult(object):
         l = _add_colons(l, 4)
         _uid, uid, created, expires, flags = l.split(':')
         self.user_id = unquote(uid)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.created = _time(created)
+        self.expires = _time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -87,13 +94,10 @@ class HKPResult(object):
         (_pub, key_id, public_key_algorithm, bit_length,
             created, expires, flags) = l.split(':')
         self.key_id = key_id
-        self.public_key_algorithm = int(public_key_algorithm)
-        self.bit_length = int(bit_length)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.public_key_algorithm = _number(public_key_algorithm)
+        self.bit_length = _number(bit_length)
+        self.created = _time(created)
+        self.expires = _time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
-- 
2.43.0


From fdd1555af9ca2824eadf44c958edeeadf17410d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 106/117] fix: keyserver answers that were empty or written
 another way were misread

---
 pgp/keyserver/hkp.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index c24be77..fc1ecd0 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -15,6 +15,7 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import datetime
+import re
 from urllib.parse import unquote
 from urllib.parse import urljoin
 from urllib.parse import urlparse
@@ -63,6 +64,7 @@ class HKPUserIdResult(object):
         l = _add_colons(l, 4)
         _uid, uid, created, expires, flags = l.split(':')
         self.user_id = unquote(uid)
+        flags = flags.lower()
         self.created = _time(created)
         self.expires = _time(expires)
         self.revoked = 'r' in flags
@@ -94,6 +96,7 @@ class HKPResult(object):
         (_pub, key_id, public_key_algorithm, bit_length,
             created, expires, flags) = l.split(':')
         self.key_id = key_id
+        flags = flags.lower()
         self.public_key_algorithm = _number(public_key_algorithm)
         self.bit_length = _number(bit_length)
         self.created = _time(created)
@@ -135,26 +138,19 @@ class HKPKeyserverClient(object):
         return urljoin(self.base_url, 'pks/add')
 
     def _read_mr(self, data):
-        data = data.splitlines()
-        info_line = data[0]
-        if info_line.startswith('info:'):
-            _info, version, count = info_line.split(':')
-        else:
-            version = 1
-            count = None
-
-        del version, count  # unused
-
+        # There may be an information line first. It tells nothing new.
         results = []
         pub_key = None
         user_ids = []
-        for line in data:
-            if line.startswith('pub'):
+        for line in re.split(r'\r\n|\r|\n', data):
+            # Everything but the text of user IDs is case-insensitive
+            keyword = line.split(':', 1)[0].lower()
+            if keyword == 'pub':
                 if pub_key:
                     results.append(HKPResult(self, pub_key, user_ids))
                 pub_key = line
                 user_ids = []
-            elif line.startswith('uid'):
+            elif keyword == 'uid':
                 user_ids.append(line)
             # Skip anything else
 
-- 
2.43.0


From f8063673f719cfe3e603eff048019f7ade094749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 107/117] fix: any key a keyserver answered with was taken for
 the one asked for

---
 pgp/keyserver/hkp.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index fc1ecd0..53fc870 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -24,7 +24,9 @@ from urllib.parse import urlunparse
 import requests
 
 from pgp import armor
-from pgp.shortcuts import read_key
+from pgp.packets import constants
+from pgp.packets import parse_ascii_packet_data
+from pgp.transferrable_keys import TransferablePublicKey
 
 
 def _number(field):
@@ -167,7 +169,28 @@ class HKPKeyserverClient(object):
             'exact': 'yes' if exact else 'no',
             })
         response.raise_for_status()
-        return read_key(response.content, True)
+        for key in self._read_keys(response.content.decode('utf-8')):
+            if self._is_called(key, key_id):
+                return key
+        raise KeyError(key_id)
+
+    def _read_keys(self, data):
+        keys = []
+        for packet in parse_ascii_packet_data(data):
+            if packet.type == constants.PUBLIC_KEY_PACKET_TYPE:
+                keys.append([])
+            if not keys:
+                raise ValueError('Unexpected packet')
+            keys[-1].append(packet)
+        return map(TransferablePublicKey.from_packets, keys)
+
+    def _is_called(self, key, key_id):
+        # Servers may answer with more than was asked for
+        key_id = key_id.upper()
+        for k in [key] + key.subkeys:
+            if k.fingerprint == key_id or k.key_id.endswith(key_id):
+                return True
+        return False
 
     def search(self, terms, exact=False):
         response = requests.get(self.get_url, params={
-- 
2.43.0


From 035860b8d64bce355b99109822eded3d12fa308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 108/117] fix: secret keys were submitted to keyservers

---
 pgp/keyserver/hkp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 53fc870..a6f5a13 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -27,6 +27,7 @@ from pgp import armor
 from pgp.packets import constants
 from pgp.packets import parse_ascii_packet_data
 from pgp.transferrable_keys import TransferablePublicKey
+from pgp.transferrable_keys import TransferableSecretKey
 
 
 def _number(field):
@@ -203,6 +204,8 @@ class HKPKeyserverClient(object):
         return self._read_mr(response.text)
 
     def submit(self, key, no_modify=False):
+        if isinstance(key, TransferableSecretKey):
+            raise TypeError('Secret keys must not be submitted')
         key_data = b''.join(map(bytes, key.to_packets()))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
-- 
2.43.0


From b54ab3e3970ce8117e63bdd85992e064617fff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:30 +0000
Subject: [PATCH 109/117] fix: the encoding of keyserver answers was guessed

---
 pgp/keyserver/hkp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index a6f5a13..7117413 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -201,7 +201,8 @@ class HKPKeyserverClient(object):
             'exact': 'yes' if exact else 'no'
             })
         response.raise_for_status()
-        return self._read_mr(response.text)
+        # Never to be guessed: it is ASCII
+        return self._read_mr(response.content.decode('utf-8', 'replace'))
 
     def submit(self, key, no_modify=False):
         if isinstance(key, TransferableSecretKey):
-- 
2.43.0


From 441ee39d8f8915cbbc9b8756c471004c7ff197c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 110/117] fix: packets of unknown types were equal whatever
 they contain

---
 pgp/packets/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index c8c243f..9baccb5 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -104,6 +104,8 @@ class Packet(object):
             self.__class__ == other.__class__
             and self.header_format == other.header_format
             and self.type == other.type
+            # Other kinds of packets compare what their content says.
+            and (self.__class__ != Packet or self.content == other.content)
             )
 
     def __repr__(self):
-- 
2.43.0


From e04c7b807c315f4a59da82ce0cd47b04440473a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 111/117] fix: session key packets without a key differed once
 read

---
 pgp/packets/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9baccb5..825f013 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -575,7 +575,8 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
             and self.version == other.version
             and self.symmetric_algorithm == other.symmetric_algorithm
             and self.s2k_specification == other.s2k_specification
-            and self.encrypted_session_key == other.encrypted_session_key
+            and ((self.encrypted_session_key or b'')
+                 == (other.encrypted_session_key or b''))
             )
 
     def get_key_and_cipher_algo(self, passphrase):
-- 
2.43.0


From ab46d2b96f200bfba4487028aabb291a0464dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:32 +0000
Subject: [PATCH 112/117] fix: signatures, notations and revokers could not be
 compared with anything else

---
 pgp/signature.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 5a29ff6..00e85eb 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -65,7 +65,9 @@ class Notation(object):
         self.human_readable = human_readable
 
     def __eq__(self, other):
-        return bytes(self.to_subpacket()) == bytes(other.to_subpacket())
+        return (isinstance(other, Notation)
+                and (bytes(self.to_subpacket())
+                     == bytes(other.to_subpacket())))
 
     def __hash__(self):
         return crc24(bytes(self.to_subpacket()))
@@ -101,7 +103,9 @@ class RevocationKeyInfo(object):
         self.sensitive = sensitive
 
     def __eq__(self, other):
-        return bytes(self.to_subpacket()) == bytes(other.to_subpacket())
+        return (isinstance(other, RevocationKeyInfo)
+                and (bytes(self.to_subpacket())
+                     == bytes(other.to_subpacket())))
 
     def __hash__(self):
         return crc24(bytes(self.to_subpacket()))
@@ -259,7 +263,8 @@ class BaseSignature(object):
         self.get_current_time = current_time_fn
 
     def __eq__(self, other):
-        return bytes(self.to_packet()) == bytes(other.to_packet())
+        return (isinstance(other, BaseSignature)
+                and bytes(self.to_packet()) == bytes(other.to_packet()))
 
     def __hash__(self):
         return crc24(bytes(self.to_packet()))
-- 
2.43.0


From f64ec50dbf731fab76e411caf57519152866752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:12 +0000
Subject: [PATCH 113/117] fix: session keys for ElGamal recipients were sent in
 the clear

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 825f013..71f77b7 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -19,6 +19,7 @@ import os
 import warnings
 
 from Crypto import Random
+from Crypto.Random import random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
 
@@ -61,7 +62,8 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        m = self._key.encrypt(
+            em, random.StrongRandom().randint(1, int(self._key.p) - 2))
         # Skip step 3c (I2OSP)
         # ...
         return m
-- 
2.43.0


From c1431a8fd479495713118903af1e1c8545ac1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:12 +0000
Subject: [PATCH 114/117] fix: octets of armored text with non-ASCII headers
 were not read

---
 pgp/shortcuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index ee7a8d4..a0d0714 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -17,7 +17,7 @@ def read_message(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
         if isinstance(data, bytes):
-            data = data.decode('us-ascii')
+            data = data.decode('utf8', 'surrogateescape')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
@@ -42,7 +42,7 @@ def read_key(data, armored=False):
     if armor.is_armor(data):
         # Assume the user made a mistake
         if isinstance(data, bytes):
-            data = data.decode('us-ascii')
+            data = data.decode('utf8', 'surrogateescape')
         armored = True
     if armored:
         fn = parse_ascii_packet_data
-- 
2.43.0


From 7d5783802ae20ba1279a78a128660a710989f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:26 +0000
Subject: [PATCH 115/117] fix: an empty session key packet kept the others from
 opening the message

---
 pgp/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index 6038045..45b7e5a 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -367,7 +367,7 @@ class PublicKeySessionKey(object):
         if hide_key_id:
             # "Wild card"
             self.key_id = None
-        if encrypted_key:
+        if encrypted_key is not None:
             self.encrypted_key = encrypted_key
         if session_key:
             self.set_algorithm_and_session_key(public_key,
-- 
2.43.0


From 53adbff0e7936c51ae30eaf6b2e6e9c26e95579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:15 +0000
Subject: [PATCH 116/117] fix: Keep the key ID of a one-pass signature packet

The signature may name no issuer, or several.
---
 pgp/message.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 45b7e5a..2bd9bcc 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -659,6 +659,15 @@ def _corresponds(signature, one_pass_packet):
             and (not key_ids or one_pass_packet.key_id in key_ids))
 
 
+def _one_pass_key_id(signature):
+    # The one read, unless the signature now names other issuers only
+    key_ids = signature.issuer_key_ids
+    key_id = getattr(signature, 'one_pass_key_id', None)
+    if key_id is not None and (not key_ids or key_id in key_ids):
+        return key_id
+    return key_ids[0]
+
+
 class SignedMessageWrapper(BaseMessage):
     # A signature packet followed by any other message type, or a
     # one-pass signature packet followed by a message type, followed by a
@@ -694,9 +703,12 @@ class SignedMessageWrapper(BaseMessage):
             parse_signature_from_packet(packet, message, one_pass=one_pass)
             for packet in signed
             ]
-        if one_pass and not all(map(_corresponds, signatures, one_passes)):
-            raise ValueError(
-                'Signature does not correspond to one-pass signature.')
+        if one_pass:
+            if not all(map(_corresponds, signatures, one_passes)):
+                raise ValueError(
+                    'Signature does not correspond to one-pass signature.')
+            for signature, one_pass_packet in zip(signatures, one_passes):
+                signature.one_pass_key_id = one_pass_packet.key_id
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -727,7 +739,7 @@ class SignedMessageWrapper(BaseMessage):
                         sig.signature_type,
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
-                        sig.issuer_key_ids[0],
+                        _one_pass_key_id(sig),
                         # Not if the next one is for the same message
                         nested=int(i == len(self.signatures))
                     ))
-- 
2.43.0


From 45f9e2d73493c4eb2c79490f10b0f4f075a1ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:14 +0000
Subject: [PATCH 117/117] fix: names and comments with carriage returns were
 cut when set

---
 pgp/user_id.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 9b90259..e9c219e 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -343,10 +343,11 @@ def make_user_id(user_name, user_email, user_comment):
     result = []
     if user_name:
         if not plain_name.match(user_name):
-            user_name = '"%s"' % quote(user_name)
+            # A carriage return would end it
+            user_name = '"%s"' % quote(user_name).replace('\r', '\\\r')
         result.append(user_name)
     if user_email:
         result.append('<%s>' % user_email)
     if user_comment:
-        result.append('(%s)' % re.sub(r'([()\\])', r'\\\1', user_comment))
+        result.append('(%s)' % re.sub(r'([()\\\r])', r'\\\1', user_comment))
     return SPACE.join(result)
-- 
2.43.0

