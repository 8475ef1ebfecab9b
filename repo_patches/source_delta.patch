From 419de29be6a8a12f9a56d594c8626c89dc32efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/36] fix: reading a named object through its link raised
 NameError

---
 ccnpy/flic/tree/TreeIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..a2c3898 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,9 +268,9 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From 5ea2a91b138da90aa9a0e9a61030959f177d0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 02/36] fix: Name equality between built and parsed names, and
 against non-names

---
 ccnpy/core/Name.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..3d98065 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,7 +95,11 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        # Compare the encoding: a component value may be held as bytes or as an array, and the
+        # component TLV types are part of the name.
+        if not isinstance(other, Name):
+            return False
+        return self.serialize() == other.serialize()
 
     def __str__(self):
         return "NAME: %r" % [f'{c.type()} = {c.value()}' for c in self._components]
-- 
2.43.0


From ad960439f834e27b047675a00c5fdca26aa69edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 03/36] fix: an interrupted packet save left a torn file in
 place of the packet

---
 ccnpy/core/Packet.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 068c91f..e709ff7 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -14,6 +14,8 @@
 import abc
 import array
 import hashlib
+import os
+import threading
 from typing import Iterable, Optional
 
 from .ContentObject import ContentObject
@@ -137,8 +139,23 @@ class Packet:
         return self._wire_format
 
     def save(self, filename):
-        with open(filename, 'wb') as outfile:
-            outfile.write(self.serialize().tobytes())
+        """
+        Replaces `filename` in one step, so a failed or interrupted save never leaves a partial packet
+        there and never damages a packet that was already saved under that name.
+        """
+        directory = os.path.dirname(filename)
+        # Kept short and without the basename, which may already be near the file name length limit.
+        temp_name = os.path.join(directory, f'.{os.getpid()}-{threading.get_ident()}.tmp')
+        try:
+            with open(temp_name, 'wb') as outfile:
+                outfile.write(self.serialize().tobytes())
+            os.replace(temp_name, filename)
+        except BaseException:
+            try:
+                os.unlink(temp_name)
+            except OSError:
+                pass
+            raise
 
     def header(self):
         return self._header
-- 
2.43.0


From 9ef8d6425f8e52e4fe86048ab97a4ef3ee795cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 04/36] fix: readers accepted a packet whose hash is not the
 one they asked for

---
 ccnpy/flic/tree/Traversal.py | 15 ++++++++++++++-
 ccnpy/flic/tree/TreeIO.py    | 15 +++++++++++----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index ba8842c..8a465f1 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -85,6 +85,7 @@ class Traversal:
         """
         nc_cache = Traversal.NameConstructorCache()
         root_packet = self._packet_input.get(name=root_name, hash_restriction=hash_restriction)
+        self._check_hash(root_packet, hash_restriction)
         self.logger.debug('Traversal root packet: %s', root_packet)
 
         self._validator.validate_packet(packet=root_packet)
@@ -212,4 +213,16 @@ class Traversal:
         schema_impl = nc_cache.cache[nc_id]
         interest_name = schema_impl.get_name(segment_id)
         self.logger.debug('fetch_packet: %s, %s', interest_name, hash_value)
-        return self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        packet = self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        self._check_hash(packet, hash_value)
+        return packet
+
+    @staticmethod
+    def _check_hash(packet: Optional[Packet], hash_restriction: Optional[HashValue]):
+        """
+        The tree commits to its children by hash, so never accept another packet from the reader.
+        """
+        if packet is None or hash_restriction is None:
+            return
+        if packet.content_object_hash() != hash_restriction:
+            raise ValueError(f'Packet hash {packet.content_object_hash()} does not match hash restriction {hash_restriction}')
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a2c3898..5b9b608 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -239,13 +239,21 @@ class TreeIO:
                 return self._get_by_name(name)
 
             # ccnx does not use forwarding hint
-            path = self.to_path(hash_restriction)
-            p = Packet.load(path)
+            p = self._load_by_hash(hash_restriction)
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
             return p
 
+        def _load_by_hash(self, hash_value: HashValue) -> Packet:
+            """
+            The file name only says which packet should be there, so check that it is what we loaded.
+            """
+            packet = Packet.load(self.to_path(hash_value))
+            if packet.content_object_hash() != hash_value:
+                raise ValueError(f'Packet hash {packet.content_object_hash()} does not match hash restriction {hash_value}')
+            return packet
+
         def _get_by_name(self, name: Name) -> Packet:
             """
             Try fetching a link with that name, otherwise search the directory
@@ -266,8 +274,7 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
-                hash_path = self.to_path(link.digest())
-                packet = Packet.load(hash_path)
+                packet = self._load_by_hash(link.digest())
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From 6be574a96dca85a6d1983c171ab91cb81c2ff74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 05/36] fix: reading by name returned another object when two
 names share a link file

---
 ccnpy/flic/tree/TreeIO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 5b9b608..41ed558 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -275,6 +275,9 @@ class TreeIO:
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
                 packet = self._load_by_hash(link.digest())
+                if packet.body().name() != name:
+                    # different names can map to the same link file
+                    raise ValueError(f'Link {link_path} leads to {packet.body().name()}, not to request name {name}')
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From c112ac20e3ffd2afacb2e85f2a2836229ffad835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 06/36] fix: timestamps lost a millisecond to float truncation

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..1878b6b 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -75,7 +75,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
+        msec = round(self.timestamp() * 1000)
         return msec
 
     def datetime(self):
-- 
2.43.0


From 9e99a5c5873f2266866cb69d9d75c599bcbf667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 07/36] fix: a failed or other-kind key lookup poisoned the
 decryptor cache

---
 ccnpy/flic/tree/DecryptorCache.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..28b0f8f 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -36,19 +36,18 @@ class DecryptorCache:
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
-        # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
+        if isinstance(security_ctx, RsaOaepCtx):
+            # keeps its own cache indexed by (keyid, keynum), which must not mix with AeadCtx key numbers
+            return self._oaep_decryptor
         key_num = security_ctx.key_number()
         if key_num == self._last_key_num:
             return self._last_decryptor
-        self._last_key_num = key_num
         self._last_decryptor = self._create(security_ctx)
+        # only remember the key number if we could create its decryptor
+        self._last_key_num = key_num
         return self._last_decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-        # TODO: implement for RsaOaep too
         if isinstance(security_ctx, AeadCtx):
             key_num = security_ctx.key_number()
             return AeadDecryptor(self._keystore.get_aes_key(key_num))
-
-        if isinstance(security_ctx, RsaOaepCtx):
-            return self._oaep_decryptor
-- 
2.43.0


From 19614769027838f3ffe4d45d6e401c3fd0ab9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 08/36] fix: manifests with a name or an expiry time exceeded
 max_packet_size

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 30 +++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 9213860..a6b92c8 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -72,6 +72,15 @@ class ManifestSizeCalculator:
                 "A filled manifest packet is %r bytes with %r hashes, a hash is %r bytes, and exceeds max_size %r" %
                 (length, num_hashes, hash_value_len, self._max_packet_size))
 
+        # The estimate has no name and no expiry time, and no room for large group sizes.  Drop pointers until
+        # the largest manifest we could really write fits.
+        while num_hashes > 1:
+            packet = self._build_manifest_packet(num_hashes, hv, as_written=True)
+            length = len(packet)
+            if length <= self._max_packet_size:
+                break
+            num_hashes -= 1
+
         #print("calculate_max_pointers = %r in length %r, actual length %r" % (num_hashes, max_packet_size, length))
 
         if num_hashes < 2:
@@ -80,13 +89,18 @@ class ManifestSizeCalculator:
                              "  Minimum packet_size is %r" % (self._max_packet_size, num_hashes, min_packet_size))
         return num_hashes
 
-    def _build_manifest_packet(self, num_hashes, hv):
+    def _build_manifest_packet(self, num_hashes, hv, as_written: bool = False):
+        """
+        :param as_written: Build it with the name, expiry time, and group sizes of the tree options.
+        """
+        options = self._manifest_factory.tree_options()
         # Arbitrary choise, we put n-1 into direct and 1 into indirect
         hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct = num_hashes -1, max_indirect=1)
 
-        for hv in (num_hashes -1) * [hv]:
-            hgb.prepend_direct(hv)
-        hgb.prepend_indirect(hv)
+        largest_size = self._total_bytes if as_written else None
+        for i in range(0, num_hashes - 1):
+            hgb.prepend_direct(hv, leaf_size=largest_size if i == 0 else None)
+        hgb.prepend_indirect(hv, subtree_size=largest_size)
         if self._name_ctx.manifest_schema_impl.uses_name_id():
             indirect_start_segment_id = StartSegmentId(self.__MAX_MANIFEST_ID)
         else:
@@ -98,13 +112,15 @@ class ManifestSizeCalculator:
             direct_start_segment_id = None
 
         # include_leaf_size and include_subtree_size might reserve too much space if we do not use those.
-        hash_groups = hgb.hash_groups(include_leaf_size=True,
-                                      include_subtree_size=True,
+        hash_groups = hgb.hash_groups(include_leaf_size=options.add_group_leaf_size if as_written else True,
+                                      include_subtree_size=options.add_group_subtree_size if as_written else True,
                                       indirect_start_segment_id=indirect_start_segment_id,
                                       direct_start_segment_id=direct_start_segment_id)
 
         packet = self._manifest_factory.build_packet(source=hash_groups,
-                                               node_subtree_size=self._total_bytes)
+                                               node_subtree_size=self._total_bytes,
+                                               name=self._name_ctx.manifest_schema_impl.get_name(self.__MAX_MANIFEST_ID) if as_written else None,
+                                               expiry_time=options.manifest_expiry_time if as_written else None)
 
         return packet
 
-- 
2.43.0


From 5fe5e5761a52a5f70f3032bd0f729425c5575019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/36] fix: nested or concurrent iteration over one TLV object
 corrupted both

---
 ccnpy/core/HashValue.py     | 11 +----------
 ccnpy/core/Link.py          | 13 +------------
 ccnpy/core/Timestamp.py     | 11 +----------
 ccnpy/core/Tlv.py           | 11 +----------
 ccnpy/flic/tlvs/Pointers.py | 11 +----------
 5 files changed, 5 insertions(+), 52 deletions(-)

diff --git a/ccnpy/core/HashValue.py b/ccnpy/core/HashValue.py
index 26de464..7840b0d 100755
--- a/ccnpy/core/HashValue.py
+++ b/ccnpy/core/HashValue.py
@@ -54,16 +54,7 @@ class HashValue(TlvType):
         self._wire_format = self._tlv.serialize()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __alg_string(self):
         if self._hash_algorithm == HashFunctionType.T_SHA_256:
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..d74ceee 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -55,8 +55,6 @@ class Link:
         self._name = name
         self._keyid = keyid
         self._digest = digest
-        # for iteration
-        self._offset = 0
 
         self._wire_format = array.array("B", [])
         if self._name is not None:
@@ -78,16 +76,7 @@ class Link:
         return len(self._wire_format)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def name(self) -> Optional[Name]:
         return self._name
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 1878b6b..e0e9ab7 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -49,16 +49,7 @@ class Timestamp(TlvType, ABC):
         return len(self._tlv)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..e103fc9 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -82,16 +82,7 @@ class Tlv(Serializable):
         return 4 + self.length()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __eq__(self, other):
         result = False
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..d88d9c4 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -60,16 +60,7 @@ class Pointers(TlvType):
         return self._hash_values[item]
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self):
-            raise StopIteration
-
-        output = self[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._hash_values)
 
     @classmethod
     def parse(cls, tlv):
-- 
2.43.0


From f7a3d3f2a9ae1441e04c9c61e7f62a2f958bd481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/36] fix: manifest_reader --hash was compared as a string

---
 ccnpy/apps/manifest_reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..9fc85d5 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -17,6 +17,7 @@ import logging
 import sys
 from abc import ABC, abstractmethod
 
+from ccnpy.core.HashValue import HashValue
 from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
@@ -111,6 +112,12 @@ class ManifestDirectoryReader(ManifestReader):
         print(f'Finished traversal, {traverser.count()} objects procssed')
 
 
+def _parse_hash(value: str) -> HashValue:
+    if value.startswith('0x'):
+        value = value[2:]
+    return HashValue.create_sha256(bytes.fromhex(value))
+
+
 def run():
     logging.basicConfig(level=logging.INFO)
     logging.getLogger('ccnpy.flic.tree.Traversal').setLevel(logging.DEBUG)
@@ -120,7 +127,8 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", default=None, type=_parse_hash,
+                        help='SHA-256 hash (hex string) of the root manifest', required=False)
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From 2faed5d3339eec276510da63485f12c73e101480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/36] fix: manifest_reader dropped bytes when writing to
 stdout

---
 ccnpy/apps/manifest_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 9fc85d5..addc316 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -52,7 +52,13 @@ class StdOutWrapper:
 
     def write(self, value):
         if not isinstance(value, str):
-            value = value.tobytes().decode('utf-8', errors='ignore')
+            value = value.tobytes()
+            if hasattr(self._out, 'buffer'):
+                # the application data may be binary, or a character may span two chunks
+                self._out.flush()
+                self._out.buffer.write(value)
+                return
+            value = value.decode('utf-8', errors='ignore')
         self._out.write(value)
 
 class ManifestNetworkReader(ManifestReader):
-- 
2.43.0


From dd151025bb63711873d8c5306933112ecc26d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 12/36] fix: the default key number differed between the writer
 and the reader process

---
 ccnpy/apps/cli_utils.py       | 10 +++++++++-
 ccnpy/apps/manifest_writer.py |  4 ----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..315fede 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -101,11 +102,18 @@ def kdf_data_from_cli(args) -> Optional[KdfData]:
     else:
         return None
 
+def default_key_number(enc_key: bytes) -> KeyNumber:
+    """The same key must get the same number in the writer's process and the reader's process"""
+    return KeyNumber(hashlib.sha256(enc_key).digest()[:8])
+
 def aead_parameters_from_cli(args):
     key = aes_key_from_cli_args(args)
+    key_number = args.key_num
+    if key_number is None and args.enc_key is not None:
+        key_number = default_key_number(args.enc_key)
     params = AeadParameters(
         key=key,
-        key_number=args.key_num,
+        key_number=key_number,
         aead_salt=args.salt,
         kdf_data=kdf_data_from_cli(args),
         kdf_salt=args.kdf_salt)
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..0150b0e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -149,10 +149,6 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
-
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
     else:
-- 
2.43.0


From 8191b81be5d5c8e232213983e69b511cf064c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 13/36] fix: RSA-OAEP key wrapping failed with a KDF that has
 no KdfInfo

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..6f4b7fe 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -37,7 +37,7 @@ class WrappedKey(OctetTlvType):
     def _create_label(key_number: KeyNumber, mode: AeadMode,
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
-        if kdf_data is not None:
+        if kdf_data is not None and kdf_data.kdf_info() is not None:
             kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
         else:
             kdf_bytes = b''
-- 
2.43.0


From 260f446039194b26770b20b8f38499219b619e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 14/36] fix: RSA-OAEP without a salt failed, the wrapped key
 always needs one

---
 ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
index a92b824..32546b3 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
@@ -11,6 +11,7 @@
 #  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
+import dataclasses
 import os
 import uuid
 from typing import Optional
@@ -54,6 +55,9 @@ class RsaOaepEncryptor(ManifestEncryptor):
                 kdf_data=kdf_data))
 
     def __init__(self, wrapping_key: RsaKey, params: AeadParameters):
+        if params.aead_salt is None:
+            # the wrapped key always carries a salt
+            params = dataclasses.replace(params, aead_salt=int.from_bytes(os.urandom(4)))
         self._wrapped_key = WrappedKey.create(wrapping_key=wrapping_key, params=params)
         self._wrapper = RsaOaepWrapper.create_sha256(key_id=KeyId(wrapping_key.keyid()), wrapped_key=self._wrapped_key)
         self._impl = RsaOaepImpl(wrapper=self._wrapper, aead_params=params)
-- 
2.43.0


From af3c4fbca8bc13109cb09d8099b8bb45386afdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 15/36] fix: a Segmented root named the wrong top manifest for
 small and degree-2 trees

---
 ccnpy/flic/ManifestTree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..d60158d 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -23,6 +23,7 @@ from .tree.ManifestGraph import ManifestGraph
 from .tree.TreeBuilder import TreeBuilder
 from .tree.TreeParameters import TreeParameters
 from ..core.Packet import Packet, PacketWriter
+from ..core.Tlv import Tlv
 
 
 class ManifestTree:
@@ -102,9 +103,12 @@ class ManifestTree:
         """
         ptr = Pointers([top_manifest_packet.content_object_hash()])
 
-        # if the top manifest is SegmentedSchema, we need to include the fact that the chunk_id is 0
+        # if the top manifest is SegmentedSchema, we need to include its ID, which is not 0 if the tree
+        # is not as tall as planned.
         if self._name_ctx.manifest_schema_impl.uses_name_id():
-            start_segment_id=StartSegmentId(0)
+            top_name = top_manifest_packet.body().name()
+            top_id = top_name.component(top_name.count() - 1).value()
+            start_segment_id=StartSegmentId(Tlv.array_to_number(top_id))
         else:
             start_segment_id=None
 
-- 
2.43.0


From 41cdb2741cfa658e36f27bc4a20e4c5d1e88a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 16/36] fix: a short read from the source changed the chunks
 and the root hash

---
 ccnpy/flic/name_constructor/SchemaImpl.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/name_constructor/SchemaImpl.py b/ccnpy/flic/name_constructor/SchemaImpl.py
index 58b2c4c..95e34d7 100644
--- a/ccnpy/flic/name_constructor/SchemaImpl.py
+++ b/ccnpy/flic/name_constructor/SchemaImpl.py
@@ -95,7 +95,7 @@ class SchemaImpl(ABC):
         total_file_bytes = 0
         payload_size = self._calculate_data_payload_size()
 
-        payload_value = data_input.read(payload_size)
+        payload_value = self._read_chunk(data_input, payload_size)
         while len(payload_value) > 0:
             total_file_bytes += len(payload_value)
             chunk_id = self._get_and_increment_next_chunk_id()
@@ -106,7 +106,7 @@ class SchemaImpl(ABC):
 
             # We read the next part of the file to see if we are at the end.  If so, we can set the
             # final chunk id in the content object.
-            next_payload_value = data_input.read(payload_size)
+            next_payload_value = self._read_chunk(data_input, payload_size)
             if self.uses_final_chunk_id() and len(next_payload_value) == 0:
                 fcid = FinalChunkId(chunk_id)
             else:
@@ -123,6 +123,19 @@ class SchemaImpl(ABC):
 
         return FileMetadata(total_bytes=total_file_bytes, chunk_metadata=chunk_metadata)
 
+    @staticmethod
+    def _read_chunk(data_input, size: int):
+        """
+        The input may deliver less than asked for before its end (e.g. a pipe), which must not change the chunks.
+        """
+        value = data_input.read(size)
+        while 0 < len(value) < size:
+            more = data_input.read(size - len(value))
+            if len(more) == 0:
+                break
+            value += more
+        return value
+
     def _calculate_data_payload_size(self):
         """
         Create a nameless object with empty payload and see how much space we have left.
-- 
2.43.0


From d1126b332267b64055fb4624fca3dc23dbab6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:04 +0000
Subject: [PATCH 17/36] fix: RSA key passwords given on the command line raised
 TypeError

---
 ccnpy/crypto/RsaKey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 73aa630..79010e1 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -69,6 +69,9 @@ class RsaKey:
     def __initialize_private_key(self, pem_key, password):
         if password is not None and len(password) == 0:
             password = None
+        if isinstance(password, str):
+            # e.g. from the command line or getpass
+            password = password.encode('utf-8')
         self._private_key = serialization.load_pem_private_key(
                                 pem_key,
                                 password=password,
-- 
2.43.0


From b36412af5b0d31719ad8c85e1945e8ded81e9165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:38 +0000
Subject: [PATCH 18/36] fix: reading a deep manifest tree exceeded the
 recursion limit

---
 ccnpy/flic/tree/Traversal.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index 8a465f1..a843e86 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -100,6 +100,20 @@ class Traversal:
         :param nc_cache: The name constructor cache.  It may be modified as we traverse down branches.
         :return:
         """
+        # Keeps its own stack, as a tree of a small degree may be deeper than the python recursion limit.
+        stack = [self._visit(packet=packet, nc_cache=nc_cache)]
+        while len(stack) > 0:
+            try:
+                child_packet, child_nc_cache = next(stack[-1])
+            except StopIteration:
+                stack.pop()
+            else:
+                stack.append(self._visit(packet=child_packet, nc_cache=child_nc_cache))
+
+    def _visit(self, packet: Packet, nc_cache: Optional[NameConstructorCache] = None):
+        """
+        Visits one packet, and generates the (packet, nc_cache) of each of its children in order.
+        """
         self.logger.debug('Preorder %s => %s', packet.content_object_hash(), packet)
 
         if nc_cache is None:
@@ -122,7 +136,7 @@ class Traversal:
 
             nc_cache = self._update_nc_cache(nc_cache=nc_cache, manifest=manifest)
             try:
-                self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
+                yield from self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
             except Exception as e:
                 print(f'Error {e} processing {manifest}')
                 raise
@@ -147,7 +161,7 @@ class Traversal:
         """
         A child may be a direct pointer to local data or an indirect pointer to another
         manifest.  In the pre-order traversal, we do not distinguish (nor can we) between these.
-        Our commitment is to visit all children in order.
+        Our commitment is to visit all children in order.  Generates the (packet, nc_cache) to visit.
 
         :param manifest:
         :param nc_cache: name constructor cache for the current branch
@@ -168,7 +182,7 @@ class Traversal:
             self.logger.debug('visit_children: child %s', packet)
 
             self._validator.validate_packet(packet=packet)
-            self.preorder(packet=packet, nc_cache=nc_cache)
+            yield packet, nc_cache
 
         if self.logger.isEnabledFor(logging.DEBUG):
             packet_id = DisplayFormatter.hexlify(parent_packet.content_object_hash().value())
-- 
2.43.0


From 00b5b5a24c29a2b9c45f785a541fd668ef86457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 19/36] fix: a replaced pre-shared key was ignored by a reader
 that had used the old one

---
 ccnpy/flic/tree/DecryptorCache.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index 28b0f8f..c632324 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -16,7 +16,6 @@ from ccnpy.flic.ManifestDecryptor import ManifestDecryptor
 from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
 from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
 from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
-from ccnpy.flic.tlvs.AeadCtx import AeadCtx
 from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
 from ccnpy.flic.tlvs.SecurityCtx import AeadSecurityCtx
 
@@ -31,7 +30,7 @@ class DecryptorCache:
 
     def __init__(self, keystore: InsecureKeystore):
         self._keystore = keystore
-        self._last_key_num = None
+        self._last_params = None
         self._last_decryptor = None
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
@@ -39,15 +38,14 @@ class DecryptorCache:
         if isinstance(security_ctx, RsaOaepCtx):
             # keeps its own cache indexed by (keyid, keynum), which must not mix with AeadCtx key numbers
             return self._oaep_decryptor
-        key_num = security_ctx.key_number()
-        if key_num == self._last_key_num:
-            return self._last_decryptor
-        self._last_decryptor = self._create(security_ctx)
-        # only remember the key number if we could create its decryptor
-        self._last_key_num = key_num
+        # always ask the keystore, as the key of a key number may have been replaced since
+        params = self._keystore.get_aes_key(security_ctx.key_number())
+        if self._last_decryptor is None or params is not self._last_params:
+            self._last_decryptor = self._create(params)
+            # only remember the parameters if we could create their decryptor
+            self._last_params = params
         return self._last_decryptor
 
-    def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-        if isinstance(security_ctx, AeadCtx):
-            key_num = security_ctx.key_number()
-            return AeadDecryptor(self._keystore.get_aes_key(key_num))
+    @staticmethod
+    def _create(params: AeadParameters) -> ManifestDecryptor:
+        return AeadDecryptor(params)
-- 
2.43.0


From a4856eefc799d668d0b70d2570aa6835e0160638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 20/36] fix: OAEP collections and pre-shared keys with an equal
 key number broke each other

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 13 ++++++----
 ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py      | 30 +++++++++++++++++------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..7d79254 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -40,13 +40,16 @@ class RsaOaepDecryptor(ManifestDecryptor):
         self._cache = RsaOaepDecryptor.ImplCache()
 
     def _get_impl(self, security_ctx: RsaOaepCtx) -> RsaOaepImpl:
-        try:
-            return self._cache.get(key_id=security_ctx.key_id(), key_number=security_ctx.key_number())
-        except KeyError:
-            pass
+        if security_ctx.rsa_oaep_wrapper() is None:
+            try:
+                return self._cache.get(key_id=None, key_number=security_ctx.key_number())
+            except KeyError:
+                pass
 
         impl = RsaOaepImpl.create(keystore=self._keystore, rsa_oaep_ctx=security_ctx)
-        self._cache.add(key_id=security_ctx.key_id(), key_number=security_ctx.key_number(), impl=impl)
+        if security_ctx.rsa_oaep_wrapper() is not None:
+            # the manifests below this one only carry the key number
+            self._cache.add(key_id=None, key_number=security_ctx.key_number(), impl=impl)
         self.logger.debug('Create new impl: %s', impl)
         return impl
 
diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
index 5a4b91e..3c97a17 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
@@ -43,22 +43,34 @@ class RsaOaepImpl(AeadImpl):
         """
         Instantiate based on security context.
 
-            1) If we already have KeyNum in our keystore, use it.
-            2) If not, try decrypting the wrapped key using an RSA key in the keystore.
+            1) Try decrypting the wrapped key using an RSA key in the keystore.  A key number is only a label, other
+               collections may use the same one for another key.
+            2) If not, and we already have KeyNum in our keystore, use it.
             3) If we don't have the RSA key, should fetch it from the KeyLink.  For our current purposes, we throw
                an KeyIdNotFoundError exception.
         """
-        # Step 1: we already have the KeyNumber
+        # Step 1: Try to decrypt
+        if cls._can_unwrap(keystore, rsa_oaep_ctx):
+            return cls._create_by_wrapped_key(keystore, rsa_oaep_ctx)
+
+        # Step 2: we already have the KeyNumber
         try:
             return cls._create_by_key_number(keystore, rsa_oaep_ctx)
         except KeyNumberNotFoundError:
             pass
 
-        # Step 2: Try to decrypt
+        # Step 3: raises
+        return cls._create_by_wrapped_key(keystore, rsa_oaep_ctx)
+
+    @staticmethod
+    def _can_unwrap(keystore: InsecureKeystore, rsa_oaep_ctx: RsaOaepCtx) -> bool:
+        rsa_oaep_wrapper = rsa_oaep_ctx.rsa_oaep_wrapper()
+        if rsa_oaep_wrapper is None:
+            return False
         try:
-            return cls._create_by_wrapped_key(keystore, rsa_oaep_ctx)
+            return keystore.get_rsa(rsa_oaep_wrapper.key_id()).has_private_key()
         except KeyIdNotFoundError:
-            raise
+            return False
 
     @classmethod
     def _create_by_key_number(cls, keystore: InsecureKeystore, rsa_oaep_ctx: RsaOaepCtx):
@@ -98,7 +110,11 @@ class RsaOaepImpl(AeadImpl):
                 kdf_salt=None
             )
             cls.logger.debug('Create from wrapped key: %s', params)
-            keystore.add_aes_key(params)
+            try:
+                # never replace a key that was given to us
+                keystore.get_aes_key(params.key_number)
+            except KeyNumberNotFoundError:
+                keystore.add_aes_key(params)
             return cls(wrapper=rsa_oaep_wrapper, aead_params=params)
 
         except KeyIdNotFoundError as e:
-- 
2.43.0


From 8f7ce7f7c46535ac79b367c7b9fc03b240774202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 21/36] fix: different names could share one link file

---
 ccnpy/flic/tree/TreeIO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 41ed558..8a3f677 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -18,7 +18,6 @@ from abc import ABC
 from array import array
 from pathlib import PurePath, Path
 from typing import Optional, Dict
-from urllib.parse import urlparse
 
 from .SizedPointer import SizedPointer
 from ..tlvs.Locators import Locators
@@ -39,9 +38,10 @@ class TreeIO:
 
     @staticmethod
     def get_link_name(name: Name) -> str:
-        url = urlparse(name.as_uri())
-        filename = url.path
-        safename=filename.replace('/','~')
+        # escape what would let two names share a file
+        components = [repr(name.component(i)).replace('%', '%25').replace('~', '%7E').replace('/', '%2F')
+                      for i in range(name.count())]
+        safename = '~' + '~'.join(components)
         return f'{safename}.link'
         # name_bytes = name.serialize().tobytes()
         # return f'{name_bytes.hex()}.link'
-- 
2.43.0


From 1efae48f5f6896f145f44d08eafd7610e4d1459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 22/36] fix: group subtree size left out the child manifests
 unless nodes carried their size too

---
 ccnpy/flic/tree/TreeBuildReturnValue.py |  2 ++
 ccnpy/flic/tree/TreeBuilder.py          | 12 +++---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/ccnpy/flic/tree/TreeBuildReturnValue.py b/ccnpy/flic/tree/TreeBuildReturnValue.py
index 69ded05..fcb8efc 100644
--- a/ccnpy/flic/tree/TreeBuildReturnValue.py
+++ b/ccnpy/flic/tree/TreeBuildReturnValue.py
@@ -29,4 +29,6 @@ class TreeBuilderReturnValue:
     node: Node
     manifest: Optional[Manifest] = None
     packet: Optional[Packet] = None
+    # application bytes below the manifest, whether or not the node states it
+    subtree_size: Optional[int] = None
 
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..18d70e6 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -327,7 +327,7 @@ class TreeBuilder:
         packet = self._factory.build_packet(source=node,
                                             name=self._get_next_manifest_name(level),
                                             expiry_time=self._tree_options.manifest_expiry_time)
-        return_value = TreeBuilderReturnValue(packet=packet, node=node)
+        return_value = TreeBuilderReturnValue(packet=packet, node=node, subtree_size=direct_size + indirect_size)
         return return_value
 
     def _build_leaf_packet(self, head: int, tail: int, level: int):
@@ -411,7 +411,7 @@ class TreeBuilder:
     def _interior_add_right_most_child(self, builders: HashGroupBuilderPair, right_most_child: TreeBuilderReturnValue):
         if right_most_child is not None:
             builders.append_indirect(hash_value=right_most_child.packet.content_object_hash(),
-                                     subtree_size=self._get_optional_subtree_size(right_most_child.node.node_data()))
+                                     subtree_size=right_most_child.subtree_size)
 
     def _interior_add_indirect(self, builders: HashGroupBuilderPair, segment, level: int):
         # Reserve space at the head of the segment for this node's direct pointers before
@@ -422,7 +422,7 @@ class TreeBuilder:
         while not builders.is_indirect_full() and not segment.empty():
             child = self._bottom_up_preorder(segment, level - 1)
             builders.prepend_indirect(hash_value=child.packet.content_object_hash(),
-                                      subtree_size=self._get_optional_subtree_size(child.node.node_data()))
+                                      subtree_size=child.subtree_size)
 
         # Pull back our reservation and put those pointers in our direct children
         segment.decrement_head(reserve_count)
@@ -441,12 +441,6 @@ class TreeBuilder:
         # we did not execute the while loop
         return None
 
-    def _get_optional_subtree_size(self, node_data: NodeData):
-        if self._tree_options.add_node_subtree_size:
-            return node_data.subtree_size().size()
-        else:
-            return None
-
     def _add_manifest_to_graph(self, return_value: TreeBuilderReturnValue):
         if self._manifest_graph is not None:
             self._manifest_graph.add_manifest(return_value.packet.content_object_hash(),
-- 
2.43.0


From 59e8914da3430f856ac97e159555f404b11ef002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 23/36] fix: an unfinished publish left the root's name linked
 to an object below the root

---
 ccnpy/flic/ManifestTree.py |  6 ++++--
 ccnpy/flic/tree/TreeIO.py  | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index d60158d..0cbabc1 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -21,6 +21,7 @@ from .tlvs.Pointers import Pointers
 from .tlvs.StartSegmentId import StartSegmentId
 from .tree.ManifestGraph import ManifestGraph
 from .tree.TreeBuilder import TreeBuilder
+from .tree.TreeIO import TreeIO
 from .tree.TreeParameters import TreeParameters
 from ..core.Packet import Packet, PacketWriter
 from ..core.Tlv import Tlv
@@ -47,13 +48,14 @@ class ManifestTree:
         :param manifest_graph: If not None, will be filled in as we build the tree
         """
         self._packet_output = packet_output
+        self._child_packet_output = None if packet_output is None else TreeIO.ChildPacketWriter(packet_output, tree_options.name)
         self._tree_options = tree_options
         self._name_ctx = name_context if name_context is not None else NameConstructorContext.create(self._tree_options)
         self._manifest_graph = manifest_graph
         if isinstance(data_input, FileMetadata):
             self._file_metadata = data_input
         else:
-            self._file_metadata = self._name_ctx.data_schema_impl.chunk_data(data_input, self._packet_output)
+            self._file_metadata = self._name_ctx.data_schema_impl.chunk_data(data_input, self._child_packet_output)
         self._manifest_factory = ManifestFactory(tree_options=self._tree_options, manifest_graph=self._manifest_graph)
         self._optimized_params = self._calculate_optimal_tree(file_metadata=self._file_metadata, manifest_factory=self._manifest_factory)
         # print(f"Optimized parameters: {self._optimized_params}")
@@ -137,7 +139,7 @@ class ManifestTree:
         tree_builder = TreeBuilder(file_metadata=file_metadata,
                                    tree_parameters=tree_parameters,
                                    manifest_factory=manifest_factory,
-                                   packet_output=self._packet_output,
+                                   packet_output=self._child_packet_output,
                                    tree_options=self._tree_options,
                                    name_ctx=self._name_ctx,
                                    manifest_graph=self._manifest_graph)
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 8a3f677..c02d837 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -176,10 +176,11 @@ class TreeIO:
             self.bytes_manifest = 0
             self.bytes_data = 0
 
-        def put(self, packet: Packet):
+        def put(self, packet: Packet, write_link: bool = True):
             self.total_bytes_by_packet += len(packet)
             packet.save(self.to_path(input=packet, nested=self._nested))
-            self._write_link(packet)
+            if write_link:
+                self._write_link(packet)
             if packet.content_object_hash() not in self.by_hash:
                 self.total_bytes_by_hash += len(packet)
                 self.by_hash[packet.content_object_hash()] = packet
@@ -216,6 +217,21 @@ class TreeIO:
         def close(self):
             pass
 
+    class ChildPacketWriter(PacketWriter):
+        """
+        Writes the objects of a collection that come before its root.  They may have the name of the root, which then
+        must not yet be linked to them: only the root manifest is what a reader of that name needs.
+        """
+        def __init__(self, packet_output: PacketWriter, root_name: Optional[Name]):
+            self._packet_output = packet_output
+            self._root_name = root_name
+
+        def put(self, packet: Packet):
+            if isinstance(self._packet_output, TreeIO.PacketDirectoryWriter) and packet.body().name() == self._root_name:
+                self._packet_output.put(packet, write_link=False)
+            else:
+                self._packet_output.put(packet)
+
     class PacketDirectoryReader(PacketReader, DirectoryBase):
         """
         A file-system based packet reader.  Reads packets based on their hash name from a directory
-- 
2.43.0


From 86fc2f4e9c267e60b0c2c6976d393faeebaa0318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:28 +0000
Subject: [PATCH 24/36] fix: the AEAD tag did not cover unknown, reordered or
 padded fields of a security context

---
 ccnpy/flic/tlvs/AeadCtx.py    | 5 ++++-
 ccnpy/flic/tlvs/RsaOaepCtx.py | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tlvs/AeadCtx.py b/ccnpy/flic/tlvs/AeadCtx.py
index 1ea8bfb..1beb22d 100755
--- a/ccnpy/flic/tlvs/AeadCtx.py
+++ b/ccnpy/flic/tlvs/AeadCtx.py
@@ -71,7 +71,10 @@ class AeadCtx(AeadSecurityCtx):
             raise CannotParseError("Incorrect TLV type %r" % tlv)
 
         aead_data = AeadData.parse(inner_tlv.value())
-        return cls(aead_data=aead_data)
+        ctx = cls(aead_data=aead_data)
+        # the authentication tag covers the bytes as received, including any we do not understand
+        ctx._tlv = tlv
+        return ctx
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/flic/tlvs/RsaOaepCtx.py b/ccnpy/flic/tlvs/RsaOaepCtx.py
index 582f0f5..64689a0 100755
--- a/ccnpy/flic/tlvs/RsaOaepCtx.py
+++ b/ccnpy/flic/tlvs/RsaOaepCtx.py
@@ -58,7 +58,7 @@ class RsaOaepCtx(AeadSecurityCtx):
     def __eq__(self, other):
         if not isinstance(other, RsaOaepCtx):
             return False
-        return self._tlv == other._tlv
+        return self.serialize() == other.serialize()
 
     def __len__(self):
         return len(self._tlv)
@@ -81,7 +81,10 @@ class RsaOaepCtx(AeadSecurityCtx):
 
         aead_data = AeadData.parse(inner_tlv.value())
         rsa_oaep_wrapper = RsaOaepWrapper.parse(inner_tlv.value())
-        return cls(aead_data=aead_data, rsa_oaep_wrapper=rsa_oaep_wrapper)
+        ctx = cls(aead_data=aead_data, rsa_oaep_wrapper=rsa_oaep_wrapper)
+        # the authentication tag covers the bytes as received, including any we do not understand
+        ctx._tlv = tlv
+        return ctx
 
     def serialize(self):
         return self._tlv.serialize()
-- 
2.43.0


From 4d056c15a862e99189ea57f7bb99c1192391970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:36 +0000
Subject: [PATCH 25/36] fix: an authentication tag of another length, or a
 second one, was accepted

---
 ccnpy/crypto/AeadKey.py     | 3 +++
 ccnpy/flic/tlvs/Manifest.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ccnpy/crypto/AeadKey.py b/ccnpy/crypto/AeadKey.py
index 274ec3d..7830269 100755
--- a/ccnpy/crypto/AeadKey.py
+++ b/ccnpy/crypto/AeadKey.py
@@ -119,6 +119,9 @@ class AeadKey(ABC):
         if isinstance(associated_data, array.array):
             associated_data = associated_data.tobytes()
 
+        if len(auth_tag) != self._tag_len:
+            raise DecryptionError(f'The authentication tag must be {self._tag_len} bytes, got {len(auth_tag)}')
+
         combined = ciphertext + auth_tag
 
         if self.DEBUG:
diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 2302a41..3ac903b 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -100,6 +100,7 @@ class Manifest:
                 assert node is None
                 node = EncryptedNode.parse(tlv)
             elif tlv.type() == AuthTag.class_type():
+                assert auth_tag is None
                 auth_tag = AuthTag.parse(tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
-- 
2.43.0


From 420bb45d5427a1973134cb00c3f7878f68736334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 26/36] fix: packet_reader ended in a traceback when it cannot
 decrypt a manifest

---
 ccnpy/apps/packet_reader.py | 3 ++-
 ccnpy/apps/packet_utils.py  | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/packet_reader.py b/ccnpy/apps/packet_reader.py
index 5338b57..ac90958 100755
--- a/ccnpy/apps/packet_reader.py
+++ b/ccnpy/apps/packet_reader.py
@@ -65,7 +65,8 @@ class PacketReader:
             # if manifest is not encrypted, we already output in the packet dump, no need to repeat
             if manifest.is_encrypted():
                 manifest = decrypt_manifest(keystore=self._keystore, manifest=manifest)
-                self._output(manifest)
+                if manifest is not None:
+                    self._output(manifest)
 
 
 def run():
diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..7b23ce9 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,7 +80,11 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
-    except DecryptionError as e:
+    except (DecryptionError, KeyIdNotFoundError, ValueError) as e:
         print(f"Failed decryption: {e}")
+        return None
-- 
2.43.0


From 9a60e6f708d39700fe0092c30c88d2212af53adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 27/36] fix: a data object without a payload type could not be
 read

---
 ccnpy/flic/tree/Traversal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index a843e86..4220c3e 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -127,7 +127,8 @@ class Traversal:
         if not isinstance(body, ContentObject):
             raise TypeError("body of the packet must be ccnpy.ContentObject")
 
-        if body.payload_type().is_manifest():
+        # an object without a payload type carries data
+        if body.is_manifest():
             manifest = self._manifest_from_content_object(body)
             if self._build_graph:
                 self._manifest_graph.add_manifest(hash_value=packet.content_object_hash(), node=manifest.node(), name=packet.body().name())
@@ -141,7 +142,7 @@ class Traversal:
                 print(f'Error {e} processing {manifest}')
                 raise
 
-        elif body.payload_type().is_data():
+        elif body.payload_type() is None or body.payload_type().is_data():
             self.logger.debug("Traversal: %s", body)
 
             if self._build_graph:
-- 
2.43.0


From 60b5370e1ae12a57bb53514417e5c2fae77c930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 28/36] fix: the object hash covered a re-encoding instead of
 the bytes as received

---
 ccnpy/core/ContentObject.py |  5 ++++-
 ccnpy/core/ValidationAlg.py | 15 +++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index ac03b4a..5f0eff5 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -217,7 +217,10 @@ class ContentObject(TlvType):
             else:
                 raise ValueError("Unsupported ContentObject TLV %r" % inner_tlv.type())
 
-        return cls(name=name, payload_type=payload_type, payload=payload, expiry_time=expiry_time, final_chunk_id=final_chunk_id)
+        content_object = cls(name=name, payload_type=payload_type, payload=payload, expiry_time=expiry_time, final_chunk_id=final_chunk_id)
+        # the content object hash and signatures cover the bytes as received
+        content_object._tlv = tlv
+        return content_object
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..5c767d5 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -51,12 +51,15 @@ class ValidationAlg(TlvType):
         inner_tlv = Tlv.deserialize(tlv.value())
 
         if inner_tlv.type() == ValidationAlg_RsaSha256.class_type():
-            return ValidationAlg_RsaSha256.parse(inner_tlv)
-
-        if inner_tlv.type() == ValidationAlg_Crc32c.class_type():
-            return ValidationAlg_Crc32c.parse(inner_tlv)
-
-        raise ValueError("Unsupported ValidationAlg type %r" % tlv.type())
+            alg = ValidationAlg_RsaSha256.parse(inner_tlv)
+        elif inner_tlv.type() == ValidationAlg_Crc32c.class_type():
+            alg = ValidationAlg_Crc32c.parse(inner_tlv)
+        else:
+            raise ValueError("Unsupported ValidationAlg type %r" % tlv.type())
+
+        # the content object hash and signatures cover the bytes as received
+        alg._tlv = Tlv(cls.class_type(), inner_tlv)
+        return alg
 
     @abstractmethod
     def serialize(self):
-- 
2.43.0


From 9fa0b3694b2b1afbf209e86b1cea618faf5623de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 29/36] fix: a number over 64 bits was cut short instead of
 refused

---
 ccnpy/core/Tlv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index e103fc9..e2da5fe 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -198,6 +198,9 @@ class Tlv(Serializable):
             byte_array = [n >> 16, (n >> 8) & 0xFF, n & 0xFF]
         elif n < 0x100000000:
             byte_array = [n >> 24, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
+        elif n >= 0x10000000000000000:
+            # cutting it short would give another number
+            raise ValueError(f'number does not fit in 8 bytes: {n}')
         else:
             # skip to 8 bytes
             byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
-- 
2.43.0


From 94632ebfca5cf6ea554d0ca0b91e388672c5fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:45 +0000
Subject: [PATCH 30/36] fix: hop-by-hop headers were dropped when a packet was
 written back

---
 ccnpy/core/Packet.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index e709ff7..24c4460 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -58,7 +58,7 @@ class Packet:
         fh = FixedHeader.create_content_object(packet_length=packet_length)
         return cls(header=fh, body=body, validation_alg=validation_alg, validation_payload=validation_payload)
 
-    def __init__(self, header, body, validation_alg=None, validation_payload=None):
+    def __init__(self, header, body, validation_alg=None, validation_payload=None, hop_headers=None):
         if not isinstance(header, FixedHeader):
             raise TypeError("header is not FixedHeader")
 
@@ -79,11 +79,14 @@ class Packet:
         self._body = body
         self._validation_alg = validation_alg
         self._validation_payload = validation_payload
+        self._hop_headers = hop_headers
         self._wire_format = self.__serialize()
         self._hash = self._compute_hash()
 
     def __serialize(self):
         byte_list = self._header.serialize()
+        if self._hop_headers is not None:
+            byte_list.extend(self._hop_headers)
         byte_list.extend(self._body.serialize())
         if self._validation_alg is not None:
             byte_list.extend(self._validation_alg.serialize())
@@ -107,6 +110,8 @@ class Packet:
         offset = 0
         header = FixedHeader.deserialize(buffer)
         offset += header.header_length()
+        # kept as they are: the header length in the fixed header counts them
+        hop_headers = buffer[8:offset] if offset > 8 else None
 
         while offset < len(buffer):
             tlv = Tlv.deserialize(buffer[offset:])
@@ -128,7 +133,8 @@ class Packet:
             else:
                 raise RuntimeError("Unsupported packet TLV type %r" % tlv.type())
 
-        return cls(header=header, body=body, validation_alg=val_alg, validation_payload=val_payload)
+        return cls(header=header, body=body, validation_alg=val_alg, validation_payload=val_payload,
+                   hop_headers=hop_headers)
 
     @classmethod
     def load(cls, filename):
-- 
2.43.0


From 5bfc6e5364ff538698574d23017524ed9f1f3ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:20 +0000
Subject: [PATCH 31/36] fix: a name constructor schema with protocol flags
 could not be read

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..a314096 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -55,7 +55,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From aaec702e18065494107871691967a034184edcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:31 +0000
Subject: [PATCH 32/36] fix: a data object without a payload could not be read
 or shown

---
 ccnpy/core/ContentObject.py  | 2 +-
 ccnpy/flic/tree/Traversal.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index 5f0eff5..c5574ab 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -156,7 +156,7 @@ class ContentObject(TlvType):
         elif self.is_link():
             payload = Link.deserialize(self._payload.value())
         else:
-            if self.USE_BRIEF_OUTPUT:
+            if self.USE_BRIEF_OUTPUT and self._payload is not None:
                 payload = f'(payload {len(self._payload)} bytes)'
             else:
                 payload = self.payload()
diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index 4220c3e..ad88427 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -154,7 +154,8 @@ class Traversal:
             raise ValueError("Unsupported payload type: %r" % body)
 
     def _write_data(self, payload):
-        if self._data_writer is not None:
+        # a data object without a payload is an empty one
+        if self._data_writer is not None and payload is not None:
             self.logger.debug('Traversal save %d bytes', len(payload.value()))
             self._data_writer.write(payload.value())
 
-- 
2.43.0


From 0d695904727ffe306763d649871b75a978319d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:09 +0000
Subject: [PATCH 33/36] fix: a name with a segment that is not text could not
 be linked, shown or logged

---
 ccnpy/core/Name.py        |  3 ++-
 ccnpy/flic/tree/TreeIO.py | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 3d98065..67e48b4 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -58,7 +58,8 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            # a name segment is any sequence of bytes, not always text
+            return f'Name={bytes(self.value()).decode('UTF-8', errors='backslashreplace')}'
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index c02d837..3a5d97e 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -24,7 +24,7 @@ from ..tlvs.Locators import Locators
 from ...core.ContentObject import ContentObject
 from ...core.HashValue import HashValue
 from ...core.Link import Link
-from ...core.Name import Name
+from ...core.Name import Name, NameComponent
 from ...core.Packet import Packet, PacketWriter, PacketReader
 from ...crypto.Crc32c import Crc32cSigner
 from ...crypto.Signer import Signer
@@ -37,10 +37,18 @@ class TreeIO:
     """
 
     @staticmethod
-    def get_link_name(name: Name) -> str:
+    def _link_component(component: NameComponent) -> str:
         # escape what would let two names share a file
-        components = [repr(name.component(i)).replace('%', '%25').replace('~', '%7E').replace('/', '%2F')
-                      for i in range(name.count())]
+        if component.is_name_segment():
+            value = bytes(component.value())
+            if b'\0' in value or value.decode('UTF-8', errors='ignore').encode('UTF-8') != value:
+                # not text that a file name can hold
+                return f'%={value.hex()}'
+        return repr(component).replace('%', '%25').replace('~', '%7E').replace('/', '%2F')
+
+    @staticmethod
+    def get_link_name(name: Name) -> str:
+        components = [TreeIO._link_component(name.component(i)) for i in range(name.count())]
         safename = '~' + '~'.join(components)
         return f'{safename}.link'
         # name_bytes = name.serialize().tobytes()
-- 
2.43.0


From 1fcd1ab59b35fd83f0b9884854160e33326f888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:18 +0000
Subject: [PATCH 34/36] fix: no publishing with a maximum packet size near
 65535 and a manifest name

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index a6b92c8..d03be5f 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -12,6 +12,8 @@
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
 
+import struct
+
 from .HashGroupBuilderPair import HashGroupBuilderPair
 from ..HashGroupBuilder import HashGroupBuilder
 from ..ManifestFactory import ManifestFactory
@@ -75,10 +77,13 @@ class ManifestSizeCalculator:
         # The estimate has no name and no expiry time, and no room for large group sizes.  Drop pointers until
         # the largest manifest we could really write fits.
         while num_hashes > 1:
-            packet = self._build_manifest_packet(num_hashes, hv, as_written=True)
-            length = len(packet)
-            if length <= self._max_packet_size:
-                break
+            try:
+                packet = self._build_manifest_packet(num_hashes, hv, as_written=True)
+                if len(packet) <= self._max_packet_size:
+                    break
+            except (OverflowError, struct.error):
+                # it is larger than any packet can be
+                pass
             num_hashes -= 1
 
         #print("calculate_max_pointers = %r in length %r, actual length %r" % (num_hashes, max_packet_size, length))
-- 
2.43.0


From 1d598f4c93028471208dea40efbe1fe66df6757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:42 +0000
Subject: [PATCH 35/36] fix: build_packet signed with the signer of the options
 instead of the one it was given

---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From 18f7c63737c1f712f44cc5155833125d3a31b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:46 +0000
Subject: [PATCH 36/36] fix: a graph merged objects whose hashes begin with the
 same digits

---
 ccnpy/flic/tree/ManifestGraph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index 700ec69..2493e1f 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -113,7 +113,7 @@ class ManifestGraph:
     def _create_graph(self):
         self._graph = nx.DiGraph()
         for entry in self._entries.values():
-            entry_name = self._hash_to_name(entry.parent)
+            entry_name = self._node_id(entry.parent)
             if entry.is_data:
                 options = {
                     'color': 'green',
@@ -130,7 +130,7 @@ class ManifestGraph:
                 }
             self._graph.add_node(entry_name, **options)
             for child_hash in entry.children:
-                child_name = self._hash_to_name(child_hash)
+                child_name = self._node_id(child_hash)
                 self._graph.add_edge(entry_name, child_name, weight=0.2)
 
     def plot(self):
@@ -181,6 +181,11 @@ class ManifestGraph:
 
         plt.show()
 
+    @staticmethod
+    def _node_id(hash_value: HashValue) -> str:
+        # the whole hash, as the short form may be equal for two objects
+        return DisplayFormatter.hexlify(hash_value.value())
+
     @staticmethod
     def _hash_to_name(hash_value: HashValue) -> str:
         # only include the first 4 bytes
-- 
2.43.0

