From 0da5512be140440808462b21c7f79a2aac5bf74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 01/29] fix: MPT.get returned data of another key (or empty
 data) when the key ends at a node without a value for it

---
 src/pymt/mpt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..d60c64d 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -588,10 +588,12 @@ class MPT:
         """
         node = self._get_node(node_ref)
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            return node
+        # If path is empty, our travel is over. The key is only present if this
+        # is a branch holding a value (the path of a leaf is compared below).
+        if len(path) == 0 and type(node) is not Leaf:
+            if type(node) is Branch and len(node.data) > 0:
+                return node
+            raise KeyNotFoundError("There is no value stored at the end of the path")
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From 75b82f0d7015daf857382c0f73c5acb7408cb632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 02/29] fix: MPT.contains returned True for an absent key that
 leads to an empty slot of a branch with a value

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d60c64d..f86616d 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -210,7 +210,7 @@ class MPT:
 
         # If the node is a branch check if it has a value
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return True
             else:
                 return False
-- 
2.43.0


From dcea587547467ac8bce19b682ebdd93c8c6bb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 03/29] fix: MPT.get_proof_of_inclusion produced proofs for
 keys that are not in the trie

---
 src/pymt/mpt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index f86616d..cf4fcca 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -707,9 +707,11 @@ class MPT:
 
         # print(type(node))
 
-        if len(path) == 0:
+        if len(path) == 0 and not isinstance(node, Leaf):
             # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
+            # The node doesnt have to be a leaf, but it must hold a value.
+            if not isinstance(node, Branch) or len(node.data) == 0:
+                raise PoiError("The key is not in the trie")
             proof.append(node.encode())
             return proof
 
-- 
2.43.0


From 6580eb2f4dfc4547fa854f9ae21b29fc10d74dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 04/29] fix: MPT.verify_proof_of_inclusion accepted proofs for
 keys that are not in the trie

---
 src/pymt/mpt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index cf4fcca..c363889 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -803,16 +803,15 @@ class MPT:
         # If path is empty, our travel is over. Main `get` method
         # will check if this node has a value.
         if len(path) == 0:
-            # check extension and node, leaf already handeled
+            # check extension and node, leaf is handled below
             if isinstance(node, Extension):
                 return False
             if isinstance(node, Branch):
                 # Check if the branch has data
-                if node.data != None:
+                if node.data != None and node.data != b"":
                     return True
                 else:
                     return False
-            return True
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From 7842272000f72ea40184c3d015eaeacdcdc24680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 05/29] fix: MPT.verify_proof_of_inclusion rejected honest
 proofs of tries with an inline root

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index c363889..e16be3d 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -355,7 +355,7 @@ class MPT:
             self._root, NibblePath(proof.target_key), proof_storage
         )
         # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        if valid and proof.trie_root in (self.root(), self.root_hash()):
             return True
         else:
             return False
-- 
2.43.0


From f6b61860beccd5bac09c29f9ce97f624bd79eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 06/29] fix: MPT.get_proof_of_exclusion left out a diverging
 extension and failed at branches with a value

---
 src/pymt/mpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index e16be3d..abdc316 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -404,7 +404,7 @@ class MPT:
         # If the node is a branch check if i thas a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
         if isinstance(node, Branch):
-            if node.data != None and node.data != b"":
+            if len(path) == 0 and node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
         # If the node is a leaf the key is in the trie
@@ -900,6 +900,7 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
-- 
2.43.0


From e4cd9ddefe28876799e96013ba327b4e77cf3171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 07/29] fix: MPT.verify_proof_of_exclusion accepted proofs for
 keys that are in the trie

---
 src/pymt/mpt.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index abdc316..dd73fb4 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -465,10 +465,15 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
+        path = NibblePath(proof.target_key)
         node, keys_left = self._verify_proof_of_exclusion(
-            self.root(), NibblePath(proof.target_key), proof_storage
+            self.root(), path, proof_storage
         )
 
+        # The walk must have ended in a node that is part of the proof
+        if node is None:
+            return False
+
         # There should be no keys left in the proof
         if len(keys_left.keys()) != 0:
             return False
@@ -476,13 +481,13 @@ class MPT:
         # Check if the result node is valid
         # If the node is a branch check if it has a value
         if isinstance(node, Branch):
-            if node.data == None:
+            if len(path) == 0 and node.data != None and node.data != b"":
                 return False
 
         # If the node is a leaf the key is in the trie
 
         if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
+            if node.path == path:
                 return False
 
         # Proof passed
@@ -960,12 +965,8 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    # The proof does not contain the next node of the walk
+                    return None, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
-- 
2.43.0


From a728930e53742433f8acdb3a782bd848aed18d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 08/29] fix: MPT.__hash__ and __eq__ raised for every trie

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index dd73fb4..59c338e 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -98,7 +98,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int(keccak_hash(self.root_hash(), hexdigest=True), 16)
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From ebd6a9caf9f4d9dc8d1fd85357386e856f307555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 09/29] fix: MPT.encode raised for a trie that was emptied by
 delete

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 59c338e..85df9da 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -499,7 +499,7 @@ class MPT:
         storage_list = [
             _prepare_reference_for_encoding(node) for node in self._storage.values()
         ]
-        content = [self.root(), storage_list, self._secure]
+        content = [self.root() or Node.EMPTY_HASH, storage_list, self._secure]
         return rlp.encode(content)
 
     @staticmethod
-- 
2.43.0


From 32de6a00ae7ac297c116944f02305b368d0abda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 10/29] fix: EMPT and SparseEMPT instances shared their default
 storages

---
 src/pymt/empt.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..4f9fa06 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -117,8 +117,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=None,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -169,6 +169,10 @@ class EMPT(MutableMapping):
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
             )
+        if trie_storage is None:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if len(trie_storage) != 0 and root is None:
             raise ValueError(
                 "The nodes in the trie storage must be deleted or the root must be set"
@@ -422,7 +426,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=None, root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -442,6 +446,8 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        if trie_storage is None:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
-- 
2.43.0


From 166d541ea16d38b36650d6f6408abcdb41a7d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 11/29] fix: EMPT.build_trie could not rebuild a trie that
 already has nodes

---
 src/pymt/empt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 4f9fa06..57e6907 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -1,6 +1,7 @@
 from .mpt import MPT
 from .utils.exceptions import InvalidReferenceError, KeyNotFoundError
 from .utils.hash import keccak_hash
+from .utils.node import Node
 import rlp
 from _collections_abc import MutableMapping
 from .proof import Proof
@@ -233,12 +234,17 @@ class EMPT(MutableMapping):
             database grows, the time it takes to build the trie will increase.
         """
         # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
+        for key in list(self._trie._storage.keys()):
             del self._trie._storage[key]
+        self._trie._root = Node.EMPTY_HASH
 
         # Build the new trie
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            data = self._data_storage[key]
+            if not isinstance(data, (bytes, bytearray)):
+                # Encode if not already bytes
+                data = data.encode_rlp()
+            ref = DataReference(key, bytes(data))
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From a6982d36e205390eaa698f19c9b6667c3d50e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 12/29] fix: SparseEMPT.get_root_trie always raised

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 57e6907..49ae97c 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -491,7 +491,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
-- 
2.43.0


From 944d9a14aa70772bac6761c9f30d297830ff27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 13/29] fix: SparseEMPT.update raised for values with an
 encode_rlp method

---
 src/pymt/empt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 49ae97c..279e7e6 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -523,13 +523,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From 1044d45beb8c5f55f8867e2974bd6be6a5f61883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 14/29] fix: EMPT and SparseEMPT rejected the documented
 bytearray values

---
 src/pymt/empt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 279e7e6..4b52890 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -264,7 +264,7 @@ class EMPT(MutableMapping):
             # Encode if not already bytes
             expected = DataReference(key, data.encode_rlp())
         else:
-            expected = DataReference(key, data)
+            expected = DataReference(key, bytes(data))
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -309,7 +309,7 @@ class EMPT(MutableMapping):
         if not isinstance(value, (bytes, bytearray)):
             ref = DataReference(key, value.encode_rlp())
         else:
-            ref = DataReference(key, value)
+            ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
         self._data_storage[key] = value
 
@@ -539,7 +539,7 @@ class SparseEMPT:
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From 60f07c81ca61400c98017ea60c71a12c2c705626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 15/29] fix: DataReference.__eq__ confused references with a
 different split of key and data

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 4b52890..ce3484b 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -56,7 +56,7 @@ class DataReference:
     def __eq__(self, other) -> bool:
         if not isinstance(other, DataReference):
             return False
-        return self.hash == other.hash
+        return self._key == other._key and self._data == other._data
 
     def __hash__(self) -> int:
         return int(keccak_hash(self._key + self._data, hexdigest=True), 16)
-- 
2.43.0


From 5f5d1119b2c78f2b756dc4d7d9bdf9586b6519b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 16/29] fix: Merkle tree kept its old root after adding a leaf

---
 src/pymt/merkletools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..03bc587 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -113,6 +113,7 @@ class MerkleTools(object):
         else:
             value = bytearray(value)
         self.leaves.append(value)
+        self.is_ready = False
 
     def get_leaf(self, index: int) -> str:
         """
-- 
2.43.0


From 6b6cd5b037aabc8954c4bfd47120ab0933a1c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 17/29] fix: MerkleTree.verify_proof_of_inclusion rejected
 every honest proof in secure mode

---
 src/pymt/mt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..05e1464 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,8 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self._secure:
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From fa5ca3c89d744987ea40aa2e17248fb025a33680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 18/29] fix: RsaKeyPair.__hash__ did not return an integer

---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..8f830cb 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -57,7 +57,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return int(Utils.hash_data(self.public_key), 16)
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From d70fae7d47c64a9c0da39c5c35ccbac6844eb68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 19/29] fix: RsaEncKeyPair could neither encrypt nor decrypt

---
 src/pymt/keypairs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 8f830cb..bfbde3f 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -224,7 +224,7 @@ class RsaKeyPair(AbstractKeyPair):
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +265,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From 034c94bb2ce82fcc93c52cfbd96df7f9ae1727ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 20/29] fix: Proof JSON and RLP codecs failed on the proofs
 MerkleTree generates

---
 src/pymt/proof.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..b829bcc 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,10 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    content[key] = [
+                        i.decode() if isinstance(i, bytes) else [j.decode() for j in i]
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +191,11 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, str):
+                    proof.append(i.encode())
+                else:
+                    # A (position, hash) pair
+                    proof.append(tuple(j.encode() for j in i))
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
@@ -254,14 +261,14 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.CountableList(rlp.sedes.raw),
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            proof=tuple(i if isinstance(i, bytes) else tuple(i) for i in decoded[4]),
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From fc13c5647d44076f8bbf726970e30fefe087a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 21/29] fix: the signature of an encrypted message did not
 cover its session key, nonce and tag

Anybody could wrap a signed ciphertext under a session key of their own, or
for another receiver, and have it accepted as a message of its signer.
---
 src/pymt/keypairs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index bfbde3f..6047031 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -218,13 +218,17 @@ class RsaKeyPair(AbstractKeyPair):
         cipher_aes = AES.new(session_key, AES.MODE_EAX)
         ciphertext, tag = cipher_aes.encrypt_and_digest(data)
 
+        # Sign everything the receiver decrypts with: the ciphertext alone can be
+        # wrapped by anybody under another session key, or for another receiver.
+        signed_data = enc_session_key + cipher_aes.nonce + tag + ciphertext
+
         encrypted_data = json.dumps(
             {
                 "enc_session_key": enc_session_key.hex(),
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": RsaKeyPair.sign(self, ciphertext).hex(),
+                "signature": RsaKeyPair.sign(self, signed_data).hex(),
             }
         ).encode("utf-8")
 
@@ -265,8 +269,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
+        signed_data = enc_session_key + nonce + tag + ciphertext
         if not RsaKeyPair.signature_valid(
-            self, ciphertext, signature, sender_public_key
+            self, signed_data, signature, sender_public_key
         ):
             raise ValueError("Invalid signature.")
 
-- 
2.43.0


From 8a433a475556b0a972b7fe995873107ce3c3a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 22/29] fix: iterating an EMPT failed on a data storage with
 the documented interface only

---
 src/pymt/empt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index ce3484b..f41e378 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -195,7 +195,7 @@ class EMPT(MutableMapping):
 
     def __iter__(self) -> Iterable[bytes]:
         """Return an iterator over the keys in the trie."""
-        return iter(self._data_storage)
+        return iter(self._data_storage.keys())
 
     def __getitem__(self, key: bytes) -> bytes:
         """Wrapper for the get method."""
-- 
2.43.0


From 6fb72900e543578480bee890d89e93caa48032b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 23/29] fix: nibble paths made by combining or comparing can be
 printed

They kept their data as a list, so str() and repr() of them raised AttributeError.
---
 src/pymt/utils/nibble_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/utils/nibble_path.py b/src/pymt/utils/nibble_path.py
index f43e689..946152a 100644
--- a/src/pymt/utils/nibble_path.py
+++ b/src/pymt/utils/nibble_path.py
@@ -209,7 +209,7 @@ class NibblePath:
 
         offset = 1 if is_odd_len else 0
 
-        return NibblePath(data, offset)
+        return NibblePath(bytes(data), offset)
 
     def common_prefix(self, other: "NibblePath") -> "NibblePath":
         """
-- 
2.43.0


From 23c3505776d99946add29163e7a954b5de4a5dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 24/29] fix: refuse hex prefixes with unknown flags or non-zero
 padding

Such input is not the encoding of a path, and was decoded as another path.
---
 src/pymt/utils/nibble_path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymt/utils/nibble_path.py b/src/pymt/utils/nibble_path.py
index 946152a..581cbe3 100644
--- a/src/pymt/utils/nibble_path.py
+++ b/src/pymt/utils/nibble_path.py
@@ -89,6 +89,10 @@ class NibblePath:
         is_odd_len = data[0] & NibblePath.ODD_FLAG == NibblePath.ODD_FLAG
         is_leaf = data[0] & NibblePath.LEAF_FLAG == NibblePath.LEAF_FLAG
 
+        # There are no other flags, and the padding of an even path is zero
+        if data[0] > 0x3F or (not is_odd_len and data[0] & 0x0F != 0):
+            raise ValueError("Invalid hex prefix 0x{:02x}".format(data[0]))
+
         if is_odd_len:
             offset = 1
         else:
-- 
2.43.0


From 1449b696e391b090eb6eb331868aebf7eeab33a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 25/29] fix: comparing a Merkle tree with something else is
 false

A tree was equal to the number its root stands for, and comparing it with an
unhashable object raised TypeError.
---
 src/pymt/merkletools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 03bc587..d93fb26 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -66,6 +66,8 @@ class MerkleTools(object):
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
+        if not isinstance(other, MerkleTools):
+            return False
         return self.__hash__() == other.__hash__()
 
     def __repr__(self) -> str:
-- 
2.43.0


From 874469320e9f25673b8c6676a3bb9000a7087329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 26/29] fix: time stamp strings can be read back

Without Django the zone of the string was left empty, and reading one raised
AttributeError.
---
 src/pymt/utils/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..338386d 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -3,6 +3,7 @@ from Crypto.Hash import SHA256, SHA512
 from Crypto.Cipher import AES
 from Crypto.PublicKey import RSA, ECC
 from typing import Union
+from datetime import datetime as datetime_class
 import time
 import uuid
 import os
@@ -31,7 +32,10 @@ class Utils:
             The current timestamp as a string in the format
             YYYY-MM-DD HH:MM:SS.
         """
-        return datetime.now().strftime(format=cls.DATETIME_FORMAT)
+        now = datetime.now()
+        if now.tzinfo is None:
+            now = now.astimezone()
+        return now.strftime(cls.DATETIME_FORMAT)
 
     @classmethod
     def get_datetime_stamp(cls) -> datetime:
@@ -73,7 +77,7 @@ class Utils:
         datetime
             The converted timestamp.
         """
-        return datetime.datetime.strptime(timestamp, cls.DATETIME_FORMAT)
+        return datetime_class.strptime(timestamp, cls.DATETIME_FORMAT)
 
     @staticmethod
     def get_id_string() -> str:
-- 
2.43.0


From dcc92f5b10bb87350c174a082d684b2f90baa55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 27/29] fix: Merkle trees whose roots differ in leading zeros
 are not equal

A plain tree with the single leaf 0001 was equal to one with the single leaf 01.
---
 src/pymt/merkletools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index d93fb26..a10a267 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -68,6 +68,9 @@ class MerkleTools(object):
         """Check if two Merkle trees are equal."""
         if not isinstance(other, MerkleTools):
             return False
+        # Roots that differ in leading zeros only have the same hash
+        if len(self.get_merkle_root()) != len(other.get_merkle_root()):
+            return False
         return self.__hash__() == other.__hash__()
 
     def __repr__(self) -> str:
-- 
2.43.0


From b6be5ffcb90c4fd9b9fb2410ba08391eab4110cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 28/29] fix: refuse values that are not bytes before the trie
 changes

---
 src/pymt/mpt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 85df9da..9be2bd4 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -183,7 +183,17 @@ class MPT:
             Key or RLP-encoded key.
         encoded_value: bytes
             Value or RLP-encoded value.
+
+        Raises
+        ------
+        TypeError
+            TypeError is raised if the value is not bytes.
         """
+        if not isinstance(encoded_value, (bytes, bytearray)):
+            raise TypeError(
+                "The value must be bytes, not {}".format(type(encoded_value))
+            )
+
         if self._secure:
             encoded_key = keccak_hash(encoded_key)
 
-- 
2.43.0


From c2364bf2d49c8ea30fba649f4f0c71821915f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:51 +0000
Subject: [PATCH 29/29] fix: keep trie and data of an EMPT in step when a
 storage fails

---
 src/pymt/empt.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index f41e378..14ae269 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -310,8 +310,14 @@ class EMPT(MutableMapping):
             ref = DataReference(key, value.encode_rlp())
         else:
             ref = DataReference(key, bytes(value))
+        root = self._trie.root()
         self._trie.update(key, ref.encode())
-        self._data_storage[key] = value
+        try:
+            self._data_storage[key] = value
+        except BaseException:
+            # The data is not stored, so the trie must not refer to it
+            self._trie._root = root
+            raise
 
     def delete(self, key: bytes) -> ...:
         """
@@ -324,8 +330,14 @@ class EMPT(MutableMapping):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
         if not self._trie.contains(key):
             raise KeyNotFoundError("The key is not in the trie")
-        del self._data_storage[key]
+        root = self._trie.root()
         self._trie.delete(key)
+        try:
+            del self._data_storage[key]
+        except BaseException:
+            # The data is still stored, so the trie must keep its reference
+            self._trie._root = root
+            raise
 
     def contains(self, key: bytes) -> bool:
         """
-- 
2.43.0

