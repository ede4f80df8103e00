From d9deb9626e37b0fd9dc0fdba276a8b489480c34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 01/25] fix: reading an absent key that is a prefix or
 extension of a present key no longer finds another entry

---
 src/pymt/mpt.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index ac276a5..4b1ed00 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -588,9 +588,11 @@ class MPT:
         """
         node = self._get_node(node_ref)
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
+        # If path is empty, our travel is over. Only a branch that holds a value
+        # (or a leaf with an empty path, see below) is the node we're looking for.
+        if len(path) == 0 and type(node) is Branch:
+            if len(node.data) == 0:
+                raise KeyNotFoundError("The branch at the search key has no value.")
             return node
 
         if type(node) is Leaf:
@@ -666,8 +668,9 @@ class MPT:
             if len(branch) > 0:
                 return self._contains(branch, path.consume(1))
             else:
-                # This is the furthest node we can go.
-                return node
+                # The slot is empty, so the key is not in the trie even if
+                # the branch itself holds a value (of a shorter key).
+                return None
 
         raise InvalidNodeError("Invalid node type {}".format(type(node)))
 
-- 
2.43.0


From d4082dca4c1f929d5134ac13f6325bc62e7b6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 02/25] fix: inclusion proofs of absent keys are neither
 produced nor accepted

---
 src/pymt/mpt.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 4b1ed00..d3ada47 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -708,9 +708,11 @@ class MPT:
 
         # print(type(node))
 
-        if len(path) == 0:
+        if len(path) == 0 and isinstance(node, Branch):
             # If path is empty, we've found the node.
-            # The node doesnt have to be a leaf.
+            # The node doesnt have to be a leaf, but it has to hold a value.
+            if len(node.data) == 0:
+                raise BranchPathError("The branch at the search key has no value.")
             proof.append(node.encode())
             return proof
 
@@ -807,11 +809,7 @@ class MPT:
                 return False
             if isinstance(node, Branch):
                 # Check if the branch has data
-                if node.data != None:
-                    return True
-                else:
-                    return False
-            return True
+                return len(node.data) != 0
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-- 
2.43.0


From 43aacbb845c4d53b4ad2ba888b60aef2f93ee4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 03/25] fix: accept inclusion proofs of tries whose root node
 is shorter than a hash

---
 src/pymt/mpt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index d3ada47..9a1ee45 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -354,8 +354,9 @@ class MPT:
         valid = self._verify_proof_of_inclusion(
             self._root, NibblePath(proof.target_key), proof_storage
         )
-        # Check if the current trie hash is the sam as the proof root
-        if valid and self.root_hash() == proof.trie_root:
+        # Check if the current trie root is the same as the proof root (the proof
+        # holds the root node itself if the root is too small to be hashed)
+        if valid and proof.trie_root in (self.root(), self.root_hash()):
             return True
         else:
             return False
-- 
2.43.0


From 9b98077983c1300377eabc001113fca68aba3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 04/25] fix: exclusion proofs show, and their verification
 requires, that the key is absent

---
 src/pymt/mpt.py | 54 +++++++++++++++++++------------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 9a1ee45..50e8b84 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -402,9 +402,9 @@ class MPT:
         # Add a leaf node with the key to the proof
         proof_list.append(Leaf(path, b"null").encode())
 
-        # If the node is a branch check if i thas a value
+        # If the key ends at a branch check if it has a value
         # Can be None or b'' (b'' is used when trie is in secure mode)
-        if isinstance(node, Branch):
+        if isinstance(node, Branch) and len(path) == 0:
             if node.data != None and node.data != b"":
                 raise PoeError("This should never happen")
 
@@ -466,7 +466,7 @@ class MPT:
             # print(type(encoded_node))
             proof_storage[Node.into_reference(Node.decode(encoded_node))] = encoded_node
 
-        node, keys_left = self._verify_proof_of_exclusion(
+        excluded, keys_left = self._verify_proof_of_exclusion(
             self.root(), NibblePath(proof.target_key), proof_storage
         )
 
@@ -474,20 +474,11 @@ class MPT:
         if len(keys_left.keys()) != 0:
             return False
 
-        # Check if the result node is valid
-        # If the node is a branch check if it has a value
-        if isinstance(node, Branch):
-            if node.data == None:
-                return False
-
-        # If the node is a leaf the key is in the trie
-
-        if isinstance(node, Leaf):
-            if node.path == NibblePath(proof.target_key):
-                return False
+        # The proof must be about the current trie
+        if proof.trie_root not in (self.root(), self.root_hash()):
+            return False
 
-        # Proof passed
-        return True
+        return excluded
 
     # CODEC
     def encode(self) -> bytes:
@@ -899,6 +890,8 @@ class MPT:
                 proof.append(node.encode())
                 return self._get_proof_of_exclusion(node.next_ref, rest_path, proof)
             else:
+                # The diverging extension is what shows that the key is absent.
+                proof.append(node.encode())
                 return node, proof
 
         elif type(node) is Branch:
@@ -935,8 +928,8 @@ class MPT:
 
         Returns
         -------
-        bool, node_ref
-            True if this the last node in the proof, the next node ref otherwise.
+        bool
+            True if the nodes in the proof show that there is no value at the path.
         proof_storage: dict
             Dictionary with nodes.
 
@@ -958,12 +951,8 @@ class MPT:
                 try:
                     raw_node = proof_storage[node_ref]
                 except KeyError:
-                    # TODO: Figure out in wich cases this shouldnt be True
-                    # I still dont really trust this statement,
-                    # but it is necessary for the tests to pass
-                    # By checking the proof_dict at the end of the function
-                    # there should be 1 node left in the dict, the null leaf
-                    return True, proof_storage
+                    # Without the node nothing is known about what is below it.
+                    return False, proof_storage
             else:
                 raw_node = node_ref
             node = Node.decode(raw_node)
@@ -977,16 +966,15 @@ class MPT:
                 " this should not be possible."
             )
 
-        # If path is empty, our travel is over. Main `get` method
-        # will check if this node has a value.
-        if len(path) == 0:
-            return node, proof_storage
+        # If path is empty, our travel is over. The key is absent if the branch
+        # it ends at has no value.
+        if len(path) == 0 and type(node) is Branch:
+            return len(node.data) == 0, proof_storage
 
         if type(node) is Leaf:
             # If we've found a leaf, it's either the leaf we're
-            # looking for or wrong leaf.(we hope its the wrong leaf but
-            # that is up to the main method).
-            return node, proof_storage
+            # looking for or wrong leaf (we hope its the wrong leaf).
+            return not node.path == path, proof_storage
 
         elif type(node) is Extension:
             # If we've found an extension, we need to go deeper.
@@ -996,7 +984,7 @@ class MPT:
                     node.next_ref, rest_path, proof_storage
                 )
             else:
-                return node, proof_storage
+                return True, proof_storage
 
         elif type(node) is Branch:
             # If we've found a branch node, go to the appropriate branch.
@@ -1007,7 +995,7 @@ class MPT:
                 )
             else:
                 # This is the furthest node we can go.
-                return node, proof_storage
+                return True, proof_storage
 
         raise InvalidNodeError("Invalid node type {}".format(type(node)))
 
-- 
2.43.0


From 8a24bda0544d51396d8b2db04a797cefe8f046d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 05/25] fix: tries can be hashed and compared

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 50e8b84..1acee81 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -98,7 +98,7 @@ class MPT:
         self.delete(encoded_key)
 
     def __hash__(self) -> int:
-        return int(keccak_hash(self._root), 16)
+        return int.from_bytes(self.root_hash(), "big")
 
     def __eq__(self, other: "MPT") -> bool:
         if not isinstance(other, MPT):
-- 
2.43.0


From 922928348ea52ce0d10969adfe3b6ca9d631a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 06/25] fix: a trie emptied by deletions can be encoded

---
 src/pymt/mpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/mpt.py b/src/pymt/mpt.py
index 1acee81..1cc44bd 100644
--- a/src/pymt/mpt.py
+++ b/src/pymt/mpt.py
@@ -486,7 +486,7 @@ class MPT:
         storage_list = [
             _prepare_reference_for_encoding(node) for node in self._storage.values()
         ]
-        content = [self.root(), storage_list, self._secure]
+        content = [self.root() or Node.EMPTY_HASH, storage_list, self._secure]
         return rlp.encode(content)
 
     @staticmethod
-- 
2.43.0


From 368e6a44fc69fe4afcb623184451f6ec4c69897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:19 +0000
Subject: [PATCH 07/25] fix: sparse tries accept encodable objects and give
 their root-only form

---
 src/pymt/empt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 9e7c459..91f6eec 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -479,7 +479,7 @@ class SparseEMPT:
 
         The root trie is a trie that only contains the root of the trie.
         """
-        return RootEMPT(mode=b"ROOT", secure=self._trie.secure, root=self._trie.root())
+        return RootEMPT(secure=self._trie.secure, root=self._trie.root())
 
     # TRIE METHODS
     def get_reference(self, key: bytes) -> DataReference:
@@ -511,13 +511,13 @@ class SparseEMPT:
             have a .encode_rlp() and .decode_rlp() method.
         """
         if not isinstance(value, (bytes, bytearray)):
-            if not hasattr(value.encode_rlp):
+            if not hasattr(value, "encode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have an encode_rlp method, not {}".format(
                         type(value)
                     )
                 )
-            if not hasattr(value.decode_rlp):
+            if not hasattr(value, "decode_rlp"):
                 raise NotImplementedError(
                     "The value must be type bytes, bytearray or have a decode_rlp method, not {}".format(
                         type(value)
-- 
2.43.0


From a744ac43eb6ccfbf0acc28b440c3e74a3ebe3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 08/25] fix: bytearray values can be stored and read as
 documented

---
 src/pymt/empt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 91f6eec..706e5a2 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -254,7 +254,7 @@ class EMPT(MutableMapping):
             # Encode if not already bytes
             expected = DataReference(key, data.encode_rlp())
         else:
-            expected = DataReference(key, data)
+            expected = DataReference(key, bytes(data))
         if ref != expected:
             raise InvalidReferenceError(
                 "The reference does not match the expected data"
@@ -299,7 +299,7 @@ class EMPT(MutableMapping):
         if not isinstance(value, (bytes, bytearray)):
             ref = DataReference(key, value.encode_rlp())
         else:
-            ref = DataReference(key, value)
+            ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
         self._data_storage[key] = value
 
@@ -527,7 +527,7 @@ class SparseEMPT:
 
         if not isinstance(key, bytes):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
-        ref = DataReference(key, value)
+        ref = DataReference(key, bytes(value))
         self._trie.update(key, ref.encode())
 
     def delete(self, key: bytes) -> ...:
-- 
2.43.0


From 994cc2a5d8ab175e58a12bd1b53d0bb08d3791a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 09/25] fix: a failed update or delete of the full store loses
 nothing and can be repeated

---
 src/pymt/empt.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 706e5a2..82bbd2b 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -300,8 +300,14 @@ class EMPT(MutableMapping):
             ref = DataReference(key, value.encode_rlp())
         else:
             ref = DataReference(key, bytes(value))
+        root = self._trie._root
         self._trie.update(key, ref.encode())
-        self._data_storage[key] = value
+        try:
+            self._data_storage[key] = value
+        except BaseException:
+            # The data was not stored, so neither may its reference be
+            self._trie._root = root
+            raise
 
     def delete(self, key: bytes) -> ...:
         """
@@ -314,8 +320,16 @@ class EMPT(MutableMapping):
             raise TypeError("The key must be type bytes, not {}".format(type(key)))
         if not self._trie.contains(key):
             raise KeyNotFoundError("The key is not in the trie")
-        del self._data_storage[key]
+        root = self._trie._root
         self._trie.delete(key)
+        try:
+            # The data may be gone already if an earlier delete was cut short
+            if key in self._data_storage:
+                del self._data_storage[key]
+        except BaseException:
+            # The data is still stored, so its reference must stay too
+            self._trie._root = root
+            raise
 
     def contains(self, key: bytes) -> bool:
         """
-- 
2.43.0


From 6bc2349325e8d61b35fcb2f2e39bb6780401e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 10/25] fix: the trie of a full store can be rebuilt from its
 data

---
 src/pymt/empt.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index 82bbd2b..de2537a 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -228,13 +228,19 @@ class EMPT(MutableMapping):
             This method is very expensive and should be used with caution. As the
             database grows, the time it takes to build the trie will increase.
         """
-        # Delete all the nodes in the trie
-        for key in self._trie._storage.keys():
-            del self._trie._storage[key]
+        # Start from an empty trie and delete all the nodes of the old one
+        storage = self._trie._storage
+        self._trie = MPT(storage, secure=self._trie.secure)
+        for key in list(storage.keys()):
+            del storage[key]
 
         # Build the new trie
         for key in self._data_storage.keys():
-            ref = DataReference(key, self._data_storage[key])
+            data = self._data_storage[key]
+            if not isinstance(data, (bytes, bytearray)):
+                # Encode if not already bytes
+                data = data.encode_rlp()
+            ref = DataReference(key, bytes(data))
             self._trie.update(key, ref.encode())
 
     def get(self, key: bytes) -> bytes:
-- 
2.43.0


From e1f1299ec73290a36a2611272bcc0835f544c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 11/25] fix: full and sparse stores created without storages no
 longer share them

---
 src/pymt/empt.py                            | 14 +++++++++++---
 src/pymt/examples/empt_create_and_change.py |  5 +++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index de2537a..ae4da2b 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -117,8 +117,8 @@ class EMPT(MutableMapping):
 
     def __init__(
         self,
-        trie_storage={},
-        data_storage={},
+        trie_storage=...,
+        data_storage=...,
         root: Union[bytes, None] = None,
         secure: bool = False,
     ) -> ...:
@@ -165,6 +165,11 @@ class EMPT(MutableMapping):
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie gets its own default storages
+        if trie_storage is ...:
+            trie_storage = {}
+        if data_storage is ...:
+            data_storage = {}
         if data_storage is None:
             raise TypeError(
                 "The data storage must be set when the trie is in FULL mode"
@@ -442,7 +447,7 @@ class SparseEMPT:
     """
 
     def __init__(
-        self, trie_storage={}, root: Union[bytes, None] = None, secure: bool = False
+        self, trie_storage=..., root: Union[bytes, None] = None, secure: bool = False
     ):
         """
         Initialize the sparse storage EMPT.
@@ -462,6 +467,9 @@ class SparseEMPT:
                 The trie does not encrypt or hash the value, this is the
                 responsibility of the user.
         """
+        # Every trie gets its own default storage
+        if trie_storage is ...:
+            trie_storage = {}
         self._trie = MPT(trie_storage, root, secure=secure)
 
     # DUNDER METHODS
diff --git a/src/pymt/examples/empt_create_and_change.py b/src/pymt/examples/empt_create_and_change.py
index 02f116b..068836f 100644
--- a/src/pymt/examples/empt_create_and_change.py
+++ b/src/pymt/examples/empt_create_and_change.py
@@ -3,7 +3,8 @@ from pymt import EMPT
 
 # Create the storage
 storage = {}
-trie = EMPT(storage)
+data_storage = {}
+trie = EMPT(storage, data_storage)
 
 # Insert some data
 trie.update(b"do", b"a deer")
@@ -21,7 +22,7 @@ print("Root hash is {}".format(old_root_hash.hex()))
 print("New root hash is {}".format(trie.root_hash().hex()))
 
 # Reload the trie with the old root hash
-trie_from_old_hash = EMPT(storage, root=old_root)
+trie_from_old_hash = EMPT(storage, data_storage, root=old_root)
 
 print("From the old trie: {}".format(trie_from_old_hash.get(b"doge")))
 trie.delete(b"doge")  # Delete one of the datapoints
-- 
2.43.0


From 97cd41016e76892a7a0b1cbcaee7ab8c8b85a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 12/25] fix: Merkle tree roots and proofs cover every leaf
 added, and secure trees accept their own proofs

---
 src/pymt/merkletools.py | 2 ++
 src/pymt/mt.py          | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 5fb1904..479f600 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -112,6 +112,8 @@ class MerkleTools(object):
             value = bytearray.fromhex(value)
         else:
             value = bytearray(value)
+        # The tree has to be made again to cover the new leaf
+        self.is_ready = False
         self.leaves.append(value)
 
     def get_leaf(self, index: int) -> str:
diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index d9bbe08..7d34785 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -153,6 +153,9 @@ class MerkleTree(MerkleTools):
 
         merkle_root = bytes.fromhex(proof.trie_root.decode())
         target_hash = proof.target_key
+        if self.secure:
+            # The leaves of a secure tree are the hashes of the values
+            target_hash = self.hash_function(target_hash).digest()
 
         try:
             valid = super().verify_proof_of_inclusion(
-- 
2.43.0


From 803be4a76a50b8fae3d347d93549c305767fc4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 13/25] fix: Merkle tree proofs of values that are not leaves
 are rejected

---
 src/pymt/mt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymt/mt.py b/src/pymt/mt.py
index 7d34785..3f1541d 100644
--- a/src/pymt/mt.py
+++ b/src/pymt/mt.py
@@ -157,6 +157,10 @@ class MerkleTree(MerkleTools):
             # The leaves of a secure tree are the hashes of the values
             target_hash = self.hash_function(target_hash).digest()
 
+        # The nodes inside the tree lead to its root too, but they are not leaves
+        if target_hash not in self.leaves:
+            return False
+
         try:
             valid = super().verify_proof_of_inclusion(
                 str_proof, merkle_root=merkle_root, target_hash=target_hash
-- 
2.43.0


From c31ff2bf01436084b3e6ade15a1da398e170e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 14/25] fix: proofs of Merkle trees can be encoded and decoded

---
 src/pymt/proof.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 774869e..21924d3 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -159,7 +159,11 @@ class Proof:
         for key, value in content.items():
             if key.lower() == "proof":
                 if "MT" in self._type.decode():
-                    content[key] = [i.decode() for i in value]
+                    # Every entry is bytes or a (side, hash) pair of bytes
+                    content[key] = [
+                        i.decode() if isinstance(i, bytes) else [j.decode() for j in i]
+                        for i in value
+                    ]
                 elif "MPT" in self._type.decode():
                     raise NotImplementedError(
                         "Encoding MPT proofs is not supported yet"
@@ -188,7 +192,10 @@ class Proof:
             # Build the mpt proof from string
             proof = []
             for i in encoded_proof_list:
-                proof.append(i.encode())
+                if isinstance(i, list):
+                    proof.append(tuple(j.encode() for j in i))
+                else:
+                    proof.append(i.encode())
 
         else:
             raise TypeError("Invalid proof type {}".format(json_proof["proof_type"]))
@@ -254,14 +261,16 @@ class Proof:
                 rlp.sedes.binary,
                 rlp.sedes.binary,
                 rlp.sedes.binary,
-                rlp.sedes.CountableList(rlp.sedes.binary),
+                rlp.sedes.CountableList(rlp.sedes.raw),
             ]
         )
         decoded = rlp.decode(rlp_bytes, sedes=sedes)
+        # Every entry of the proof is bytes or a (side, hash) pair of bytes
+        proof = tuple(i if isinstance(i, bytes) else tuple(i) for i in decoded[4])
         proof = Proof(
             target_key=decoded[2],
             root_hash=decoded[3],
-            proof=decoded[4],
+            proof=proof,
             proof_type=decoded[0],
         )
         proof._timestamp = decoded[1]
-- 
2.43.0


From 702aad31106246a86f713eaba7dacfbbf4612526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 15/25] fix: iterating over a proof does not disturb other
 iterations of it

---
 src/pymt/proof.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/pymt/proof.py b/src/pymt/proof.py
index 21924d3..55a0ac4 100644
--- a/src/pymt/proof.py
+++ b/src/pymt/proof.py
@@ -1,6 +1,6 @@
 from datetime import datetime
 import pickle
-from typing import List, Union
+from typing import Iterator, List, Union
 from .utils.hash import keccak_hash
 import rlp
 import json
@@ -96,19 +96,9 @@ class Proof:
 
         return self.__hash__() == other.__hash__()
 
-    def __iter__(self) -> "Proof":
-        """Return the proof as an iterator."""
-        self._data = list(self.items())
-        self._offset = 0
-        return self
-
-    def __next__(self) -> tuple:
-        """Return the next item of the proof."""
-        if self._offset >= len(self._data):
-            raise StopIteration
-        else:
-            self._offset += 1
-            return self._data[self._offset - 1]
+    def __iter__(self) -> Iterator[tuple]:
+        """Return a new iterator over the items of the proof."""
+        return iter(list(self.items()))
 
     # ATTRIBUTES
     @property
-- 
2.43.0


From d8176db48d07b36d78faca3b7e2637c731ca89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 16/25] fix: timestamp strings carry their time zone and can be
 parsed back

---
 src/pymt/utils/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 1132c1f..17833a6 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -7,6 +7,8 @@ import time
 import uuid
 import os
 
+from datetime import datetime as _datetime
+
 try:
     # For Django
     import django.utils.timezone as datetime
@@ -29,9 +31,10 @@ class Utils:
         -------
         timestamp : str
             The current timestamp as a string in the format
-            YYYY-MM-DD HH:MM:SS.
+            YYYY-MM-DD HH:MM:SS +HHMM.
         """
-        return datetime.now().strftime(format=cls.DATETIME_FORMAT)
+        # Without a timezone the %z in the format is left empty
+        return datetime.now().astimezone().strftime(cls.DATETIME_FORMAT)
 
     @classmethod
     def get_datetime_stamp(cls) -> datetime:
@@ -54,7 +57,7 @@ class Utils:
         -------
         bytes
             The current timestamp as bytes in the format
-            YYYY-MM-DD HH:MM:SS.
+            YYYY-MM-DD HH:MM:SS +HHMM.
         """
         return cls.get_timestamp_string().encode()
 
@@ -73,7 +76,7 @@ class Utils:
         datetime
             The converted timestamp.
         """
-        return datetime.datetime.strptime(timestamp, cls.DATETIME_FORMAT)
+        return _datetime.strptime(timestamp, cls.DATETIME_FORMAT)
 
     @staticmethod
     def get_id_string() -> str:
-- 
2.43.0


From 38b3bd712365586da3929f4a4d72d13e3329fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 17/25] fix: encryption key pairs can encrypt and decrypt

---
 src/pymt/keypairs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index afbcd57..8159f5e 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -218,13 +218,16 @@ class RsaKeyPair(AbstractKeyPair):
         cipher_aes = AES.new(session_key, AES.MODE_EAX)
         ciphertext, tag = cipher_aes.encrypt_and_digest(data)
 
+        # Encryption keypairs cannot sign on request, but their messages are signed
+        signature = RsaKeyPair.sign(self, ciphertext)
+
         encrypted_data = json.dumps(
             {
                 "enc_session_key": enc_session_key.hex(),
                 "nonce": cipher_aes.nonce.hex(),
                 "tag": tag.hex(),
                 "ciphertext": ciphertext.hex(),
-                "signature": self.sign(ciphertext).hex(),
+                "signature": signature.hex(),
             }
         ).encode("utf-8")
 
@@ -265,7 +268,9 @@ class RsaKeyPair(AbstractKeyPair):
         ciphertext = bytes.fromhex(data["ciphertext"])
         signature = bytes.fromhex(data["signature"])
 
-        if not self.signature_valid(ciphertext, signature, sender_public_key):
+        if not RsaKeyPair.signature_valid(
+            self, ciphertext, signature, sender_public_key
+        ):
             raise ValueError("Invalid signature.")
 
         cipher_rsa = PKCS1_OAEP.new(self._key_pair)
-- 
2.43.0


From a28cb6e0407a4e7f82766cd2b2901f80276d9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 18/25] fix: saving a key pair never destroys the key file it
 replaces

---
 src/pymt/keypairs.py | 48 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 8159f5e..9c6c62f 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -8,7 +8,10 @@ import json
 from .base import AbstractKeyPair, AbstractAuthKeyPair, AbstractEncKeyPair
 from .utils.utils import Utils
 from uuid import uuid4
+import contextlib
+import errno
 import os
+import stat
 
 
 class RsaKeyPair(AbstractKeyPair):
@@ -343,9 +346,48 @@ class RsaKeyPair(AbstractKeyPair):
             "public_key": self.public_key_string,
             "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),
         }
-        # Dump the data to the file
-        with open(file, "w") as key_file:
-            json.dump(data, key_file)
+        target = os.path.realpath(file)
+        try:
+            mode = os.stat(target).st_mode
+        except FileNotFoundError:
+            mode = None
+        if mode is not None and not stat.S_ISREG(mode):
+            # Devices and pipes cannot be replaced
+            with open(file, "w") as key_file:
+                json.dump(data, key_file)
+            return
+
+        # Dump the data to a new file that takes the place of the old one once it is
+        # complete, the old one may hold the only copy of a key
+        temporary = "{}.{}.tmp".format(target, uuid4().hex)
+        try:
+            with open(temporary, "x") as key_file:
+                json.dump(data, key_file)
+                key_file.flush()
+                os.fsync(key_file.fileno())
+            if mode is not None:
+                os.chmod(temporary, stat.S_IMODE(mode))
+            os.replace(temporary, target)
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.remove(temporary)
+            raise
+        self._sync_directory(os.path.dirname(target))
+
+    @staticmethod
+    def _sync_directory(directory: str) -> ...:
+        """Make the names of the files in a directory survive a power loss."""
+        if not hasattr(os, "O_DIRECTORY"):
+            return
+        descriptor = os.open(directory, os.O_RDONLY | os.O_DIRECTORY)
+        try:
+            os.fsync(descriptor)
+        except OSError as error:
+            # Not every file system can sync directories
+            if error.errno not in (errno.EINVAL, errno.ENOTSUP):
+                raise
+        finally:
+            os.close(descriptor)
 
     @classmethod
     def from_key_string(cls, key: str, passphrase: str) -> "RsaKeyPair":
-- 
2.43.0


From 0477d6a1f73adef0f72d54f97467e9724165f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 19/25] fix: key pairs can be hashed

---
 src/pymt/keypairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 9c6c62f..54f1b26 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -60,7 +60,7 @@ class RsaKeyPair(AbstractKeyPair):
         return f"RsaKeyPair(nickname={self._nickname}, public_key={self.public_key_string})"
 
     def __hash__(self) -> int:
-        return Utils.hash_data(self.public_key)
+        return hash(Utils.hash_data(self.public_key))
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 17120f571d463fdce510d2024efffc20bf29ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 20/25] fix: key files and strings mixed up with another key's
 do not load

---
 src/pymt/keypairs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 54f1b26..6f931d0 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -317,6 +317,7 @@ class RsaKeyPair(AbstractKeyPair):
             key_pair._key_pair = RSA.import_key(
                 bytes.fromhex(key_data["private_key"]), passphrase=passphrase
             )
+            key_pair._check_public_key(key_data["public_key"])
 
         return key_pair
 
@@ -374,6 +375,11 @@ class RsaKeyPair(AbstractKeyPair):
             raise
         self._sync_directory(os.path.dirname(target))
 
+    def _check_public_key(self, public_key: str) -> ...:
+        """Check that loaded keys belong together, a mixed up file loads another key."""
+        if public_key != self.public_key_string:
+            raise ValueError("The private key does not belong to the public key.")
+
     @staticmethod
     def _sync_directory(directory: str) -> ...:
         """Make the names of the files in a directory survive a power loss."""
@@ -418,6 +424,7 @@ class RsaKeyPair(AbstractKeyPair):
         key_pair._key_pair = RSA.import_key(
             bytes.fromhex(key_data["private_key"]), passphrase=passphrase
         )
+        key_pair._check_public_key(key_data["public_key"])
 
         return key_pair
 
-- 
2.43.0


From e8f3872bc8a4aedbcc82490827b8a24e9157f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 21/25] Restore the example as it was

---
 src/pymt/examples/empt_create_and_change.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymt/examples/empt_create_and_change.py b/src/pymt/examples/empt_create_and_change.py
index 068836f..02f116b 100644
--- a/src/pymt/examples/empt_create_and_change.py
+++ b/src/pymt/examples/empt_create_and_change.py
@@ -3,8 +3,7 @@ from pymt import EMPT
 
 # Create the storage
 storage = {}
-data_storage = {}
-trie = EMPT(storage, data_storage)
+trie = EMPT(storage)
 
 # Insert some data
 trie.update(b"do", b"a deer")
@@ -22,7 +21,7 @@ print("Root hash is {}".format(old_root_hash.hex()))
 print("New root hash is {}".format(trie.root_hash().hex()))
 
 # Reload the trie with the old root hash
-trie_from_old_hash = EMPT(storage, data_storage, root=old_root)
+trie_from_old_hash = EMPT(storage, root=old_root)
 
 print("From the old trie: {}".format(trie_from_old_hash.get(b"doge")))
 trie.delete(b"doge")  # Delete one of the datapoints
-- 
2.43.0


From c81ac05dae0b7b91ef6a543e463604565cf6013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 22/25] fix: a key file or string without a private key does
 not load

---
 src/pymt/keypairs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymt/keypairs.py b/src/pymt/keypairs.py
index 6f931d0..bb386d7 100755
--- a/src/pymt/keypairs.py
+++ b/src/pymt/keypairs.py
@@ -377,6 +377,8 @@ class RsaKeyPair(AbstractKeyPair):
 
     def _check_public_key(self, public_key: str) -> ...:
         """Check that loaded keys belong together, a mixed up file loads another key."""
+        if not self._key_pair.has_private():
+            raise ValueError("There is no private key, only a public key.")
         if public_key != self.public_key_string:
             raise ValueError("The private key does not belong to the public key.")
 
-- 
2.43.0


From a0265e853abb98a962c13d1d0603c3946ed617ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 23/25] fix: Merkle trees with different roots compared equal
 when their leaves differ in leading zero bytes

---
 src/pymt/merkletools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymt/merkletools.py b/src/pymt/merkletools.py
index 479f600..ae4b59d 100644
--- a/src/pymt/merkletools.py
+++ b/src/pymt/merkletools.py
@@ -66,7 +66,10 @@ class MerkleTools(object):
 
     def __eq__(self, other: "MerkleTools") -> bool:
         """Check if two Merkle trees are equal."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, MerkleTools):
+            return False
+        # the roots as numbers do not tell leading zeros of an unhashed leaf apart
+        return self.__hash__() == other.__hash__() and self.levels[0] == other.levels[0]
 
     def __repr__(self) -> str:
         """Get the string representation of the Merkle tree."""
-- 
2.43.0


From ec95987740a5297306504d1e35234a088f17c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 24/25] fix: data references of different keys compared equal
 when the end of the key was moved into the data

---
 src/pymt/empt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymt/empt.py b/src/pymt/empt.py
index ae4da2b..1279cce 100644
--- a/src/pymt/empt.py
+++ b/src/pymt/empt.py
@@ -55,7 +55,8 @@ class DataReference:
     def __eq__(self, other) -> bool:
         if not isinstance(other, DataReference):
             return False
-        return self.hash == other.hash
+        # the hash alone does not tell where the key ends and the data begins
+        return self.hash == other.hash and self._key == other._key
 
     def __hash__(self) -> int:
         return int(keccak_hash(self._key + self._data, hexdigest=True), 16)
-- 
2.43.0


From 8cfcefdb6b5ee8f2fdd1cb8cc5b17716d14bb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 25/25] fix: file and directory checks take a name with a
 doubled slash as relative

---
 src/pymt/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymt/utils/utils.py b/src/pymt/utils/utils.py
index 17833a6..6e4d9ba 100755
--- a/src/pymt/utils/utils.py
+++ b/src/pymt/utils/utils.py
@@ -239,7 +239,7 @@ class Utils:
         if not isinstance(filename, str):
             raise TypeError("Filename must be a string.")
         if filename.startswith("./"):
-            filename = os.path.join(os.getcwd(), filename[2:])
+            filename = os.path.join(os.getcwd(), filename)
         return os.path.isfile(filename)
 
     @staticmethod
@@ -264,7 +264,7 @@ class Utils:
         if not isinstance(dirname, str):
             raise TypeError("Dirname must be a string.")
         if dirname.startswith("./"):
-            dirname = os.path.join(os.getcwd(), dirname[2:])
+            dirname = os.path.join(os.getcwd(), dirname)
         return os.path.isdir(dirname)
 
     @staticmethod
-- 
2.43.0

