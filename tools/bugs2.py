B=[]
def bug(id,prop,edits,demo,needs,breaks): B.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("contains-any-valued-branch","C01",[("mpt.py","""        if isinstance(node, Branch):
            if len(path) == 0 and node.data != None and node.data != b"":
                return True
            else:
                return False""","""        if isinstance(node, Branch):
            return node.data != None and node.data != b\"\"""")],
"""from pymt.mpt import MPT
t = MPT({})
t.update(b"a", b"1" * 40)
t.update(b"ab", b"2" * 40)
assert b"a" in t and b"ab" in t
assert bytes.fromhex("6170") not in t
""","asking for a key that leaves a branch which holds a value through an empty slot","contains is true for a key that is not stored")

bug("lookup-cache-survives-rebuild","C18",[("mpt.py","""        self._secure = secure

    # PROPERTIES""","""        self._secure = secure
        self._recent = {}

    # PROPERTIES"""),("mpt.py","""        path = NibblePath(encoded_key)
        result_node = self._get(self._root, path)
        return result_node.data""","""        if encoded_key in self._recent:
            return self._recent[encoded_key]
        path = NibblePath(encoded_key)
        result_node = self._get(self._root, path)
        self._recent[encoded_key] = result_node.data
        return result_node.data"""),("mpt.py","""        path = NibblePath(encoded_key)
        result = self._update(self._root, path, encoded_value)
        self._root = result""","""        path = NibblePath(encoded_key)
        result = self._update(self._root, path, encoded_value)
        self._root = result
        self._recent.pop(encoded_key, None)"""),("mpt.py","""        path = NibblePath(encoded_key)
        action, info = self._delete(self._root, path)
""","""        path = NibblePath(encoded_key)
        action, info = self._delete(self._root, path)
        self._recent.pop(encoded_key, None)
""")],
"""from pymt.empt import EMPT
data = {}
t = EMPT({}, data)
t.update(b"a", b"1"); t.update(b"b", b"2")
assert t.get_reference(b"a").data == b"1"
del data[b"a"]
t.build_trie()
try:
    r = t.get_reference(b"a")
except Exception:
    r = None
assert r is None, r
""","a reference that was looked up, its entry taken out of the data storage, and a rebuild","references of entries that no longer exist are served after a rebuild")

bug("split-drops-nibble-inline","C02",[("mpt.py","""        if len(path) == 1:
            branches[path.at(0)] = next_ref""","""        if len(path) == 1 or len(next_ref) < 32:
            branches[path.at(0)] = next_ref""")],
"""from pymt.mpt import MPT
t = MPT({})
ks = [bytes.fromhex("123450"), bytes.fromhex("123460")]
for k in ks: t.update(k, b"v")
t.update(bytes.fromhex("2000"), b"w")
for k in ks: assert t.get(k) == b"v"
""","splitting an extension of several nibbles above a branch that is small enough to be inlined","the keys below the extension are lost")

bug("last-branch-extension-nibble","C03",[("mpt.py","""        elif type(child) == Extension:
            path = NibblePath.combine(prefix_nibble, child.path)
            node = Extension(path, child.next_ref)
        elif type(child) == Branch:
            path = prefix_nibble""","""        elif type(child) == Extension:
            path = child.path
            node = Extension(path, child.next_ref)
        elif type(child) == Branch:
            path = prefix_nibble""")],
"""from pymt.mpt import MPT
t = MPT({})
ks = [bytes.fromhex("1234550a"), bytes.fromhex("1234560b"), bytes.fromhex("20")]
for k in ks: t.update(k, b"v" * 40)
t.delete(ks[2])
for k in ks[:2]: assert t.get(k) == b"v" * 40
""","deleting the second last child of a branch whose other child is an extension","the keys below that extension are lost")

bug("eq-needs-same-storage-size","C04",[("mpt.py","""        if not isinstance(other, MPT):
            return False
""","""        if not isinstance(other, MPT):
            return False
        if len(self) != len(other):
            return False
""")],
"""from pymt.mpt import MPT
a, b = MPT({}), MPT({})
a.update(b"k", b"1" * 40); a.update(b"k", b"2" * 40)
b.update(b"k", b"2" * 40)
assert a.root_hash() == b.root_hash()
assert a == b
""","two tries with equal contents and different histories","equal tries compare unequal")

bug("reference-of-32-bytes-inlined","C05",[("utils/node.py","""        encoded_node = node.encode()
        if len(encoded_node) < 32:
            return encoded_node""","""        encoded_node = node.encode()
        if len(encoded_node) <= 32:
            return encoded_node""")],
"""from pymt.utils.node import Leaf, Node
from pymt.utils.nibble_path import NibblePath
from pymt.utils.hash import keccak_hash
for n in range(1, 60):
    l = Leaf(NibblePath(b"\\x12\\x34"), b"v" * n)
    e = l.encode()
    assert Node.into_reference(l) == (e if len(e) < 32 else keccak_hash(e)), len(e)
""","a node whose encoding has exactly 32 bytes","the node is inlined and later mistaken for a hash")

bug("combine-returns-operand","C06",[("utils/nibble_path.py","""        chained = NibblePath._Chained(self, other)
        return NibblePath._create_new(chained, len(chained))""","""        if len(self) == 0:
            return other
        chained = NibblePath._Chained(self, other)
        return NibblePath._create_new(chained, len(chained))""")],
"""from pymt.utils.nibble_path import NibblePath
a, b = NibblePath(b""), NibblePath(b"\\x12\\x34")
c = a.combine(b)
assert c == b
c.consume(2)
assert len(b) == 4
""","combining an empty path with another one and consuming the result","the operand is changed")

bug("delete-prunes-leaf","C07",[("mpt.py","""            if path == node.path:
                return MPT._DeleteAction.DELETED, None""","""            if path == node.path:
                if len(node_ref) == 32:
                    del self._storage[node_ref]
                return MPT._DeleteAction.DELETED, None""")],
"""from pymt.mpt import MPT
s = {}
t = MPT(s)
t.update(b"a", b"1" * 40); t.update(b"b", b"2" * 40)
old = t.root_hash()
t.delete(b"a")
o = MPT(s, root=old)
assert o.get(b"a") == b"1" * 40
""","reading an earlier root after a deletion","nodes of earlier roots are removed")

bug("sparse-contains-unhashed","C08",[("empt.py","""        Check whether a certain key is in the trie.

        The reference to the value is checked in the trie.
        \"\"\"
        if not isinstance(key, bytes):
            raise TypeError("The key must be type bytes, not {}".format(type(key)))
        return self._trie.contains(key)""","""        Check whether a certain key is in the trie.

        The reference to the value is checked in the trie.
        \"\"\"
        if not isinstance(key, bytes):
            raise TypeError("The key must be type bytes, not {}".format(type(key)))

        return self._trie.contains(key, hash_key=len(key) != 32)""")],
"""from pymt.empt import SparseEMPT
t = SparseEMPT(secure=True)
k = b"k" * 32
t.update(k, b"v")
assert t.contains(k)
t.delete(k)
assert not t.contains(k)
""","a sparse trie in secure mode and a key of exactly 32 bytes","membership uses the key unhashed")

bug("verify-uses-own-nodes","C09",[("mpt.py","""                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    return False
            else:
                raw_node = node_ref
            node = Node.decode(raw_node)
        else:
            node = node_ref

        # If path is empty, our travel is over. Main `get` method
        # will check if this node has a value.
        if len(path) == 0:
            # check""","""                try:
                    raw_node = proof_storage[node_ref]
                except KeyError:
                    if node_ref not in self._storage:
                        return False
                    raw_node = self._storage[node_ref]
            else:
                raw_node = node_ref
            node = Node.decode(raw_node)
        else:
            node = node_ref

        # If path is empty, our travel is over. Main `get` method
        # will check if this node has a value.
        if len(path) == 0:
            # check""")],
"""from pymt.mpt import MPT
from pymt.proof import Proof
t = MPT({})
for k in (b"abc", b"abd", b"xyz"): t.update(k, k * 20)
p = t.get_proof_of_inclusion(b"abc")
cut = Proof(target_key=p.target_key, root_hash=p.trie_root, proof=p.proof[:1], proof_type=p.type)
try:
    ok = t.verify_proof_of_inclusion(cut)
except Exception:
    ok = False
assert not ok
""","verifying a truncated proof on a trie that holds all nodes","a proof is accepted that does not show its claim")

bug("accepted-proofs-remembered","C09",[("mpt.py","""        self._secure = secure

    # PROPERTIES""","""        self._secure = secure
        self._accepted = set()

    # PROPERTIES"""),("mpt.py","""        # Compare the root hashes
        if self.root_hash() != keccak_hash(proof.proof[0]):
            return False

        # Recreate a partial trie from the proof and walk down from root to taget
        # node.
        proof_storage = {}
        for encoded_node in proof.proof:
""","""        if proof in self._accepted:
            return True

        # Compare the root hashes
        if self.root_hash() != keccak_hash(proof.proof[0]):
            return False

        # Recreate a partial trie from the proof and walk down from root to taget
        # node.
        proof_storage = {}
        for encoded_node in proof.proof:
"""),("mpt.py","""            return True
        else:
            return False

    def get_proof_of_exclusion(self, encoded_key: bytes) -> Proof:""","""            self._accepted.add(proof)
            return True
        else:
            return False

    def get_proof_of_exclusion(self, encoded_key: bytes) -> Proof:""")],
"""from pymt.mpt import MPT
t = MPT({})
for k in (b"abc", b"abd", b"xyz"): t.update(k, k * 20)
p = t.get_proof_of_inclusion(b"abc")
assert t.verify_proof_of_inclusion(p)
t.delete(b"abc")
assert not t.verify_proof_of_inclusion(p)
""","verifying a proof, changing the trie, and verifying the same proof again","an outdated proof is accepted")

bug("poe-end-leaf-ignored","C10",[("mpt.py","""        # If the node is a leaf the key is in the trie

        if isinstance(node, Leaf):
            if node.path == path:
                return False
""","""        # If the node is a leaf the key is in the trie

        if isinstance(node, Leaf) and len(path) != 0:
            if node.path == path:
                return False
""")],
"""from pymt.mpt import MPT
from pymt.proof import Proof
from pymt.utils.node import Leaf
from pymt.utils.nibble_path import NibblePath
t = MPT({})
t.update(b"\\x10", b"1" * 40); t.update(b"\\x11", b"2" * 40)
p = t.get_proof_of_inclusion(b"\\x10")
null = t.get_proof_of_exclusion(b"\\x12").proof[-1]
f = Proof(target_key=b"\\x10", root_hash=t.root_hash(), proof=p.proof + (null,), proof_type=b"MPT-POE")
try:
    ok = t.verify_proof_of_exclusion(f)
except Exception:
    ok = False
assert not ok
""","a forged proof of exclusion for a stored key whose leaf has an empty path","stored keys are proved absent")

bug("decode-memoised","C11",[("mpt.py","""from typing import Tuple, List, Union, Optional
""","""from functools import lru_cache
from typing import Tuple, List, Union, Optional
"""),("mpt.py","""    @staticmethod
    def decode(encoded_data: bytes) -> "MPT":""","""    @staticmethod
    @lru_cache(maxsize=32)
    def decode(encoded_data: bytes) -> "MPT":""")],
"""from pymt.mpt import MPT
t = MPT({})
t.update(b"a", b"1" * 40)
e = t.encode()
x = MPT.decode(e)
x.update(b"a", b"2" * 40)
y = MPT.decode(e)
assert y.get(b"a") == b"1" * 40
assert y.root_hash() == t.root_hash()
""","decoding the same encoding twice and changing the first result in between","both decoded tries are one object")

bug("root-hash-stores-root","C12",[("mpt.py","""        else:
            return keccak_hash(self._root)

    def get""","""        else:
            # Keep the root reachable under its hash
            root_hash = keccak_hash(self._root)
            self._storage[root_hash] = self._root
            return root_hash

    def get""")],
"""from pymt.mpt import MPT
s = {}
t = MPT(s)
t.update(b"a", b"1")
before = dict(s)
t.root_hash()
assert s == before
""","asking a trie with a short root node for its root hash","a read operation writes to the node storage")

bug("update-drops-root-first","C13",[("mpt.py","""        result = self._update(self._root, path, encoded_value)
        self._root = result""","""        root, self._root = self._root, None
        self._root = self._update(root, path, encoded_value)""")],
"""from pymt.mpt import MPT
class S(dict):
    bad = False
    def __setitem__(self, k, v):
        if self.bad: raise IOError("disk full")
        dict.__setitem__(self, k, v)
s = S()
t = MPT(s)
t.update(b"a", b"1" * 40)
r = t.root_hash()
s.bad = True
try:
    t.update(b"b", b"2" * 40)
except IOError:
    pass
s.bad = False
assert t.root_hash() == r
assert t.get(b"a") == b"1" * 40
""","a storage that fails while a node is written","the trie is empty after a failed update")

bug("get-trusts-bytearray","C14",[("empt.py","""        # Check if the reference is valid
""","""XX""")],"","","")
B.pop()
bug("keypair-keeps-passphrase","C34",[("keypairs.py","""        return json.dumps(
            {
                "nickname": self._nickname,""","""        self._passphrase = passphrase
        return json.dumps(
            {
                "nickname": self._nickname,""")],
"""from pymt.keypairs import RsaKeyPair
from Crypto.PublicKey import RSA
k = RsaKeyPair(nickname="n", _generate_keys=False)
k._key_pair = RSA.generate(1024)
k.to_key_string("top secret words")
assert "top secret words" not in repr(vars(k))
""","exporting a key pair","the passphrase stays in the object")

bug("delitem-absent-ignored","C15",[("empt.py","""        \"\"\"Wrapper for the delete method.\"\"\"
        self.delete(key)

    def __contains__(self, key: bytes) -> bool:
        \"\"\"Wrapper for the contains method.\"\"\"
        return self.contains(key)

    # TRIE METHODS
    def root_hash(self) -> bytes:
        \"\"\"Return the hash of the root of the trie.\"\"\"
        return self._trie.root_hash()

    def root(self) -> bytes:
        \"\"\"Return the root of the trie.\"\"\"
        return self._trie.root()

    def build_trie""","""        \"\"\"Wrapper for the delete method.\"\"\"
        if key in self:
            self.delete(key)

    def __contains__(self, key: bytes) -> bool:
        \"\"\"Wrapper for the contains method.\"\"\"
        return self.contains(key)

    # TRIE METHODS
    def root_hash(self) -> bytes:
        \"\"\"Return the hash of the root of the trie.\"\"\"
        return self._trie.root_hash()

    def root(self) -> bytes:
        \"\"\"Return the root of the trie.\"\"\"
        return self._trie.root()

    def build_trie""")],
"""from pymt.empt import EMPT
t = EMPT()
t[b"a"] = b"1"
try:
    del t[b"b"]
    raise SystemExit("no error")
except SystemExit:
    raise
except Exception:
    pass
""","item deletion of a key that is not there","the call is silently accepted")

bug("root-view-shares-trie","C16",[("empt.py","""        The root trie is a trie that only contains the root of the trie.
        \"\"\"
        return RootEMPT(secure=self._trie.secure, root=self._trie.root())""","""        The root trie is a trie that only contains the root of the trie.
        \"\"\"
        root_trie = RootEMPT(secure=self._trie.secure, root=self._trie.root())
        root_trie._trie = self._trie
        return root_trie""")],
"""from pymt.empt import EMPT
e = EMPT()
e[b"a"] = b"1"; e[b"b"] = b"2"
s = e.get_sparse_trie()
r = s.get_root_trie()
h = r.root_hash()
s.update(b"c", b"3")
assert r.root_hash() == h
""","a root view taken from a sparse trie that is changed afterwards","the view follows the changes")

bug("references-equal-by-hash","C17",[("empt.py","""        return self._key == other._key and self._data == other._data""","""        return self._hash == other._hash""")],
"""from pymt.empt import DataReference
assert DataReference(b"a", b"bc") != DataReference(b"ab", b"c")
assert DataReference(b"a", b"bc") == DataReference(b"a", b"bc")
""","two references whose key and data have the same concatenation","different references compare equal")

bug("rebuild-of-nothing-skipped","C18",[("empt.py","""        # Delete all the nodes in the trie
""","""        if len(self._data_storage) == 0:
            return

        # Delete all the nodes in the trie
""")],
"""from pymt.empt import EMPT
d = {}
e = EMPT({}, d)
e[b"a"] = b"1"
d.clear()
e.build_trie()
assert not e.contains(b"a")
assert e.root_hash() == EMPT().root_hash()
""","rebuilding after the data storage was emptied","the old trie stays")

bug("merkle-unknown-steps-skipped","C21",[("merkletools.py","""                try:
                    # the sibling is a left node
                    sibling = bytearray.fromhex(p["left"])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
                except:
                    # the sibling is a right node
                    sibling = bytearray.fromhex(p["right"])
                    proof_hash = self.hash_function(proof_hash + sibling).digest()""","""                if "left" in p:
                    sibling = bytearray.fromhex(p["left"])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
                elif "right" in p:
                    sibling = bytearray.fromhex(p["right"])
                    proof_hash = self.hash_function(proof_hash + sibling).digest()""")],
"""from pymt.mt import MerkleTree
from pymt.proof import Proof
t = MerkleTree()
t.put_list([b"a", b"b", b"c"])
t.make_tree()
p = t.get_proof_of_inclusion(b"a")
assert t.verify_proof_of_inclusion(p)
q = Proof(target_key=p.target_key, root_hash=p.trie_root, proof=p.proof + ((b"top", b"00" * 32),), proof_type=p.type)
try:
    ok = t.verify_proof_of_inclusion(q)
except Exception:
    ok = False
assert not ok
""","a genuine proof with an extra step on an unknown side","altered proofs are accepted")

bug("duplicate-leaf-keeps-tree","C22",[("merkletools.py","""        self.leaves.append(value)
        self.is_ready = False""","""        self.is_ready = self.is_ready and value in self.leaves
        self.leaves.append(value)""")],
"""from pymt.mt import MerkleTree
t = MerkleTree()
t.put(b"a"); t.put(b"b")
t.get_merkle_root()
t.put(b"a")
u = MerkleTree()
u.put_list([b"a", b"b", b"a"])
assert t.get_merkle_root() == u.get_merkle_root()
""","adding a leaf that the built tree already has","the root of the tree without the new leaf is served")

bug("secure-digest-not-hashed","C23",[("merkletools.py","""        if self._secure:
            value = self.hash_function(value).hexdigest()
            value = bytearray.fromhex(value)
        else:
            value = bytearray(value)""","""        if self._secure and len(value) != self.hash_function().digest_size:
            value = self.hash_function(value).hexdigest()
            value = bytearray.fromhex(value)
        else:
            value = bytearray(value)""")],
"""import hashlib
from pymt.mt import MerkleTree
t = MerkleTree()
t.put(b"x" * 32)
assert t.get(0) == hashlib.sha256(b"x" * 32).hexdigest()
""","a leaf that is as long as a digest, in secure mode","the leaf is kept unhashed")

bug("proof-json-timestamp-optional","C24",[("proof.py","""        proof._timestamp = json_proof["timestamp"].encode()""","""        if "timestamp" in json_proof:
            proof._timestamp = json_proof["timestamp"].encode()""")],
"""import json
from pymt.mt import MerkleTree
from pymt.proof import Proof
t = MerkleTree()
t.put_list([b"a", b"b"])
t.make_tree()
d = json.loads(t.get_proof_of_inclusion(b"a").encode_json())
del d["timestamp"]
try:
    p = Proof.decode_json(json.dumps(d))
except Exception:
    p = None
assert p is None
""","decoding JSON that lacks the time stamp","something that is not a proof is decoded")

bug("own-messages-unchecked","C25",[("keypairs.py","""            raise ValueError("Invalid signature.")""","""            if sender_public_key != self.public_key:
                raise ValueError("Invalid signature.")""")],
"""import json
from pymt.keypairs import RsaKeyPair
from Crypto.PublicKey import RSA
def key():
    k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024); return k
a, m = key(), key()
msg = m.encrypt(b"forged", a.public_key)
try:
    r = a.decrypt(msg, a.public_key)
except ValueError:
    r = None
assert r is None
""","a message of somebody else presented as a message to oneself","the signature is not checked")

bug("session-key-from-data","C26",[("keypairs.py","""        session_key = get_random_bytes(16)
""","""        session_key = SHA256.new(data).digest()[:16]
""")],
"""from pymt.keypairs import RsaKeyPair
import pymt.keypairs as kp
from Crypto.PublicKey import RSA
k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024)
keys = []
real = kp.AES.new
class A:
    MODE_EAX = kp.AES.MODE_EAX
    @staticmethod
    def new(key, *a, **kw):
        keys.append(bytes(key)); return real(key, *a, **kw)
import Crypto.Cipher.AES as aes
kp.AES = A
k.encrypt(b"same", k.public_key); k.encrypt(b"same", k.public_key)
assert len(set(keys)) == len(keys)
""","encrypting the same data twice","the session key can be computed from a guess of the data")

bug("enc-verifies-foreign-keys","C27",[("keypairs.py","""        raise NotImplementedError("Cannot verify signature with an encryption keypair.")""","""        if public_key is not None:
            return super().signature_valid(data, signature, public_key)
        raise NotImplementedError("Cannot verify signature with an encryption keypair.")""")],
"""from pymt.keypairs import RsaKeyPair, RsaEncKeyPair
from Crypto.PublicKey import RSA
def key(c):
    k = c(_generate_keys=False); k._key_pair = RSA.generate(1024); return k
a, e = key(RsaKeyPair), key(RsaEncKeyPair)
try:
    e.signature_valid(b"d", a.sign(b"d"), a.public_key)
    raise SystemExit("not refused")
except NotImplementedError:
    pass
""","verifying with an encryption key pair and an explicit public key","the operation is not refused")

bug("passphrase-stripped","C28",[("keypairs.py","""        key_pair = cls(_generate_keys=False)
        key_data = json.loads(key)
""","""        passphrase = passphrase.strip()
        key_pair = cls(_generate_keys=False)
        key_data = json.loads(key)
"""),("keypairs.py","""        return json.dumps(
            {
                "nickname": self._nickname,""","""        passphrase = passphrase.strip()
        return json.dumps(
            {
                "nickname": self._nickname,""")],
"""from pymt.keypairs import RsaKeyPair
from Crypto.PublicKey import RSA
k = RsaKeyPair(nickname="n", _generate_keys=False); k._key_pair = RSA.generate(1024)
s = k.to_key_string("secret ")
try:
    RsaKeyPair.from_key_string(s, "secret")
    raise SystemExit("loaded with another passphrase")
except (ValueError, IndexError, TypeError):
    pass
""","two passphrases that differ only in white space at the ends","another passphrase loads the key")

bug("signature-over-stripped-data","C29",[("keypairs.py","""        h = SHA256.new(data)
        signature = pkcs1_15""","""        h = SHA256.new(data.rstrip(b"\\n"))
        signature = pkcs1_15"""),("keypairs.py","""        h = SHA256.new(data)
        try:""","""        h = SHA256.new(data.rstrip(b"\\n"))
        try:""")],
"""from pymt.keypairs import RsaKeyPair
from Crypto.PublicKey import RSA
k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024)
assert k.signature_valid(b"pay 1", k.sign(b"pay 1"))
assert not k.signature_valid(b"pay 1\\n", k.sign(b"pay 1"))
""","data that differ only in line ends","a signature verifies for other data")

bug("password-truncated","C30",[("utils/utils.py","""        # Encrypt the data using AES
        password = Utils.hash_data(password.encode(), finalize=False).digest()""","""        # Encrypt the data using AES
        password = Utils.hash_data(password.encode()[:64], finalize=False).digest()"""),("utils/utils.py","""        # Decrypt the data using AES
        password = Utils.hash_data(password.encode(), finalize=False).digest()""","""        # Decrypt the data using AES
        password = Utils.hash_data(password.encode()[:64], finalize=False).digest()""")],
"""from pymt.utils.utils import Utils
c = Utils.encrypt(b"data", "p" * 64 + "A")
assert Utils.decrypt(c, "p" * 64 + "A") == b"data"
try:
    r = Utils.decrypt(c, "p" * 64 + "B")
except ValueError:
    r = None
assert r is None
""","two passwords longer than 64 bytes that differ at the end","another password decrypts")

bug("private-der-as-public","C31",[("utils/utils.py","""            if key.has_private():
                return False

        elif""","""            if key_pem.startswith(b"-----BEGIN RSA PRIVATE"):
                return False

        elif"""),("utils/utils.py","""        if key_type == "public":
            # Check""","""        key_pem = key
        if key_type == "public":
            # Check""")],
"""from pymt.utils.utils import Utils
from Crypto.PublicKey import RSA
k = RSA.generate(1024)
assert Utils.rsa_key_valid(k.publickey().export_key())
assert not Utils.rsa_key_valid(k.export_key())
assert not Utils.rsa_key_valid(k.export_key("DER"))
""","a private key in another encoding than the usual PEM","a private key passes as a public one")

bug("sha256-objects-shared","C32",[("utils/utils.py","""import time
""","""import functools
import time
"""),("utils/utils.py","""    @staticmethod
    def sha256(""","""    @staticmethod
    @functools.lru_cache(maxsize=128)
    def sha256(""")],
"""from pymt.utils.utils import Utils
import hashlib
h = Utils.hash_data(b"a", finalize=False)
h.update(b"b")
g = Utils.hash_data(b"a", finalize=False)
assert g.digest() == hashlib.sha256(b"a").digest()
""","continuing an unfinished hash object and asking for one of the same data again","the object of the second call already contains other data")

bug("generate-keeps-old-key","C33",[("keypairs.py","""        self._key_pair = RSA.generate(length)""","""        if getattr(self, "_key_pair", None) is None or length > self._key_pair.size_in_bits():
            self._key_pair = RSA.generate(length)""")],
"""from pymt.keypairs import RsaKeyPair
from Crypto.PublicKey import RSA
k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024)
p = k.public_key
k.generate_keypair(1024)
assert k.public_key != p
""","generating a new key for a key pair that already has one","the key is not changed")

bug("empty-storage-replaced","C35",[("empt.py","""        if trie_storage is None:
            trie_storage = {}
        self._trie = MPT(trie_storage, root, secure=secure)""","""        self._trie = MPT(trie_storage or {}, root, secure=secure)""")],
"""from pymt.empt import SparseEMPT
s = {}
t = SparseEMPT(s)
t.update(b"a", b"1" * 40)
assert len(s) > 0
""","an empty storage given to a sparse trie","the storage is silently replaced")

bug("root-cached-over-reset","C22",[("mt.py","""        if not self.is_ready:
            self.make_tree()

        return super().get_merkle_root().encode()""","""        if not self.is_ready:
            self.make_tree()
            self._root = super().get_merkle_root().encode()
        elif not hasattr(self, "_root"):
            self._root = super().get_merkle_root().encode()
        return self._root""")],
"""from pymt.mt import MerkleTree
t = MerkleTree()
t.put(b"a")
t.get_merkle_root()
t.put(b"b")
t.make_tree()
u = MerkleTree(); u.put_list([b"a", b"b"])
assert t.get_merkle_root() == u.get_merkle_root()
""","asking for the root, adding a leaf, building explicitly, and asking again","the root of the old leaves is served")

bug("exclusion-null-only","C10",[("mpt.py","""        # There should be no keys left in the proof
        if len(keys_left.keys()) != 0:
            return False

        # Check if the result node is valid
        # If the node is a branch check if it has a value
        if isinstance(node, Branch):
            if len(path) == 0 and node.data != None and node.data != b"":
                return False
""","""        # There should be no keys left in the proof
        if len(keys_left.keys()) != 0:
            return False
""")],
"""from pymt.mpt import MPT
from pymt.proof import Proof
t = MPT({})
t.update(b"a", b"1" * 40); t.update(b"ab", b"2" * 40)
p = t.get_proof_of_inclusion(b"a")
null = t.get_proof_of_exclusion(b"z").proof[-1]
f = Proof(target_key=b"a", root_hash=t.root_hash(), proof=p.proof + (null,), proof_type=b"MPT-POE")
try:
    ok = t.verify_proof_of_exclusion(f)
except Exception:
    ok = False
assert not ok
""","a forged proof of exclusion for a key whose value lies in a branch","stored keys are proved absent")
