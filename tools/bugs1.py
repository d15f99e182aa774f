B=[]
def bug(id,prop,edits,demo,needs,breaks): B.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("lookup-leaf-prefix","C01",[("mpt.py","""            # looking for or wrong leaf.
            if node.path == path:
                return node
            else:
                raise KeyNotFoundError(""","""            # looking for or wrong leaf.
            if path.starts_with(node.path):
                return node
            else:
                raise KeyNotFoundError(""")],
"""from pymt.mpt import MPT
t = MPT({})
t.update(b"ab", b"1" * 40)
t.update(b"zz", b"2" * 40)
assert t.get(b"ab") == b"1" * 40
try:
    v = t.get(b"abc")
except Exception:
    v = None
assert v is None, v
""","a lookup of a key that properly extends a stored key whose entry is a leaf","get returns the value of another, shorter key")

bug("update-keeps-branch-value","C02",[("mpt.py","""                return self._store_node(Branch(node.branches, value))""","""                if len(node.data) == 0:
                    node.data = value
                return self._store_node(node)""")],
"""from pymt.mpt import MPT
t = MPT({})
t.update(b"a", b"old")
t.update(b"ab", b"x" * 40)
t.update(b"a", b"new")
assert t.get(b"a") == b"new"
""","overwriting a key that is a prefix of another key, so that its value lies in a branch","the overwrite is silently dropped")

bug("delete-merge-drops-nibble","C03",[("mpt.py","""                    # If next node is the branch, concatenate paths and update stored reference.
                    path = NibblePath.combine(node.path, stored_path)
                    new_node = Extension(path, stored_ref)""","""                    # If next node is the branch, the stored path already leads to it.
                    new_node = Extension(node.path, stored_ref)"""),
 ],
"""from pymt.mpt import MPT
t = MPT({})
keys = [bytes.fromhex(k) for k in ("aabb11", "aabb22", "aacc")]
for k in keys: t.update(k, b"v" + k * 20)
t.delete(keys[2])
for k in keys[:2]:
    assert t.get(k) == b"v" + k * 20, k
""","deleting a key below an extension such that the remaining child of the branch is again an extension or branch","the remaining keys are lost")

bug("delete-leaves-thin-branch","C04",[("mpt.py","""                elif non_empty_count == 1 and len(node.data) == 0:
                    # No value and one branch""","""                elif non_empty_count == 1 and len(node.data) == 0 and idx is not None:
                    # No value and one branch""")],
"""from pymt.mpt import MPT
a = MPT({})
a.update(b"k", b"1" * 40); a.update(b"kx", b"2" * 40)
a.delete(b"k")
b = MPT({})
b.update(b"kx", b"2" * 40)
assert a.get(b"kx") == b"2" * 40
assert a.root_hash() == b.root_hash()
""","deleting the value of a branch that has one child left","the branch is not collapsed: root hash depends on the history")

bug("eq-compares-raw-roots","C04",[("mpt.py","""        return self.__hash__() == other.__hash__()""","""        return self._root == other._root""")],
"""from pymt.mpt import MPT
a = MPT({}); a.update(b"k", b"v"); a.delete(b"k")
b = MPT({})
assert a.root_hash() == b.root_hash()
assert a == b
c = MPT({}); c.update(b"k", b"v")
d = MPT({}, root=c.root_hash())
assert c == d
""","comparing a trie that was emptied by deletion with a new one","tries with equal root hashes compare unequal")

bug("inline-31-as-string","C05",[("utils/node.py","""    if 0 < len(ref) < 32:
        return rlp.decode(ref)""","""    if 0 < len(ref) < 31:
        return rlp.decode(ref)""")],
"""import rlp
from pymt.utils.node import Leaf, Branch, Extension, Node
from pymt.utils.nibble_path import NibblePath
for n in range(1, 40):
    leaf = Leaf(NibblePath(b"\\x12\\x34"), b"d" * n)
    enc = leaf.encode()
    if len(enc) >= 32: continue
    e = Extension(NibblePath(b"\\x12"), Node.into_reference(leaf))
    assert isinstance(rlp.decode(e.encode())[1], list), len(enc)
""","an embedded child whose encoding is exactly 31 bytes long","its parent embeds it as a byte string: wrong encoding and root hash")

bug("combine-odd-odd","C06",[("utils/nibble_path.py","""            if idx < len(self.first):
                return self.first.at(idx)
            else:
                return self.second.at(idx - len(self.first))""","""            if idx < len(self.first):
                return self.first.at(idx)
            else:
                return self.second.at(idx % max(len(self.first), 1))""")],
"""from pymt.utils.nibble_path import NibblePath
a = NibblePath([0x1], 1)
b = NibblePath(bytes.fromhex("2345"))
c = a.combine(b)
assert [c.at(i) for i in range(len(c))] == [1, 2, 3, 4, 5]
""","combining paths where the second is longer than the first","nibbles of the second path are repeated")

bug("update-prunes-old-leaf","C07",[("mpt.py","""                node.data = value
                return self._store_node(node)""","""                node.data = value
                new_ref = self._store_node(node)
                # The previous version of the leaf is superseded.
                if new_ref != node_ref and isinstance(self._storage, dict):
                    self._storage.pop(node_ref, None)
                return new_ref""")],
"""from pymt.mpt import MPT
s = {}
t = MPT(s)
t.update(b"aa", b"1" * 40); t.update(b"ab", b"2" * 40)
old = t.root()
t.update(b"aa", b"3" * 40)
o = MPT(s, root=old)
assert o.get(b"aa") == b"1" * 40
""","overwriting a value and then reading under the earlier root (or a leaf that another key shares)","nodes of earlier roots are removed from the storage")

bug("decode-empty-loses-mode","C08",[("mpt.py","""        return MPT(storage=storage, root=root, secure=secure)""","""        return MPT(storage=storage, root=root, secure=secure and len(storage) > 0)""")],
"""from pymt.mpt import MPT
from pymt.utils.hash import keccak_hash
t = MPT({}, secure=True)
d = MPT.decode(t.encode())
assert d.secure is True
d.update(b"k", b"v" * 40); t.update(b"k", b"v" * 40)
assert d.root_hash() == t.root_hash()
""","encoding and decoding a secure trie without stored nodes (empty or root-only)","the copy is not in secure mode any more")

bug("poi-leaf-prefix","C09",[("mpt.py","""            if node.path == path:
                return True
            else:
                return False

        elif type(node) is Extension:
            # If we've found an extension, we need to go deeper.
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._verify_proof_of_inclusion(""","""            if path.starts_with(node.path):
                return True
            else:
                return False

        elif type(node) is Extension:
            # If we've found an extension, we need to go deeper.
            if path.starts_with(node.path):
                rest_path = path.consume(len(node.path))
                return self._verify_proof_of_inclusion(""")],
"""from pymt.mpt import MPT
from pymt.proof import Proof
t = MPT({})
t.update(b"ab", b"1" * 40); t.update(b"zz", b"2" * 40)
p = t.get_proof_of_inclusion(b"ab")
q = Proof(b"abc", p.trie_root, p.proof, b"MPT-POI")
try:
    ok = t.verify_proof_of_inclusion(q)
except Exception:
    ok = False
assert ok is False
assert t.verify_proof_of_inclusion(p) is True
""","a proof of a stored key relabelled with a key that properly extends it","the forged proof is accepted")

bug("sparse-decode-rebuilds-plain","C11",[("empt.py","""        smpt = SparseEMPT()
        smpt._trie = mpt
        return smpt""","""        return SparseEMPT(trie_storage=mpt._storage, root=mpt.root())""")],
"""from pymt.empt import EMPT, SparseEMPT
e = EMPT(secure=True)
e.update(b"k", b"v"); e.update(b"k2", b"w")
s = e.get_sparse_trie()
d = SparseEMPT.decode_rlp(s.encode_rlp())
assert b"k" in s
assert b"k" in d
""","decoding a sparse trie in secure mode","keys are not found in the decoded trie: the mode is lost")

bug("node-cache-in-storage","C12",[("mpt.py","""            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
        return decoded_node""","""            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
        if len(node_ref) == 32:
            # Remember the decoded node so it is not decoded again
            self._storage[node_ref] = decoded_node
        return decoded_node""")],
"""from pymt.mpt import MPT
s = {}
t = MPT(s)
t.update(b"aa", b"1" * 40); t.update(b"ab", b"2" * 40)
before = dict(s)
t.get(b"aa")
assert s == before
""","any lookup on a trie with hashed nodes, and looking at the storage afterwards","lookups replace the stored encodings by mutable node objects")

bug("store-swallows-keyerror","C13",[("mpt.py","""        if len(reference) == 32:
            self._storage[reference] = node.encode()
        return reference""","""        if len(reference) == 32:
            try:
                self._storage[reference] = node.encode()
            except (KeyError, OSError):
                # The node is there already in an append-only storage
                pass
        return reference""")],
"""from pymt.mpt import MPT
class S(dict):
    fail = False
    def __setitem__(self, k, v):
        if self.fail: raise OSError("disk full")
        dict.__setitem__(self, k, v)
s = S(); t = MPT(s)
t.update(b"aa", b"1" * 40); t.update(b"bb", b"2" * 40)
root = t.root()
s.fail = True
try:
    t.update(b"cc", b"3" * 40)
    raised = False
except OSError:
    raised = True
s.fail = False
assert raised and t.root() == root
assert t.get(b"aa") == b"1" * 40
""","a node storage that raises OSError or KeyError on a write","the update seems to succeed and the trie is corrupt")

bug("get-compares-hashes","C14",[("empt.py","""        if ref != expected:
            raise""","""        if ref.hash != expected.hash:
            raise""")],
"""from pymt.empt import EMPT, DataReference
e = EMPT()
e.update(b"ab", b"c"); e.update(b"zz", b"q" * 50)
e._trie.update(b"ab", DataReference(b"a", b"bXYZ").encode())
e._data_storage[b"ab"] = b"XYZ"
try:
    e.get(b"ab"); ok = True
except Exception:
    ok = False
assert not ok
""","a trie that holds the reference of another key whose bytes continue into the data","data that was not stored under the key is returned")

bug("update-stores-first","C15",[("empt.py","""        if not isinstance(key, bytes):
            raise TypeError("The key must be type bytes, not {}".format(type(key)))

        # Create a reference, update the trie and add the data to the storage
        if not isinstance(value, (bytes, bytearray)):""","""        if not isinstance(key, bytes):
            raise TypeError("The key must be type bytes, not {}".format(type(key)))

        # Add the data to the storage, create a reference and update the trie
        self._data_storage[key] = value
        if not isinstance(value, (bytes, bytearray)):""")],
"""from pymt.empt import EMPT
class V:
    def encode_rlp(self): raise ValueError("cannot encode")
    def decode_rlp(self): pass
e = EMPT()
e.update(b"k", b"v")
try:
    e.update(b"k", V())
except ValueError:
    pass
assert e.get(b"k") == b"v"
assert len(e) == 1
""","a value whose encode_rlp raises","the refused update has replaced the data but not the reference")

bug("sparse-shares-dict","C16",[("empt.py","""        storage_copy = {}
        for key in self._trie._storage.keys():
            storage_copy[key] = self._trie._storage[key]
""","""        storage_copy = self._trie._storage
        if not isinstance(storage_copy, dict):
            storage_copy = {key: storage_copy[key] for key in storage_copy.keys()}
""")],
"""from pymt.empt import EMPT
e = EMPT()
e.update(b"a", b"1" * 40); e.update(b"b", b"2" * 40)
s = e.get_sparse_trie()
h = s.root_hash()
e.update(b"a", b"9" * 40)
e.build_trie()
assert s.root_hash() == h
assert s.get_reference(b"a").data == b"1" * 40
""","rebuilding the EMPT after taking a sparse trie of it","the sparse trie loses its nodes")

bug("reference-flag-unchecked","C17",[("empt.py","""        if flag != b"FF":
            raise""","""        if not flag.startswith(b"F"):
            raise""")],
"""import rlp
from pymt.empt import DataReference
r = DataReference(b"k", b"v")
for flag in (b"F", b"FX", b"FFF", b"", b"00"):
    try:
        DataReference.decode(rlp.encode([flag, b"k", b"v", r.hash])); ok = True
    except Exception:
        ok = False
    assert not ok, flag
assert DataReference.decode(r.encode()) == r
""","an encoding with another flag that starts with F","something that is not a reference is decoded")

bug("rebuild-skips-empty-data","C18",[("empt.py","""        for key in self._data_storage.keys():
""","""        for key in filter(self._data_storage.get, self._data_storage.keys()):
""")],
"""from pymt.empt import EMPT
e = EMPT()
e.update(b"a", b""); e.update(b"b", b"x")
h = e.root_hash()
e.build_trie()
assert e.root_hash() == h
assert e[b"a"] == b""
""","rebuilding an EMPT that holds an entry with empty data","the entry is missing in the rebuilt trie")

bug("merkle-foreign-root","C21",[("mt.py","""        if valid:
            return self.get_merkle_root() == proof.trie_root
        else:
            return False""","""        if valid:
            return self.get_merkle_root().lower() == proof.trie_root.lower() or (
                len(proof.proof) == 0
            )
        else:
            return False""")],
"""from pymt.mt import MerkleTree
a = MerkleTree(secure=False); a.put_list([b"a" * 32, b"b" * 32]); a.make_tree()
b = MerkleTree(secure=False); b.put(b"c" * 32); b.make_tree()
p = b.get_proof_of_inclusion(b"c" * 32)
assert b.verify_proof_of_inclusion(p)
assert not a.verify_proof_of_inclusion(p)
""","a proof without steps, of a tree with one leaf, verified by another tree","the proof of another tree is accepted")

bug("merkle-sides-ignored","C21",[("merkletools.py","""                    sibling = bytearray.fromhex(p["left"])
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
""","""                    sibling = bytearray.fromhex(p["left"])
                    if sibling == bytearray(proof_hash):
                        continue
                    proof_hash = self.hash_function(sibling + proof_hash).digest()
""")],
"""from pymt.mt import MerkleTree
import hashlib
t = MerkleTree(secure=False)
x = b"x" * 32
t.put_list([x, x]); t.make_tree()
p = [q for q in (t.get_proof_of_inclusion(x),)][0]
assert t.verify_proof_of_inclusion(p)
from pymt.merkletools import MerkleTools
m = MerkleTools()
for v in (b"a" * 32, b"a" * 32, b"b" * 32): m.add_leaf(v)
m.make_tree()
root = bytes.fromhex(m.get_merkle_root())
l = b"a" * 32
good = [{"right": l.hex()}, {"right": (b"b" * 32).hex()}]
assert m.verify_proof_of_inclusion(good, l, root)
bad = [{"left": l.hex()}, {"right": l.hex()}, {"right": (b"b" * 32).hex()}]
assert not m.verify_proof_of_inclusion(bad, l, root)
""","a proof with an added step whose left sibling is the hash reached so far","proofs with extra steps are accepted")

bug("reset-keeps-levels","C22",[("merkletools.py","""        self.leaves = list()
        self.levels = None
        self.is_ready = False""","""        self.leaves = list()
        if getattr(self, "levels", None) is None:
            self.levels = None
        self.is_ready = False""")],
"""from pymt.merkletools import MerkleTools
t = MerkleTools()
t.add_leaf(b"a" * 32); t.add_leaf(b"b" * 32); t.make_tree()
t.reset_tree()
t.make_tree()
try:
    r = t.get_merkle_root()
except Exception:
    r = None
assert r is None, r
""","resetting a built tree and building it again without leaves","the root of the leaves before the reset is served")

bug("leaves-alias-bytearray","C23",[("merkletools.py","""            value = bytearray(value)
        self.leaves.append(value)""","""            if not isinstance(value, bytearray):
                value = bytearray(value)
        self.leaves.append(value)""")],
"""from pymt.merkletools import MerkleTools
t = MerkleTools()
buf = bytearray(b"a" * 32)
t.add_leaf(buf)
buf[:] = b"b" * 32
t.add_leaf(buf)
assert t.get_leaf(0) == (b"a" * 32).hex(), t.get_leaf(0)
""","adding a bytearray that the caller changes afterwards","leaves change after they were added")

bug("proof-type-prefix","C24",[("proof.py","""        if proof_type not in self.accepted_types:""","""        if not any(proof_type.endswith(t) for t in self.accepted_types):""")],
"""from pymt.proof import Proof
Proof(b"k", b"r" * 32, (), b"MT-POI")
for t in (b"XMT-POI", b"MT-MPT-POE"):
    try:
        Proof(b"k", b"r" * 32, (), t); ok = True
    except TypeError:
        ok = False
    assert not ok, t
""","a proof type that ends in a known one","an unknown proof type is accepted")

bug("decrypt-skips-empty-signature","C25",[("keypairs.py","""        signature = bytes.fromhex(data["signature"])
""","""        signature = bytes.fromhex(data["signature"])
        if signature == b"" and sender_public_key == self.public_key:
            # Messages to oneself need no signature
            signature = RsaKeyPair.sign(self, ciphertext)
""")],
"""import json
from Crypto.PublicKey import RSA
from pymt.keypairs import RsaKeyPair
def kp():
    k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024); return k
me, other = kp(), kp()
m = json.loads(other.encrypt(b"hello", me.public_key).decode())
m["signature"] = ""
try:
    r = me.decrypt(json.dumps(m).encode(), me.public_key)
except Exception:
    r = None
assert r is None, r
assert me.decrypt(other.encrypt(b"hello", me.public_key), other.public_key) == b"hello"
""","a message with an empty signature field that is opened with the own key as the sender","messages of anybody are taken as one's own")

bug("session-key-cached","C26",[("keypairs.py","""        session_key = get_random_bytes(16)
""","""        if getattr(self, "_session_key", None) is None:
            self._session_key = get_random_bytes(16)
        session_key = self._session_key
""")],
"""import json
from Crypto.PublicKey import RSA
from Crypto.Cipher import PKCS1_OAEP
from pymt.keypairs import RsaKeyPair
def kp():
    k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024); return k
a, b, c = kp(), kp(), kp()
def session(m, k):
    return PKCS1_OAEP.new(k._key_pair).decrypt(bytes.fromhex(json.loads(m.decode())["enc_session_key"]))
assert session(a.encrypt(b"1", b.public_key), b) != session(a.encrypt(b"2", c.public_key), c)
""","two messages encrypted by one key pair for different receivers","the receiver of one message can read the other")

bug("auth-decrypt-own","C27",[("keypairs.py","""    def decrypt(self, data: bytes, sender_public_key: bytes) -> bytes:
        raise NotImplementedError("Cannot decrypt data with an authentication keypair.")""","""    def decrypt(self, data: bytes, sender_public_key: bytes) -> bytes:
        if sender_public_key == self.public_key:
            return super().decrypt(data, sender_public_key)
        raise NotImplementedError("Cannot decrypt data with an authentication keypair.")""")],
"""from Crypto.PublicKey import RSA
from pymt.keypairs import RsaAuthKeyPair
k = RsaAuthKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024)
try:
    k.decrypt(b"x", k.public_key); e = None
except Exception as x:
    e = x
assert isinstance(e, NotImplementedError), e
""","decrypting with the own public key as the sender","an authentication key pair uses its private key to decrypt")

bug("export-writes-before-check","C28",[("keypairs.py","""        data = {
            "nickname": self._nickname,
            "public_key": self.public_key_string,
            "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),
        }
        # Dump the data to the file
        with open(file, "w") as key_file:
            json.dump(data, key_file)""","""        # Dump the data to the file
        with open(file, "w") as key_file:
            data = {
                "nickname": self._nickname,
                "public_key": self.public_key_string,
                "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),
            }
            json.dump(data, key_file)""")],
"""import os, tempfile
from Crypto.PublicKey import RSA
from pymt.keypairs import RsaKeyPair
k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "key")
    k.to_key_file(f, "pw")
    before = open(f).read()
    e = RsaKeyPair(_generate_keys=False)
    try:
        e.to_key_file(f, "pw"); ok = True
    except Exception:
        ok = False
    assert not ok
    assert open(f).read() == before
""","exporting a key pair that has no key to a file that exists","the refused export destroys the existing key file")

bug("signature-empty-key-is-own","C29",[("keypairs.py","""        if public_key is None:
            public_key = self.public_key
        rsa_key""","""        public_key = public_key or self.public_key
        rsa_key""")],
"""from Crypto.PublicKey import RSA
from pymt.keypairs import RsaKeyPair
k = RsaKeyPair(_generate_keys=False); k._key_pair = RSA.generate(1024)
s = k.sign(b"d")
assert k.signature_valid(b"d", s)
try:
    r = k.signature_valid(b"d", s, b"")
except Exception:
    r = False
assert r is False
""","checking a signature against an empty public key","the signature is checked against the own key instead")

bug("nonce-from-password","C30",[("utils/utils.py","""        cipher = AES.new(password, AES.MODE_EAX)
        ciphertext, tag""","""        nonce = Utils.hash_data(password, finalize=False).digest()[:16]
        cipher = AES.new(password, AES.MODE_EAX, nonce)
        ciphertext, tag""")],
"""from pymt.utils.utils import Utils
a, b = Utils.encrypt(b"data", "pw"), Utils.encrypt(b"data", "pw")
assert Utils.decrypt(a, "pw") == b"data"
assert a[:16] != b[:16]
""","two encryptions with the same password","the same key and nonce are used again")

bug("private-pem-as-public","C31",[("utils/utils.py","""            if key.has_private():
                return False
""","""            if key.has_private() and key.size_in_bits() > 1024:
                return False
""")],
"""from Crypto.PublicKey import RSA
from pymt.utils.utils import Utils
k = RSA.generate(1024)
assert Utils.rsa_key_valid(k.export_key()) is False
assert Utils.rsa_key_valid(k.publickey().export_key()) is True
""","a private key of 1024 bits","a private key is taken for a public one")

bug("hash-list-sorted","C32",[("utils/hash.py","""    for item in data:
        keccak_hash.update(item)""","""    for item in dict.fromkeys(data):
        keccak_hash.update(item)""")],
"""from pymt.utils.hash import keccak_hash, keccak_hash_list
assert keccak_hash_list([b"a", b"b", b"a"]) == keccak_hash(b"aba")
assert keccak_hash_list([]) == keccak_hash(b"")
""","a list that holds the same item twice","the second occurrence is not hashed")

bug("keypair-eq-by-nickname-case","C33",[("keypairs.py","""                self.public_key == other.public_key and self.nickname == other.nickname""","""                self.public_key == other.public_key
                and self.nickname.lower() == other.nickname.lower()""")],
"""from Crypto.PublicKey import RSA
from pymt.keypairs import RsaKeyPair
k = RSA.generate(1024)
a = RsaKeyPair("Alice", _generate_keys=False); a._key_pair = k
b = RsaKeyPair("alice", _generate_keys=False); b._key_pair = k
assert a != b
assert a == a
""","nicknames that differ in case only","different key pairs compare equal")
