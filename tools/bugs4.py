B=[]
def bug(id,prop,edits,demo,needs,breaks): B.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))

PAIR = '''from pymt.base import *
import pymt.base as base
def make(iface, leave):
    ops = ["__str__", "__repr__", "__hash__", "__eq__", "public_key_string", "public_key", "nickname", "generate_keypair",
           "sign", "signature_valid", "encrypt", "decrypt", "from_key_file", "to_key_file", "from_key_string", "to_key_string"]
    return type("K", (getattr(base, iface),), {o: (lambda self, *a: 1) for o in ops if o not in leave})
'''
bug("enc-pair-sign-default","C40",[("base.py","""class AbstractEncKeyPair(_BaseAbstractKeyPair):
""","""class AbstractEncKeyPair(_BaseAbstractKeyPair):
    def sign(self, data: bytes) -> bytes:
        raise NotImplementedError("This key pair cannot sign data.")

""")],
PAIR+'''
try:
    make("AbstractEncKeyPair", ["sign"])()
except TypeError:
    pass
else:
    raise AssertionError("incomplete key pair was made")
make("AbstractEncKeyPair", [])()
''',"a subclass of the encryption interface without sign","an incomplete implementation can be instantiated; sign fails only when called")

bug("keyring-not-abc","C40",[("base.py","""class _BaseAbstractKeyRing(ABC):
""","""class _BaseAbstractKeyRing:
""")],
'''import pymt.base as base
class R(base.AbstractAuthKeyRing):
    def sign(self, key_name, data): return b""
for c in (R, base.AbstractKeyRing):
    try:
        c()
    except TypeError:
        pass
    else:
        raise AssertionError("incomplete key ring was made")
''',"instantiating a key ring class that leaves operations out","key ring interfaces are no longer enforced")

bug("pair-key-file-optional","C40",[("base.py","""class _BaseAbstractKeyPair(ABC):
""","""class _BaseAbstractKeyPair(ABC):
    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        # Key pairs that can be written as a string can be written to a file
        if "to_key_string" in cls.__dict__ and "to_key_file" not in cls.__dict__:
            if getattr(cls.to_key_file, "__isabstractmethod__", False):
                cls.to_key_file = lambda self, file: open(file, "w").write(
                    self.to_key_string()
                )

""")],
PAIR+'''
try:
    make("AbstractKeyPair", ["to_key_file"])()
except TypeError:
    pass
else:
    raise AssertionError("incomplete key pair was made")
''',"a subclass with to_key_string and without to_key_file","an incomplete implementation can be instantiated, and writes keys without a passphrase")

MISS = '''from pymt.mpt import MPT
from pymt.utils.exceptions import *
V = b"v" * 40
def mk():
    s = {}
    t = MPT(s)
    for k in (b"\\x12\\x34", b"\\x12\\x35", b"\\x12\\x45", b"\\x77\\x77"):
        t.update(k, V + k)
    return t, s
t, s = mk()
'''
bug("contains-missing-node-false","C41",[("mpt.py","""            branch = node.branches[path.at(0)]
            if len(branch) > 0:
                return self._contains(branch, path.consume(1))
            else:
                # This is the furthest node we can go.
                return node
""","""            branch = node.branches[path.at(0)]
            if len(branch) == 32 and branch not in self._storage:
                # This is the furthest node we can go.
                return node
            if len(branch) > 0:
                return self._contains(branch, path.consume(1))
            else:
                # This is the furthest node we can go.
                return node
""")],
MISS+'''
for h in list(s):
    if h == t.root(): continue
    n = s.pop(h)
    for k in (b"\\x12\\x34", b"\\x12\\x35", b"\\x12\\x45", b"\\x77\\x77"):
        try:
            assert t.contains(k), k
        except KeyError:
            pass
    s[h] = n
''',"asking for a stored key while a node below a branch is missing","a stored key is reported as absent")

bug("get-missing-node-keynotfound","C41",[("mpt.py","""        path = NibblePath(encoded_key)
        result_node = self._get(self._root, path)
        return result_node.data""","""        path = NibblePath(encoded_key)
        try:
            result_node = self._get(self._root, path)
        except KeyError:
            raise KeyNotFoundError("There is no node at {}".format(path))
        return result_node.data""")],
MISS+'''
for h in list(s):
    n = s.pop(h)
    for k in (b"\\x12\\x34", b"\\x12\\x35", b"\\x12\\x45", b"\\x77\\x77"):
        try:
            assert t.get(k) == V + k
        except KeyNotFoundError:
            raise AssertionError("a stored key is said to be absent")
        except KeyError:
            pass
    s[h] = n
''',"reading a stored key while a node on its way is missing","a missing node is reported as a missing key")

bug("delete-keeps-unloaded-sibling","C41",[("mpt.py","""        child = self._get_node(branches[idx])

        path = None
        node = None
""","""        path = None
        node = None

        try:
            child = self._get_node(branches[idx])
        except KeyError:
            # Only part of the trie is stored here
            child = Branch([b""] * 16)
""")],
MISS+'''
t2 = MPT({})
t2.update(b"\\x12\\x34", V)
t2.update(b"\\x77\\x77", V)
s = t2._storage
for h in list(s):
    if h == t2.root(): continue
    t3 = MPT(dict(s), root=t2.root())
    del t3._storage[h]
    for k, o in ((b"\\x12\\x34", b"\\x77\\x77"), (b"\\x77\\x77", b"\\x12\\x34")):
        t4 = MPT(dict(t3._storage), root=t2.root())
        try:
            t4.delete(k)
        except KeyError:
            continue
        w = MPT({})
        w.update(o, V)
        assert w.root_hash() == t4.root_hash()
''',"deleting a key whose only sibling is not in the storage","the trie gets a shape that it must not have, and another root hash")

bug("empt-delete-missing-node","C41",[("empt.py","""        if not self._trie.contains(key):
            raise KeyNotFoundError("The key is not in the trie")
        root = self._trie.root()""","""        try:
            present = self._trie.contains(key)
        except KeyError:
            present = False
        if not present:
            raise KeyNotFoundError("The key is not in the trie")
        root = self._trie.root()""")],
'''from pymt.empt import EMPT
from pymt.utils.exceptions import KeyNotFoundError
s = {}
e = EMPT(s, {})
for k in (b"\\x12", b"\\x13", b"\\x45"):
    e.update(k, b"data" + k)
for h in list(s):
    n = s.pop(h)
    try:
        e.delete(b"\\x12")
    except KeyNotFoundError:
        raise AssertionError("a stored key is said to be absent")
    except KeyError:
        pass
    else:
        e.update(b"\\x12", b"data\\x12")
    s[h] = n
''',"deleting a stored key while a node on its way is missing","the key is reported as absent")

FAIL = '''from pymt.empt import EMPT, SparseEMPT
class S(dict):
    left = None
    def _c(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise OSError("storage")
    def __getitem__(self, k): self._c(); return dict.__getitem__(self, k)
    def __setitem__(self, k, v): self._c(); dict.__setitem__(self, k, v)
    def __delitem__(self, k): self._c(); dict.__delitem__(self, k)
    def pop(self, k, *a):
        self._c()
        return dict.pop(self, k, *a)
KEYS = (b"\\x12", b"\\x13", b"\\x45")
def mk(cls=EMPT):
    a, b = S(), S()
    t = cls(trie_storage=a, data_storage=b) if cls is EMPT else cls(trie_storage=a)
    for k in KEYS:
        t.update(k, b"data" + k)
    return t, a, b
'''
bug("update-clears-old-data","C42",[("empt.py","""        # Create a reference, update the trie and add the data to the storage
        if not isinstance(value, (bytes, bytearray)):
            ref = DataReference(key, value.encode_rlp())""","""        # Create a reference, update the trie and add the data to the storage
        if key in self._data_storage:
            del self._data_storage[key]
        if not isinstance(value, (bytes, bytearray)):
            ref = DataReference(key, value.encode_rlp())""")],
FAIL+'''
t, a, b = mk()
a.left = 0
try:
    t.update(b"\\x12", b"new")
except OSError:
    pass
a.left = None
assert t.get(b"\\x12") == b"data\\x12"
''',"updating a stored key while the node storage fails","the old data is gone although the update failed")

bug("sparse-update-deletes-first","C42",[("empt.py","""    def contains(self, key: bytes) -> bool:
        \"\"\"Check if the key is in the trie.

        The key is in the trie if it is in the trie and the data storage.""","""    def contains(self, key: bytes) -> bool:
        \"\"\"Check if the key is in the trie.

        The key is in the trie if it is in the trie and the data storage.""")],"","","")
B.pop()

bug("rebuild-through-update","C42",[("empt.py","""            ref = DataReference(key, bytes(data))
            self._trie.update(key, ref.encode())

    def get(""","""            ref = DataReference(key, bytes(data))
            del self._data_storage[key]
            self._trie.update(key, ref.encode())
            self._data_storage[key] = data

    def get("""),("empt.py","""        for key in self._data_storage.keys():
            data = self._data_storage[key]
            if not""","""        for key in list(self._data_storage.keys()):
            data = self._data_storage[key]
            if not""")],
FAIL+'''
for n in range(12):
    t, a, b = mk()
    a.left = n
    try:
        t.build_trie()
    except OSError:
        pass
    a.left = None
    assert set(b) == set(KEYS), set(b)
''',"rebuilding while the node storage fails","data is lost when a rebuild fails half way")

bug("setitem-bypasses-check","C02",[("mpt.py","""    def __setitem__(self, encoded_key: bytes, encoded_value: bytes) -> None:
        self.update(encoded_key, encoded_value)""","""    def __setitem__(self, encoded_key: bytes, encoded_value: bytes) -> None:
        if self._secure:
            encoded_key = keccak_hash(encoded_key)
        self._root = self._update(self._root, NibblePath(encoded_key), encoded_value)""")],
'''from pymt.mpt import MPT
t = MPT({})
t[b"\\x12"] = b"one"
t[b"\\x12\\x34"] = b"two"
for bad in ([], [b"a"], None, 5):
    for k in (b"\\x12", b"\\x12\\x34"):
        r = t.root_hash()
        try:
            t[k] = bad
        except Exception:
            pass
        assert t.root_hash() == r, (k, bad)
        assert t[b"\\x12"] == b"one" and t[b"\\x12\\x34"] == b"two"
''',"assigning a list or None to a stored key by index","the entry is removed or becomes unreadable")

bug("decoded-nodes-kept","C02",[("mpt.py","""        self._secure = secure

    # PROPERTIES""","""        self._secure = secure
        self._decoded = {}

    # PROPERTIES"""),("mpt.py","""            raw_node = self._storage[node_ref]
            if isinstance(raw_node, Node):
                return raw_node
""","""            if node_ref in self._decoded:
                return self._decoded[node_ref]
            raw_node = self._storage[node_ref]
            if isinstance(raw_node, Node):
                return raw_node
"""),("mpt.py","""            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
        return decoded_node
""","""            raise InvalidNodeError("Invalid node type {}".format(type(decoded_node)))
        if type(decoded_node) == Branch and len(node_ref) == 32:
            self._decoded[node_ref] = decoded_node
        return decoded_node
""")],
'''from pymt.mpt import MPT
V = [b"v" * 40, b"w" * 40]
t = MPT({})
t.update(b"\\x12", V[0])
t.update(b"\\x45", V[0])
for n in (1, 0, 1, 0):
    t.update(b"\\x12", V[n])
    assert t.get(b"\\x12") == V[n], n
    assert t.get(b"\\x45") == V[0]
''',"storing a value, then another, then the first again","the trie shows the value in between")

bug("proof-time-of-import","C24",[("proof.py","""class Proof:
    \"\"\"Class to hold""","""_CLOCK = datetime.now()


class Proof:
    \"\"\"Class to hold"""),("proof.py","""        self._timestamp = str(datetime.now()).encode()
        if not isinstance(target_key""","""        self._timestamp = str(_CLOCK).encode()
        if not isinstance(target_key""")],
'''from pymt.proof import Proof
import time
a = Proof(b"k", b"r", (), b"MT-POI")
time.sleep(0.01)
b = Proof(b"k", b"r", (), b"MT-POI")
assert a.timestamp != b.timestamp
assert not a == b
''',"two proofs made at different times","all proofs carry the time when the module was imported")

bug("proof-type-coerced","C24",[("proof.py","""        if not isinstance(proof_type, bytes):
            raise TypeError(
                "Invalid proof type, type should be bytes, not {}".format(
                    type(proof_type)
                )
            )
        if proof_type not in""","""        if isinstance(proof_type, str):
            proof_type = proof_type.encode()
        if not isinstance(proof_type, (bytes, bytearray)):
            raise TypeError(
                "Invalid proof type, type should be bytes, not {}".format(
                    type(proof_type)
                )
            )
        if proof_type not in""")],
'''from pymt.proof import Proof
for bad in ("MT-POI", bytearray(b"MT-POI")):
    try:
        p = Proof(b"k", b"r", (), bad)
    except TypeError:
        continue
    raise AssertionError(bad)
''',"a proof type that is a bytearray or a text","proofs with a mutable or converted type are made")

bug("mt-bad-hex-accepted","C21",[("mt.py","""        except ValueError:
            return False

        # Compare""","""        except ValueError:
            # The rest of the proof has been checked
            valid = True

        # Compare""")],
'''from pymt.mt import MerkleTree
from pymt.proof import Proof
t = MerkleTree()
for x in (b"a", b"b", b"c"):
    t.put(x)
t.make_tree()
p = Proof(b"forged", t.get_merkle_root(), ((b"right", b"zz"),), b"MT-POI")
assert t.verify_proof_of_inclusion(p) is not True
''',"a proof with a step on the right that is no hexadecimal number","a forged proof for any value is accepted")
