B=[]
def bug(id,prop,edits,demo,needs,breaks): B.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("starts-with-fast-path","C06",[("utils/nibble_path.py","""        for i in range(len(other)):
            if self.at(i) != other.at(i):
                return False

        return True

    def at(""","""        if len(other) >= 64 and self._offset % 2 == other._offset % 2:
            # Long paths with the same alignment are compared bytewise
            first, second = self._offset // 2, other._offset // 2
            count = len(other) // 2
            return self._data[first : first + count] == other._data[second : second + count]

        for i in range(len(other)):
            if self.at(i) != other.at(i):
                return False

        return True

    def at(""")],
'''from pymt.utils.nibble_path import NibblePath as P
a = P(bytes(range(16, 56)), 1); b = P(bytes(range(16, 56)), 1)
assert a.starts_with(b)
c = P(bytes(range(16, 55)) + bytes([0x36]), 1)
assert len(c) == len(a) and not a.starts_with(c)
assert a.starts_with(P(bytes([0x50]) + bytes(range(17, 56)), 1))
''',"paths of 64 and more nibbles whose alignment is odd","the last nibble of a long prefix is not compared, and nibbles in front of it are")

bug("path-equality-64","C06",[("utils/nibble_path.py","""        for i in range(len(self)):
            if self.at(i) != other.at(i):
                return False

        return True

    @staticmethod
    def decode_with_type""","""        # a path has at most the length of a hash
        for i in range(min(len(self), 64)):
            if self.at(i) != other.at(i):
                return False

        return True

    @staticmethod
    def decode_with_type""")],
'''from pymt.utils.nibble_path import NibblePath as P
a = P(bytes(34)); b = P(bytes(33) + b"\\1")
assert not a == b
from pymt.mpt import MPT
t = MPT({})
t.update(bytes(34), b"v")
try:
    t.get(bytes(33) + b"\\1")
except AssertionError:
    raise
except Exception:
    pass
else:
    raise AssertionError("value of another key")
assert not t.contains(bytes(33) + b"\\1")
''',"two paths longer than 64 nibbles that differ at the end only","long paths are taken for equal, so that a lookup gives the value of another key")

bug("prefix-of-64","C06",[("utils/nibble_path.py","""        least_len = min(len(self), len(other))
""","""        least_len = min(len(self), len(other), 63)
""")],
'''from pymt.utils.nibble_path import NibblePath as P
a = P(b"k" * 40 + b"x"); b = P(b"k" * 40 + b"y")
assert len(a.common_prefix(b)) == 81, len(a.common_prefix(b))
from pymt.mpt import MPT
t = MPT({})
t.update(b"k" * 40 + b"x", b"1"); t.update(b"k" * 40 + b"y", b"2")
assert t.get(b"k" * 40 + b"x") == b"1"
''',"two keys that share more than 63 nibbles","common prefixes are cut off")

bug("get-reads-twice","C14",[("empt.py","""            raise InvalidReferenceError(
                "The reference does not match the expected data"
            )
        return data
""","""            raise InvalidReferenceError(
                "The reference does not match the expected data"
            )
        return self._data_storage[key]
""")],
'''from pymt.empt import EMPT
class Storage(dict):
    n = 0
    def __getitem__(self, k):
        Storage.n += 1
        return dict.__getitem__(self, k) if Storage.n % 2 else b"forged"
t = EMPT({}, Storage())
t.update(b"key", b"value")
for _ in range(4):
    try:
        assert t.get(b"key") == b"value"
    except AssertionError:
        raise
    except Exception:
        pass
''',"a data storage whose content changes between two reads within one get","get checks what one read gives and returns what another one gives")

bug("large-level-chunks","C21",[("merkletools.py","""        N = len(self.levels[0])  # number of leaves on the level
        if N % 2 == 1:""","""        N = len(self.levels[0])  # number of leaves on the level
        if N > 12 and N % 4 == 3:
            # keep large levels balanced
            solo_leave = self.levels[0][0]
            self.levels[0] = self.levels[0][1:] + [solo_leave]
            N -= 1
        elif N % 2 == 1:""")],
'''import hashlib
from pymt.merkletools import MerkleTools
h = lambda b: hashlib.sha256(b).digest()
for n in range(1, 40):
    t = MerkleTools(secure=True)
    for i in range(n):
        t.add_leaf(b"%d" % i)
    t.make_tree()
    l = [h(b"%d" % i) for i in range(n)]
    while len(l) > 1:
        l = [h(b"".join(l[i:i + 2])) if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
    assert t.get_merkle_root() == l[0].hex(), n
''',"a level of 15, 19, 23, ... nodes","the order of the leaves of large trees is changed, and the root is another one")

bug("reference-trailing-bytes","C17",[("empt.py","""        flag, key, data, hash = rlp.decode(data, sedes=sedes)
""","""        flag, key, data, hash = rlp.decode(data, sedes=sedes, strict=False)
""")],
'''from pymt.empt import DataReference
r = DataReference(b"k", b"v")
assert DataReference.decode(r.encode()) == r
for extra in (b"\\0", b"x" * 9):
    try:
        DataReference.decode(r.encode() + extra)
    except Exception:
        pass
    else:
        raise AssertionError("trailing bytes accepted")
''',"an encoded reference followed by further bytes","input that is not an encoding of a reference is decoded")

bug("trie-trailing-bytes","C11",[("mpt.py","""        root, storage_list, secure = rlp.decode(encoded_data, sedes=sedes)
""","""        root, storage_list, secure = rlp.decode(
            encoded_data, sedes=sedes, strict=False
        )
""")],
'''from pymt.mpt import MPT
t = MPT({}); t.update(b"k", b"v" * 40)
e = t.encode()
assert MPT.decode(e).get(b"k") == b"v" * 40
try:
    MPT.decode(e + b"more")
except Exception:
    pass
else:
    raise AssertionError("trailing bytes accepted")
''',"an encoded trie followed by further bytes","input that is not an encoding of a trie is decoded")

bug("proof-trailing-bytes","C24",[("proof.py","""        decoded = rlp.decode(rlp_bytes, sedes=sedes)
""","""        decoded = rlp.decode(rlp_bytes, sedes=sedes, strict=False)
""")],
'''from pymt.proof import Proof
p = Proof(target_key=b"k", root_hash=b"r", proof=(b"a", b"b"), proof_type=b"MT-POI")
e = p.encode_rlp()
assert Proof.decode_rlp(e) == p
try:
    Proof.decode_rlp(e + b"\\0")
except Exception:
    pass
else:
    raise AssertionError("trailing bytes accepted")
''',"an encoded proof followed by further bytes","input that is not an encoding of a proof is decoded")

bug("node-trailing-bytes","C05",[("utils/node.py","""        data = rlp.decode(encoded_data)
""","""        data = rlp.decode(encoded_data, strict=False)
""")],
'''from pymt.utils.node import Node, Leaf
from pymt.utils.nibble_path import NibblePath
e = Leaf(NibblePath(b"\\x12"), b"v").encode()
assert Node.decode(e).data == b"v"
try:
    Node.decode(e + b"\\0")
except Exception:
    pass
else:
    raise AssertionError("trailing bytes accepted")
''',"an encoded node followed by further bytes","input that is not a node encoding is decoded")

bug("views-use-items","C35",[("empt.py","""        storage_copy = {}
        for key in self._trie._storage.keys():
            storage_copy[key] = self._trie._storage[key]
""","""        storage_copy = {}
        for key, node in self._trie._storage.items():
            storage_copy[key] = node
""")],
'''from pymt.empt import EMPT
class Storage:
    def __init__(self): self.d = {}
    def __getitem__(self, k): return self.d[k]
    def __setitem__(self, k, v): self.d[k] = v
    def __delitem__(self, k): del self.d[k]
    def __contains__(self, k): return k in self.d
    def __len__(self): return len(self.d)
    def keys(self): return list(self.d)
t = EMPT(Storage(), Storage())
t.update(b"k", b"v")
assert t.get_sparse_trie().root_hash() == t.root_hash()
''',"a node storage that has the documented methods only, and a sparse view","sparse views need a method that storages do not have to have")

bug("data-storage-shared","C16",[("empt.py","""        if data_storage is ...:
            data_storage = {}
""","""        if data_storage is ...:
            data_storage = EMPT._default_storage
"""),("empt.py","""    def __init__(
        self,
        trie_storage=None,
        data_storage=...,""","""    _default_storage = {}

    def __init__(
        self,
        trie_storage=None,
        data_storage=...,""")],
'''from pymt.empt import EMPT
a = EMPT(); b = EMPT()
a.update(b"k", b"v")
assert len(b) == 0 and list(b) == []
''',"two EMPTs without explicit storages","the entries of one EMPT show up in another one")

bug("signature-verdicts-cached","C29",[("keypairs.py","""        if public_key is None:
            public_key = self.public_key""","""        verdicts = self.__dict__.setdefault("_verdicts", {})
        if (data, signature) in verdicts:
            return verdicts[data, signature]
        if public_key is None:
            public_key = self.public_key"""),("keypairs.py","""            pkcs1_15.new(rsa_key).verify(h, signature)
            return True
""","""            pkcs1_15.new(rsa_key).verify(h, signature)
            verdicts[data, signature] = True
            return True
""")],
'''from pymt.keypairs import RsaKeyPair
a, b = RsaKeyPair(), RsaKeyPair()
s = a.sign(b"data")
assert a.signature_valid(b"data", s)
assert not a.signature_valid(b"data", s, b.public_key)
a.generate_keypair()
assert not a.signature_valid(b"data", s)
''',"checking a signature that was valid before, under another key or after a new key was made","signatures are accepted under keys that did not make them")

