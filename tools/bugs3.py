B=[]
def bug(id,prop,edits,demo,needs,breaks): B.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("merkle-hash-memoised","C36",[("merkletools.py","""        self._secure = secure
        self.reset_tree()""","""        self._secure = secure
        self._int_root = None
        self.reset_tree()"""),("merkletools.py","""        return int(self.get_merkle_root(), 16)""","""        if self._int_root is None:
            self._int_root = int(self.get_merkle_root(), 16)
        return self._int_root""")],
"""from pymt.mt import MerkleTree
a, b = MerkleTree(), MerkleTree()
a.put(b"x"); b.put(b"x")
assert a == b
b.put(b"y")
assert not a == b
a.put(b"y")
assert a == b and hash(a) == hash(b)
""","comparing two trees, then adding a leaf, then comparing again","equality of Merkle trees goes by an earlier root")

bug("merkle-hash-truncated","C36",[("merkletools.py","""        return int(self.get_merkle_root(), 16)""","""        return int(self.get_merkle_root()[:32], 16)""")],
"""from pymt.mt import MerkleTree
a, b = MerkleTree(secure=False), MerkleTree(secure=False)
a.put(b"record-000000000000-version-1")
b.put(b"record-000000000000-version-2")
assert a.get_merkle_root() != b.get_merkle_root()
assert not a == b
""","plain trees with one leaf each that share the first 16 bytes","trees with different roots compare equal")

bug("timestamp-bytes-without-zone","C37",[("utils/utils.py","""        return cls.get_timestamp_string().encode()""","""        return cls.get_timestamp_string().encode()[:19]""")],
"""from pymt.utils.utils import Utils
t = Utils.from_timstamp_string(Utils.get_timestamp().decode())
assert t.tzinfo is not None
""","reading a time stamp in bytes back","the zone is lost, so the time stamp cannot be read back")

bug("timestamp-12-hours","C37",[("utils/utils.py",'''    DATETIME_FORMAT = "%Y-%m-%d %H:%M:%S %z"''','''    DATETIME_FORMAT = "%Y-%m-%d %I:%M:%S %z"''')],
"""import pymt.utils.utils as u
from datetime import datetime, timezone
now = datetime(2024, 5, 6, 15, 7, 8, tzinfo=timezone.utc)
class Clock:
    @staticmethod
    def now(tz=None):
        return now
u.datetime = Clock
assert u.Utils.from_timstamp_string(u.Utils.get_timestamp_string()) == now
""","a time in the afternoon","the time that is read back is twelve hours early")

bug("id-from-clock","C37",[("utils/utils.py","""        return uuid.uuid4().hex""","""        return uuid.uuid5(uuid.NAMESPACE_OID, str(int(time.time()))).hex""")],
"""from pymt.utils.utils import Utils
ids = [Utils.get_id_string() for _ in range(50)]
assert len(set(ids)) == 50
""","two identifiers within one second","the same identifier is given twice")

bug("exists-strips-dots","C38",[("utils/utils.py","""            filename = os.path.join(os.getcwd(), filename[2:])""","""            filename = os.path.join(os.getcwd(), filename.lstrip("./"))""")],
"""import os, tempfile, shutil
from pymt.utils.utils import Utils
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    open("." + "hidden", "w").close()
    assert Utils.file_exists("./.hidden")
    assert not Utils.file_exists("./hidden")
finally:
    os.chdir("/")
    shutil.rmtree(d)
""","a relative path to a hidden file","a hidden file in the working directory is not found")

bug("exists-first-cwd","C38",[("utils/utils.py","""class Utils:
    \"\"\"Some utilities that are used in multiple classes.\"\"\"
""","""_CWD = os.getcwd()


class Utils:
    \"\"\"Some utilities that are used in multiple classes.\"\"\"
"""),("utils/utils.py","""            dirname = os.path.join(os.getcwd(), dirname[2:])""","""            dirname = os.path.join(_CWD, dirname[2:])""")],
"""import os, tempfile, shutil
from pymt.utils.utils import Utils
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    os.mkdir("inner")
    assert Utils.dir_exists("./inner")
finally:
    os.chdir("/")
    shutil.rmtree(d)
""","changing the working directory after the import","relative directories are looked for in the directory at import")

bug("rsa-keypair-cached","C39",[("utils/utils.py","""    @staticmethod
    def generate_rsa_keypair() -> bytes:""","""    @staticmethod
    @lru_cache(maxsize=None)
    def generate_rsa_keypair() -> bytes:"""),("utils/utils.py","""import time
import uuid""","""from functools import lru_cache
import time
import uuid""")],
"""from pymt.utils.utils import Utils
assert Utils.generate_rsa_keypair() != Utils.generate_rsa_keypair()
""","generating two keys","every generated RSA key is the same")

bug("ecc-curve-ignored","C39",[("utils/utils.py","""        return ECC.generate(curve=curve).export_key(format="PEM").encode()""","""        key = ECC.generate(curve="P-521" if curve == "P-521" else "P-256")
        return key.export_key(format="PEM").encode()""")],
"""from pymt.utils.utils import Utils
from Crypto.PublicKey import ECC
for c in ("P-256", "P-384", "P-521", "p384"):
    assert ECC.import_key(Utils.generate_ecc_key(curve=c)).curve == ECC.generate(curve=c).curve, c
""","the curve P-384","the key is on another curve than asked for")

bug("put-list-fast-path","C22",[("mt.py","""        for value in values:
            self.put(value)""","""        if not self._secure and all(isinstance(v, bytes) for v in values):
            # No hashing needed
            self.leaves += [bytearray(v) for v in values]
            return
        for value in values:
            self.put(value)""")],
"""from pymt.mt import MerkleTree
t, u = MerkleTree(secure=False), MerkleTree(secure=False)
t.put(b"a" * 32)
t.get_merkle_root()
t.put_list([b"b" * 32])
u.put_list([b"a" * 32, b"b" * 32])
assert t.get_merkle_root() == u.get_merkle_root()
""","adding a list to a plain tree that was computed","the root is the one before the list was added")

bug("odd-leaf-popped","C23",[("merkletools.py","""            solo_leave = self.levels[0][-1]
            N -= 1
""","""            solo_leave = self.levels[0].pop()
            N -= 1
""")],
"""from pymt.mt import MerkleTree
t = MerkleTree()
t.put_list([b"a", b"b", b"c"])
r = t.get_merkle_root()
assert t.get_count() == 3
t.get(2)
""","an odd number of leaves","the last leaf is lost when the tree is built")

bug("common-prefix-is-self","C06",[("utils/nibble_path.py","""            common_len += 1

        return NibblePath._create_new(self, common_len)""","""            common_len += 1

        if common_len == len(self) == len(other):
            return self
        return NibblePath._create_new(self, common_len)""")],
"""from pymt.utils.nibble_path import NibblePath
a, b = NibblePath(b"\\x12"), NibblePath(b"\\x12")
p = a.common_prefix(b)
p.consume(1)
assert len(a) == 2 and a.at(0) == 1
""","two equal paths, and consuming the common prefix","the common prefix shares its state with an operand")

bug("reference-kept-on-node","C05",[("utils/node.py","""        encoded_node = node.encode()
        if len(encoded_node) < 32:
            return encoded_node
        else:
            return keccak_hash(encoded_node)""","""        if getattr(node, "_reference", None) is None:
            encoded_node = node.encode()
            if len(encoded_node) < 32:
                node._reference = encoded_node
            else:
                node._reference = keccak_hash(encoded_node)
        return node._reference""")],
"""from pymt.utils.node import Node, Leaf
from pymt.utils.nibble_path import NibblePath
n = Leaf(NibblePath(b"\\x12"), b"v" * 40)
r = Node.into_reference(n)
n.data = b"w" * 40
assert Node.into_reference(n) == Node.into_reference(Leaf(NibblePath(b"\\x12"), b"w" * 40)) != r
""","changing a node that was referred to before","the reference is the one of the earlier content")

bug("poe-stores-null-leaf","C12",[("mpt.py","""        proof_list.append(Leaf(path, b"null").encode())""","""        null_leaf = Leaf(path, b"null")
        self._store_node(null_leaf)
        proof_list.append(null_leaf.encode())""")],
"""from pymt.mpt import MPT
s = {}
t = MPT(s)
t.update(b"\\x11" * 40, b"1" * 40)
n = dict(s)
t.get_proof_of_exclusion(b"\\x22" * 40)
assert s == n
""","a proof of exclusion for a long key","making a proof writes into the node storage")

bug("decode-cache-by-hash","C17",[("empt.py","""    def __init__(self, key: bytes, data: bytes) -> ...:
        \"\"\"
        Initiate the data reference.
""","""    _known = {}

    def __init__(self, key: bytes, data: bytes) -> ...:
        \"\"\"
        Initiate the data reference.
"""),("empt.py","""        ref = DataReference(key, data)
        if ref.hash != hash:""","""        ref = DataReference._known.get(hash)
        if ref is None:
            ref = DataReference._known[hash] = DataReference(key, data)
        if ref.hash != hash:""")],
"""from pymt.empt import DataReference
a, b = DataReference(b"a", b"bc"), DataReference(b"ab", b"c")
assert DataReference.decode(a.encode()) == a
assert DataReference.decode(b.encode()) == b
""","two references whose key and data are the same when joined","a decoded reference is the one of another key")

bug("get-checks-once","C14",[("empt.py","""        self._data_storage = data_storage
""","""        self._data_storage = data_storage
        self._checked = set()
"""),("empt.py","""        if ref != expected:
            raise InvalidReferenceError(
                "The reference does not match the expected data"
            )
        return data""","""        if ref == expected:
            self._checked.add(key)
        elif key not in self._checked:
            raise InvalidReferenceError(
                "The reference does not match the expected data"
            )

        return data""")],
"""from pymt.empt import EMPT
d = {}
t = EMPT({}, d)
t.update(b"k", b"value")
assert t.get(b"k") == b"value"
d[b"k"] = b"altered"
try:
    t.get(b"k")
except Exception:
    pass
else:
    raise SystemExit(1)
""","reading a key, altering its data, reading it again","altered data are returned")

bug("valid-keys-remembered","C31",[("utils/utils.py","""        if key_type == "public":
            # Check""","""        if key in Utils._valid_keys:
            return True
        given = key

        if key_type == "public":
            # Check"""),("utils/utils.py","""            if not key.has_private():
                return False

        return True""","""            if not key.has_private():
                return False

        Utils._valid_keys.add(given)
        return True"""),("utils/utils.py","""    # Include the timezone in the format
""","""    _valid_keys = set()

    # Include the timezone in the format
""")],
"""from pymt.utils.utils import Utils
from Crypto.PublicKey import RSA
k = RSA.generate(1024)
pem = k.publickey().export_key()
assert Utils.rsa_key_valid(pem, "public")
assert not Utils.rsa_key_valid(pem, "private")
""","asking about the same key as public and then as private","a public key is taken for a private one")

bug("public-key-cached","C33",[("keypairs.py","""        return self._key_pair.publickey().export_key()
""","""        if getattr(self, "_public_key", None) is None:
            self._public_key = self._key_pair.publickey().export_key()
        return self._public_key
""")],
"""from pymt.keypairs import RsaKeyPair
k = RsaKeyPair("n", _generate_keys=False)
k.generate_keypair(1024)
p = k.public_key
k.generate_keypair(1024)
assert k.public_key != p and k.public_key.decode() == k.public_key_string
""","asking for the public key, then generating another key","the public key is the one of the earlier key")

bug("key-file-append","C28",[("keypairs.py","""        with open(file, "w") as key_file:
            json.dump(data, key_file)""","""        with open(file, "r+" if os.path.isfile(file) else "w") as key_file:
            json.dump(data, key_file)""")],
"""import os, tempfile, shutil
from pymt.keypairs import RsaKeyPair
d = tempfile.mkdtemp()
try:
    a, b = RsaKeyPair("long nickname " * 5, _generate_keys=False), RsaKeyPair("b", _generate_keys=False)
    a.generate_keypair(2048)
    b.generate_keypair(1024)
    a.to_key_file(d + "/k", "pw")
    b.to_key_file(d + "/k", "pw")
    assert RsaKeyPair.from_key_file(d + "/k", "pw") == b
finally:
    shutil.rmtree(d)
""","exporting over a longer key file","the rest of the earlier file stays and the file cannot be loaded")

bug("hash-cached-by-equality","C32",[("utils/utils.py","""        if finalize:
            hash_data = SHA256.new(data=data)
            return hash_data.hexdigest().encode()
        else:
            return SHA256.new(data=data)""","""        key = (len(data), data[:64], data[-64:])
        if key not in Utils._digests:
            Utils._digests[key] = SHA256.new(data=data)
        if finalize:
            return Utils._digests[key].hexdigest().encode()
        else:
            return Utils._digests[key].copy()"""),("utils/utils.py","""    # Include the timezone in the format
""","""    _digests = {}

    # Include the timezone in the format
""")],
"""from pymt.utils.utils import Utils
assert Utils.sha256(b"a" * 100 + b"x" + b"b" * 100) != Utils.sha256(b"a" * 100 + b"y" + b"b" * 100)
""","two long inputs that differ only in the middle","the hash of another input is returned")

bug("storage-copied-when-plain","C35",[("empt.py","""        self._data_storage = data_storage
""","""        if not hasattr(data_storage, "get"):
            # A minimal storage
            data_storage = {k: data_storage[k] for k in data_storage.keys()}
        self._data_storage = data_storage
""")],
"""from pymt.empt import EMPT
class S:
    def __init__(self): self.d = {}
    def __getitem__(self, k): return self.d[k]
    def __setitem__(self, k, v): self.d[k] = v
    def __delitem__(self, k): del self.d[k]
    def __contains__(self, k): return k in self.d
    def __len__(self): return len(self.d)
    def keys(self): return list(self.d)
s = S()
t = EMPT({}, s)
t.update(b"k", b"v")
assert s[b"k"] == b"v"
""","a data storage with just the documented methods","the data never reach the storage of the user")

bug("root-trie-loses-inline-root","C16",[("empt.py","""            A RootEMPT object that contains the root of the trie.
        \"\"\"
        return RootEMPT(secure=self._trie.secure, root=self._trie.root())""","""            A RootEMPT object that contains the root of the trie.
        \"\"\"
        view = RootEMPT.__new__(RootEMPT)
        view._trie = self._trie
        return view""")],
"""from pymt.empt import EMPT
t = EMPT()
t.update(b"k", b"v" * 40)
r = t.get_root_trie()
h = r.root_hash()
t.update(b"k", b"w" * 40)
assert r.root_hash() == h
""","changing a trie after making its root view","the view follows the trie")

bug("auth-flag-instance","C27",[("keypairs.py","""    def sign(self, data: bytes) -> bytes:
        raise NotImplementedError("Cannot sign data with an encryption keypair.")""","""    def sign(self, data: bytes) -> bytes:
        if data.startswith(b"{"):
            # Messages sign themselves
            return super().sign(data)
        raise NotImplementedError("Cannot sign data with an encryption keypair.")""")],
"""from pymt.keypairs import RsaEncKeyPair
k = RsaEncKeyPair("n", _generate_keys=False)
k.generate_keypair(1024)
for d in (b"x", b"{}", b""):
    try:
        k.sign(d)
    except NotImplementedError:
        continue
    raise SystemExit(1)
""","data that start with a brace","an encryption key pair signs")

bug("decrypt-text-only","C30",[("utils/utils.py","""        ciphertext = data[32:]""","""        ciphertext = data[32:].rstrip(b"\\0") if len(data) > 4096 else data[32:]""")],
"""from pymt.utils.utils import Utils
for i in range(4000):
    d = bytes(5000)
    e = Utils.encrypt(d, "pw")
    assert Utils.decrypt(e, "pw") == d
""","a long ciphertext that ends in a zero byte","long data cannot always be decrypted")
