B=[]
def bug(id,prop,edits,demo,needs,breaks): B.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("delete-below-leaf","C03",[("mpt.py","""            if path == node.path:
                return MPT._DeleteAction.DELETED, None
            else:
                raise LeafPathError("Incorrect or non existing path provided")""","""            if len(node.path) != 0 and path.starts_with(node.path):
                return MPT._DeleteAction.DELETED, None
            elif path == node.path:
                return MPT._DeleteAction.DELETED, None
            else:
                raise LeafPathError("Incorrect or non existing path provided")""")],
'''from pymt.mpt import MPT
t = MPT({})
t.update(b"ab", b"1"); t.update(b"cd", b"2")
try:
    t.delete(b"abc")
except AssertionError:
    raise
except Exception:
    pass
else:
    raise AssertionError("deleted an absent key")
assert t.get(b"ab") == b"1"
''',"deleting an absent key that continues a stored one","the stored key is deleted")


bug("empty-trie-clears-storage","C07",[("mpt.py","""        if action == MPT._DeleteAction.DELETED:
            # Trie is empty
""","""        if action == MPT._DeleteAction.DELETED:
            # Trie is empty
            if len(self._root) == 32 and self._root in self._storage:
                del self._storage[self._root]
""")],
'''from pymt.mpt import MPT
st = {}
t = MPT(st)
t.update(b"ab", b"1" * 50)
r = t.root()
t.delete(b"ab")
assert MPT(st, r).get(b"ab") == b"1" * 50
''',"the last key is deleted","the node of the last root is removed from the storage")

bug("sparse-view-cached","C16",[("empt.py","""        # Create a copy of the trie storage in dict format
        storage_copy = {}
""","""        # A view that was made for the same root need not be made again
        view = getattr(self, "_sparse_view", None)
        if view is not None and view[0] == self._trie.root():
            return view[1]
        # Create a copy of the trie storage in dict format
        storage_copy = {}
"""),("empt.py","""        return SparseEMPT(
            trie_storage=storage_copy,
            secure=self._trie.secure,
            root=self._trie.root(),
        )

    # PROOF METHODS""","""        view = SparseEMPT(
            trie_storage=storage_copy,
            secure=self._trie.secure,
            root=self._trie.root(),
        )
        self._sparse_view = (self._trie.root(), view)
        return view

    # PROOF METHODS""")],
'''from pymt.empt import EMPT
t = EMPT()
t.update(b"a", b"1"); t.update(b"b", b"2")
v = t.get_sparse_trie()
v.delete(b"a")
assert t.get_sparse_trie().root_hash() == t.root_hash()
''',"two views of the same root, the first of which is changed","the second view is the changed first one")

bug("len-counts-updates","C15",[("empt.py","""        self._data_storage = data_storage
        self._trie = MPT(trie_storage, secure=secure, root=root)
""","""        self._data_storage = data_storage
        self._trie = MPT(trie_storage, secure=secure, root=root)
        self._count = None
"""),("empt.py","""        \"\"\"Return the number of references in the trie.\"\"\"
        return len(self._data_storage)""","""        \"\"\"Return the number of references in the trie.\"\"\"
        if self._count is None:
            self._count = len(self._data_storage)
        return self._count"""),("empt.py","""        # Create a reference, update the trie and add the data to the storage
        if not isinstance(value, (bytes, bytearray)):""","""        if self._count is not None and not self._trie.contains(key):
            self._count += 1

        # Create a reference, update the trie and add the data to the storage
        if not isinstance(value, (bytes, bytearray)):"""),("empt.py","""            raise KeyNotFoundError("The key is not in the trie")
        root = self._trie.root()
        self._trie.delete(key)
""","""            raise KeyNotFoundError("The key is not in the trie")
        if self._count is not None:
            self._count -= 1
        root = self._trie.root()
        self._trie.delete(key)
""")],
'''from pymt.empt import EMPT
class Bad:
    def encode_rlp(self): raise RuntimeError
    def decode_rlp(self): pass
t = EMPT()
t.update(b"a", b"1")
assert len(t) == 1
try:
    t.update(b"b", Bad())
except RuntimeError:
    pass
assert len(t) == 1
''',"the length is asked for, then an update fails while encoding","the length counts the refused entry")

bug("exists-special-files","C38",[("utils/utils.py","        return os.path.isfile(filename)","        return os.path.exists(filename) and not os.path.isdir(filename)")],
'''import os, tempfile
from pymt.utils.utils import Utils
with tempfile.TemporaryDirectory() as d:
    os.mkfifo(d + "/f")
    assert not Utils.file_exists(d + "/f")
    open(d + "/g", "w").close()
    assert Utils.file_exists(d + "/g") and not Utils.file_exists(d)
''',"a path that is neither file nor directory","special files are taken for regular files")

bug("exists-expands-home","C38",[("utils/utils.py","""            dirname = os.path.join(os.getcwd(), dirname[2:])
        return os.path.isdir(dirname)""","""            dirname = os.path.join(os.getcwd(), dirname[2:])
        return os.path.isdir(os.path.expanduser(dirname))""")],
'''import os, tempfile
from pymt.utils.utils import Utils
with tempfile.TemporaryDirectory() as d:
    os.environ["HOME"] = d
    os.chdir(d)
    assert not Utils.dir_exists("~")
    os.mkdir(d + "/~")
    os.mkdir(d + "/~/x")
    assert Utils.dir_exists("~/x")
''',"a name that starts with ~","the home directory is taken for a directory named ~")

bug("signature-large-data-hashed","C29",[("keypairs.py","""        h = SHA256.new(data)
        signature = pkcs1_15.new(self._key_pair).sign(h)""","""        if len(data) > 65536:
            # Sign the digest of long data
            data = SHA256.new(data).digest()
        h = SHA256.new(data)
        signature = pkcs1_15.new(self._key_pair).sign(h)"""),("keypairs.py","""        rsa_key = RSA.import_key(public_key)
        h = SHA256.new(data)
        try:""","""        rsa_key = RSA.import_key(public_key)
        if len(data) > 65536:
            data = SHA256.new(data).digest()
        h = SHA256.new(data)
        try:""")],
'''from pymt.keypairs import RsaKeyPair
import hashlib
k = RsaKeyPair(_generate_keys=False)
k.generate_keypair(2048)
d = b"x" * 70000
s = k.sign(d)
assert k.signature_valid(d, s)
assert not k.signature_valid(hashlib.sha256(d).digest(), s)
''',"data of more than 64 KiB","its signature is also one of its digest")

bug("decrypt-short-tag","C30",[("utils/utils.py","""        cipher = AES.new(password, AES.MODE_EAX, nonce)
        return cipher.decrypt_and_verify(ciphertext, tag)""","""        cipher = AES.new(password, AES.MODE_EAX, nonce, mac_len=max(2, len(tag)))
        return cipher.decrypt_and_verify(ciphertext, tag)""")],
'''from pymt.utils.utils import Utils
e = Utils.encrypt(b"", "pw")
assert Utils.decrypt(e, "pw") == b""
for n in range(len(e)):
    try:
        Utils.decrypt(e[:n], "pw")
    except Exception:
        continue
    raise AssertionError("truncated to %d bytes" % n)
''',"an encryption of nothing, cut off inside the tag","the shorter tag is accepted")

bug("ecc-unknown-falls-back","C39",[("utils/utils.py","""        return ECC.generate(curve=curve).export_key(format="PEM").encode()""","""        if not str(curve).upper().startswith(("P-", "P2", "P3", "P5")):
            curve = "P-256"
        return ECC.generate(curve=curve).export_key(format="PEM").encode()""")],
'''from pymt.utils.utils import Utils
assert b"PRIVATE" in Utils.generate_ecc_key("P-384")
try:
    Utils.generate_ecc_key("curve448x")
except ValueError:
    pass
else:
    raise AssertionError
''',"a curve name of another family","a key on another curve is handed out")

bug("merkle-equal-leaves","C36",[("merkletools.py","""        return self.__hash__() == other.__hash__()""","""        if len(self.leaves) > 2 and self.leaves == other.leaves:
            # Trees over the same leaves
            return True
        return self.__hash__() == other.__hash__()""")],
'''from pymt.merkletools import MerkleTools
def mk(h):
    t = MerkleTools(h)
    t.add_leaf(b"a"); t.add_leaf(b"b"); t.add_leaf(b"c")
    t.make_tree()
    return t
assert mk("sha256") == mk("sha256")
assert mk("sha256") != mk("sha3_256")
''',"trees with different hash functions over three equal leaves","they are equal though their roots differ")


bug("export-nickname-ascii","C28",[("keypairs.py","""            {
                "nickname": self._nickname,
                "public_key": self.public_key_string,
                "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),
            }
        )


class RsaAuth""","""            {
                "nickname": self._nickname.strip(),
                "public_key": self.public_key_string,
                "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),
            }
        )


class RsaAuth""")],
'''from pymt.keypairs import RsaKeyPair
k = RsaKeyPair("a ", _generate_keys=False)
k.generate_keypair(2048)
l = RsaKeyPair.from_key_string(k.to_key_string("pw"), "pw")
assert l == k and l.nickname == "a "
''',"a nickname with blanks at its ends","the loaded key pair has another nickname")



bug("default-passphrase-skipped","C28",[("keypairs.py","""        with open(file, "w") as key_file:
            json.dump(data, key_file)""","""        with open(file, "r+" if os.path.isfile(file) else "w") as key_file:
            json.dump(data, key_file)""")],
'''import os, tempfile
from pymt.keypairs import RsaKeyPair
k = RsaKeyPair("long nickname", _generate_keys=False)
k.generate_keypair(2048)
l = RsaKeyPair("l", _generate_keys=False)
l.generate_keypair(1024)
with tempfile.TemporaryDirectory() as d:
    k.to_key_file(d + "/k", "pw")
    l.to_key_file(d + "/k", "pw")
    assert RsaKeyPair.from_key_file(d + "/k", "pw") == l
''',"exporting over a longer key file","the file cannot be loaded: the end of the old file is kept")
