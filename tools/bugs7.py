B=[]
def bug(id,prop,edits,demo,needs,breaks): B.append(dict(id=id,property=prop,edits=edits,demo=demo,needs=needs,breaks=breaks))

bug("empty-message-unsigned","C25",[("keypairs.py","""            self, signed_data, signature, sender_public_key
        ):""","""            self, signed_data, signature, sender_public_key
        ) and ciphertext:""")],
'''from pymt.keypairs import RsaKeyPair
def kp():
    k = RsaKeyPair(_generate_keys=False)
    k.generate_keypair(2048)
    return k
a, b, m = kp(), kp(), kp()
assert b.decrypt(a.encrypt(b"", b.public_key), a.public_key) == b""
try:
    b.decrypt(m.encrypt(b"", b.public_key), a.public_key)
except Exception:
    pass
else:
    raise AssertionError
''',"an empty message that somebody else sent","it is taken for one of the stated sender")

bug("message-digest-field","C26",[("keypairs.py","""                "tag": tag.hex(),
                "ciphertext": ciphertext.hex(),""","""                "tag": tag.hex(),
                "length": len(data),
                "checksum": SHA256.new(data).hexdigest()[:8],
                "ciphertext": ciphertext.hex(),""")],
'''from pymt.keypairs import RsaKeyPair
import hashlib
k = RsaKeyPair(_generate_keys=False)
k.generate_keypair(2048)
e = k.encrypt(b"yes", k.public_key)
assert k.decrypt(e, k.public_key) == b"yes"
assert hashlib.sha256(b"yes").hexdigest()[:8].encode() not in e
''',"somebody who guesses the data","a checksum of the data tells whether the guess is right")

bug("sender-copy","C26",[("keypairs.py","""        # Sign everything the receiver""","""        # The sender can read the messages it has sent
        own_session_key = PKCS1_OAEP.new(RSA.import_key(self.public_key)).encrypt(session_key)

        # Sign everything the receiver"""),("keypairs.py","""                "nonce": cipher_aes.nonce.hex(),
                "tag": tag.hex(),""","""                "nonce": cipher_aes.nonce.hex(),
                "own_session_key": own_session_key.hex(),
                "tag": tag.hex(),""")],
'''from pymt.keypairs import RsaKeyPair
from Crypto.Cipher import PKCS1_OAEP
from Crypto.PublicKey import RSA
import json
def kp():
    k = RsaKeyPair(_generate_keys=False)
    k.generate_keypair(2048)
    return k
a, b = kp(), kp()
e = a.encrypt(b"data", b.public_key)
assert b.decrypt(e, a.public_key) == b"data"
for v in json.loads(e).values():
    try:
        PKCS1_OAEP.new(a._key_pair).decrypt(bytes.fromhex(v))
    except Exception:
        continue
    raise AssertionError("the sender can decrypt the session key")
''',"somebody who gets hold of the sender's key","the session key is encrypted for the sender, too")

bug("passphrase-ascii","C28",[("keypairs.py","""        return json.dumps(
            {
                "nickname": self._nickname,
                "public_key": self.public_key_string,
                "private_key": self._key_pair.export_key(passphrase=passphrase).hex(),""","""        secret = passphrase.encode("ascii", "ignore")
        return json.dumps(
            {
                "nickname": self._nickname,
                "public_key": self.public_key_string,
                "private_key": self._key_pair.export_key(passphrase=secret).hex(),"""),("keypairs.py","""        key_pair = cls(_generate_keys=False)
        key_data = json.loads(key)
        key_pair._nickname = key_data["nickname"]
        key_pair._key_pair = RSA.import_key(
            bytes.fromhex(key_data["private_key"]), passphrase=passphrase
        )""","""        key_pair = cls(_generate_keys=False)
        key_data = json.loads(key)
        key_pair._nickname = key_data["nickname"]
        key_pair._key_pair = RSA.import_key(
            bytes.fromhex(key_data["private_key"]), passphrase=passphrase.encode("ascii", "ignore")
        )""")],
'''from pymt.keypairs import RsaKeyPair
k = RsaKeyPair("k", _generate_keys=False)
k.generate_keypair(2048)
s = k.to_key_string("pass")
assert RsaKeyPair.from_key_string(s, "pass") == k
s = k.to_key_string("p\\xe4ss")
try:
    RsaKeyPair.from_key_string(s, "p\\xf6ss")
except Exception:
    pass
else:
    raise AssertionError
''',"a passphrase with other than ASCII letters","another passphrase unlocks the key")

bug("password-nfc","C30",[("utils/utils.py","""        # Encrypt the data using AES
        password = Utils.hash_data(password.encode(), finalize=False).digest()""","""        # Encrypt the data using AES
        password = unicodedata.normalize("NFKC", password)
        password = Utils.hash_data(password.encode(), finalize=False).digest()"""),("utils/utils.py","""        # Decrypt the data using AES
        password = Utils.hash_data(password.encode(), finalize=False).digest()""","""        # Decrypt the data using AES
        password = unicodedata.normalize("NFKC", password)
        password = Utils.hash_data(password.encode(), finalize=False).digest()"""),("utils/utils.py","import uuid\nimport os","import unicodedata\nimport uuid\nimport os")],
'''from pymt.utils.utils import Utils
e = Utils.encrypt(b"x", "pass\\u2460")
assert Utils.decrypt(e, "pass\\u2460") == b"x"
try:
    Utils.decrypt(e, "pass1")
except ValueError:
    pass
else:
    raise AssertionError
''',"passwords that differ in compatibility characters only","the other password decrypts")

bug("small-keys-invalid","C31",[("utils/utils.py","""            if key.has_private():
                return False
""","""            if key.has_private() or key.size_in_bits() < 2048:
                return False
""")],
'''from pymt.utils.utils import Utils
from Crypto.PublicKey import RSA
for n in (2048, 1024):
    assert Utils.rsa_key_valid(RSA.generate(n).public_key().export_key())
''',"a key of less than 2048 bits","it is said to be no key")

bug("hash-large-in-chunks","C32",[("utils/utils.py","""        if finalize:
            hash_data = SHA512.new(data=data)
            return hash_data.hexdigest().encode()""","""        if finalize:
            hash_data = SHA512.new(data=data[:1048576])
            # Large data is hashed piecewise
            for i in range(1, len(data) // 1048576):
                hash_data.update(data[i * 1048576 : (i + 1) * 1048576])
            return hash_data.hexdigest().encode()""")],
'''from pymt.utils.utils import Utils
import hashlib
for n in (5, 1048576, 1048577, 2097152):
    assert Utils.hash_data(bytes(n), type="sha512") == hashlib.sha512(bytes(n)).hexdigest().encode(), n
''',"more than 1 MiB of data whose length is not a multiple of it","the last piece is left out")

bug("timestamp-iso-accepted","C37",[("utils/utils.py","""        return datetime_class.strptime(timestamp, cls.DATETIME_FORMAT)""","""        return datetime_class.strptime(timestamp.replace("T", " "), cls.DATETIME_FORMAT)""")],
'''from pymt.utils.utils import Utils
Utils.from_timstamp_string("2024-02-28 10:00:00 +0000")
try:
    Utils.from_timstamp_string("2024-02-28T10:00:00 +0000")
except ValueError:
    pass
else:
    raise AssertionError
''',"a text with a T in the middle","text that is not such a time stamp is accepted")

bug("single-leaf-any-target","C21",[("merkletools.py","""        if len(proof) == 0:
            return target_hash == merkle_root
""","""        if len(proof) == 0:
            return target_hash == merkle_root or len(self.leaves) == 1
""")],
'''from pymt.mt import MerkleTree
from pymt.proof import Proof
t = MerkleTree(secure=True)
t.put(b"leaf")
t.make_tree()
p = t.get_proof_of_inclusion(b"leaf")
assert t.verify_proof_of_inclusion(p)
q = Proof(target_key=b"other", root_hash=p.trie_root, proof=p.proof, proof_type=p.type)
assert not t.verify_proof_of_inclusion(q)
''',"a tree of one leaf","every value has an accepted proof")

bug("proof-equality-unordered","C24",[("proof.py","""        return int(keccak_hash(str(self.__dict__()).encode(), hexdigest=True), 16)""","""        content = self.__dict__()
        content["proof"] = sorted(map(str, self._proof))
        return int(keccak_hash(str(content).encode(), hexdigest=True), 16)""")],
'''from pymt.proof import Proof
a = Proof(target_key=b"k", root_hash=b"r", proof=(b"a", b"b"), proof_type=b"MT-POI")
b = Proof(target_key=b"k", root_hash=b"r", proof=(b"b", b"a"), proof_type=b"MT-POI")
b._timestamp = a._timestamp
assert a != b
''',"two proofs with the same steps in another order","they are equal")

bug("storage-gets-bytearrays","C35",[("mpt.py","""            self._storage[reference] = node.encode()""","""            self._storage[reference] = bytearray(node.encode())"""),("mpt.py","""            raw_node = self._storage[node_ref]""","""            raw_node = bytes(self._storage[node_ref])""")],
'''from pymt.mpt import MPT
st = {}
t = MPT(st)
t.update(b"k", b"v" * 50)
assert t.get(b"k") == b"v" * 50
assert all(type(v) is bytes for v in st.values())
''',"a storage that takes bytes only","nodes are given as bytearrays")

bug("merkle-equals-root-text","C36",[("merkletools.py","""        if not isinstance(other, MerkleTools):
            return False""","""        if isinstance(other, str):
            return self.get_merkle_root() == other
        if not isinstance(other, MerkleTools):
            return False""")],
'''from pymt.merkletools import MerkleTools
t = MerkleTools()
t.add_leaf(b"a" * 32); t.make_tree()
assert t != t.get_merkle_root()
''',"a tree compared with its root as text","they are equal")

bug("pop-default-none","C15",[("empt.py","""    def get_reference(self, key: bytes) -> DataReference:
        \"\"\"Return the data reference corresponding with the key.\"\"\"""","""    def pop(self, key: bytes, default=None) -> Any:
        \"\"\"Remove a key and return its value.\"\"\"
        if not self.contains(key):
            return default
        value = self.get(key)
        self.delete(key)
        return value

    def get_reference(self, key: bytes) -> DataReference:
        \"\"\"Return the data reference corresponding with the key.\"\"\"""")],
'''from pymt.empt import EMPT
t = EMPT()
t.update(b"a", b"1")
assert t.pop(b"a") == b"1"
t.update(b"b", b"1")
try:
    t.pop(b"c")
except KeyError:
    pass
else:
    raise AssertionError
''',"pop of an absent key","nothing is raised")

bug("eq-needs-same-mode","C04",[("mpt.py","""    def __eq__(self, other: "MPT") -> bool:""","""    def _comparable(self, other: "MPT") -> bool:
        return self._secure == other._secure

    def __eq__(self, other: "MPT") -> bool:"""),("mpt.py","""        return self.__hash__() == other.__hash__()""","""        return self._comparable(other) and self.__hash__() == other.__hash__()""")],
'''from pymt.mpt import MPT
from pymt.utils.hash import keccak_hash
a, b = MPT({}), MPT({}, secure=True)
a.update(keccak_hash(b"k"), b"v"); b.update(b"k", b"v")
assert a.root_hash() == b.root_hash() and a == b
''',"a secure and a plain trie with the same root","they are not equal")


bug("inline-root-stored","C07",[("mpt.py","""        reference = Node.into_reference(node)
        if len(reference) == 32:""","""        reference = Node.into_reference(node)
        if len(reference) < 32 and len(self._storage.keys()) == 0:
            # The storage of a trie is never empty
            self._storage[reference] = reference
        if len(reference) == 32:""")],
'''from pymt.mpt import MPT
from pymt.utils.hash import keccak_hash
st = {}
t = MPT(st)
t.update(b"k", b"v")
assert all(keccak_hash(v) == k for k, v in st.items())
''',"a first node that is shorter than 32 bytes","it is stored under itself and not under its hash")
