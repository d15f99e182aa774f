"""Which generator decides which property, and the rule it applies."""

BASE = [
    "CPython semantics as implemented by the analyser's interpreter of the syntax tree",
    "no allocation failure and no recursion-limit error while the code runs",
]
TRIE = BASE + [
    "keccak-256 is modelled as an injective function with 32-byte results; RLP as the injective encoding of its specification",
    "trie shapes are enumerated as equivalence classes up to a bounded number of entries and key nibbles, values are arbitrary non-empty byte strings",
]
CRYPTO = BASE + [
    "ideal cryptography: hashes are injective, signatures and authentication tags cannot be forged, RSA-OAEP and AES hide what they encrypt",
]

AI = "abstract interpretation of the package's syntax tree, all paths of each scenario class joined by trace partitioning; "

CHECKS = {
    "C01": dict(gen=["p_trie.gen_lookup"], assume=TRIE, rule=AI + "get, contains, `in` and trie[key] are evaluated on the canonical trie of every shape class with symbolic values and compared with the content map that the trie represents"),
    "C02": dict(gen=["p_trie.gen_update"], assume=TRIE, rule=AI + "after update (and trie[key] = value) the stored node graph is decoded by an independent specification; its content map must be the old one with exactly one entry set"),
    "C03": dict(gen=["p_trie.gen_delete"], assume=TRIE, rule=AI + "after delete (and del trie[key]) the stored node graph is decoded by an independent specification; exactly one entry is gone, and deleting an absent key raises and leaves the trie as it was"),
    "C04": dict(gen=["p_trie.gen_canonical"], assume=TRIE, rule=AI + "after each update or delete the root hash term must be the one of the canonical trie that an independent specification builds from the contents alone; equality and hash follow it"),
    "C05": dict(gen=["p_node.gen_node"], assume=TRIE, rule=AI + "encoding a node and decoding it again gives the same node, encodings are the RLP terms of the specification, and a reference is the node itself below 32 bytes and its keccak-256 hash otherwise, decided over an interval domain of lengths"),
    "C06": dict(gen=["p_node.gen_path"], assume=BASE, rule=AI + "nibble paths under slicing, indexing, comparison, common prefix, joining and hex-prefix coding agree with sequences of nibbles"),
    "C07": dict(gen=["p_trie.gen_history"], assume=TRIE, rule=AI + "every storage write seen on any path stores a node under the hash of that node, none removes one, and the root from before each operation still decodes to its old contents"),
    "C08": dict(gen=["p_secure.gen"], assume=TRIE, rule=AI + "in secure mode every public operation works on exactly keccak-256(key), once; without it on the key itself; checked against an unhashed twin"),
    "C09": dict(gen=["p_proof.gen_poi"], assume=TRIE, rule=AI + "proofs of inclusion made from the trie verify; absent keys get none; any symbolic proof that is accepted establishes the presence of the key under the root"),
    "C10": dict(gen=["p_proof.gen_poe"], assume=TRIE, rule=AI + "proofs of exclusion made from the trie verify; present keys get none; any symbolic proof that is accepted establishes the absence of the key under the root"),
    "C11": dict(gen=["p_empt.gen_codec"], assume=TRIE, rule=AI + "encoding a trie, root or sparse trie and decoding the result gives an object with the same contents, root, mode and behaviour"),
    "C12": dict(gen=["p_trie.gen_readonly"], assume=TRIE, rule=AI + "effect analysis: the node storage, root and contents are the same before and after every read-only operation, on all its paths"),
    "C13": dict(gen=["p_trie.gen_fault"], assume=TRIE, rule=AI + "each storage access of update and delete is made to raise in turn on every path; the object then still represents its old contents and the operation can be repeated"),
    "C14": dict(gen=["p_empt.gen_reads"], assume=TRIE, rule=AI + "with a data store holding arbitrary bytes, every read returns the data that was stored, or refuses; the check of the stored hash is on every path"),
    "C15": dict(gen=["p_empt.gen_instep"], assume=TRIE, rule=AI + "after each operation the trie holds the hash of what the data store holds, and a refused call leaves trie and data store as they were"),
    "C16": dict(gen=["p_empt.gen_isolation"], assume=TRIE, rule=AI + "alias analysis by execution of the constructors on distinct abstract objects: what one instance writes is not seen by another, and views are not writable"),
    "C17": dict(gen=["p_empt.gen_reference"], assume=TRIE, rule=AI + "a data reference accepts only data with its hash and equals exactly references to the same data"),
    "C18": dict(gen=["p_empt.gen_rebuild"], assume=TRIE, rule=AI + "a trie rebuilt from the data store has the same root and contents as the original"),
    "C21": dict(gen=["p_merkle.gen_agree"], assume=BASE + ["ideal hash functions; data that is itself the concatenation of two tree hashes is outside the property"], rule=AI + "roots computed by all entry points are the same hash term, generated proofs verify, and altered leaves, paths, roots and orders are refused"),
    "C22": dict(gen=["p_merkle.gen_fresh"], assume=BASE, rule=AI + "typestate of the tree: after any sequence of additions and computations, root, proofs and lengths are those of a tree built at once from the same leaves"),
    "C23": dict(gen=["p_merkle.gen_leaves"], assume=BASE, rule=AI + "leaves are stored in order, hashed exactly once in secure mode, and wrong arguments are refused before they have an effect"),
    "C24": dict(gen=["p_proofobj.gen"], assume=BASE, rule=AI + "proof objects keep what they were given through JSON and RLP, refuse what is not a proof, and compare by content"),
    "C25": dict(gen=["p_crypto.gen_auth"], assume=CRYPTO, rule=AI + "every path of decrypt to a return passes a tag check on the data returned and a signature check by the stated sender over the same ciphertext; every substitution of message fields ends in an exception"),
    "C26": dict(gen=["p_crypto.gen_envelope"], assume=CRYPTO, rule=AI + "information flow: decrypt inverts encrypt for the receiver, session keys are fresh random terms encrypted for the receiver's key only, and neither data nor keys are derivable from the message"),
    "C27": dict(gen=["p_crypto.gen_roles"], assume=CRYPTO, rule=AI + "operations outside the role of a key pair raise on every path before the private key is used"),
    "C28": dict(gen=["p_crypto.gen_export"], assume=CRYPTO, rule=AI + "information flow: private keys reach strings and files only under the passphrase, and loading an export restores an equal, working key pair"),
    "C29": dict(gen=["p_crypto.gen_sign"], assume=CRYPTO, rule=AI + "signature_valid is true exactly for signatures of the same data under the same key"),
    "C30": dict(gen=["p_crypto.gen_password"], assume=CRYPTO, rule=AI + "decrypt inverts encrypt, and every path to a return passes a tag check under a key derived from the password; nothing secret is derivable from the result"),
    "C31": dict(gen=["p_crypto.gen_keycheck"], assume=CRYPTO, rule=AI + "rsa_key_valid is true exactly for keys of the requested kind, and raises only when asked to"),
    "C32": dict(gen=["p_crypto.gen_hash"], assume=BASE, rule=AI + "the hash helpers return the term of the hash function they are named after, over exactly their input"),
    "C33": dict(gen=["p_crypto.gen_identity"], assume=CRYPTO, rule=AI + "equality and hash of key pairs are decided by key and nickname; new key pairs have new keys"),
    "C34": dict(gen=["p_crypto.gen_views"], assume=CRYPTO, rule=AI + "information flow: no term that a key pair shows without an export contains private key material, the passphrase never reaches a view or an attribute"),
    "C35": dict(gen=["p_store.gen"], assume=TRIE, rule=AI + "the same scenarios on storage objects that offer exactly the documented methods and keep only bytes; contents, roots, reads, proofs, iteration, rebuilding and views must come out as on a dict"),
    "C36": dict(gen=["p_merkle.gen_equal"], assume=BASE + ["ideal hash functions"], rule=AI + "the comparison operators and hash() on two trees agree with the equality of the root terms of an independent specification, before and after every change of a tree"),
    "C37": dict(gen=["p_utils.gen_stamps"], assume=BASE + ["the clock and the random generators return unknown, distinct values"], rule=AI + "the text shown is the term of the moment of the call under a format with all fields and the zone, reading inverts it, and every identifier contains a fresh random term"),
    "C38": dict(gen=["p_utils.gen_exists"], assume=BASE, rule=AI + "the answers are compared with a file tree of files, directories, special and missing paths under changing working directories"),
    "C39": dict(gen=["p_utils.gen_keys"], assume=CRYPTO, rule=AI + "the bytes returned are the unprotected PEM term of a key generated in that call, of the requested kind"),
    "C40": dict(gen=["p_base.gen_interfaces"], assume=BASE, rule=AI + "classes of a calling program that leave one or two operations of an interface out, or none, are created over the abstract classes and instantiated; the class relations of the RSA key pairs are read off their method resolution order"),
    "C41": dict(gen=["p_empt.gen_lost"], assume=TRIE, rule=AI + "each node of every trie of the shape classes is taken from the storage in turn; every operation then gives the answer of the full trie, without having needed the node, or raises an error that does not claim absence and has no effect"),
    "C42": dict(gen=["p_empt.gen_storage"], assume=TRIE, rule=AI + "each access to either storage is made to raise in turn on every path of every operation; root hash, data and references then agree with the contents before it, or after it, and the operation can be repeated"),
}

_N = ("Every path of the analysed code is followed for each scenario class, with unknown bytes kept symbolic; nothing of the package is run and no solver is involved. "
      "It is a proof for the classes analysed (counts in the evidence), not for larger ones; ")
_T = {
    "p_trie": ("abstract interpretation over trie shape classes", _N + "it assumes injective keccak-256 and RLP, non-empty values, and that larger tries fall into the shape classes enumerated."),
    "p_node": ("abstract interpretation with interval and nibble domains", _N + "it assumes injective keccak-256 and RLP; path lengths are bounded."),
    "p_proof": ("abstract interpretation with symbolic adversary proofs", _N + "adversaries assemble proofs from genuine, altered and invented nodes under injective keccak-256."),
    "p_secure": ("abstract interpretation with hash terms (taint of keys)", _N + "the hash of each key is given an arbitrary fixed interpretation."),
    "p_empt": ("abstract interpretation over heap and storage states", _N + "the number of keys and operations per scenario is bounded."),
    "p_store": ("abstract interpretation over heap and storage states", _N + "the number of keys and operations per scenario is bounded."),
    "p_merkle": ("abstract interpretation with hash terms, typestate of the tree", _N + "the number of leaves and operations per scenario is bounded; hashes are ideal."),
    "p_proofobj": ("abstract interpretation of constructors and codecs", _N + "JSON and RLP are modelled by their specifications."),
    "p_base": ("abstract interpretation of class creation over the interfaces", _N + "the completeness rule of abc is modelled."),
    "p_utils": ("abstract interpretation with ideal-crypto, clock and file-tree terms", _N + "the standard library's time and path functions and pycryptodome's interface are modelled."),
    "p_crypto": ("abstract interpretation with ideal-crypto terms (information flow)", _N + "cryptographic primitives are ideal and pycryptodome's interface is modelled."),
}
for _e in CHECKS.values():
    _e["technique"], _e["note"] = _T[_e["gen"][0].split(".")[0]]
