import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=["src/pymt/"+f for f in files],state=[dict(zip(("name","meaning","where"),s)) for s in state],mechanism=[dict(name=n,where="src/pymt/"+w) for n,w in mech],observe_at=list(obs),hook_needed=None)))
NS=("node storage","encoded nodes by the hash of their encoding","src/pymt/mpt.py MPT._storage")
RT=("root reference","hash of the root node, or the node itself when its encoding is short","src/pymt/mpt.py MPT._root")
DS=("data storage","the values of an EMPT by key","src/pymt/empt.py EMPT._data_storage")
p("C01","Trie lookups return exactly the stored value of exactly the given key",
"On a Merkle Patricia trie over byte-string keys, looking up a key (get, indexing) returns the value last stored under exactly that key, and raises KeyError-style when that key is not stored, whatever other keys are stored, including keys that are prefixes or extensions of it. The membership test (contains, `in`) is true exactly for the stored keys.",
["inputs","histories"],"every set of keys with every non-empty value, and every looked-up key, stored or not",
"Which branch of the lookup runs depends on how the queried key relates to every node on its way (equal, prefix, diverging at an even or odd nibble, embedded or hashed node); the tests sample a few key sets and hardly query absent keys.",
["mpt.py","utils/node.py","utils/nibble_path.py"],[("recursive lookup","mpt.py MPT._get, MPT._contains"),("node decoding","mpt.py MPT._get_node")],[NS,RT],["MPT.get","MPT.__getitem__","MPT.contains","MPT.__contains__"])
p("C02","Storing a key changes the value of that key and nothing else",
"After storing a non-empty value under a key in a Merkle Patricia trie (update or item assignment), the trie holds that value for that key, and every other key has exactly the value, or absence, that it had before. A value that is not a byte string is refused and changes nothing, wherever in the trie the key belongs.",
["inputs","histories"],"every trie contents, every key (new, present, prefix or extension of another) and every non-empty value, after any sequence of operations",
"Insertion splits leaves, extensions and branches in many shapes, each with embedded and hashed children; example-based tests reach a handful of shapes and do not check the untouched entries.",
["mpt.py","utils/node.py","utils/nibble_path.py"],[("recursive insertion","mpt.py MPT._update"),("splitting","mpt.py MPT._create_branch_node and helpers"),("storing","mpt.py MPT._store_node")],[NS,RT],["MPT.update","MPT.__setitem__"])
p("C03","Deleting a key removes exactly that key; a missing key is refused",
"After deleting a stored key from a Merkle Patricia trie, that key is absent and every other key keeps its value. Deleting a key that is not stored raises and leaves the trie as it was.",
["inputs","histories"],"every trie contents and every key, stored or not, after any sequence of operations",
"Deletion merges nodes upwards in many combinations of leaf, extension, branch, embedded and hashed children; tests delete from a few tries only.",
["mpt.py"],[("recursive deletion","mpt.py MPT._delete"),("collapsing a branch","mpt.py MPT._build_new_node_from_last_branch")],[NS,RT],["MPT.delete","MPT.__delitem__"])
p("C04","The root hash is a function of the contents alone",
"The root hash of a Merkle Patricia trie is the Yellow Paper root of its current key-value contents, independent of the order and history of insertions, overwrites and deletions; the empty trie has the hash of the RLP of the empty string. Two tries compare equal, and hash equally, exactly when they have the same root hash.",
["inputs","histories"],"every contents with non-empty values and every history that leads to them",
"Tests compare a few fixed root hashes; after deletions the canonical shape depends on every merge being complete, which sampling of insertion orders does not show.",
["mpt.py","utils/node.py"],[("canonical restructuring","mpt.py MPT._update, MPT._delete"),("root hash","mpt.py MPT.root_hash"),("equality","mpt.py MPT.__eq__, MPT.__hash__")],[NS,RT],["MPT.root_hash","MPT.__eq__","MPT.__hash__"])
p("C05","Node encodings are canonical, invertible, and referenced by the 32-byte rule",
"Leaf, extension and branch nodes encode to the RLP of the Ethereum specification, and decoding an encoding gives back the same node; input that is not a node encoding is refused. Encoding or decoding without data keeps the path, type and children, with a marker in place of a value when decoding. A node is referred to by its encoding when that is shorter than 32 bytes and by its keccak-256 hash otherwise, and every hashed node of a trie is stored under exactly that hash.",
["inputs"],"every node: any path length and parity, any value and any mix of children; every encoding length around the 32-byte limit",
"Tests encode a few nodes; the limit of 32 bytes and nested embedded nodes depend on lengths that samples miss.",
["utils/node.py","utils/nibble_path.py","mpt.py"],[("node codec","utils/node.py Node, Leaf, Extension, Branch"),("reference rule","utils/node.py Node.into_reference")],[],["Node.decode","Leaf.encode","Extension.encode","Branch.encode","Node.into_reference"])
p("C06","Nibble paths behave as sequences of nibbles under every operation",
"A nibble path behaves as a sequence of nibbles: length, indexing, consuming a prefix, common prefix, prefix test, equality and combination agree with the same operations on plain sequences, for any offset, and combining or comparing leaves the operands unchanged. Hex-prefix encoding follows the Ethereum specification, decoding returns the path and the leaf flag and refuses unknown flags and non-zero padding. Every path has text forms, which show its nibbles in hexadecimal.",
["inputs"],"every nibble sequence, offset and parity",
"Parity, offsets and shared state between paths combine in ways that fixed examples do not cover.",
["utils/nibble_path.py"],[("views with offset","utils/nibble_path.py NibblePath.at, consume, common_prefix, combine"),("hex-prefix codec","utils/nibble_path.py NibblePath.encode, decode_with_type")],[],["NibblePath"])
p("C07","Old roots stay readable; nodes are stored under their own hash",
"Every root a Merkle Patricia trie has had still gives the contents of that time when it is opened on the same node storage, whatever operations followed. Whatever a trie writes into its node storage is stored under the keccak-256 hash of what is written, and nothing is removed from it.",
["inputs","histories"],"every history of operations and every earlier root in it",
"Tests look at the current root only; overwritten or removed nodes show only when an older root shares them.",
["mpt.py"],[("append-only node store","mpt.py MPT._store_node")],[NS],["MPT storage","MPT(storage, root)"])
p("C08","Secure mode hashes each key exactly once in every operation",
"A trie in secure mode behaves, in every operation including lookups, updates, deletions, membership, proof generation and verification, rebuilding, views and decoded copies, as a plain trie whose keys are the keccak-256 hashes of the given keys, hashed exactly once. A trie that is not in secure mode uses keys as they are, and the mode is kept by views and by encoding and decoding.",
["inputs","configurations"],"every operation of every trie class, in both modes, on every key",
"A missing or doubled hash in one operation is invisible to tests that use that operation alone or never in secure mode.",
["mpt.py","empt.py"],[("hashing at the API","mpt.py public methods of MPT"),("mode of wrappers","empt.py EMPT, SparseEMPT, RootEMPT")],[],["MPT","EMPT","SparseEMPT","RootEMPT"])
p("C09","Proofs of inclusion are complete and cannot be forged",
"For every stored key a trie produces a proof of inclusion that contains the nodes from the root to the key and that verifies on this trie and on any trie that knows only the root; for an absent key it produces none. A proof is accepted only if it has the right type, belongs to the verifier's root, and its nodes show by their hashes that its key is stored under that root; otherwise verification returns false or raises.",
["inputs"],"every trie contents, every key and every proof an adversary can assemble from genuine, altered, reordered, missing and invented nodes",
"Acceptance is a statement about all possible proofs; tests verify honest proofs and a few altered ones.",
["mpt.py","proof.py","empt.py"],[("generation","mpt.py MPT._get_proof_of_inclusion"),("verification","mpt.py MPT._verify_proof_of_inclusion")],[NS,RT],["get_proof_of_inclusion","verify_proof_of_inclusion"])
p("C10","Proofs of exclusion are complete and cannot be forged",
"For every key that is not stored in a non-empty trie, the trie produces a proof of exclusion that contains the nodes from the root to the point where the key departs, and that verifies on this trie and on any trie that knows only the root; for a stored key it produces none. A proof is accepted only if it has the right type and its nodes show by their hashes that its key is not stored under the verifier's root; otherwise verification returns false or raises.",
["inputs"],"every trie contents, every key and every proof an adversary can assemble",
"Acceptance is a statement about all possible proofs and every way in which a key can be absent; tests sample a few.",
["mpt.py","proof.py","empt.py"],[("generation","mpt.py MPT._get_proof_of_exclusion"),("verification","mpt.py MPT._verify_proof_of_exclusion")],[NS,RT],["get_proof_of_exclusion","verify_proof_of_exclusion"])
p("C11","Encoded or reopened tries come back with the same contents, root and mode",
"Decoding an encoded trie, sparse trie or root-only trie, empty ones included, gives an object with the same root hash, contents, mode and proofs, which can be changed without affecting the original. Opening the same storages with the root of a trie gives the same trie. Input that is not such an encoding is refused.",
["inputs","histories"],"every contents and history, empty and emptied tries included, in both modes",
"Tests encode a few full tries; the form of the root (hash, short node or none) and the mode vary with contents.",
["mpt.py","empt.py"],[("trie codec","mpt.py MPT.encode, MPT.decode"),("views","empt.py SparseEMPT.encode_rlp, RootEMPT.encode_rlp and their decoders")],[NS,RT],["MPT.encode","MPT.decode","SparseEMPT.encode_rlp","RootEMPT.encode_rlp"])
p("C12","Reading, proving and verifying change nothing",
"Looking up, testing membership, asking for the root, its hash or the length, encoding, producing proofs and verifying them leave contents, root and node storage of a trie unchanged, whether they succeed or raise. Verification leaves the proof unchanged too.",
["inputs","histories"],"every trie contents, every key present or absent, every read operation in any order",
"Tests call an operation once and check its result; an effect on the storage shows only later.",
["mpt.py"],[("read paths","mpt.py MPT._get, MPT._contains, proof methods")],[NS,RT],["all read operations of MPT"])
p("C13","A failing node storage never corrupts a trie",
"If the node storage raises at any access during an update or deletion, the operation raises and the trie still has its previous root and contents, unless the operation took place completely; once the storage works again the same operation succeeds.",
["fault_sequences","inputs"],"every access to the storage in every update and deletion on every trie contents",
"Tests use dictionaries that never fail; the failing access has to be tried one by one.",
["mpt.py"],[("root assignment after all writes","mpt.py MPT.update, MPT.delete")],[NS,RT],["MPT.update","MPT.delete"])
p("C14","Verified reads never return altered data",
"Getting a key from an EMPT (get or indexing) returns the value that was stored through it, or raises; if the data storage holds altered, swapped, truncated, added or missing data for a key, or the trie holds the reference of another key or other data, it raises. A sparse trie, which keeps no data, always refuses to be read.",
["inputs","fault_sequences"],"every stored contents and value type, every alteration of the data storage",
"The alterations an untrusted store can make cannot be listed by examples; tests try one.",
["empt.py"],[("comparison with the reference in the trie","empt.py EMPT.get")],[DS],["EMPT.get","EMPT.__getitem__"])
p("C15","EMPT trie and data storage stay in step; refused calls have no effect",
"After any sequence of updates and deletions of an EMPT, the data storage holds exactly the current keys, and the trie of an EMPT or sparse EMPT holds for each key the reference made from that key and the encoding of its value; length, iteration, membership, get, references and the inherited operations of mutable mappings (items, values, pop, popitem, setdefault, clear) agree with this. Calls with a key that is not bytes, a value that cannot be encoded, an absent key or something that is not a proof raise and leave trie and data storage unchanged.",
["inputs","histories"],"every sequence of operations, every kind of value (bytes, bytearray, objects with their own codec) and every wrong argument",
"The order of check and effect in each operation only shows when a call fails half way, with the state inspected afterwards.",
["empt.py"],[("validation before effects","empt.py EMPT.update, EMPT.delete, SparseEMPT.update"),("references","empt.py DataReference")],[DS,NS],["EMPT","SparseEMPT"])
p("C16","Views and separate instances share no mutable state",
"The sparse and root-only tries obtained from an EMPT have its root hash and verify its proofs at the time they are made; later changes to the EMPT do not change them, and changes to them do not change the EMPT. EMPTs and sparse EMPTs created without explicit storages do not affect one another.",
["histories","configurations"],"every interleaving of operations on an object and its views, and on separately created objects",
"Aliasing shows only when two objects are used alternately, which the tests do not do.",
["empt.py","mpt.py"],[("copying the storage for views","empt.py EMPT.get_sparse_trie, get_root_trie"),("default arguments","empt.py EMPT.__init__, SparseEMPT.__init__")],[DS,NS],["get_sparse_trie","get_root_trie","EMPT()","SparseEMPT()"])
p("C17","Data references bind key and data",
"A data reference keeps the key and data it is made from; decoding its encoding gives an equal reference, and decoding raises if key, data or hash were altered or the input is not a reference. Two references are equal exactly if key and data are equal, and equal references hash equally.",
["inputs"],"every key and data, also empty ones and different splits of the same bytes",
"Equality and integrity over all byte strings; tests use one reference.",
["empt.py"],[("hash over key and data","empt.py DataReference.hash, encode, decode")],[],["DataReference"])
p("C18","Rebuilding an EMPT gives the trie of the data it holds",
"Rebuilding an EMPT leaves its data storage unchanged and gives it the root hash, contents and lookups of a new EMPT into which the entries of the data storage were put, whatever the trie held before, whatever their order, and however often it is rebuilt.",
["inputs","histories"],"every data storage, including one that was emptied, changed or extended behind the trie's back",
"Tests rebuild one unchanged trie.",
["empt.py"],[("rebuild","empt.py EMPT.build_trie")],[DS,NS],["EMPT.build_trie"])
p("C21","Merkle tree roots and proofs agree; altered and forged proofs are refused",
"For every list of leaves, both Merkle tree classes compute the root by hashing pairs level by level, moving an odd last node up, and every proof of a leaf they give consists of the siblings on its way to the root and verifies. A proof whose siblings, sides, order, number of steps, target or root were altered, or that belongs to another tree, is not accepted; a value that is not a leaf has no accepted proof, unless it is itself the concatenation of two hashes of the tree. There are no proofs of exclusion; asking for one raises.",
["inputs"],"every number of leaves, leaf position, supported hash function and mode; every altered or invented proof",
"Tests use a few sizes; unbalanced trees and acceptance over all proofs are not sampled.",
["mt.py","merkletools.py"],[("tree levels","merkletools.py MerkleTools.make_tree, _calculate_next_level"),("proof and verification","mt.py MerkleTree.get_proof_of_inclusion, verify_proof_of_inclusion; merkletools.py MerkleTools counterparts")],[],["MerkleTree","MerkleTools"])
p("C22","Merkle trees never serve a stale root or proof",
"After any sequence of adding leaves, resetting, building, and asking for roots and proofs, whatever root or proof a Merkle tree gives is the one of exactly its current leaves, or the request is refused; earlier proofs are accepted only while they are right for the current leaves. The leaf count is always that of the current leaves, the ready state tells exactly whether the tree was computed since its last change, and every state has text forms.",
["histories"],"every sequence of operations on one tree",
"Staleness depends on the order of additions and requests; tests build once and ask once.",
["mt.py","merkletools.py"],[("readiness flag","merkletools.py MerkleTools.add_leaf, make_tree, get_merkle_root")],[("readiness","whether the computed levels belong to the current leaves","src/pymt/merkletools.py")],["MerkleTree.get_merkle_root","MerkleTools.get_merkle_root","get_proof_of_inclusion"])
p("C23","Merkle leaves are kept in order and hashed exactly once in secure mode",
"A Merkle tree keeps its leaves in the order in which they were added, each hashed exactly once with the tree's hash function in secure mode and as given otherwise, and building the tree does not change them; secure trees equal plain trees over the hashes. Unsupported hash functions, leaves, lists and flags of the wrong type are refused before they change the tree.",
["inputs","configurations"],"every list of leaves, every supported hash function and both modes",
"Tests use the default hash function and mode.",
["mt.py","merkletools.py"],[("adding leaves","merkletools.py MerkleTools.add_leaf, mt.py MerkleTree.put, put_list"),("choice of hash function","merkletools.py MerkleTools constructor")],[],["MerkleTree.put","MerkleTree.put_list","MerkleTree.get","MerkleTools.add_leaf"])
p("C24","Proof objects validate, keep and transport their fields",
"A proof object refuses fields of the wrong type and unknown proof types, gives back exactly the fields it was made from, and compares equal exactly if all its fields, the time stamp included, are equal. Its time stamp is the time at which it was made, and its text form shows all fields. The JSON and RLP encodings of a Merkle tree proof decode to an equal proof, and decoding anything that is not a proof raises.",
["inputs"],"every combination of field values, and every malformed encoding",
"Tests encode one proof.",
["proof.py"],[("validation","proof.py Proof.__init__"),("codecs","proof.py encode_json, decode_json, encode_rlp, decode_rlp")],[],["Proof"])
p("C25","Decrypting returns only what the stated sender sent to this receiver",
"If decrypting a message under a sender's public key returns data, then the holder of that key signed exactly this sealed data for exactly this receiver. Messages in which the content of any field was altered, dropped or exchanged, messages put under another session key or passed on to somebody else, messages of another sender, messages for another receiver and malformed input raise.",
["inputs"],"every message, every combination of exchanged fields of genuine messages, every pair of key pair classes that can encrypt",
"An adversary chooses the message; tests try honest messages and a few changes.",
["keypairs.py"],[("signature and tag checks before returning","keypairs.py decrypt")],[],["RsaKeyPair.decrypt","RsaEncKeyPair.decrypt"])
p("C26","Encrypted messages reach the receiver and reveal nothing to others",
"Decrypting a message with the receiver's key pair and the sender's public key gives back the data, for every byte string, repeatedly and in any order of messages. Messages reveal neither the data, nor a session key, nor a private key to anybody but the receiver, and each message uses its own random session key that is encrypted for the receiver only; arguments of wrong type are refused.",
["inputs","histories"],"every byte string, empty ones included, every pair of key pairs that can encrypt, every order of messages",
"Secrecy is about everything derivable from the message, and reuse shows only across messages; tests check round trips.",
["keypairs.py"],[("hybrid encryption","keypairs.py encrypt, decrypt")],[],["RsaKeyPair.encrypt","RsaEncKeyPair.encrypt"])
p("C27","Key pairs refuse operations outside their role before using the key",
"An authentication-only key pair refuses to encrypt and decrypt, and an encryption-only key pair refuses to sign and to verify signatures, with NotImplementedError and for every argument, without using the private key.",
["inputs","configurations"],"every operation of every key pair class",
"Tests try the refusals with one set of arguments and do not see what happened before the refusal.",
["keypairs.py"],[("overridden operations","keypairs.py RsaAuthKeyPair, RsaEncKeyPair")],[],["RsaAuthKeyPair","RsaEncKeyPair"])
p("C28","Exported keys are protected by the passphrase and load back to an equal key pair",
"A key pair written to a string or file with a non-empty passphrase contains its private key only encrypted under that passphrase, and never the passphrase. Loading it with the same passphrase gives an equal, working key pair of the same class and nickname; another passphrase, wrong argument types or a missing file raise, and a refused export (wrong argument types, a key pair without keys) leaves every file as it was.",
["inputs","configurations"],"every key pair class, passphrase, nickname and file",
"Whether something leaks is about the whole of what is written; tests only load it back.",
["keypairs.py"],[("export and import","keypairs.py to_key_string, to_key_file, from_key_string, from_key_file")],[],["to_key_string","to_key_file","from_key_string","from_key_file"])
p("C29","Signatures verify exactly for the signed data and the signer's key",
"Checking a signature is true exactly if it is a signature of the same data under the key that is checked against (the own key if none is given), and false otherwise; arguments that are not bytes are refused.",
["inputs"],"all data, signatures and keys",
"Rejection is a statement about all other data, keys and signatures.",
["keypairs.py"],[("signing and verification","keypairs.py sign, signature_valid")],[],["sign","signature_valid"])
p("C30","Password encryption is authenticated, round-trips and reveals nothing",
"Decrypting with the password gives back the encrypted data, for every byte string and password; with another password, or after any alteration or truncation, it raises. The result reveals neither data, key nor password, every encryption uses a new key and nonce combination, and arguments of the wrong type are refused.",
["inputs"],"all data and passwords, empty ones included, and every altered ciphertext",
"Tests check one round trip.",
["utils/utils.py"],[("authenticated encryption","utils/utils.py Utils.encrypt, Utils.decrypt")],[],["Utils.encrypt","Utils.decrypt"])
p("C31","Checking an RSA key tells public, private and invalid keys apart",
"The RSA key check is true exactly for an importable key of the requested kind (public by default) and false for a key of the other kind; for anything that is not an importable key it is false, or raises if exceptions were requested. Arguments of wrong type or an unknown kind are refused.",
["inputs"],"all byte strings, both kinds and both error modes",
"The combination of kind, input and error mode; tests try some.",
["utils/utils.py"],[("key check","utils/utils.py Utils.rsa_key_valid")],[],["Utils.rsa_key_valid"])
p("C32","Hash helpers compute the hash they are named after over exactly their input",
"The keccak-256, SHA-256 and SHA-512 helpers return the hash of exactly the given bytes, or of the concatenation of the given list in order, as hexadecimal bytes or raw as requested; unfinished hash objects can be continued with more data. Unknown hash names and data of the wrong type are refused by the SHA helpers.",
["inputs"],"all byte strings and lists of byte strings, every output form",
"Tests compare a few fixed digests.",
["utils/hash.py","utils/utils.py"],[("hash helpers","utils/hash.py keccak_hash, keccak_hash_list; utils/utils.py Utils.sha256, sha512, hash_data")],[],["keccak_hash","keccak_hash_list","Utils.hash_data"])
p("C33","Key pair identity is its key and nickname",
"Key pairs of one class are equal exactly if their key and nickname are equal, equal key pairs have equal hashes, and they can be hashed. Newly created key pairs have new keys and, unless named, new nicknames; generating a new key changes the key, and keys cannot be replaced by assignment.",
["inputs","histories"],"every pair of key pairs of any class",
"Tests compare one pair.",
["keypairs.py"],[("equality and hash","keypairs.py __eq__, __hash__")],[],["RsaKeyPair","RsaAuthKeyPair","RsaEncKeyPair"])
p("C34","Nothing a key pair shows discloses its private key",
"The text forms, public keys, nickname, signatures and messages of a key pair contain no part of its private key and no passphrase, whether it is new, loaded, exported or used. The text forms contain the nickname, and a key pair does not keep the passphrase it was exported or loaded with.",
["inputs","histories"],"every key pair in every state",
"Tests never look for private material in what is shown.",
["keypairs.py"],[("text forms and public properties","keypairs.py __str__, __repr__, public_key")],[],["RsaKeyPair","RsaAuthKeyPair","RsaEncKeyPair"])
p("C35","Tries work on every storage with the documented interface",
"On a storage object that offers item access only, a Merkle Patricia trie behaves as on a dict; on storage objects that offer item access, item deletion, membership, length and keys, an EMPT and a sparse EMPT do, in every operation including iteration, rebuilding and views. The storages that are given are the ones used, also when they are empty, and node storages are given only bytes.",
["inputs","histories"],"every storage object with the documented methods and every sequence of operations",
"Tests use dicts only.",
["empt.py","mpt.py"],[("storage access","empt.py EMPT"),("storage access","mpt.py MPT._get_node, MPT._store_node")],[],["MPT","EMPT","SparseEMPT"])
p("C36","Merkle trees are equal exactly if their roots are equal",
"Two built Merkle trees are equal exactly if their roots are equal: trees over the same leaves in the same order with the same settings are equal, and trees over other leaves, another order or number of leaves or with another hash function are not. Equal trees have equal hashes, and a tree is never equal to something that is not a Merkle tree. Comparing trees changes neither of them.",
["inputs","histories"],"every two trees, every other object",
"Tests compare two trees at most.",
["merkletools.py","mt.py"],[("equality and hash","merkletools.py MerkleTools.__eq__, __hash__")],[],["MerkleTree","MerkleTools"])
p("C37","Time stamps can be read back, and identifiers are new each time",
"A time stamp string or its byte form shows the time of the call as year-month-day hour:minute:second with its time zone, and reading the string back gives that time, to the second, with the zone; text that is not such a time stamp is refused. Every identifier handed out, as text or bytes, is random and new.",
["inputs","histories"],"every moment, time stamp text and sequence of calls",
"Tests cannot choose the moment, and never read a time stamp back.",
["utils/utils.py"],[("time stamps","utils/utils.py Utils.get_timestamp_string, from_timstamp_string"),("identifiers","utils/utils.py Utils.get_id")],[],["Utils.get_timestamp_string","Utils.get_timestamp","Utils.get_datetime_stamp","Utils.from_timstamp_string","Utils.get_id_string","Utils.get_id"])
p("C38","Existence checks tell files, directories and missing paths apart",
"The file check is true exactly for regular files, the directory check exactly for directories, where a name that starts with ./ is taken from the working directory at the time of the call. Names that are not strings are refused, and nothing is opened or changed.",
["inputs","histories"],"every path, file tree and working directory",
"Tests look at paths that exist on the machine they run on.",
["utils/utils.py"],[("existence checks","utils/utils.py Utils.file_exists, dir_exists")],[],["Utils.file_exists","Utils.dir_exists"])
p("C39","Key helpers generate new private keys of the requested kind",
"Every call of the RSA helper returns, as unprotected PEM bytes, a new private key of at least 2048 bits that the key check accepts as private and not as public. Every call of the elliptic-curve helper returns the PEM bytes of a new private key on the requested curve, P-256 by default, and unknown curves are refused.",
["inputs","histories"],"every curve and every sequence of calls",
"That keys are never reused is a statement about all calls.",
["utils/utils.py"],[("key generation","utils/utils.py Utils.generate_rsa_keypair, generate_ecc_key")],[],["Utils.generate_rsa_keypair","Utils.generate_ecc_key"])
p("C40","Key pair and key ring interfaces cannot be left incomplete",
"None of the abstract key pair and key ring classes (general, authentication, encryption) can be instantiated, and neither can a subclass that leaves out any of their operations: text forms, equality, generating, signing, checking signatures, encrypting, decrypting, and import and export through file and string, and for key pairs also the public key, its string and the nickname. A subclass that has all of them can. Every RSA key pair is an AbstractKeyPair; the authentication and the encryption pair belong to the interface of their role and not to the other.",
["inputs"],"every subclass of the interfaces, whichever operations it leaves out and wherever it inherits the others from",
"The guarantee is about classes that users will write; tests look at the classes of the package.",
["base.py","keypairs.py"],[("interfaces","base.py _BaseAbstractKeyPair, _BaseAbstractKeyRing and their subclasses"),("implementations","keypairs.py RsaKeyPair, RsaAuthKeyPair, RsaEncKeyPair")],[],["AbstractKeyPair","AbstractAuthKeyPair","AbstractEncKeyPair","AbstractKeyRing","AbstractAuthKeyRing","AbstractEncKeyRing"])
p("C41","A missing node is reported, never taken for an absent key",
"If the node storage of a Merkle Patricia trie lacks a node on the way to a key, then lookups, membership tests, proof generation, storing and deleting under that key raise an error other than the ones for absent keys, and leave root and storage usable: once the node is back, everything is as before. If the missing node is elsewhere, they give the right result, or, for a deletion that needs the node, raise. The same holds for EMPT and SparseEMPT.",
["inputs","fault_sequences"],"every trie contents, every key, stored or not, and every missing node",
"Tests work on complete storages; an incomplete one shows only if the missing node lies on the way that is taken.",
["mpt.py","empt.py"],[("loading nodes","mpt.py MPT._get_node"),("walks","mpt.py MPT._get, _contains, _update, _delete and the proof functions"),("data tries","empt.py EMPT.get, contains, delete")],[NS],["MPT.get","MPT.contains","MPT.update","MPT.delete","MPT.get_proof_of_inclusion","MPT.get_proof_of_exclusion","EMPT.get","EMPT.contains","EMPT.delete"])
p("C42","A failing storage never separates the data of an EMPT from its trie",
"If the node storage or the data storage of an EMPT raises at any access during an update, deletion, item assignment, pop or lookup, then root hash, data storage and references are those from before the call, unless it took place completely, and once the storage works again the same call succeeds. If rebuilding fails, the data is unchanged and rebuilding again succeeds. The same holds for the node storage of a SparseEMPT.",
["fault_sequences","inputs"],"every access to either storage in every operation, for every kind of value and every key, stored or not",
"Tests use dictionaries that never fail; which half of an operation has happened depends on the failing access.",
["empt.py"],[("update and delete","empt.py EMPT.update, delete; SparseEMPT.update, delete"),("rebuilding","empt.py EMPT.build_trie")],[NS],["EMPT.update","EMPT.delete","EMPT.__setitem__","EMPT.build_trie","SparseEMPT.update","SparseEMPT.delete"])
# not applicable
p("C90","Tries work for keys and tries of any size",
"Operations on tries succeed for keys of any length and any number of entries, without exhausting the call stack or memory.",
["inputs"],"every key length","Depth of recursion follows the key length; tests use short keys.",
["mpt.py"],[("recursion over the path","mpt.py")])
p("C91","Concurrent use of one trie from several threads is safe",
"Operations on one trie from several threads behave as if executed one after another.",
["schedules"],"every interleaving","Tests are single-threaded.",["mpt.py","empt.py"],[("none","mpt.py")])
p("C92","The cryptographic primitives are as strong as their names promise",
"Keys, nonces and signatures produced cannot be guessed, forged or linked by anybody without the key, at the strength of the named algorithms and parameters.",
["inputs"],"every adversary","A statement about adversaries and the underlying library.",["keypairs.py","utils/utils.py"],[("pycryptodome primitives","keypairs.py")])
p("C93","Generated identifiers never collide",
"Generated identifiers, nicknames and nonces are different whenever they are requested separately.",
["histories"],"every pair of calls","A statement about probability and clock resolution.",["utils/utils.py","keypairs.py"],[("random generators","utils/utils.py")])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import re
for x in P:
    n=len(re.findall(r"[.](?:\s|$)",x["statement"]))
    if n>3: print(x["id"],n)
