"""C08: secure mode hashes every key exactly once, in every operation of every trie class.

The hash of each key is given an arbitrary interpretation (the path of the scenario, padded
to 32 bytes), so the analysis sees the trie an adversarial choice of keys would produce.
"""
import hashlib

from core import *
import tries
from tries import Canon, contents, Broken, unnib, nib, fmt, value
from p_trie import MPT, same_map, open_trie, root_of, walk, sequences
from p_proof import spec_walk, accepted
from p_empt import ref_bytes, ref_value

FILL = b"\x5a\xc3\x71\x0e\x96\x2d\xf8\x44"


def image(k):
    """32-byte interpretation of the hash of the key named by nibbles k"""
    b = unnib(k) if len(k) % 2 == 0 else unnib(k + (0,))
    return (b + FILL * 4)[:32]


_len = 0


def plain(k):
    b = b"key-" + fmt(k).encode()
    return b if len(b) >= _len else (b + FILL * 20)[:_len]


def interpret(c, ks, keylen=0):
    global _len
    _len = keylen
    m = {plain(k): image(k) for k in ks}

    def f(alg, data):
        if alg == "keccak256" and data in m:
            return m[data]
        if data == b"" and alg == "keccak256":
            return None
        return hashlib.sha512(alg.encode() + b"|" + data).digest()[: __import__("models").HLEN.get(alg, 32)]

    c.I.cfg["hash_interpretation"] = f
    return {k: nib(m[plain(k)]) for k in ks}


def mpt_ops(c, keys, key, sizes, op, keylen=0):
    im = interpret(c, set(keys) | {key}, keylen)
    vals = {k: value("V%d" % i, sizes[i]) for i, k in enumerate(keys)}
    canon = Canon(c.I, {im[k]: v for k, v in vals.items()})
    t, st = open_trie(c, canon, True)
    c.secure(t, True, "secure flag")
    want = dict(vals)

    def contents_now(what):
        same_map(c, walk(c, t, st, what), {im[k]: v for k, v in want.items()}, what)

    nv = value("N", "long")
    pk = plain(key)
    if op in ("update", "__setitem__"):
        c.must(c.m(t, op, pk, nv), op)
        want[key] = nv
        contents_now("after %s in secure mode" % op)
    elif op in ("delete", "__delitem__"):
        r = c.m(t, op, pk)
        if key in want:
            c.must(r, op)
            del want[key]
        else:
            c.raises(r, "%s of an absent key in secure mode" % op)
        contents_now("after %s in secure mode" % op)
    elif op in ("get", "__getitem__"):
        r = c.m(t, op, pk)
        if key in want:
            c.equal(c.must(r, op), want[key], "%s in secure mode" % op)
        else:
            c.raises(r, "%s of an absent key in secure mode" % op)
        # the hash of a key is not a key
        c.raises(c.m(t, op, image(key)), "%s of the hash of a key in secure mode" % op)
    elif op in ("contains", "__contains__"):
        c.boolean(c.m(t, op, pk), key in want, "%s in secure mode" % op)
        c.boolean(c.m(t, op, image(key)), False, "%s of the hash of a key in secure mode" % op)
        if op == "contains":
            c.boolean(c.m(t, op, image(key), hash_key=False), key in want, "contains of a hash without hashing it")
            c.boolean(c.m(t, op, pk, hash_key=False), False, "contains of a key without hashing it")
            c.boolean(c.m(t, op, pk, hash_key=True), key in want, "contains of a key with hashing it")
    elif op in ("inclusion", "exclusion"):
        r = c.m(t, "get_proof_of_" + op, pk)
        good = (key in want) == (op == "inclusion")
        if not good:
            c.raises(r, "get_proof_of_%s in secure mode" % op)
            return
        proof = c.must(r, "get_proof_of_%s in secure mode" % op)
        el = c.must(c.attr(proof, "proof"), "proof")
        shown = spec_walk(c.I, canon.root_hash, el, im[key])
        if op == "inclusion":
            c.equal(shown, want[key], "value shown by the proof in secure mode")
        else:
            c.true(shown is None, "the proof of exclusion in secure mode does not show absence of the hashed key")
        cls = c.api(*MPT)
        for n, v in (("the trie", t), ("a root-only trie", c.must(c.call(cls, Dict(), canon.root, True), "root-only trie"))):
            r = c.m(v, "verify_proof_of_" + op, proof)
            c.boolean(r, True, "verify_proof_of_%s of an honest proof in secure mode on %s" % (op, n))


def insecure(c, keys, key, sizes):
    """without secure mode, keys are not hashed"""
    interpret(c, set(keys) | {key})
    items = {nib(plain(k)): value("V%d" % i, sizes[i]) for i, k in enumerate(keys)}
    st = Dict(name="trie storage")
    cls = c.api(*MPT)
    t = c.must(c.call(cls, st), "creating a trie")
    c.secure(t, False, "secure flag")
    for k, v in items.items():
        c.must(c.m(t, "update", unnib(k), v), "update")
    same_map(c, walk(c, t, st, "after updates"), items, "after updates without secure mode")
    for k, v in items.items():
        c.equal(c.must(c.m(t, "get", unnib(k)), "get"), v, "get without secure mode")
        c.boolean(c.m(t, "contains", unnib(k)), True, "contains without secure mode")


def empt_ops(c, keys, key, cname, op, keylen=0):
    im = interpret(c, set(keys) | {key}, keylen)
    vals = {k: value("D%d" % i, "long") for i, k in enumerate(keys)}
    cls = c.api("pymt.empt", cname)
    st, ds = Dict(name="trie storage"), Dict(name="data storage")
    kw = {"trie_storage": st, "secure": True}
    if cname == "EMPT":
        kw["data_storage"] = ds
    t = c.must(c.call(cls, **kw), cname)
    c.secure(t, True, "secure flag")
    for k, v in vals.items():
        c.must(c.m(t, "update", plain(k), v), "update")
    items = {im[k]: ref_value(c, plain(k), v) for k, v in vals.items()}
    canon = Canon(c.I, items)
    what = "%s in secure mode" % cname
    c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), canon.root_hash, "root hash of " + what)
    pk = plain(key)
    present = key in vals
    if op == "read":
        c.boolean(c.m(t, "contains", pk), present, "contains of " + what)
        c.boolean(c.m(t, "__contains__", pk), present, "`in` of " + what)
        r = c.m(t, "get_reference", pk)
        if present:
            d = c.must(r, "get_reference of " + what)
            c.equal(c.must(c.attr(d, "key"), "key"), pk, "key of the reference of " + what)
        else:
            c.raises(r, "get_reference of an absent key of " + what)
        if cname == "EMPT":
            r = c.m(t, "get", pk)
            if present:
                c.equal(c.must(r, "get of " + what), vals[key], "get of " + what)
            else:
                c.raises(r, "get of an absent key of " + what)
    elif op == "delete":
        r = c.m(t, "delete", pk)
        if present:
            c.must(r, "delete of " + what)
            del items[im[key]]
        else:
            c.raises(r, "delete of an absent key of " + what)
        c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), Canon(c.I, items).root_hash, "root hash after delete of " + what)
    elif op == "build" and cname == "EMPT":
        c.must(c.m(t, "build_trie"), "build_trie of " + what)
        c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), canon.root_hash, "root hash after build_trie of " + what)
    elif op == "views":
        views = [("get_root_trie", True)]
        if cname == "EMPT":
            views.append(("get_sparse_trie", True))
        kind = "inclusion" if present else "exclusion"
        proof = c.must(c.m(t, "get_proof_of_" + kind, pk), "get_proof_of_%s of %s" % (kind, what))
        c.boolean(c.m(t, "verify_proof_of_" + kind, proof), True, "verify_proof_of_%s of %s" % (kind, what))
        for n, _ in views:
            v = c.must(c.m(t, n), n)
            c.secure(v, True, "secure flag of %s" % n)
            c.equal(c.must(c.m(v, "root_hash"), "root_hash()"), canon.root_hash, "root hash of %s" % n)
            c.boolean(c.m(v, "verify_proof_of_" + kind, proof), True, "verify_proof_of_%s on the result of %s of %s" % (kind, n, what))
            if n == "get_sparse_trie":
                c.boolean(c.m(v, "contains", pk), present, "contains of the sparse trie of " + what)
            if c.I.getattr(v, "encode_rlp", None) is not None:
                enc = c.must(c.m(v, "encode_rlp"), "encode_rlp")
                w = c.must(c.call(c.I.getattr(v.cls, "decode_rlp"), enc), "decode_rlp")
                c.secure(w, True, "secure flag of the decoded %s" % n)
                c.equal(c.must(c.m(w, "root_hash"), "root_hash()"), canon.root_hash, "root hash of the decoded %s" % n)


KEYLEN = (0, 20, 31, 32, 33, 64)
KEYS = [
    ((), (1, 2)),
    (((1, 2),), (1, 2)),
    (((1, 2),), (1, 3)),
    (((1, 2), (1, 3)), (1, 2)),
    (((1, 2), (1, 3)), (1, 4)),
    (((1, 2), (1, 3)), (5, 6)),
    (((1, 2), (5, 6), (5, 7)), (5, 6)),
    (((1, 2), (5, 6), (5, 7)), (5, 8)),
    (((1, 2, 3, 4), (1, 2, 3, 5), (15, 0)), (1, 2, 3, 4)),
    (((1, 2, 3, 4), (1, 2, 3, 5), (15, 0)), (15, 0)),
    (((1, 2, 3, 4), (1, 2, 3, 5), (15, 0)), (0, 15)),
]


def gen(tier, seed):
    out = []
    for i, (ks, k) in enumerate(KEYS):
        s = tuple((("long", "short")[(i + j) % 2]) for j in range(len(ks)))
        for op in ("update", "__setitem__", "delete", "__delitem__", "get", "__getitem__", "contains", "__contains__", "inclusion", "exclusion"):
            if not ks and op not in ("update", "__setitem__", "contains", "__contains__"):
                continue
            for n in KEYLEN:
                out.append(("secure %s: trie {%s}, key %s%s" % (op, ", ".join(map(fmt, ks)), fmt(k), ", keys of %d bytes" % n if n else ""), mpt_ops, (ks, k, s, op, n)))
        if ks:
            out.append(("not secure: keys {%s}" % ", ".join(map(fmt, ks)), insecure, (ks, k, s)))
            for cname in ("EMPT", "SparseEMPT"):
                for op in ("read", "delete", "build", "views"):
                    if op == "build" and cname != "EMPT":
                        continue
                    for n in KEYLEN:
                        out.append(("secure %s %s: keys {%s}, key %s%s" % (cname, op, ", ".join(map(fmt, ks)), fmt(k), ", keys of %d bytes" % n if n else ""), empt_ops, (ks, k, cname, op, n)))
    return out
