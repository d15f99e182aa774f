"""C21-C23: Merkle trees.

Leaves are arbitrary, with one exclusion: a leaf is not itself the concatenation of two
hashes of the tree (that such a value can pass as a leaf is inherent in the construction,
which does not separate leaves from inner nodes).
"""
from core import *
import models

MT = ("pymt.mt", "MerkleTree")
MTOOLS = ("pymt.merkletools", "MerkleTools")
ALGS = ["sha256", "md5", "sha224", "sha384", "sha512", "sha3_256", "sha3_224", "sha3_384", "sha3_512"]
HLEN = {"sha256": 32, "md5": 16, "sha224": 28, "sha384": 48, "sha512": 64, "sha3_256": 32, "sha3_224": 28, "sha3_384": 48, "sha3_512": 64}


def leaf_values(n, secure, alg, dup=()):
    """symbolic leaves; dup: indices that repeat leaf 0"""
    out = []
    for i in range(n):
        if i in dup:
            out.append(out[0])
        elif secure:
            out.append(sym("L%d" % i, lo=0, generic=True, group="leaf", nohash=True))
        else:
            out.append(sym("L%d" % i, lo=HLEN[alg], hi=HLEN[alg], generic=True, group="leaf", nohash=True))
    return out


class Spec:
    """The Merkle tree over a list of leaves: pairs are hashed, an odd last node moves up."""

    def __init__(self, leaves, alg, secure):
        self.h = lambda x: mk("H", alg, x)
        self.leaves = [self.h(x) if secure else x for x in leaves]
        lv = [list(self.leaves)]
        while len(lv[-1]) > 1:
            c = lv[-1]
            nx = [self.h(mk("cat", (c[i], c[i + 1]))) for i in range(0, len(c) - 1, 2)]
            if len(c) % 2:
                nx.append(c[-1])
            lv.append(nx)
        self.levels = lv

    @property
    def root(self):
        return self.levels[-1][0]

    def proof(self, i):
        out = []
        for lv in self.levels[:-1]:
            if i % 2:
                out.append(("left", lv[i - 1]))
            elif i + 1 < len(lv):
                out.append(("right", lv[i + 1]))
            i //= 2
        return out


def hexs(x):
    return x.hex() if isinstance(x, bytes) else mk("hex", x, kind="str")


def hexb(x):
    return x.hex().encode() if isinstance(x, bytes) else mk("utf8", hexs(x))


def build(c, cname, leaves, alg, secure, how="put"):
    cls = c.api(*(MT if cname == "MerkleTree" else MTOOLS))
    t = c.must(c.call(cls, secure=secure, hash_type=alg), cname)
    add(c, t, cname, leaves, how)
    return t


def add(c, t, cname, leaves, how="put"):
    if how == "list":
        c.must(c.m(t, "put_list", List(leaves)), "put_list")
        return
    for x in leaves:
        c.must(c.m(t, "put" if cname == "MerkleTree" else "add_leaf", x), "adding a leaf")


def root(c, t, cname):
    """Res of the root as hex text of the right type"""
    if cname == "MerkleTools":
        c.must(c.m(t, "make_tree"), "make_tree")
    return c.m(t, "get_merkle_root")


def root_is(c, t, cname, want, what):
    r = c.must(root(c, t, cname), "get_merkle_root of " + what)
    c.equal(r, hexs(want) if cname == "MerkleTools" else hexb(want), "root of " + what)


def steps(c, p, cname):
    """[(side, sibling)] of a proof"""
    out = []
    I = c.I
    if cname == "MerkleTree":
        p = c.must(c.attr(p, "proof"), "proof")
    for s in I.iterate(p):
        if cname == "MerkleTools":
            if not isinstance(s, Dict) or len(s.pairs()) != 1:
                raise Failure("wrong result", "proof step %s" % render(s))
            out.append(s.pairs()[0])
        else:
            a = list(I.iterate(s))
            if len(a) != 2:
                raise Failure("wrong result", "proof step %s" % render(s))
            out.append((a[0].decode() if isinstance(a[0], bytes) else a[0], a[1]))
    return out


def as_proof(c, cname, st, target, rt, ptype=b"MT-POI"):
    if cname == "MerkleTools":
        return List([Dict([(s, hexs(x))]) for s, x in st])
    P = c.api("pymt.proof", "Proof")
    return c.must(c.call(P, target_key=target, root_hash=hexb(rt), proof=tuple((s.encode(), hexb(x)) for s, x in st), proof_type=ptype), "Proof")


def verify(c, t, cname, st, target, rt, secure, spec):
    p = as_proof(c, cname, st, target, rt)
    if cname == "MerkleTools":
        th = spec.h(target) if secure else target
        return c.m(t, "verify_proof_of_inclusion", p, target_hash=th, merkle_root=rt)
    return c.m(t, "verify_proof_of_inclusion", p)


# ------------------------------------------------------------------ C21
def agree(c, cname, n, i, alg, secure, how, dup=()):
    L = leaf_values(n, secure, alg, dup)
    sp = Spec(L, alg, secure)
    t = build(c, cname, L, alg, secure, how)
    what = "%s of %d leaves" % (cname, n)
    root_is(c, t, cname, sp.root, what)
    if i in dup:
        i = 0
    p = c.must(c.m(t, "get_proof_of_inclusion", L[i]), "get_proof_of_inclusion of leaf %d" % i)
    want = sp.proof(i)
    got = steps(c, p, cname)
    c.true(len(got) == len(want), "the proof of leaf %d of %s has %d steps, must have %d" % (i, what, len(got), len(want)))
    for k, ((a, x), (b, y)) in enumerate(zip(got, want)):
        c.equal(a, b, "side of step %d of the proof of leaf %d" % (k, i))
        c.equal(x, hexs(y) if cname == "MerkleTools" else hexb(y), "sibling of step %d of the proof of leaf %d" % (k, i))
    if cname == "MerkleTree":
        c.equal(c.must(c.attr(p, "target_key"), "target_key"), L[i], "target of the proof")
        c.equal(c.must(c.attr(p, "trie_root"), "trie_root"), hexb(sp.root), "root of the proof")
        c.equal(c.must(c.attr(p, "type"), "type"), b"MT-POI", "type of the proof")
        c.boolean(c.m(t, "verify_proof_of_inclusion", p), True, "verify of the proof of leaf %d of %s" % (i, what))
        # an independently built tree over the same leaves accepts it
        t2 = build(c, cname, L, alg, secure, "list" if how == "put" else "put")
        c.boolean(c.m(t2, "verify_proof_of_inclusion", p), True, "verify on another tree over the same leaves")
        c.boolean(c.eq(t, t2), True, "equality of trees over the same leaves")
    else:
        th = sp.h(L[i]) if secure else L[i]
        c.boolean(c.m(t, "verify_proof_of_inclusion", p, target_hash=th, merkle_root=sp.root), True, "verify of the proof of leaf %d of %s" % (i, what))
    root_is(c, t, cname, sp.root, what + " after proving and verifying")


def refuse(c, r, what):
    """a proof must not be accepted: False or an exception"""
    c.obligations += 1
    if r.ok and c.decided_truth(r.value, what):
        raise Failure("proof accepted", "%s was accepted" % what)


def altered(c, cname, n, i, alg, secure, how):
    L = leaf_values(n, secure, alg)
    sp = Spec(L, alg, secure)
    t = build(c, cname, L, alg, secure)
    root_is(c, t, cname, sp.root, "the tree")
    good = sp.proof(i)
    X = sym("X", lo=HLEN[alg], hi=HLEN[alg], generic=True, group="leaf", nohash=True)
    other = {"left": "right", "right": "left"}
    V = lambda st, tg, rt: verify(c, t, cname, st, tg, rt, secure, sp)
    c.boolean(V(good, L[i], sp.root), True, "verify of a proof rebuilt from its steps")
    if how == "sibling":
        for k in range(len(good)):
            refuse(c, V(good[:k] + [(good[k][0], X)] + good[k + 1:], L[i], sp.root), "a proof whose sibling %d was replaced" % k)
    elif how == "side":
        for k in range(len(good)):
            refuse(c, V(good[:k] + [(other[good[k][0]], good[k][1])] + good[k + 1:], L[i], sp.root), "a proof whose step %d changed sides" % k)
    elif how == "dropped":
        for k in range(len(good)):
            refuse(c, V(good[:k] + good[k + 1:], L[i], sp.root), "a proof without step %d" % k)
    elif how == "added":
        for k in range(len(good) + 1):
            refuse(c, V(good[:k] + [("left", X)] + good[k:], L[i], sp.root), "a proof with a step added at %d" % k)
            refuse(c, V(good[:k] + [("right", X)] + good[k:], L[i], sp.root), "a proof with a step added at %d" % k)
    elif how == "added known":
        # steps that name values the verifier knows
        at = hashes_on_way(sp, i)
        for k in range(len(good) + 1):
            known = {"the current hash": at[k], "the root": sp.root, "the leaf": sp.leaves[i], "zeros": b"\x00" * HLEN[alg], "nothing": b""}
            if k < len(good):
                known["the next sibling"] = good[k][1]
            if k:
                known["the last sibling"] = good[k - 1][1]
            if not secure:
                known["the target"] = L[i]
            for w, v in known.items():
                for side in ("left", "right"):
                    if w == "the next sibling" and good[k][0] == side:
                        # the same step twice
                        pass
                    refuse(c, V(good[:k] + [(side, v)] + good[k:], L[i], sp.root), "a proof with %s added on the %s at %d" % (w, side, k))
        if good:
            refuse(c, V(good + good, L[i], sp.root), "a doubled proof")
            refuse(c, V(good + [(s, x) for s, x in reversed(good)], L[i], sp.root), "a proof followed by its reverse")
    elif how == "sibling known":
        at = hashes_on_way(sp, i)
        for k in range(len(good)):
            for w, v in (("the current hash", at[k]), ("the root", sp.root), ("the hash above", at[k + 1]), ("zeros", b"\x00" * HLEN[alg]), ("nothing", b"")):
                for side in ("left", "right"):
                    if v is good[k][1] and side == good[k][0]:
                        continue
                    refuse(c, V(good[:k] + [(side, v)] + good[k + 1:], L[i], sp.root), "a proof whose sibling %d is %s on the %s" % (k, w, side))
            v = good[k][1]
            for w, x in (("extended", mk("cat", (v, b"x"))), ("with something in front", mk("cat", (b"x", v)))):
                refuse(c, V(good[:k] + [(good[k][0], x)] + good[k + 1:], L[i], sp.root), "a proof whose sibling %d is %s" % (k, w))
    elif how == "inner":
        # values of inner nodes are no leaves
        for k, lv in enumerate(sp.levels[1:], 1):
            for x in lv:
                if x in sp.leaves or any(x is y for y in sp.leaves):
                    continue
                st = sp.proof(i)[k:]
                refuse(c, V(st, x, sp.root), "a proof of an inner node") if secure else None
        refuse(c, V([], L[i], sp.root), "an empty proof") if n > 1 else None
        if secure:
            refuse(c, V([], sp.root, sp.root), "an empty proof of the root")
            refuse(c, V(good, sp.leaves[i], sp.root), "a proof of the hash of a leaf")
    elif how == "order":
        for k in range(len(good) - 1):
            refuse(c, V(good[:k] + [good[k + 1], good[k]] + good[k + 2:], L[i], sp.root), "a proof whose steps %d and %d changed places" % (k, k + 1))
    elif how == "target":
        T = sym("T", lo=0, generic=True, group="leaf", nohash=True) if secure else X
        refuse(c, V(good, T, sp.root), "a proof for something that is not a leaf")
        for j in range(n):
            if j != i:
                refuse(c, V(good, L[j], sp.root), "the proof of leaf %d for leaf %d" % (i, j))
    elif how == "root":
        refuse(c, V(good, L[i], X), "a proof for another root")
        L2 = L[:i] + [sym("Y", lo=HLEN[alg], hi=HLEN[alg], generic=True, group="leaf", nohash=True)] + L[i + 1:]
        s2 = Spec(L2, alg, secure)
        if cname == "MerkleTree":
            # an honest proof of a different tree
            refuse(c, V(s2.proof(i), L2[i], s2.root), "a proof of another tree")
            if n > 1:
                j = (i + 1) % n
                refuse(c, V(s2.proof(j), L2[j], s2.root), "a proof of another tree that shares the leaf")
        else:
            refuse(c, V(s2.proof(i), L2[i], sp.root), "a proof of another tree")
    elif how == "malformed":
        if cname == "MerkleTools":
            bad = [List([Dict([("up", hexs(X))])]), List([Dict([("left", "zz")])]), List([Dict([("right", "zz")])]), List([Dict()])]
            th = sp.h(L[i]) if secure else L[i]
            for b in bad:
                refuse(c, c.m(t, "verify_proof_of_inclusion", b, target_hash=th, merkle_root=sp.root), "a malformed proof")
        else:
            P = c.api("pymt.proof", "Proof")
            good_b = tuple((sd.encode(), hexb(x)) for sd, x in good)
            for b in (((b"up", hexb(X)),), ((b"left", b"zz"),), ((b"right", b"zz"),), good_b + ((b"right", b"not hex"),), ((b"right", b"0"),) + good_b, ((b"left",),)):
                p = c.must(c.call(P, target_key=L[i], root_hash=hexb(sp.root), proof=b, proof_type=b"MT-POI"), "Proof")
                refuse(c, c.m(t, "verify_proof_of_inclusion", p), "a malformed proof")
            # these trees have no proofs of exclusion
            for a in ((), (L[i],), (X,)):
                c.raises(c.m(t, "get_proof_of_exclusion", *a), "get_proof_of_exclusion of a Merkle tree")
            p = c.must(c.m(t, "get_proof_of_inclusion", L[i]), "get_proof_of_inclusion")
            for a in ((), (p,)):
                c.raises(c.m(t, "verify_proof_of_exclusion", *a), "verify_proof_of_exclusion of a Merkle tree")
            for b in (None, good, "proof", Dict()):
                c.raises(c.m(t, "verify_proof_of_inclusion", List(b) if isinstance(b, list) else b), "verify of something that is not a proof", "TypeError")


def hashes_on_way(sp, i):
    """hash at the leaf and after each step of its proof"""
    out = [sp.leaves[i]]
    for side, x in sp.proof(i):
        out.append(sp.h(mk("cat", (x, out[-1]) if side == "left" else (out[-1], x))))
    return out


def twins(c, cname, n, dup, alg, secure):
    """equal leaves: every proof is right for its value, and alterations are refused all the same"""
    L = leaf_values(n, secure, alg, dup)
    sp = Spec(L, alg, secure)
    t = build(c, cname, L, alg, secure)
    root_is(c, t, cname, sp.root, "the tree")
    V = lambda st, tg, rt: verify(c, t, cname, st, tg, rt, secure, sp)
    other = {"left": "right", "right": "left"}
    for i in range(n):
        good = sp.proof(i)
        c.boolean(V(good, L[i], sp.root), True, "verify of the proof of leaf %d" % i)
        at = hashes_on_way(sp, i)
        for k in range(len(good)):
            refuse(c, V(good[:k] + good[k + 1:], L[i], sp.root), "the proof of leaf %d without step %d" % (i, k))
            if good[k][1] is not at[k]:
                refuse(c, V(good[:k] + [(other[good[k][0]], good[k][1])] + good[k + 1:], L[i], sp.root), "the proof of leaf %d whose step %d changed sides" % (i, k))
            refuse(c, V(good[:k] + [good[k]] + good[k:], L[i], sp.root), "the proof of leaf %d whose step %d is doubled" % (i, k))
        for j in range(n):
            if L[j] is not L[i]:
                refuse(c, V(good, L[j], sp.root), "the proof of leaf %d for leaf %d" % (i, j))


def strangers(c, n, alg, secure, what):
    """proofs that another tree made, or that are of another kind"""
    I = c.I
    P = c.api("pymt.proof", "Proof")
    L = leaf_values(n, secure, alg)
    sp = Spec(L, alg, secure)
    t = build(c, "MerkleTree", L, alg, secure)
    p0 = c.must(c.m(t, "get_proof_of_inclusion", L[0]), "get_proof_of_inclusion") if not c.must(c.m(t, "make_tree"), "make_tree") else None
    if what == "superset":
        for extra in (1, 2, n):
            M = L + [sym("E%d" % k, lo=HLEN[alg], hi=HLEN[alg], generic=True, group="leaf", nohash=True) for k in range(extra)]
            s2 = Spec(M, alg, secure)
            t2 = build(c, "MerkleTree", M, alg, secure)
            c.must(c.m(t2, "make_tree"), "make_tree")
            for i in range(n):
                p = c.must(c.m(t2, "get_proof_of_inclusion", L[i]), "get_proof_of_inclusion")
                refuse(c, c.m(t, "verify_proof_of_inclusion", p), "a proof of a larger tree over the same leaf")
                q = c.must(c.m(t, "get_proof_of_inclusion", L[i]), "get_proof_of_inclusion")
                refuse(c, c.m(t2, "verify_proof_of_inclusion", q), "a proof of a smaller tree over the same leaf")
            # with the other tree's root written into it
            refuse(c, verify(c, t, "MerkleTree", s2.proof(0), L[0], sp.root, secure, sp), "the steps of a larger tree under this root")
            refuse(c, verify(c, t, "MerkleTree", sp.proof(0), L[0], s2.root, secure, sp), "a proof that names another tree's root")
    elif what == "order":
        if n > 1:
            M = L[::-1]
            t2 = build(c, "MerkleTree", M, alg, secure)
            c.must(c.m(t2, "make_tree"), "make_tree")
            for i in range(n):
                p = c.must(c.m(t2, "get_proof_of_inclusion", L[i]), "get_proof_of_inclusion")
                refuse(c, c.m(t, "verify_proof_of_inclusion", p), "a proof of the tree in another order")
            c.true(c.decided_truth(I.rich_eq(t, t2, "=="), "==") is False, "trees with another order of leaves are equal")
    elif what == "mode":
        # the same values in a tree of the other mode
        M = leaf_values(n, False, alg)
        a, b = build(c, "MerkleTree", M, alg, True), build(c, "MerkleTree", M, alg, False)
        for x, y, w in ((a, b, "plain"), (b, a, "secure")):
            c.must(c.m(x, "make_tree"), "make_tree")
            c.must(c.m(y, "make_tree"), "make_tree")
            for i in range(n):
                p = c.must(c.m(x, "get_proof_of_inclusion", M[i]), "get_proof_of_inclusion")
                c.boolean(c.m(x, "verify_proof_of_inclusion", p), True, "verify on its own tree")
                refuse(c, c.m(y, "verify_proof_of_inclusion", p), "a proof of a tree of the other mode on a %s tree" % w)
        c.true(c.decided_truth(I.rich_eq(a, b, "=="), "==") is False, "trees of different mode over the same values are equal")
    elif what == "algorithm":
        for other in ALGS:
            if HLEN[other] == HLEN[alg] and other != alg:
                t2 = build(c, "MerkleTree", L, other, secure)
                c.must(c.m(t2, "make_tree"), "make_tree")
                if n > 1 or secure:
                    p = c.must(c.m(t2, "get_proof_of_inclusion", L[0]), "get_proof_of_inclusion")
                    refuse(c, c.m(t, "verify_proof_of_inclusion", p), "a proof of a tree with %s" % other)
                    c.true(c.decided_truth(I.rich_eq(t, t2, "=="), "==") is False, "trees with different hash functions are equal")
    elif what == "emptied":
        c.must(c.m(t, "reset_tree"), "reset_tree")
        refuse(c, c.m(t, "verify_proof_of_inclusion", p0), "a proof on an emptied tree")
        e = c.must(c.call(c.api(*MT), secure=secure, hash_type=alg), "MerkleTree")
        refuse(c, c.m(e, "verify_proof_of_inclusion", p0), "a proof on an empty tree")
        add(c, t, "MerkleTree", L)
        c.boolean(c.m(t, "verify_proof_of_inclusion", p0), True, "verify after the same leaves were added again")
    elif what == "unchanged":
        # verifying and proving change neither tree nor proof
        before = (c.must(c.attr(p0, "proof"), "proof"), c.must(c.attr(p0, "trie_root"), "root"), c.must(c.attr(p0, "target_key"), "target"))
        for _ in range(3):
            c.boolean(c.m(t, "verify_proof_of_inclusion", p0), True, "verify again")
            q = c.must(c.m(t, "get_proof_of_inclusion", L[-1]), "get_proof_of_inclusion")
            c.boolean(c.m(t, "verify_proof_of_inclusion", q), True, "verify of another proof")
        after = (c.must(c.attr(p0, "proof"), "proof"), c.must(c.attr(p0, "trie_root"), "root"), c.must(c.attr(p0, "target_key"), "target"))
        for a, b in zip(before, after):
            c.equal(b, a, "the proof after verification")
        root_is(c, t, "MerkleTree", sp.root, "the tree afterwards")
        c.equal(c.must(c.m(t, "get_count"), "get_count"), n, "number of leaves afterwards")


def forged(c, cname, n, alg, secure, sides):
    """any siblings, any root: a value that is not a leaf never verifies"""
    L = leaf_values(n, secure, alg)
    sp = Spec(L, alg, secure)
    t = build(c, cname, L, alg, secure)
    root_is(c, t, cname, sp.root, "the tree")
    ln = HLEN[alg]
    T = sym("T", lo=0, generic=True, group="leaf", nohash=True) if secure else sym("T", lo=ln, hi=ln, generic=True, group="leaf", nohash=True)
    st = [(s, sym("S%d" % k, lo=ln, hi=ln)) for k, s in enumerate(sides)]
    refuse(c, verify(c, t, cname, st, T, sp.root, secure, sp), "a proof with arbitrary siblings for something that is not a leaf")


def absent(c, cname, n, alg, secure):
    L = leaf_values(n, secure, alg)
    t = build(c, cname, L, alg, secure)
    root(c, t, cname)
    T = sym("T", lo=HLEN[alg], hi=HLEN[alg], generic=True, group="leaf", nohash=True)
    c.raises(c.m(t, "get_proof_of_inclusion", T), "get_proof_of_inclusion of something that is not a leaf")
    for x in (None, "text", 5):
        if cname == "MerkleTree":
            c.raises(c.m(t, "get_proof_of_inclusion", x), "get_proof_of_inclusion of %r" % (x,), "TypeError")


# ------------------------------------------------------------------ C22
def fresh(c, cname, ops, alg, secure):
    """after any history, roots and proofs describe the current leaves or are refused"""
    cls = c.api(*(MT if cname == "MerkleTree" else MTOOLS))
    t = c.must(c.call(cls, secure=secure, hash_type=alg), cname)
    cur, k, old = [], 0, []
    pool = leaf_values(12, secure, alg)
    for n, op in enumerate(ops):
        what = "step %d (%s)" % (n + 1, op)
        if op == "put":
            add(c, t, cname, [pool[k]])
            cur.append(pool[k])
            k += 1
        elif op == "list":
            xs = pool[k:k + 2]
            add(c, t, cname, xs, "list" if cname == "MerkleTree" else "put")
            cur += xs
            k += 2
        elif op == "again":
            add(c, t, cname, [pool[0]])
            cur.append(pool[0])
        elif op == "reset":
            c.must(c.m(t, "reset_tree"), "reset_tree")
            cur = []
        elif op == "make":
            c.must(c.m(t, "make_tree"), "make_tree") if cur else c.m(t, "make_tree")
        elif op == "proof":
            # may be refused while the tree is not ready, but may not be wrong
            if cur:
                r = c.m(t, "get_proof_of_inclusion", cur[-1])
                if r.ok:
                    check_proof(c, t, cname, r.value, cur, alg, secure, what)
                    old.append((r.value, list(cur), cur[-1]))
        elif op == "first":
            if cur:
                r = c.m(t, "get_proof_of_inclusion", cur[0])
                if r.ok:
                    check_proof(c, t, cname, r.value, cur, alg, secure, what, first=0)
                    old.append((r.value, list(cur), cur[0]))
        elif op == "absent":
            c.raises(c.m(t, "get_proof_of_inclusion", sym("absent", lo=HLEN[alg], hi=HLEN[alg], generic=True, group="leaf", nohash=True)), "a proof of an absent leaf")
        elif op == "bad":
            if cname == "MerkleTree":
                c.raises(c.m(t, "put", "text"), "put of text", "TypeError")
                c.raises(c.m(t, "put_list", b"bytes"), "put_list of bytes", "TypeError")
                c.raises(c.m(t, "get", "0"), "get of text", "TypeError")
            else:
                c.raises(c.m(t, "add_leaf", "text" if secure else None), "add_leaf of text")
        elif op == "verify":
            if old and cname == "MerkleTree":
                p, leaves, x = old[-1]
                r = c.m(t, "verify_proof_of_inclusion", p)
                if cur and Spec(leaves, alg, secure).root is Spec(cur, alg, secure).root:
                    c.boolean(r, True, "%s: verify of a proof of the current leaves" % what)
                else:
                    refuse(c, r, "%s: a proof of an earlier set of leaves" % what)
        elif op == "text":
            c.m(t, "__str__")
            c.m(t, "__repr__")
        elif op == "compare":
            r = c.hash(t)
            if r.ok:
                c.true(bool(cur), "%s: an empty tree has a hash" % what)
                want = models.B_int(c.I, [hexs(Spec(cur, alg, secure).root), 16], {}) if hasattr(models, "B_int") else None
                if want is not None:
                    c.equal(r.value, want, "hash, " + what)
        elif op == "root":
            r = c.m(t, "get_merkle_root")
            if r.ok:
                sp = Spec(cur, alg, secure) if cur else None
                c.true(bool(cur), "%s: the root of an empty tree is %s" % (what, render(r.value)))
                c.equal(r.value, hexs(sp.root) if cname == "MerkleTools" else hexb(sp.root), "root, " + what)
            elif cname == "MerkleTree" and cur:
                c.must(r, "get_merkle_root, " + what)
        c.equal(c.must(c.m(t, "get_count" if cname == "MerkleTree" else "get_leaf_count"), "count"), len(cur), "number of leaves after " + what)
        c.equal(c.must(c.call(c.I.builtins["len"], t), "len"), len(cur), "len after " + what)
        if op in ("put", "list", "again", "reset"):
            c.boolean(c.m(t, "get_tree_ready_state"), False, "the ready state after " + what)
        elif cur and (op == "make" or op in ("root", "proof", "first") and r.ok):
            c.boolean(c.m(t, "get_tree_ready_state"), True, "the ready state after " + what)
        if n % 3 == 0:
            for f in ("str", "repr"):
                x = c.must(c.call(c.I.builtins[f], t), f + " of a tree")
                c.true(kind_of(x) == "str", "%s of a tree is %s" % (f, c.I.type_name(x)))
    if cur:
        sp = Spec(cur, alg, secure)
        root_is(c, t, cname, sp.root, "the tree at the end")
        for i in range(len(cur)):
            r = c.must(c.m(t, "get_proof_of_inclusion", cur[i]), "get_proof_of_inclusion at the end")
            check_proof(c, t, cname, r, cur, alg, secure, "at the end", first=cur.index(cur[i]))
    else:
        c.raises(root(c, t, cname), "the root of an empty tree")
    if cname == "MerkleTree":
        for p, leaves, x in old:
            r = c.m(t, "verify_proof_of_inclusion", p)
            if not cur:
                refuse(c, r, "an earlier proof on an empty tree")
            else:
                same = Spec(leaves, alg, secure).root is Spec(cur, alg, secure).root
                if same:
                    c.boolean(r, True, "verify of a proof of the current leaves")
                else:
                    refuse(c, r, "a proof of an earlier set of leaves")


def check_proof(c, t, cname, p, cur, alg, secure, what, first=None):
    sp = Spec(cur, alg, secure)
    i = len(cur) - 1 if first is None else first
    i = cur.index(cur[i])
    want = sp.proof(i)
    got = steps(c, p, cname)
    c.true(len(got) == len(want), "%s: the proof has %d steps, must have %d" % (what, len(got), len(want)))
    for k, ((a, x), (b, y)) in enumerate(zip(got, want)):
        c.equal(a, b, "%s: side of step %d" % (what, k))
        c.equal(x, hexs(y) if cname == "MerkleTools" else hexb(y), "%s: sibling of step %d" % (what, k))
    if cname == "MerkleTree":
        c.boolean(c.m(t, "verify_proof_of_inclusion", p), True, "verify of a proof, " + what)


# ------------------------------------------------------------------ C23
def stored(c, cname, n, alg, secure):
    """leaves are stored hashed exactly once (secure) or as they are, in order"""
    L = leaf_values(n, secure, alg)
    t = build(c, cname, L, alg, secure)
    sp = Spec(L, alg, secure)
    g = "get" if cname == "MerkleTree" else "get_leaf"
    for when in ("before", "after"):
        for i in range(n):
            c.equal(c.must(c.m(t, g, i), g), hexs(sp.leaves[i]), "leaf %d %s the tree is made" % (i, when))
        c.raises(c.m(t, g, n), "leaf %d of %d" % (n, n))
        if when == "before":
            root_is(c, t, cname, sp.root, "the tree")
    # a secure tree over values is the plain tree over their hashes
    if secure:
        t2 = build(c, cname, sp.leaves, alg, False)
        root_is(c, t2, cname, sp.root, "the plain tree over the hashes of the leaves")
        c.boolean(c.eq(t, t2), True, "equality of the two")
        c.equal(c.must(c.hash(t), "hash"), c.must(c.hash(t2), "hash"), "hash of the two")
    c.boolean(Res("ok", c.must(c.attr(t, "secure"), "secure")), secure, "secure flag")


def aliased(c, how, secure):
    """what the caller does with the objects handed over or out does not change the tree"""
    I = c.I
    alg = "sha256"
    cn = "MerkleTools"
    L = leaf_values(3, True, alg)
    if how == "bytearray":
        t = c.must(c.call(c.api(*MTOOLS), secure=secure), cn)
        bs = [BArr(x) for x in L]
        for b in bs:
            c.must(c.m(t, "add_leaf", b), "add_leaf of a bytearray")
        want = Spec(L, alg, secure).leaves
        bs[0].val = b"changed"
        I.call(I.getattr(bs[1], "extend"), [b"more"])
        for i in range(3):
            c.equal(c.must(c.m(t, "get_leaf", i), "get_leaf"), hexs(want[i]), "leaf %d after the caller changed the bytearray it was given as" % i)
        root_is(c, t, cn, Spec(L, alg, secure).root, "the tree after the caller changed the bytearrays")
        bs[2].val = b"changed"
        root_is(c, t, cn, Spec(L, alg, secure).root, "the tree after the caller changed the bytearrays")
    elif how == "list":
        t = c.must(c.call(c.api(*MT), secure=secure), "MerkleTree")
        L = leaf_values(3, secure, alg)
        xs = List(L)
        c.must(c.m(t, "put_list", xs), "put_list")
        c.equal(len(xs.items), 3, "length of the caller's list")
        xs.items[0] = b"other"
        xs.items.append(b"more")
        c.equal(c.must(c.m(t, "get_count"), "get_count"), 3, "number of leaves after the caller changed the list")
        root_is(c, t, "MerkleTree", Spec(L, alg, secure).root, "the tree after the caller changed the list")
        t2 = c.must(c.call(c.api(*MT), secure=secure), "MerkleTree")
        c.must(c.m(t2, "put_list", List(L)), "put_list")
        add(c, t2, "MerkleTree", [leaf_values(4, secure, alg)[3]])
        c.equal(c.must(c.m(t, "get_count"), "get_count"), 3, "number of leaves after another tree was given one")
        root_is(c, t, "MerkleTree", Spec(L, alg, secure).root, "the tree after another tree was given a leaf")
    elif how == "proof":
        t = build(c, cn, leaf_values(5, secure, alg), alg, secure)
        sp = Spec(leaf_values(5, secure, alg), alg, secure)
        root_is(c, t, cn, sp.root, "the tree")
        p = c.must(c.m(t, "get_proof_of_inclusion", leaf_values(5, secure, alg)[1]), "get_proof_of_inclusion")
        if isinstance(p, List):
            for x in p.items:
                if isinstance(x, Dict):
                    x.d.clear()
            p.items.clear()
        root_is(c, t, cn, sp.root, "the tree after the caller changed a proof")
        check_proof(c, t, cn, c.must(c.m(t, "get_proof_of_inclusion", leaf_values(5, secure, alg)[1]), "get_proof_of_inclusion"), leaf_values(5, secure, alg), alg, secure, "again", first=1)
    elif how == "equal":
        # a tree with equal leaves keeps all of them
        L = leaf_values(6, secure, alg, (1, 4))
        for cn in ("MerkleTree", "MerkleTools"):
            t = build(c, cn, L, alg, secure)
            sp = Spec(L, alg, secure)
            c.equal(c.must(c.m(t, "get_count" if cn == "MerkleTree" else "get_leaf_count"), "count"), 6, "number of leaves")
            for i in range(6):
                c.equal(c.must(c.m(t, "get" if cn == "MerkleTree" else "get_leaf", i), "get"), hexs(sp.leaves[i]), "leaf %d" % i)
            root_is(c, t, cn, sp.root, "the tree")
    elif how == "constants":
        for cn in ("MerkleTree", "MerkleTools"):
            L = [b"", b"\x00", b"a", b"ab", b"a", b"\xff" * 32, b"0" * 64, b"\x00" * 32] if secure else [b"\x00" * 32, b"\xff" * 32, b"a" * 32, b"\x01" * 32, b"b" * 32]
            for m in range(1, len(L) + 1):
                sp = Spec(L[:m], alg, secure)
                t = build(c, cn, L[:m], alg, secure)
                root_is(c, t, cn, sp.root, "the tree of constants")
                for i in range(m):
                    c.equal(c.must(c.m(t, "get" if cn == "MerkleTree" else "get_leaf", i), "get"), hexs(sp.leaves[i]), "leaf %d" % i)
                    p = c.must(c.m(t, "get_proof_of_inclusion", L[i]), "get_proof_of_inclusion")
                    if cn == "MerkleTree":
                        c.boolean(c.m(t, "verify_proof_of_inclusion", p), True, "verify of the proof of leaf %d of %d" % (i, m))


def types(c, what):
    cls = c.api(*MT)
    if what == "put":
        for x in ("text", None, 5, List([b"x"]), BArr(b"x")):
            t = build(c, "MerkleTree", leaf_values(2, True, "sha256"), "sha256", True)
            c.raises(c.m(t, "put", x), "put of %s" % c.I.type_name(x), "TypeError")
            c.equal(c.must(c.m(t, "get_count"), "get_count"), 2, "number of leaves after a refused put")
            root_is(c, t, "MerkleTree", Spec(leaf_values(2, True, "sha256"), "sha256", True).root, "the tree after a refused put")
    elif what == "list":
        for x in ("text", None, b"bytes", 5, Dict()):
            t = build(c, "MerkleTree", leaf_values(2, True, "sha256"), "sha256", True)
            c.raises(c.m(t, "put_list", x), "put_list of %s" % c.I.type_name(x), "TypeError")
            c.equal(c.must(c.m(t, "get_count"), "get_count"), 2, "number of leaves after a refused put_list")
        L = leaf_values(3, True, "sha256")
        t = c.must(c.call(cls), "MerkleTree")
        c.must(c.m(t, "put_list", tuple(L)), "put_list of a tuple")
        root_is(c, t, "MerkleTree", Spec(L, "sha256", True).root, "the tree filled from a tuple")
    elif what == "list items":
        for bad in ("text", None, 5, List([b"x"]), BArr(b"x")):
            for at in (0, 1, 2):
                L = leaf_values(4, True, "sha256")
                t = build(c, "MerkleTree", L[:2], "sha256", True)
                xs = [L[2], L[3]]
                xs.insert(at, bad)
                c.raises(c.m(t, "put_list", List(xs)), "put_list of a list with a %s" % c.I.type_name(bad), "TypeError")
                n = c.must(c.m(t, "get_count"), "get_count")
                c.true(isinstance(n, int) and 2 <= n <= 2 + at, "a refused list left %s leaves" % render(n))
                root_is(c, t, "MerkleTree", Spec(L[:n], "sha256", True).root, "the tree after a refused list")
        for e in (List(), ()):
            t = build(c, "MerkleTree", leaf_values(2, True, "sha256"), "sha256", True)
            c.must(c.m(t, "put_list", e), "put_list of nothing")
            root_is(c, t, "MerkleTree", Spec(leaf_values(2, True, "sha256"), "sha256", True).root, "the tree after nothing was put")
    elif what == "secure":
        for x in ("yes", None, 1, b""):
            c.raises(c.call(cls, secure=x), "MerkleTree(secure=%r)" % (x,), "TypeError")
        t = c.must(c.call(cls), "MerkleTree")
        c.boolean(Res("ok", c.must(c.attr(t, "secure"), "secure")), True, "secure flag of a default tree")
    elif what == "algorithm":
        for x in ("sha1", "crc32", "", "sha-256", "blake2b", "new", "keccak", "sha", "sha2", "sha25", "sha2560", "sha256 ", " sha256", "sha3", "sha3-256", "sha3_25", "sha512_256", "shake_128", "blake2s", "md", "md4", "__name__", "algorithms_available", "sha256,md5"):
            for cn in (MT, MTOOLS):
                c.raises(c.call(c.api(*cn), hash_type=x), "hash type %r" % x)
        for a in ALGS:
            for name in (a, a.upper(), a.title()):
                L = leaf_values(3, True, a)
                t = c.must(c.call(cls, hash_type=name), "MerkleTree")
                add(c, t, "MerkleTree", L)
                root_is(c, t, "MerkleTree", Spec(L, a, True).root, "the tree with hash type " + name)
                t = c.must(c.call(c.api(*MTOOLS), hash_type=name), "MerkleTools")
                add(c, t, "MerkleTools", L)
                root_is(c, t, "MerkleTools", Spec(L, a, False).root, "the tree with hash type " + name)
        for x in (None, 5, b"sha256"):
            for cn in (MT, MTOOLS):
                c.raises(c.call(c.api(*cn), hash_type=x), "hash type %r" % (x,))
        t = c.must(c.call(c.api(*MTOOLS)), "MerkleTools")
        L = leaf_values(3, False, "sha256")
        add(c, t, "MerkleTools", L)
        root_is(c, t, "MerkleTools", Spec(L, "sha256", False).root, "a default MerkleTools")
    elif what == "index":
        t = build(c, "MerkleTree", leaf_values(2, True, "sha256"), "sha256", True)
        for x in ("0", None, b"0", 1.0):
            c.raises(c.m(t, "get", x), "get of index %r" % (x,), "TypeError")


# ------------------------------------------------------------------ C36
def made(c, cname, L, alg, secure, how="put"):
    t = build(c, cname, L, alg, secure, how if cname == "MerkleTree" else "put")
    if cname == "MerkleTools":
        c.must(c.m(t, "make_tree"), "make_tree")
    return t


def eq(c, a, b, want, what):
    for x, y in ((a, b), (b, a)):
        c.boolean(c.op("Eq", x, y), want, "== of " + what)
        c.boolean(c.op("NotEq", x, y), not want, "!= of " + what)


def same_hash(c, a, b, what):
    c.equal(c.must(c.hash(a), "hash"), c.must(c.hash(b), "hash"), "hash of " + what)


def same_tree(c, cname, n, alg, secure, warm):
    """equal leaves: equal trees, equal hashes, however they were put in"""
    L = leaf_values(n, secure, alg)
    sp = Spec(L, alg, secure)
    a, b = made(c, cname, L, alg, secure), made(c, cname, L, alg, secure, "list")
    if warm:
        root_is(c, a, cname, sp.root, "the first tree")
        eq(c, a, a, True, "a tree and itself")
    eq(c, a, b, True, "trees with the same %d leaves" % n)
    same_hash(c, a, b, "equal trees")
    if n > 1:
        # grown and compared again
        x = made(c, cname, L[:-1], alg, secure)
        eq(c, x, a, False, "trees with %d and %d leaves" % (n - 1, n))
        add(c, x, cname, L[-1:])
        if cname == "MerkleTools":
            c.must(c.m(x, "make_tree"), "make_tree")
        eq(c, x, a, True, "trees with the same %d leaves" % n)
        same_hash(c, x, a, "equal trees")
        c.must(c.m(x, "reset_tree"), "reset_tree")
        add(c, x, cname, L[:1])
        if cname == "MerkleTools":
            c.must(c.m(x, "make_tree"), "make_tree")
        eq(c, x, a, False, "trees with 1 and %d leaves" % n)
    root_is(c, a, cname, sp.root, "a tree after comparisons")
    root_is(c, b, cname, sp.root, "a tree after comparisons")


def other_tree(c, cname, n, how, alg, secure):
    """other leaves, another order, another number of them: another tree"""
    L = leaf_values(n, secure, alg)
    M = list(L)
    new = sym("Lx", lo=0 if secure else HLEN[alg], hi=None if secure else HLEN[alg], generic=True, group="leaf", nohash=True)
    if how == "more":
        M.append(new)
    elif how == "again":
        M.append(L[-1])
    elif how == "order":
        M[0], M[-1] = M[-1], M[0]
    elif how == "reversed":
        M.reverse()
    elif how == "rotated":
        M = M[1:] + M[:1]
    elif isinstance(how, int):
        M[how] = new
    if M == L:
        return
    a, b = made(c, cname, L, alg, secure), made(c, cname, M, alg, secure)
    same = c.I.eq3(Spec(L, alg, secure).root, Spec(M, alg, secure).root)
    if same is not False:
        raise Infeasible()
    eq(c, a, b, False, "trees with different leaves")
    root_is(c, a, cname, Spec(L, alg, secure).root, "the first tree after comparisons")
    root_is(c, b, cname, Spec(M, alg, secure).root, "the second tree after comparisons")


def settings(c, cname):
    """other settings, other classes"""
    L = leaf_values(3, True, "sha256")
    for alg in ALGS[1:]:
        eq(c, made(c, cname, L, "sha256", True), made(c, cname, L, alg, True), False, "trees with sha256 and " + alg)
    for n in (2, 3, 4, 7):
        W = leaf_values(n, False, "sha256")
        for alg in ALGS:
            if alg != "sha256" and HLEN[alg] == HLEN["sha256"]:
                # the very same leaves
                for x, y in (("sha256", alg), (alg, "sha256")):
                    eq(c, made(c, cname, W, x, False), made(c, cname, W, y, False), False, "trees over the same %d leaves with %s and %s" % (n, x, y))
    P = leaf_values(3, False, "sha256")
    eq(c, made(c, cname, P, "sha256", True), made(c, cname, P, "sha256", False), False, "a secure and a plain tree")
    sp = Spec(P, "sha256", True)
    eq(c, made(c, cname, P, "sha256", True), made(c, cname, sp.leaves, "sha256", False), True, "a secure tree and a plain one with the same hashes")
    # roots that are the same number only
    for x, y in ((b"\0\1", b"\1"), (b"\0" * 32, b"\0"), (b"\0" * 32, b"\0" * 31), (b"\0" + b"\7" * 31, b"\7" * 31)):
        eq(c, made(c, cname, [x], "sha256", False), made(c, cname, [y], "sha256", False), False, "trees with the leaves %s and %s" % (x.hex(), y.hex()))
        eq(c, made(c, cname, [x], "sha256", False), made(c, cname, [x], "sha256", False), True, "trees with the leaf %s" % x.hex())


def alike(c, cname):
    """plain trees of one leaf that differ in one byte only"""
    for n in (1, 2, 8, 16, 20, 32, 40, 64):
        base = bytes(range(65, 65 + n))
        for i in {0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n)):
            for d in (1, 16, 128):
                x = base[:i] + bytes([base[i] ^ d]) + base[i + 1:]
                eq(c, made(c, cname, [base], "sha256", False), made(c, cname, [x], "sha256", False), False, "trees with the leaves %s and %s" % (base.hex(), x.hex()))
        for x in (base[1:], base[:-1], base + b"A", b"A" + base):
            if x:
                eq(c, made(c, cname, [base], "sha256", False), made(c, cname, [x], "sha256", False), False, "trees with the leaves %s and %s" % (base.hex(), x.hex()))


def strange(c, cname, n, alg, secure):
    """a tree is not equal to what is not a tree"""
    L = leaf_values(n, secure, alg)
    sp = Spec(L, alg, secure)
    for cold in (True, False):
        t = made(c, cname, L, alg, secure)
        if not cold:
            root_is(c, t, cname, sp.root, "the tree")
        h = c.must(c.hash(t), "hash")
        P = c.must(c.call(c.api("pymt.proof", "Proof"), target_key=L[0], root_hash=hexb(sp.root), proof=(), proof_type=b"MT-POI"), "Proof")
        lv = list(L)
        for o in (None, 0, True, "text", b"bytes", 1.5, sp.root, hexs(sp.root), hexb(sp.root), h, List(lv), tuple(lv), Dict(), P, c.api(*(MT if cname == "MerkleTree" else MTOOLS))):
            eq(c, t, o, False, "a tree and %s" % c.I.type_name(o))
        root_is(c, t, cname, sp.root, "the tree after comparisons")


def gen_equal(tier, seed):
    out = []
    top = 7 if tier == "quick" else 17
    for cname in ("MerkleTree", "MerkleTools"):
        for n in (11, 18, 35):
            for sec in (True, False):
                out.append(("%s: the same %d leaves, %s" % (cname, n, "secure" if sec else "plain"), same_tree, (cname, n, ALGS[n % 9], sec, sec)))
                for how in ("more", "order", "rotated", 0, n - 1):
                    out.append(("%s: %d leaves and others (%s), %s" % (cname, n, how, "secure" if sec else "plain"), other_tree, (cname, n, how, ALGS[n % 9], sec)))
        out.append(("%s: settings and single leaves" % cname, settings, (cname,)))
        out.append(("%s: leaves that differ in one byte" % cname, alike, (cname,)))
        for n in range(1, top):
            for j, alg in enumerate(ALGS):
                for sec in (True, False):
                    out.append(("%s: the same %d leaves, %s, %s" % (cname, n, alg, "secure" if sec else "plain"), same_tree, (cname, n, alg, sec, bool((n + j) % 2))))
                    if tier != "quick" or (n + j) % 3 == 0:
                        out.append(("%s: %d leaves and what is not a tree, %s, %s" % (cname, n, alg, "secure" if sec else "plain"), strange, (cname, n, alg, sec)))
            for how in ["more", "again", "order", "reversed", "rotated"] + list(range(n)):
                if n == 1 and how in ("order", "reversed", "rotated"):
                    continue
                for sec in (True, False):
                    out.append(("%s: %d leaves and others (%s), %s" % (cname, n, how, "secure" if sec else "plain"), other_tree, (cname, n, how, ALGS[n % 9], sec)))
    return out


def gen_agree(tier, seed):
    out = []
    sizes = list(range(1, 24)) + [31, 32, 33, 47, 63, 64, 65, 100, 129] + ([] if tier == "quick" else list(range(24, 72)) + [127, 128, 200, 255, 256, 257, 300])
    for cname in ("MerkleTree", "MerkleTools"):
        for n in dict.fromkeys(sizes):
            for i in range(n) if n < (10 if tier == "quick" else 34) else sorted({0, 1, n // 3, n // 2, n - 3, n - 2, n - 1}):
                alg = ALGS[(n * 3 + i) % 9]
                sec = bool((n + i) % 3)
                how = "list" if (i % 2 and cname == "MerkleTree") else "put"
                out.append(("%s: leaf %d of %d, %s, %s" % (cname, i, n, alg, "secure" if sec else "plain"), agree, (cname, n, i, alg, sec, how)))
        for alg in ALGS:
            for sec in (True, False):
                out.append(("%s: leaf 3 of 5, %s, %s" % (cname, alg, "secure" if sec else "plain"), agree, (cname, 5, 3, alg, sec, "put")))
                out.append(("%s: something that is not one of 3 leaves, %s, %s" % (cname, alg, "secure" if sec else "plain"), absent, (cname, 3, alg, sec)))
        for dup in ((1,), (2,), (4,), (1, 3)):
            for sec in (True, False):
                out.append(("%s: repeated leaves %s" % (cname, dup), agree, (cname, 5, dup[0], "sha256", sec, "put", dup)))
        ms = (1, 2, 3, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 9, 11)
        for n in ms + (13, 19, 37):
            for i in range(n) if n < 12 else (0, n // 2, n - 1):
                for how in ("sibling", "sibling known", "side", "dropped", "added", "added known", "order", "target", "root", "inner", "malformed"):
                    alg = ALGS[(n + 2 * i) % 9]
                    for sec in (True, False):
                        out.append(("%s: altered proof (%s) of leaf %d of %d, %s, %s" % (cname, how, i, n, alg, "secure" if sec else "plain"), altered, (cname, n, i, alg, sec, how)))
        import itertools

        for n, dup in ((2, (1,)), (3, (1,)), (3, (2,)), (3, (1, 2)), (4, (1, 2, 3)), (4, (2,)), (4, (3,)), (5, (4,)), (5, (1, 2, 3, 4)), (6, (4,)), (6, (1, 2, 3))):
            for sec in (True, False):
                out.append(("%s: %d leaves, %s equal the first, %s" % (cname, n, dup, "secure" if sec else "plain"), twins, (cname, n, dup, ALGS[n], sec)))
        for n in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9):
            for m in range(4 if tier == "quick" else 6):
                for sides in itertools.product(("left", "right"), repeat=m):
                    for sec in (True, False):
                        out.append(("%s: forged proof %s for %d leaves, %s" % (cname, " ".join(sides), n, "secure" if sec else "plain"), forged, (cname, n, "sha256", sec, sides)))
    for n in (1, 2, 3, 4, 5) if tier == "quick" else range(1, 9):
        for w in ("superset", "order", "mode", "algorithm", "emptied", "unchanged"):
            for sec in (True, False):
                out.append(("MerkleTree: proofs and other trees (%s), %d leaves, %s" % (w, n, "secure" if sec else "plain"), strangers, (n, "sha256", sec, w)))
    return out


def gen_fresh(tier, seed):
    import itertools
    import random

    out = []
    A = ["put", "list", "again", "reset", "make", "proof", "root"]
    W = A + ["first", "verify", "absent", "bad", "text", "compare"]
    rnd = random.Random(11)
    seqs = [s for n in (1, 2, 3) for s in itertools.product(A, repeat=n)]
    seqs += [("list", a, b, x, y) for a in ("make", "root", "proof", "first") for b in ("put", "again", "reset", "bad", "absent", "text", "compare") for x in ("make", "root", "proof", "verify", "first", "compare") for y in ("root", "verify")]
    n = 1500 if tier == "quick" else 12000
    while n:
        seqs.append(tuple(rnd.choice(W) for _ in range(rnd.randint(4, 8 if tier == "quick" else 12))))
        n -= 1
    for i, s in enumerate(dict.fromkeys(seqs)):
        if sum((x == "put") + 2 * (x == "list") for x in s) > 12:
            continue
        cname = "MerkleTree" if i % 3 else "MerkleTools"
        out.append(("%s: %s" % (cname, " ".join(s)), fresh, (cname, s, ALGS[i % 9], bool(i % 2) if len(s) > 1 else True)))
    return out


def gen_leaves(tier, seed):
    out = []
    for cname in ("MerkleTree", "MerkleTools"):
        for alg in ALGS:
            for sec in (True, False):
                for n in (1, 2, 3, 4, 21) if tier == "quick" else (*range(1, 10), 21, 70):
                    out.append(("%s: %d stored leaves, %s, %s" % (cname, n, alg, "secure" if sec else "plain"), stored, (cname, n, alg, sec)))
    for w in ("bytearray", "list", "proof", "equal", "constants"):
        for sec in (True, False):
            out.append(("what the caller keeps (%s), %s" % (w, "secure" if sec else "plain"), aliased, (w, sec)))
    for w in ("put", "list", "list items", "secure", "algorithm", "index"):
        out.append(("argument checks: " + w, types, (w,)))
    return out
