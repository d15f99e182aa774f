"""Abstract Merkle-Patricia tries: the analysis' own specification, and scenario classes.

Keys are nibble tuples, values are abstract byte strings, references are the abstract
terms keccak(rlp(node)) or the embedded node, decided per partition by its length.
"""
import itertools
import random

from values import *


# ------------------------------------------------------------------ specification
def hp(nibs, leaf):
    """hex-prefix encoding (Yellow Paper, appendix C)"""
    f = 2 if leaf else 0
    if len(nibs) % 2:
        n = [f + 1] + list(nibs)
    else:
        n = [f, 0] + list(nibs)
    return bytes(n[i] * 16 + n[i + 1] for i in range(0, len(n), 2))


def unhp(b):
    n = [x for y in b for x in (y >> 4, y & 15)]
    if not n or n[0] > 3:
        return None
    leaf = n[0] >= 2
    if n[0] % 2 == 0 and n[1] != 0:
        return None
    return tuple(n[1:] if n[0] % 2 else n[2:]), leaf


def nib(key):
    return tuple(x for y in key for x in (y >> 4, y & 15))


def unnib(n):
    assert len(n) % 2 == 0
    return bytes(n[i] * 16 + n[i + 1] for i in range(0, len(n), 2))


def keccak(x):
    return mk("H", "keccak256", x)


EMPTY = keccak(mk("rlp", b""))


def lcp(ps):
    p = ps[0]
    for q in ps[1:]:
        i = 0
        while i < len(p) and i < len(q) and p[i] == q[i]:
            i += 1
        p = p[:i]
    return p


def node(I, items, out):
    """RLP content of the canonical node for items = {path: value}"""
    ks = sorted(items)
    if len(ks) == 1:
        return (hp(ks[0], True), items[ks[0]])
    p = lcp(ks)
    if p:
        return (hp(p, False), ref(I, node(I, {k[len(p):]: v for k, v in items.items()}, out), out))
    br = []
    for i in range(16):
        sub = {k[1:]: v for k, v in items.items() if k and k[0] == i}
        br.append(ref(I, node(I, sub, out), out) if sub else b"")
    return tuple(br) + (items.get((), b""),)


def ref(I, c, out):
    t = mk("rlp", c)
    if I.lt0(ladd(I.blen(t), -32), "node shorter than 32 bytes"):
        return c
    h = keccak(t)
    out[h] = t
    return h


class Canon:
    """The canonical trie for a content map in the current partition."""

    def __init__(self, I, items):
        self.items = dict(items)
        self.nodes = {}
        if not items:
            self.root = None
            self.root_hash = EMPTY
            self.content = None
            return
        self.content = node(I, self.items, self.nodes)
        t = mk("rlp", self.content)
        self.root_hash = keccak(t)
        if I.lt0(ladd(I.blen(t), -32), "root node shorter than 32 bytes"):
            self.root = t
        else:
            self.root = self.root_hash
            self.nodes[self.root_hash] = t

    def storage(self):
        return Dict(self.nodes.items(), name="trie storage")

    def path_nodes(self, I, key):
        """contents of the nodes on the way to key, outermost first"""
        out = []
        c, p = self.content, key
        while isinstance(c, tuple):
            out.append(c)
            if len(c) == 17:
                if not p:
                    break
                c, p = self.deref(c[p[0]]), p[1:]
            else:
                q, leaf = unhp(c[0])
                if leaf or p[: len(q)] != q:
                    break
                c, p = self.deref(c[1]), p[len(q):]
        return out

    def deref(self, r):
        if isinstance(r, tuple):
            return r
        if isinstance(r, bytes) and r == b"":
            return None
        return self.nodes[r].args[0]


class Broken(Exception):
    """The stored trie is not a well-formed trie."""


def contents(I, root, storage):
    """Content map reachable from root (a 32-byte reference, an RLP node or None)."""
    out = {}

    def load(h, path):
        e = I.dict_find(storage, h)
        if e is None:
            raise Broken("node %s at path %s is not in the storage" % (render(h), fmt(path)))
        v = e[1]
        if isinstance(v, BArr):
            v = v.val
        if keccak(v) is not h:
            raise Broken("storage entry %s holds a node with another hash" % render(h))
        return dec(v, path)

    def dec(v, path):
        if isinstance(v, Term) and v.op == "rlp":
            return v.args[0]
        if isinstance(v, bytes):
            import models

            try:
                return models._rlp_dec(v)
            except (ValueError, IndexError):
                pass
        raise Broken("stored node at path %s is %s, not RLP" % (fmt(path), render(v)))

    def walk(c, path):
        if not isinstance(c, tuple):
            if c == b"":
                raise Broken("empty reference at path %s" % fmt(path))
            if I.eq3(I.blen(c), 32) is not True:
                raise Broken("reference %s at path %s is not 32 bytes" % (render(c), fmt(path)))
            c = load(c, path)
            if not isinstance(c, tuple):
                raise Broken("node at path %s is not a list" % fmt(path))
        if len(c) == 17:
            for i in range(16):
                if isinstance(c[i], bytes) and c[i] == b"":
                    continue
                walk(c[i], path + (i,))
            v = c[16]
            if isinstance(v, tuple):
                raise Broken("branch value is a list")
            if not (isinstance(v, bytes) and v == b""):
                put(path, v)
            return
        if len(c) != 2 or not isinstance(c[0], bytes):
            if isinstance(c[0], Term):
                raise Unsupported("abstract node path")
            raise Broken("node at path %s has %d items" % (fmt(path), len(c)))
        d = unhp(c[0])
        if d is None:
            raise Broken("node path %r is not a hex-prefix encoding" % (c[0],))
        q, leaf = d
        if leaf:
            if isinstance(c[1], tuple):
                raise Broken("leaf value is a list")
            put(path + q, c[1])
        else:
            walk(c[1], path + q)

    def put(path, v):
        if path in out:
            raise Broken("two entries for path %s" % fmt(path))
        out[path] = v

    if root is None or root is EMPTY:
        return out
    if isinstance(root, BArr):
        root = root.val
    if kind_of(root) != "bytes":
        raise Broken("root is %s" % render(root))
    if isinstance(root, bytes) and root == b"":
        return out
    if isinstance(root, Term) and root.op == "rlp":
        walk(root.args[0], ())
    elif isinstance(root, bytes):
        walk(dec(root, ()), ())
    else:
        walk(root, ())
    return out


def fmt(path):
    return "".join("%x" % x for x in path) or "(empty)"


# ------------------------------------------------------------------ shape classes
def shape(items):
    """concrete canonical tree: ('L', path) ('E', path, child) ('B', {i: child}, hasvalue)"""
    ks = sorted(items)
    if not ks:
        return None
    if len(ks) == 1:
        return ("L", ks[0])
    p = lcp(ks)
    if p:
        return ("E", p, shape([k[len(p):] for k in ks]))
    return ("B", {i: shape([k[1:] for k in ks if k and k[0] == i]) for i in range(16) if any(k and k[0] == i for k in ks)}, () in ks)


def cl(n, m=2):
    return min(n, m)


def lens(n):
    # 0, 1, 2, 3+ keeping parity information for longer ones
    return n if n < 3 else 3 + n % 2


def relation(p, q):
    """relation of remaining key p with node path q"""
    c = lcp([p, q])
    if p == q:
        return ("eq", cl(len(p)), len(p) % 2)
    return (cl(len(c)), len(c) % 2, lens(len(p) - len(c)), lens(len(q) - len(c)))


def brief(s):
    if s is None:
        return "-"
    if s[0] == "L":
        return "L%d" % lens(len(s[1]))
    if s[0] == "E":
        return "E%d" % lens(len(s[1]))
    return "B"


def signature(keys, key, coarse=False):
    s, p, d, out = shape(keys), key, 0, []
    while s is not None:
        if s[0] == "L":
            out.append(("L", d % 2, relation(p, s[1])))
            break
        if s[0] == "E":
            out.append(("E", d % 2, relation(p, s[1])))
            if p[: len(s[1])] != s[1]:
                break
            d += len(s[1])
            p, s = p[len(s[1]):], s[2]
            continue
        others = [c for i, c in s[1].items() if not p or i != p[0]]
        o = brief(others[0]) if len(others) == 1 else cl(len(others))
        if coarse and isinstance(o, str):
            o = o[0]
        if not p:
            out.append(("B", d % 2, "end", s[2], o))
            break
        if p[0] not in s[1]:
            out.append(("B", d % 2, "slot", s[2], o, lens(len(p))))
            break
        out.append(("B", d % 2, "down", s[2], o))
        d += 1
        p, s = p[1:], s[1][p[0]]
    else:
        out.append("empty")
    return tuple(out)


def classes(seed=1, maxkeys=5, maxlen=6, samples=60000, depth=3, alphabet=3, coarse=False):
    """One representative (keys, key) per signature, smallest first."""
    rnd = random.Random(seed)
    best = {}

    def add(keys, key):
        keys = tuple(sorted(keys))
        sg = signature(keys, key, coarse)
        if len([x for x in sg if x[0] == "B"]) > depth:
            return
        w = (len(keys), sum(map(len, keys)) + len(key))
        if sg not in best or best[sg][0] > w:
            best[sg] = (w, keys, key)

    # exhaustive: up to two keys over two letters, up to 4 nibbles
    U = [()] + [k for n in (2, 4) for k in itertools.product(range(2), repeat=n)]
    for n in (0, 1, 2):
        for ks in itertools.combinations(U, n):
            for k in U:
                add(ks, k)
    for _ in range(samples):
        n = rnd.randint(1, maxkeys)
        ks = set()
        base = [rnd.randrange(alphabet) for _ in range(maxlen)]
        for _ in range(n + 1):
            l = 2 * rnd.randint(0, maxlen // 2)
            c = rnd.randint(0, l)
            k = tuple(base[:c]) + tuple(rnd.randrange(alphabet) for _ in range(l - c))
            ks.add(k)
            if rnd.random() < 0.5:
                base = list(k) + base[len(k):]
        ks = list(ks)
        k = rnd.choice(ks)
        if rnd.random() < 0.5:
            ks.remove(k)
        add(ks, k)
    return [(sg, ks, k) for sg, (w, ks, k) in sorted(best.items(), key=lambda x: (x[1][0], repr(x[0])))]


PERMS = [(0, 1, 2, 3), (15, 0, 7, 8), (10, 5, 0, 15), (1, 15, 14, 0), (8, 9, 3, 4), (6, 12, 13, 2), (3, 11, 4, 7)]


def rename(k, perm):
    return tuple(perm[x] for x in k)


def value(name, size):
    if size == "long":
        return sym(name, lo=33, group="V", generic=True)
    if size == "short":
        return sym(name, lo=1, hi=3, group="V", generic=True)
    return sym(name, lo=1, group="V", generic=True)


if __name__ == "__main__":
    import time

    t = time.time()
    for a in ({}, {"coarse": True}, {"depth": 2}, {"depth": 2, "coarse": True}):
        c = classes(**a)
        print(a, len(c), time.time() - t)
    for x in c[:40]:
        print(x)
