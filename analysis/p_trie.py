"""Properties of the trie: C01-C08, C12, C13."""
from core import *
import tries
from tries import Canon, contents, Broken, unnib, nib, fmt, rename, value, PERMS

MPT = ("pymt.mpt", "MPT")


def describe(keys, key, sizes):
    return "trie {%s}, key %s, values %s" % (", ".join(fmt(k) for k in keys), fmt(key), "".join(s[0] for s in sizes))


def vals_for(keys, sizes):
    return {k: value("V%d" % i, sizes[i]) for i, k in enumerate(keys)}


def open_trie(c, canon, secure=False):
    st = canon.storage()
    cls = c.api(*MPT)
    t = c.must(c.call(cls, st, canon.root, secure), "opening a trie")
    return t, st


def root_of(c, t):
    return c.must(c.m(t, "root"), "root()")


def walk(c, t, st, what):
    c.obligations += 1
    try:
        return contents(c.I, root_of(c, t), st)
    except Broken as b:
        raise Failure("stored trie is broken", "%s: %s" % (what, b))


def same_map(c, got, want, what):
    c.obligations += 1
    for k in sorted(set(got) | set(want)):
        if k not in got:
            raise Failure("lost entry", "%s: key %s is no longer in the trie" % (what, fmt(k)))
        if k not in want:
            raise Failure("extra entry", "%s: key %s is in the trie" % (what, fmt(k)))
        r = c.I.eq3(got[k], want[k])
        if r is None:
            raise Unsupported("value equality")
        if not r:
            raise Failure("wrong value", "%s: key %s holds %s, must hold %s" % (what, fmt(k), render(got[k]), render(want[k])))


def snapshot(st):
    return [(k, v) for k, v in st.pairs()]


def same_storage(c, st, snap, what):
    c.obligations += 1
    now = st.pairs()
    if len(now) != len(snap) or any(a[0] is not b[0] and c.I.eq3(a[0], b[0]) is not True or c.I.eq3(a[1], b[1]) is not True for a, b in zip(now, snap)):
        raise Failure("side effect", "%s changed the node storage" % what)


def check_lookup(c, t, k, want, what):
    """want: value or None"""
    kb = unnib(k)
    r = c.m(t, "get", kb)
    if want is None:
        c.raises(r, "%s: get of absent key %s" % (what, fmt(k)))
    else:
        c.equal(c.must(r, "%s: get of key %s" % (what, fmt(k))), want, "%s: get of key %s" % (what, fmt(k)))
    c.boolean(c.m(t, "contains", kb), want is not None, "%s: contains of key %s" % (what, fmt(k)))


def warm(c, t, keys, vals, level=1):
    """ask for everything first: what is asked before must not decide what is answered later"""
    for k in sorted(set(keys) | set(vals)):
        check_lookup(c, t, k, vals.get(k), "before the operation")
    c.m(t, "root_hash")
    c.hash(t)
    if level > 1:
        c.m(t, "encode")
        for k in sorted(set(keys) | set(vals)):
            c.m(t, "get_proof_of_inclusion" if k in vals else "get_proof_of_exclusion", unnib(k))


# ------------------------------------------------------------------ C01
def lookup(c, keys, key, sizes):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    check_lookup(c, t, key, vals.get(key), "canonical trie")
    kb = unnib(key)
    c.boolean(c.m(t, "__contains__", kb), key in vals, "`in` for key %s" % fmt(key))
    r = c.m(t, "__getitem__", kb)
    if key in vals:
        c.equal(c.must(r, "trie[key]"), vals[key], "trie[%s]" % fmt(key))
    else:
        c.raises(r, "trie[%s] for an absent key" % fmt(key))
    # lookups do not depend on earlier lookups
    check_lookup(c, t, key, vals.get(key), "second lookup")


# ------------------------------------------------------------------ C02 / C03 / C04 / C07
def upd(c, t, k, v, form="update"):
    if form == "update":
        return c.m(t, "update", unnib(k), v)
    return c.m(t, "__setitem__", unnib(k), v)


def dele(c, t, k, form="delete"):
    return c.m(t, form, unnib(k))


def update_content(c, keys, key, sizes, new, form, warmed=0):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    if warmed:
        warm(c, t, [key], vals, warmed)
    nv = vals[key] if new == "same" else value("N", new)
    c.must(upd(c, t, key, nv, form), "update of key %s" % fmt(key))
    want = dict(vals)
    want[key] = nv
    same_map(c, walk(c, t, st, "after update"), want, "after update of key %s" % fmt(key))
    check_lookup(c, t, key, nv, "after update")
    for k in vals:
        if k != key:
            check_lookup(c, t, k, vals[k], "after update of key %s" % fmt(key))


def wrong_value(kind):
    return {"None": lambda: None, "a text": lambda: "text", "a number": lambda: 5, "an empty list": lambda: List([]), "a list of values": lambda: List([b"a", sym("A", lo=0, generic=True)]), "a truth value": lambda: True}[kind]()


WRONG = ["None", "a text", "a number", "an empty list", "a list of values", "a truth value"]


def refused_value(c, keys, key, sizes, kind, form):
    """a value that is no byte string is refused wherever the key belongs in the trie"""
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    snap, before = snapshot(st), root_of(c, t)
    what = "storing %s for key %s" % (kind, fmt(key))
    c.raises(upd(c, t, key, wrong_value(kind), form), what)
    same_storage(c, st, snap, what)
    c.equal(root_of(c, t), before, "root after " + what)
    same_map(c, walk(c, t, st, "after " + what), vals, "after " + what)
    check_lookup(c, t, key, vals.get(key), "after " + what)
    # the trie still works
    nv = value("N", "long")
    c.must(upd(c, t, key, nv, form), "update after " + what)
    want = dict(vals)
    want[key] = nv
    same_map(c, walk(c, t, st, "after update"), want, "after " + what + " and then a value")


def delete_content(c, keys, key, sizes, form, warmed=0):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    if warmed:
        warm(c, t, [key], vals, warmed)
    r = dele(c, t, key, form)
    want = dict(vals)
    if key in vals:
        c.must(r, "delete of key %s" % fmt(key))
        del want[key]
        what = "after delete of key %s" % fmt(key)
    else:
        c.raises(r, "delete of absent key %s" % fmt(key))
        what = "after the refused delete of absent key %s" % fmt(key)
        c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), canon.root_hash, "root hash " + what)
    same_map(c, walk(c, t, st, what), want, what)
    check_lookup(c, t, key, None, what)
    for k in want:
        check_lookup(c, t, k, want[k], what)


def canonical_after(c, keys, key, sizes, op, new, warmed=0):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    if warmed:
        warm(c, t, [key], vals, warmed)
        t3, st3 = open_trie(c, canon)
        c.boolean(c.eq(t, t3), True, "equality with a trie of the same contents")
    c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), canon.root_hash, "root hash of the opened trie")
    want = dict(vals)
    if op == "update":
        nv = vals[key] if new == "same" else value("N", new)
        want[key] = nv
        c.must(upd(c, t, key, nv), "update of key %s" % fmt(key))
    else:
        if key not in vals:
            return
        del want[key]
        c.must(dele(c, t, key), "delete of key %s" % fmt(key))
    w = Canon(c.I, want)
    c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), w.root_hash, "root hash after %s of key %s" % (op, fmt(key)))
    # equality and hash are decided by the contents
    t2, st2 = open_trie(c, w)
    c.boolean(c.eq(t, t2), True, "equality with a trie of the same contents")
    h1, h2 = c.must(c.hash(t), "hash"), c.must(c.hash(t2), "hash")
    c.equal(h1, h2, "hash of a trie with the same contents")
    t4, st4 = open_trie(c, w, True)
    c.boolean(c.eq(t, t4), True, "equality with a trie with the same root opened in the other mode")
    c.boolean(c.eq(t4, t), True, "equality with a trie with the same root opened in the other mode")
    c.equal(h1, c.must(c.hash(t4), "hash"), "hash of a trie with the same root opened in the other mode")
    if w.root_hash is not canon.root_hash:
        t3, st3 = open_trie(c, canon)
        c.boolean(c.eq(t, t3), False, "equality with a trie of other contents")


class Watch:
    """Observer of a storage: every write has to be content addressed."""

    def __init__(self, c, allow_delete=False):
        self.c, self.n = c, 0

    def before(self, I, op, d, k, v):
        if op == "del":
            self.c.obligations += 1
            raise Failure("node removed", "the node stored under %s is removed from the storage" % render(k), I.where())
        if op == "set":
            self.n += 1
            self.c.obligations += 1
            if isinstance(v, BArr):
                v = v.val
            if not (isinstance(v, (Term, bytes)) and isinstance(k, Term)):
                raise Failure("not content addressed", "%s is stored under %s" % (render(v), render(k)), I.where())
            if isinstance(v, bytes):
                v = mk("rlp", __import__("models")._rlp_dec(v))
            if tries.keccak(v) is not k:
                raise Failure("not content addressed", "node %s is stored under %s, which is not its hash" % (render(v), render(k)), I.where())

    def after(self, *a):
        pass


def history(c, keys, key, sizes, op, new):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    st.observer = Watch(c)
    old = root_of(c, t)
    if op == "update":
        c.must(upd(c, t, key, value("N", new)), "update of key %s" % fmt(key))
    else:
        dele(c, t, key)
    try:
        got = contents(c.I, old, st)
    except Broken as b:
        raise Failure("old state lost", "the root from before %s of key %s is no longer readable: %s" % (op, fmt(key), b))
    same_map(c, got, vals, "old root after %s of key %s" % (op, fmt(key)))
    cls = c.api(*MPT)
    t2 = c.must(c.call(cls, st, old), "reopening the old root")
    for k in list(vals)[:2] + [key]:
        check_lookup(c, t2, k, vals.get(k), "old root after %s of key %s" % (op, fmt(key)))


def sequence(c, ops, sizes, mode, asked=False):
    """ops: (op, key) on one object starting empty; mode: which obligations; asked: look everything up after each step"""
    st = Dict(name="trie storage")
    cls = c.api(*MPT)
    t = c.must(c.call(cls, st), "creating a trie")
    if mode == "history":
        st.observer = Watch(c)
    cur, hist = {}, []
    for n, (op, k) in enumerate(ops):
        what = "step %d (%s %s)" % (n + 1, op, fmt(k))
        hist.append((root_of(c, t), dict(cur)))
        if op == "set":
            v = value("V%d" % n, sizes[n])
            c.must(upd(c, t, k, v), what)
            cur[k] = v
        elif op == "del":
            r = dele(c, t, k)
            if k in cur:
                c.must(r, what)
                del cur[k]
            else:
                c.raises(r, what)
        elif op == "get":
            c.m(t, "get", unnib(k))
            c.m(t, "contains", unnib(k))
        if mode == "content":
            same_map(c, walk(c, t, st, what), cur, "after " + what)
            if asked:
                for x in sorted({x for _, x in ops}):
                    check_lookup(c, t, x, cur.get(x), "after " + what)
        elif mode == "canonical":
            w = Canon(c.I, cur)
            c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), w.root_hash, "root hash after " + what)
    if mode == "content":
        for k in sorted({k for _, k in ops}):
            check_lookup(c, t, k, cur.get(k), "after the sequence")
    elif mode == "history":
        for i, (r, m) in enumerate(hist):
            try:
                same_map(c, contents(c.I, r, st), m, "root of step %d" % i)
            except Broken as b:
                raise Failure("old state lost", "the root after step %d is no longer readable: %s" % (i, b))


def cycle(c, keys, key, sizes, asked):
    """one object goes through the same contents several times"""
    vals = vals_for(keys, sizes)
    st = Dict(name="trie storage")
    t = c.must(c.call(c.api(*MPT), st), "creating a trie")
    for k in keys:
        c.must(upd(c, t, k, vals[k]), "update")
    N = value("N", sizes[0] if sizes else "long")
    old = vals.get(key)
    ops = [N, old, None, old, N, old] if old is not None else [N, None, N, None]
    roots = {}
    cur = dict(vals)
    for n, v in enumerate(ops):
        what = "step %d (%s) on the same object" % (n + 1, "delete %s" % fmt(key) if v is None else "update %s to %s" % (fmt(key), render(v)))
        if v is None:
            c.must(dele(c, t, key), what)
            cur.pop(key)
        else:
            c.must(upd(c, t, key, v), what)
            cur[key] = v
        if not cur:
            c.equal(c.must(c.m(t, "root_hash"), "root_hash()"), tries.EMPTY, "root hash after " + what)
            continue
        same_map(c, walk(c, t, st, what), cur, "after " + what)
        if asked or n == len(ops) - 1:
            for x in sorted(set(keys) | {key}):
                check_lookup(c, t, x, cur.get(x), "after " + what)
        rh = c.must(c.m(t, "root_hash"), "root_hash()")
        if v in roots:
            c.equal(rh, roots[v], "root hash after " + what)
        roots[v] = rh


# ------------------------------------------------------------------ C12
def readonly(c, keys, key, sizes):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    snap = snapshot(st)
    before = root_of(c, t)
    kb = unnib(key)
    ops = [
        ("get", (kb,)), ("contains", (kb,)), ("__contains__", (kb,)), ("root", ()), ("root_hash", ()), ("__len__", ()),
        ("__hash__", ()), ("encode", ()), ("get_proof_of_inclusion", (kb,)), ("get_proof_of_exclusion", (kb,)),
    ]
    proof = None
    for name, a in ops:
        r = c.m(t, name, *a)
        if r.ok and name.startswith("get_proof"):
            proof = r.value
            pname = name.replace("get_proof", "verify_proof")
            snapp = c.must(c.attr(proof, "proof"), "proof")
            c.m(t, pname, proof)
            c.equal(c.must(c.attr(proof, "proof"), "proof"), snapp, "the proof after it was verified")
        same_storage(c, st, snap, name)
        c.equal(root_of(c, t), before, "root after " + name)
        same_map(c, walk(c, t, st, name), vals, "after " + name)


# ------------------------------------------------------------------ C13
class Fault:
    def __init__(self, ops):
        self.ops, self.fired = ops, None

    def before(self, I, op, d, k, v):
        if op in self.ops and self.fired is None and I.choose(2, "storage %s of %s fails" % (op, render(k))) == 1:
            self.fired = op
            I.throw(OSError, "storage failure")

    def after(self, *a):
        pass


def fault(c, keys, key, sizes, op, warmed=0):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    if warmed:
        warm(c, t, [key], vals)
    before = root_of(c, t)
    f = Fault(("get", "set", "del"))
    st.observer = f
    nv = value("N", "long")
    if op == "update":
        r = upd(c, t, key, nv)
    else:
        r = dele(c, t, key)
    st.observer = None
    if f.fired is None:
        return
    what = "after a failed storage %s during %s of key %s" % (f.fired, op, fmt(key))
    want = dict(vals)
    if r.ok:
        # the failure was absorbed: then the operation has to have happened
        if op == "update":
            want[key] = nv
        else:
            want.pop(key, None)
        same_map(c, walk(c, t, st, what), want, what)
        return
    c.equal(root_of(c, t), before, "root " + what)
    same_map(c, walk(c, t, st, what), vals, what)
    check_lookup(c, t, key, vals.get(key), what)
    # the operation can be repeated
    if op == "update":
        c.must(upd(c, t, key, nv), "repeating the update")
        want[key] = nv
    elif key in vals:
        c.must(dele(c, t, key), "repeating the delete")
        del want[key]
    same_map(c, walk(c, t, st, what), want, what + " and repeating it")
    check_lookup(c, t, key, want.get(key), what + " and repeating it")


# ------------------------------------------------------------------ C41
ABSENT = ("KeyNotFoundError", "ExtensionPathError", "LeafPathError", "BranchPathError", "PoiError", "PoeError", "InvalidReferenceError")


def missing(c, keys, key, sizes, op, secure=False):
    """one node of the trie is not in the storage"""
    I = c.I
    vals = vals_for(keys, sizes)
    canon = Canon(I, vals)
    hashed = list(canon.nodes.items())
    if not hashed:
        return
    t, st = open_trie(c, canon)
    h, node = hashed[I.choose(len(hashed), "missing node") if len(hashed) > 1 else 0]
    on_way = any(mk("rlp", x) is node for x in canon.path_nodes(I, key))
    I.dict_del(st, h)
    full = Dict(st.pairs(), name="all nodes")
    I.dict_set(full, h, node)
    before, snap = root_of(c, t), snapshot(st)
    kb = unnib(key)
    who = "key %s, which is %s, with a missing node %s" % (fmt(key), "stored" if key in vals else "absent", "on the way" if on_way else "elsewhere")

    def told(r, what):
        """the operation tells that a node is missing"""
        c.obligations += 1
        if r.ok:
            raise Failure("missing node overlooked", "%s of %s returned %s" % (what, who, render(r.value)))
        for n in ABSENT:
            if exc_is(I, r.exc, n):
                raise Failure("missing node taken for an absent key", "%s of %s raised %s" % (what, who, n), r.exc.attrs.get("__where__"))

    if op == "ask":
        for name in ("get", "__getitem__", "contains", "__contains__", "get_proof_of_inclusion", "get_proof_of_exclusion"):
            r = c.m(t, name, kb)
            if on_way:
                told(r, name)
                continue
            if "contains" in name:
                c.boolean(r, key in vals, name + " of " + who)
            elif name.endswith("exclusion") == (key in vals):
                c.raises(r, name + " of " + who)
            elif key not in vals and not name.startswith("get_proof"):
                c.raises(r, name + " of " + who)
            else:
                v = c.must(r, name + " of " + who)
                if name in ("get", "__getitem__"):
                    c.equal(v, vals[key], name + " of " + who)
    else:
        want = dict(vals)
        if op == "update":
            nv = want[key] = value("N", "long")
            r = upd(c, t, key, nv)
        else:
            want.pop(key, None)
            r = dele(c, t, key)
        if on_way:
            told(r, op)
        if r.ok:
            if op == "delete" and key not in vals:
                raise Failure("missing rejection", "delete of %s returned" % who)
            for a, b in st.pairs():
                I.dict_set(full, a, b)
            same_map(c, walk(c, t, full, op), want, "%s of %s" % (op, who))
            c.equal(c.must(c.m(t, "root_hash"), "root_hash"), Canon(I, want).root_hash, "root hash after %s of %s" % (op, who))
            return
    # nothing happened; with the node back, everything is there
    c.equal(root_of(c, t), before, "root after %s of %s" % (op, who))
    for a, b in full.pairs():
        I.dict_set(st, a, b)
    same_map(c, walk(c, t, st, op), vals, "after %s of %s" % (op, who))
    check_lookup(c, t, key, vals.get(key), "after the missing node came back")


# ------------------------------------------------------------------ scenario lists
def reps(tier, seed, present=None, **kw):
    """(keys, key) representatives with rotating nibble assignments"""
    a = dict(depth=2, coarse=True, samples=30000) if tier == "quick" else dict(depth=3, samples=120000)
    a.update(kw)
    out = []
    for i, (sg, ks, k) in enumerate(tries.classes(seed=1, **a)):
        if present is not None and (k in ks) != present:
            continue
        p = PERMS[i % len(PERMS)]
        out.append((tuple(sorted(rename(x, p) for x in ks)), rename(k, p)))
    return out


SIZES = ["long", "short", "any"]


def size_variants(i, n, tier):
    """value length classes of the n entries"""
    v = [["long"] * n, ["short"] * n]
    mix = [SIZES[(i + j * (1 + i % 2)) % 2] for j in range(n)]
    if n:
        mix[i % n] = "any"
    v.append(mix)
    return v if tier != "quick" else [v[i % 3], v[2]] if i % 3 != 2 else [v[2]]


def long_keys():
    """keys far longer than the scenario classes"""
    a = tuple([1, 2] * 36)
    b = a[:40] + (9, 9) + a[42:]
    d = a[:65] + (7,) + a[66:70]
    return [((a, b), a), ((a, b), b), ((a,), b), ((a, b, d), d), ((a, b, d), a), ((a, a[:64]), a[:64]), ((a, a[:64]), a), ((b, d), a)]


def gen_lookup(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed) + long_keys()):
        for s in size_variants(i, len(ks), tier):
            out.append(("lookup: " + describe(ks, k, s), lookup, (ks, k, tuple(s))))
    for ks, k, s, n in many_entries(tier):
        out.append(("lookup: trie of " + n, lookup, (ks, k, s)))
    return out


def gen_update(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed) + long_keys()):
        for j, s in enumerate(size_variants(i, len(ks), tier)):
            new = "any" if j else SIZES[(i // 3) % 3]
            if k in ks and i % 7 == 0:
                new = "same"
            out.append(("update: %s, new %s" % (describe(ks, k, s), new), update_content, (ks, k, tuple(s), new, "set" if i % 5 == 0 else "update", 0 if j else 1 + i % 4 // 3)))
    for i, (ks, k) in enumerate(reps(tier, seed)):
        if tier == "quick" and i % 3:
            continue
        i //= 3
        s = size_variants(i, len(ks), tier)[0]
        for kind in WRONG if tier != "quick" else [WRONG[i % len(WRONG)]]:
            out.insert(0, ("refused: %s, %s" % (describe(ks, k, s), kind), refused_value, (ks, k, tuple(s), kind, "set" if i % 4 == 0 else "update")))
    out += cycles(tier, seed)
    out += [("sequence: " + n, sequence, (o, s, "content", i % 2 == 0)) for i, (n, o, s) in enumerate(sequences(tier)) if any(x == "set" for x, _ in o)]
    out += [("long sequence: " + n, sequence, (o, s, "content")) for n, o, s in long_sequences(tier)]
    return out


def cycles(tier, seed, part=0):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed)):
        if not ks or len(ks) > 3 or i % 3 != part and tier == "quick":
            continue
        for s in (["long"] * len(ks), ["short"] * len(ks)):
            if s[0] == "short" and i % 2:
                continue
            out.append(("again and again: " + describe(ks, k, s), cycle, (ks, k, tuple(s), s[0] == "short" or i % 4 > 0)))
    return out


def gen_delete(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed) + long_keys()):
        for j, s in enumerate(size_variants(i, len(ks), tier)):
            out.append(("delete: " + describe(ks, k, s), delete_content, (ks, k, tuple(s), "__delitem__" if i % 5 == 0 else "delete", 0 if j else 1 + i % 4 // 3)))
    out += cycles(tier, seed, 1)
    out += [("sequence: " + n, sequence, (o, s, "content", i % 2 == 1)) for i, (n, o, s) in enumerate(sequences(tier)) if any(x == "del" for x, _ in o)]
    out += [("long sequence: " + n, sequence, (o, s, "content")) for n, o, s in long_sequences(tier)]
    return out


def gen_canonical(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed) + long_keys()):
        for j, s in enumerate(size_variants(i, len(ks), tier)):
            new = "any" if j else SIZES[(i // 3) % 3]
            if k in ks:
                out.append(("delete: " + describe(ks, k, s), canonical_after, (ks, k, tuple(s), "delete", None, 0 if j else 1)))
                if i % 3:
                    continue
            out.append(("update: %s, new %s" % (describe(ks, k, s), new), canonical_after, (ks, k, tuple(s), "update", new, 0 if j else 1)))
    out += [("sequence: " + n, sequence, (o, s, "canonical")) for n, o, s in sequences(tier)]
    out += [("long sequence: " + n, sequence, (o, s, "canonical")) for n, o, s in long_sequences(tier)]
    return out + cycles(tier, seed, 2)


def gen_history(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed) + long_keys()):
        for j, s in enumerate(size_variants(i, len(ks), tier)):
            op = "delete" if (k in ks and (i + j) % 2) else "update"
            out.append(("%s: %s" % (op, describe(ks, k, s)), history, (ks, k, tuple(s), op, SIZES[i % 3])))
    out += [("sequence: " + n, sequence, (o, s, "history")) for n, o, s in sequences(tier)]
    out += [("long sequence: " + n, sequence, (o, s, "history")) for n, o, s in long_sequences(tier)]
    return out


def gen_readonly(tier, seed):
    out = []
    far = long_keys()
    a = far[0][0][0]
    far += [((a,), (3,) + a[1:]), (far[0][0], (1, 3) * 36), ((a, a[:2]), (1, 2, 3) + a[3:]), ((a, a[:3] + (4,) * 67), (3,) * 64)]
    for i, (ks, k) in enumerate(reps(tier, seed) + far):
        if not ks:
            continue
        s = size_variants(i, len(ks), tier)[0]
        out.append(("read: " + describe(ks, k, s), readonly, (ks, k, tuple(s))))
    for ks, k, s, n in many_entries(tier):
        out.append(("read: trie of " + n, readonly, (ks, k, s)))
    return out


def gen_fault(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed) + long_keys()):
        s = size_variants(i, len(ks), tier)[0]
        for op in ("update", "delete") if k in ks else ("update",):
            out.append(("%s: %s" % (op, describe(ks, k, s)), fault, (ks, k, tuple(s), op, i % 5 == 1)))
    for i, (ks, k, s, n) in enumerate(many_entries(tier)):
        if i % 2 == 0 or tier != "quick":
            out.append(("%s: trie of %s" % ("delete" if k in ks else "update", n), fault, (ks, k, s, "delete" if k in ks else "update", False)))
    return out


def sequences(tier):
    """operation sequences on one object"""
    import itertools
    import random

    A = [(1, 2), (1, 3), (1, 2, 3, 4), (), (5, 2), (1, 2, 3, 5)]
    out = []
    rnd = random.Random(7)
    n = 160 if tier == "quick" else 900
    seen = set()
    while len(out) < n:
        l = rnd.randint(3, 5 if tier == "quick" else 7)
        ks = rnd.sample(A, rnd.randint(2, 4))
        ops, cur = [], set()
        for _ in range(l):
            k = rnd.choice(ks)
            r = rnd.random()
            if cur and r < 0.35:
                k = rnd.choice(sorted(cur))
                ops.append(("del", k))
                cur.discard(k)
            elif r < 0.45:
                ops.append(("get", k))
            elif r < 0.5:
                ops.append(("del", k))
                cur.discard(k)
            else:
                ops.append(("set", k))
                cur.add(k)
        ops = tuple(ops)
        if ops in seen:
            continue
        seen.add(ops)
        sz = tuple(rnd.choice(["long", "long", "short", "short", "any"][: 5 if len(out) % 4 == 0 else 4]) for _ in ops)
        out.append((" ".join("%s %s" % (o, fmt(k)) for o, k in ops) + " " + "".join(s[0] for s in sz), ops, sz))
    return out


def long_sequences(tier):
    """many operations on many keys: name, operations, value sizes"""
    import random

    out = []
    for j in range(2 if tier == "quick" else 8):
        rnd = random.Random(100 + j)
        n = (20, 36, 60)[j % (2 if tier == "quick" else 3)]
        pool = []
        while len(pool) < n:
            k = tuple(rnd.choice(range(16) if rnd.random() < 0.4 else (1, 2)) for _ in range(2 * rnd.randint(0 if j % 3 == 1 else 1, 4)))
            if k not in pool:
                pool.append(k)
        ops, cur = [("set", k) for k in pool], set(pool)
        for _ in range(n // 2):
            r = rnd.random()
            if r < 0.5:
                k = rnd.choice(sorted(cur))
                ops.append(("del", k))
                cur.discard(k)
            else:
                k = rnd.choice(pool)
                ops.append(("set", k))
                cur.add(k)
        sz = tuple("short" if rnd.random() < 0.1 else "long" for _ in ops)
        out.append(("%d operations on %d keys (%d)" % (len(ops), n, j), tuple(ops), sz))
    return out


def many_entries(tier):
    """tries of many entries: keys, key asked about, value sizes"""
    import random

    out = []
    for j in range(3 if tier == "quick" else 9):
        rnd = random.Random(300 + j)
        n = (18, 40, 66)[j % 3]
        pool = {()} if j % 3 == 2 else set()
        while len(pool) < n:
            pool.add(tuple(rnd.choice(range(16) if rnd.random() < 0.4 else (1, 2)) for _ in range(2 * rnd.randint(1, 4))))
        ks = tuple(sorted(pool))
        size = ("long" if j % 2 else "short") if j < 2 else None
        sz = tuple(size or ("short" if rnd.random() < 0.3 else "long") for _ in ks)
        deep = max(ks, key=len)
        for k in (ks[-1], ks[n // 2], deep[:-1] + ((deep[-1] + 1) % 16,), deep[:2] + (15, 15)):
            out.append((ks, k, sz, "%d keys (%d), key %s, %s values" % (n, j, fmt(k), size or "mixed")))
    return out


def gen_missing(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed)):
        if not ks:
            continue
        for j, s in enumerate(size_variants(i, len(ks), "full")[:2 if len(ks) > 2 else 1]):
            for op in ("ask", "update", "delete"):
                if tier == "quick" and ((i + j) % 2 if op == "ask" else (i + j) % 4):
                    continue
                out.append(("%s with a missing node: %s" % (op, describe(ks, k, s)), missing, (ks, k, tuple(s), op)))
    for i, (ks, k, s, n) in enumerate(many_entries(tier)):
        for op in ("ask", "update", "delete")[i % 3:][:1 if tier == "quick" else 3]:
            out.append(("%s with a missing node: trie of %s" % (op, n), missing, (ks, k, s, op)))
    return out
