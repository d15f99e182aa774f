"""C11 serialisation, C14-C18 extended tries and data references."""
from core import *
import tries
from tries import Canon, contents, Broken, unnib, nib, fmt, value, keccak
from p_trie import ABSENT, Fault, MPT, same_map, open_trie, root_of, walk, snapshot, same_storage, vals_for, describe, check_lookup, reps, size_variants, sequences, long_sequences, many_entries

E = "pymt.empt"


def ref_bytes(c, key, data):
    r = c.must(c.call(c.api(E, "DataReference"), key, data), "DataReference")
    return c.must(c.m(r, "encode"), "encode of a data reference")


def ref_value(c, key, data):
    return ref_bytes(c, key, data)


def mkdata(c, name, kind):
    """(value handed to the API, its encoding)"""
    cls = None
    k = kind
    for p in ("object", "bytearray"):
        if k.startswith(p):
            cls, k = p, k[len(p):].lstrip("-") or "any"
    if k == "empty":
        x = b""
    elif k == "any":
        # data may be empty
        x = sym(name, lo=0, group="V", generic=True)
    elif k == "parts":
        x = mk("cat", (sym(name + "1", lo=1, group="V", generic=True), sym(name + "2", lo=1, group="V", generic=True)))
    else:
        x = value(name, k)
    if cls == "object":
        return c.must(c.call(user_class(c, "Val"), x), "user value"), x
    if cls == "bytearray":
        return BArr(x), x
    return x, x


KINDS = ["long", "any", "bytearray", "object", "short", "empty", "bytearray-empty", "object-empty"]


def mkempt(c, cname="EMPT", secure=False, **kw):
    st, ds = Dict(name="trie storage"), Dict(name="data storage")
    kw = dict(kw)
    kw["trie_storage"] = st
    if cname == "EMPT":
        kw["data_storage"] = ds
    if secure:
        interpret(c)
        kw["secure"] = True
    t = c.must(c.call(c.api(E, cname), **kw), cname)
    return t, st, ds


def interpret(c):
    """an arbitrary fixed interpretation of the hashes of keys"""
    import hashlib

    def f(alg, data):
        if data == b"" and alg == "keccak256":
            return None
        return hashlib.sha512(alg.encode() + b"|" + data).digest()[: __import__("models").HLEN.get(alg, 32)]

    c.I.cfg["hash_interpretation"] = f


def tpath(c, k, secure):
    """nibbles under which key k (nibbles) lies in the trie"""
    return nib(c.I.cfg["hash_interpretation"]("keccak256", unnib(k))) if secure else k


def spec_root(c, cur, secure=False):
    """canonical root hash for {key nibbles: encoding}"""
    return Canon(c.I, {tpath(c, k, secure): ref_value(c, unnib(k), x) for k, x in cur.items()}).root_hash


def rh(c, t):
    return c.must(c.m(t, "root_hash"), "root_hash()")


def ask(c, t, cur, absent=(), full=True, what="", proofs=True):
    """every question about the keys: answers are those of the contents `cur` ({nibbles: encoding})"""
    for k in list(cur) + [k for k in absent if k not in cur]:
        kb, there = unnib(k), k in cur
        w = "of key %s %s" % (fmt(k), what)
        c.boolean(c.m(t, "contains", kb), there, "contains " + w)
        r = c.m(t, "get_reference", kb)
        if there:
            d = c.must(r, "get_reference " + w)
            c.equal(c.must(c.attr(d, "key"), "key"), kb, "reference key " + w)
            c.equal(c.must(c.attr(d, "data"), "data"), cur[k], "reference data " + w)
        else:
            c.raises(r, "get_reference " + w)
        if full:
            r = c.m(t, "get", kb)
            if there:
                c.equal(encoding(c, c.must(r, "get " + w)), cur[k], "get " + w)
            else:
                c.raises(r, "get " + w)
        if not proofs:
            continue
        kind = ("inclusion", "exclusion")
        c.raises(c.m(t, "get_proof_of_" + kind[there], kb), "get_proof_of_%s %s" % (kind[there], w))
        if cur:
            p = c.must(c.m(t, "get_proof_of_" + kind[not there], kb), "get_proof_of_%s %s" % (kind[not there], w))
            c.boolean(c.m(t, "verify_proof_of_" + kind[not there], p), True, "verify_proof_of_%s %s" % (kind[not there], w))


def encoding(c, got):
    if isinstance(got, Instance):
        got = c.must(c.m(got, "encode_rlp"), "encode_rlp")
    return got.val if isinstance(got, BArr) else got


def no_data(c, secure, made):
    """a sparse trie keeps references only and refuses to be read"""
    if made == "view":
        t, st, ds = mkempt(c, "EMPT", secure)
    else:
        t, st, ds = mkempt(c, "SparseEMPT", secure)
    cur = {}
    for n, k in enumerate(((1, 2), (1, 2, 3, 4), (5, 6))):
        cur[k] = value("D%d" % n, ("long", "short")[n % 2])
        c.must(c.m(t, "update", unnib(k), cur[k]), "update")
    if made == "view":
        t = c.must(c.m(t, "get_sparse_trie"), "get_sparse_trie")
    for k in list(cur) + [(7, 7), ()]:
        c.raises(c.m(t, "__getitem__", unnib(k)), "reading key %s from a sparse trie" % fmt(k))
    ask(c, t, cur, [(7, 7)], False, "after the reads")


# ------------------------------------------------------------------ C15
def in_step(c, ops, kinds, cname, secure=False, asked=False):
    if len(ops) > 12:
        c.I.maxsteps *= 8
    t, st, ds = mkempt(c, cname, secure)
    cur, objs = {}, {}
    full = cname == "EMPT"
    for n, (op, k) in enumerate(ops):
        what = "after step %d (%s %s) on %s" % (n + 1, op, fmt(k), cname)
        kb = unnib(k)
        if op == "set":
            v, x = mkdata(c, "D%d" % n, kinds[n])
            if full and n % 4 == 2:
                got = c.must(c.m(t, "setdefault", kb, v), "setdefault, step %d" % (n + 1))
                if k in cur:
                    v, x = objs[k], cur[k]
                c.equal(encoding(c, got), x, "setdefault %s" % what)
            else:
                c.must(c.m(t, "__setitem__" if n % 3 == 1 else "update", kb, v), "update, step %d" % (n + 1))
            cur[k], objs[k] = x, v
        elif op == "del":
            name = "pop" if full and n % 4 == 3 else "__delitem__" if n % 3 == 1 else "delete"
            r = c.m(t, name, kb)
            if k in cur:
                got = c.must(r, "%s, step %d" % (name, n + 1))
                if name == "pop":
                    c.equal(encoding(c, got), cur[k], "pop %s" % what)
                del cur[k], objs[k]
            else:
                c.raises(r, "%s of absent key %s, step %d" % (name, fmt(k), n + 1))
        elif op == "get":
            r = c.m(t, "get_reference", kb)
            c.true(r.ok == (k in cur), "get_reference of key %s succeeded: %s" % (fmt(k), r.ok))
        c.equal(rh(c, t), spec_root(c, cur, secure), "root hash " + what)
        if full:
            c.true(len(ds.pairs()) == len(cur), "%d entries in the data storage for %d keys %s" % (len(ds.pairs()), len(cur), what))
            c.equal(c.must(c.m(t, "__len__"), "len"), len(cur), "len " + what)
        if asked:
            ask(c, t, cur, {k for _, k in ops}, full, what)
    for k in sorted({k for _, k in ops}):
        kb = unnib(k)
        what = "of key %s after the sequence on %s" % (fmt(k), cname)
        c.boolean(c.m(t, "contains", kb), k in cur, "contains " + what)
        c.boolean(c.m(t, "__contains__", kb), k in cur, "`in` " + what)
        r = c.m(t, "get_reference", kb)
        if k in cur:
            d = c.must(r, "get_reference " + what)
            c.equal(c.must(c.attr(d, "key"), "key"), kb, "reference key " + what)
            c.equal(c.must(c.attr(d, "data"), "data"), cur[k], "reference data " + what)
        else:
            c.raises(r, "get_reference " + what)
        if full:
            for name in ("get", "__getitem__"):
                r = c.m(t, name, kb)
                if k in cur:
                    got = c.must(r, name + " " + what)
                    if isinstance(objs[k], Instance):
                        c.true(got is objs[k] or isinstance(got, Instance), "%s %s returned %s" % (name, what, render(got)))
                    c.equal(encoding(c, got), cur[k], name + " " + what)
                else:
                    c.raises(r, name + " " + what)
    if full:
        keys = c.each(t, "an EMPT")
        c.true(len(keys) == len(cur) and all(any(c.I.eq3(a, unnib(k)) for k in cur) for a in keys), "iteration yields %s for keys {%s}" % (keys, ", ".join(map(fmt, cur))))
        keys = c.each(c.must(c.m(t, "keys"), "keys()"), "keys()")
        c.true(len(keys) == len(cur) and all(any(c.I.eq3(a, unnib(k)) for k in cur) for a in keys), "keys() yields %s for keys {%s}" % (keys, ", ".join(map(fmt, cur))))
        its = c.each(c.must(c.m(t, "items"), "items()"), "items()")
        c.true(len(its) == len(cur), "items() yields %d entries for %d keys" % (len(its), len(cur)))
        for a, v in its:
            c.equal(encoding(c, v), cur[nib(a)], "items() for key %r" % (a,))


def bulk(c, keys, kinds, secure, order):
    """the operations on all entries that a mapping has"""
    t, st, ds = mkempt(c, "EMPT", secure)
    cur = {}
    for i, k in enumerate(keys):
        v, x = mkdata(c, "D%d" % i, kinds[i])
        c.must(c.m(t, "update", unnib(k), v), "update")
        cur[k] = x

    def settled(what, full=False):
        c.equal(rh(c, t), spec_root(c, cur, secure), "root hash " + what)
        c.true(len(ds.pairs()) == len(cur), "%d entries in the data storage for %d keys %s" % (len(ds.pairs()), len(cur), what))
        c.equal(c.must(c.call(c.I.builtins["len"], t), "len"), len(cur), "len " + what)
        if full:
            ask(c, t, cur, keys, True, what)

    its = [tuple(c.each(kv, "an item")) for kv in c.each(c.must(c.m(t, "items"), "items()"), "items()")]
    vals = [encoding(c, v) for v in c.each(c.must(c.m(t, "values"), "values()"), "values()")]
    ks = c.each(t, "an EMPT")
    c.true(len(its) == len(vals) == len(ks) == len(cur), "%d items, %d values and %d keys for %d entries" % (len(its), len(vals), len(ks), len(cur)))
    for (a, v), w, k in zip(its, vals, ks):
        c.true(a == k and nib(a) in cur, "items() shows the key %s, iteration %s" % (render(a), render(k)))
        c.equal(encoding(c, v), cur[nib(a)], "items() for key %r" % (a,))
        c.equal(w, cur[nib(k)], "values() for key %r" % (k,))
    settled("after the views", True)
    while order == "popitem" and cur:
        k, v = c.each(c.must(c.m(t, "popitem"), "popitem"), "the popped item")
        c.true(isinstance(k, bytes) and nib(k) in cur, "popitem returned the key %s" % render(k))
        c.equal(encoding(c, v), cur.pop(nib(k)), "popitem for key %r" % (k,))
        settled("after popitem")
    if order == "pop":
        for n, k in enumerate(keys):
            r = c.m(t, "pop", unnib(k), None) if n % 2 else c.m(t, "pop", unnib(k))
            c.equal(encoding(c, c.must(r, "pop")), cur.pop(k), "pop of key " + fmt(k))
            settled("after pop")
    if order == "clear":
        c.must(c.m(t, "clear"), "clear")
        cur.clear()
        settled("after clear")
        c.must(c.m(t, "clear"), "clear of an empty trie")
        settled("after clear", True)
    if order in ("popitem", "clear"):
        c.raises(c.m(t, "popitem"), "popitem of an empty trie")
        settled("after popitem of an empty trie")
    for i, k in enumerate(keys[::-1]):
        v, x = mkdata(c, "E%d" % i, kinds[i])
        c.must(c.m(t, "__setitem__", unnib(k), v), "trie[key] = value")
        cur[k] = x
        settled("after filling it again", i == len(keys) - 1)


BADVALUES = ["NoEncode", "NoDecode", "Plain", "None", "int", "str", "Raises", "EncodesStr", "EncodesNone", "NoAttrs"]


def validation(c, cname, what, arg, secure=False):
    """a refused operation has no effect"""
    t, st, ds = mkempt(c, cname, secure)
    k1, k2 = b"\x12\x34", b"\x12\x56"
    v1, v2 = value("A", "long"), value("B", "short")
    for k, v in ((k1, v1), (k2, v2)):
        c.must(c.m(t, "update", k, v), "update")
    root, s1, s2 = rh(c, t), snapshot(st), snapshot(ds)
    bad = {
        "str": "key", "bytearray": BArr(b"\x12\x34"), "None": None, "int": 5, "tuple": (1, 2),
        "absent": b"\x12\x35", "empty": b"", "bool": True,
    }
    name, args, exc = None, None, ()
    if what.startswith("key "):
        name = what.split()[1]
        k = bad[arg]
        args = (k, value("N", "long")) if name in ("update", "__setitem__") else (k,)
        exc = ("TypeError",)
    elif what.startswith("value"):
        cls = user_class(c, arg) if arg not in ("None", "int", "str") else None
        v = c.must(c.call(cls), "value") if cls else {"None": None, "int": 7, "str": "text"}[arg]
        name, args = "update", (b"\x12\x77" if what == "value" else k1, v)
        if arg in ("NoEncode", "NoDecode", "Plain", "None", "int", "str"):
            exc = ("NotImplementedError", "TypeError")
    elif what == "absent":
        name = arg
        args = (b"\x12\x35",)
    elif what == "proof":
        name = arg
        args = (("not", "a proof"),)
        exc = ("TypeError",)
    if cname == "EMPT":
        c.equal(c.must(c.m(t, "__len__"), "len"), 2, "len")
    r = c.m(t, name, *args)
    w = "%s%s" % (name, render(args))
    if exc and not r.ok and not exc_is(c.I, r.exc, *exc):
        raise Failure("wrong exception", "%s raised %s" % (w, excs(r.exc)), r.exc.attrs.get("__where__"))
    c.raises(r, w)
    c.equal(rh(c, t), root, "root hash after the refused " + w)
    same_storage(c, st, s1, "the refused " + w)
    same_storage(c, ds, s2, "the refused %s (data storage)" % w)
    if cname == "EMPT":
        for k, v in ((k1, v1), (k2, v2)):
            c.equal(c.must(c.m(t, "get", k), "get after the refused " + w), v, "get after the refused " + w)
        c.equal(c.must(c.m(t, "__len__"), "len"), 2, "len after the refused " + w)
        c.true(len(c.each(t, "an EMPT")) == 2, "iteration yields another number of keys after the refused " + w)


# ------------------------------------------------------------------ C14
def tampered(c, cname, keys, tamper, kind, secure=False, warmed=False):
    t, st, ds = mkempt(c, secure=secure)
    enc = {}
    objs = {}
    for i, k in enumerate(keys):
        if tamper == "reverted":
            old = value("O%d" % i, "any")
            c.must(c.m(t, "update", unnib(k), old), "update")
        v, x = mkdata(c, "D%d" % i, kind)
        c.must(c.m(t, "update", unnib(k), v), "update")
        enc[k], objs[k] = x, v
        if tamper == "reverted":
            enc[k] = old
    k = keys[0]
    kb = unnib(k)
    forged = value("F", "any")
    if warmed and tamper != "reverted":
        for q in keys:
            c.equal(encoding(c, c.must(c.m(t, "get", unnib(q)), "get")), enc[q], "get of key %s before the tampering" % fmt(q))
        c.boolean(c.m(t, "contains", kb), True, "contains before the tampering")
    if tamper == "none":
        for q in keys:
            got = c.must(c.m(t, "get", unnib(q)), "get")
            c.equal(encoding(c, got), enc[q], "get of key %s" % fmt(q))
        return
    I = c.I
    if tamper == "replaced":
        I.dict_set(ds, kb, forged)
    elif tamper == "replaced by bytearray":
        I.dict_set(ds, kb, BArr(forged))
    elif tamper == "replaced by object":
        I.dict_set(ds, kb, c.must(c.call(user_class(c, "Val"), forged), "value"))
    elif tamper.startswith("replaced by "):
        I.dict_set(ds, kb, {"None": None, "str": "text", "int": 5, "list": List([1])}[tamper[12:]])
    elif tamper == "empty":
        I.dict_set(ds, kb, b"")
    elif tamper == "reverted":
        I.dict_set(ds, kb, enc[k])
    elif tamper == "extended":
        I.dict_set(ds, kb, mk("cat", (enc[k], b"\x00")))
    elif tamper == "truncated":
        I.dict_set(ds, kb, enc[k].args[0][0])
    elif tamper == "turned":
        I.dict_set(ds, kb, mk("cat", tuple(reversed(enc[k].args[0]))))
    elif tamper == "removed":
        I.dict_del(ds, kb)
    elif tamper == "swapped":
        I.dict_set(ds, kb, objs[keys[1]])
        I.dict_set(ds, unnib(keys[1]), objs[k])
    elif tamper == "added":
        k = keys[0] + (7, 7)
        kb = unnib(k)
        I.dict_set(ds, kb, forged)
    elif tamper == "shifted":
        # data of a key that swallows the last byte of another key
        I.dict_set(ds, kb, mk("cat", (kb[-1:], enc[k])))
    elif tamper == "mutated":
        if isinstance(objs[k], BArr):
            objs[k].val = forged
        else:
            objs[k].attrs["x"] = forged
    elif tamper == "no encoder":
        I.dict_set(ds, kb, c.must(c.call(user_class(c, "Raises")), "value"))
    if kind.endswith("empty") and tamper == "empty":
        return
    if tamper in ("empty", "swapped", "replaced", "replaced by bytearray", "replaced by object", "mutated", "reverted", "turned"):
        # unless nothing is altered
        o = {"empty": b"", "swapped": enc.get(keys[-1 if len(keys) < 2 else 1]), "reverted": enc[keys[0]], "turned": tamper == "turned" and mk("cat", tuple(reversed(enc[k].args[0])))}.get(tamper, forged)
        x = encoding(c, objs[keys[0]]) if tamper != "mutated" else enc[keys[0]]
        if I.eq(o, x, "altered data equal to the original"):
            return
    for name in ("get", "__getitem__", "pop"):
        c.raises(c.m(t, name, kb), "%s of key %s whose stored data was %s" % (name, fmt(k), tamper))


class Fickle:
    """a storage that may answer every read with the true or with other data"""

    def __init__(self, key, true, other):
        self.key, self.true, self.other, self.n = key, true, other, 0

    def before(self, I, op, d, k, v):
        if op in ("set", "del") or self.n >= 4:
            return
        self.n += 1
        d.observer = None
        I.dict_set(d, self.key, self.other if I.choose(2, "read %d gives other data" % self.n) else self.true)
        d.observer = self

    def after(self, *a):
        pass


def fickle(c, keys, kind, name, secure=False):
    """whatever a read gives at what time: the data that is returned is the data that was checked"""
    I = c.I
    t, st, ds = mkempt(c, secure=secure)
    for i, k in enumerate(keys):
        v, x = mkdata(c, "D%d" % i, kind)
        c.must(c.m(t, "update", unnib(k), v), "update")
        if not i:
            obj, enc = v, x
    kb = unnib(keys[0])
    other, oenc = mkdata(c, "F", kind)
    if I.eq(oenc, enc, "other data equal to the original"):
        return
    ds.observer = Fickle(kb, obj, other)
    what = "%s on a data storage that does not always give the same" % name
    if name in ("items", "values"):
        try:
            got = list(I.iterate(I.call(I.getattr(t, name), [])))
        except PyRaise:
            return
        got = [tuple(c.each(x, "an item")) for x in got] if name == "items" else [(None, x) for x in got]
        got = [v for k, v in got if k is None or c.must(c.eq(k, kb), "==") is True]
        if name == "items":
            for v in got:
                c.equal(encoding(c, v), enc, what)
        else:
            c.true(not any(I.eq3(encoding(c, v), oenc) is True for v in got), what + " gives the other data")
        return
    r = c.m(t, name, kb, *([other] if name == "setdefault" else []))
    if r.ok:
        c.equal(encoding(c, r.value), enc, what)


def wrong_reference(c, what, secure=False):
    """the reference kept in the trie belongs to another key or other data"""
    cls = c.api(E, "EMPT")
    k, v = b"\x12\x34", value("A", "long")
    other = b"\x12\x35"
    w = value("B", "long")
    if secure:
        interpret(c)
    stored = v
    if what == "other key":
        rv = ref_value(c, other, v)
    elif what == "other data":
        rv = ref_value(c, k, w)
    elif what == "a shorter key that goes on in the data":
        rv = ref_value(c, k[:1], mk("cat", (k[1:], v)))
    elif what == "a longer key that the data starts with":
        stored = mk("cat", (b"\x56", v))
        rv = ref_value(c, k + b"\x56", v)
    elif what == "no key":
        rv = ref_value(c, b"", mk("cat", (k, v)))
    elif what == "no data":
        rv = ref_value(c, mk("cat", (k, v)), b"")
    elif what == "the hash of the key":
        rv = ref_value(c, tries.keccak(k), v)
    else:
        rv = sym("junk", junk=True, lo=1, generic=True)
    canon = Canon(c.I, {tpath(c, nib(k), secure): rv})
    st = canon.storage()
    ds = Dict([(k, stored)], name="data storage")
    t = c.must(c.call(cls, trie_storage=st, data_storage=ds, root=canon.root, secure=secure), "EMPT")
    for name in ("get", "__getitem__"):
        c.raises(c.m(t, name, k), "%s of a key whose reference is for %s" % (name, what))
    if what == "not a reference":
        c.raises(c.m(t, "get_reference", k), "get_reference of a key that holds no reference")


# ------------------------------------------------------------------ C16
def isolated(c, which, op, secure=False, warmed=False, more=()):
    if more:
        c.I.maxsteps *= 8
    t, st, ds = mkempt(c, secure=secure)
    cur = {}
    for i, k in enumerate(more):
        cur[k] = value("M%d" % i, "long")
        c.must(c.m(t, "update", unnib(k), cur[k]), "update")
    for i, k in enumerate([(1, 2, 3, 4), (1, 2, 5, 6), (7, 8)]):
        x = value("D%d" % i, "long" if i or more else "any")
        c.must(c.m(t, "update", unnib(k), x), "update")
        cur[k] = x
    root = rh(c, t)
    if which == "sparse":
        v = c.must(c.m(t, "get_sparse_trie"), "get_sparse_trie")
    elif which == "root":
        v = c.must(c.m(t, "get_root_trie"), "get_root_trie")
    else:
        s = c.must(c.m(t, "get_sparse_trie"), "get_sparse_trie")
        v = c.must(c.m(s, "get_root_trie"), "get_root_trie of the sparse trie")
    c.equal(rh(c, v), root, "root hash of the %s trie" % which)
    c.secure(v, secure, "secure flag of the %s trie" % which)
    if warmed:
        ask(c, t, cur, [(1, 2, 3, 9)], what="before any change")
        if which == "sparse":
            ask(c, v, cur, [(1, 2, 3, 9)], full=False, what="on the sparse trie before any change")
    snap, snapd = snapshot(st), snapshot(ds)
    new = value("N", "long")
    k = (1, 2, 3, 9)
    pin = c.must(c.m(t, "get_proof_of_inclusion", unnib((7, 8))), "get_proof_of_inclusion")
    pex = c.must(c.m(t, "get_proof_of_exclusion", unnib(k)), "get_proof_of_exclusion")
    c.boolean(c.m(v, "verify_proof_of_inclusion", pin), True, "proof of inclusion on the %s trie" % which)
    c.boolean(c.m(v, "verify_proof_of_exclusion", pex), True, "proof of exclusion on the %s trie" % which)
    if op == "view of view changes":
        if which != "root of sparse":
            return
        # what the root trie was taken from changes, and a second sparse trie does not
        s2 = c.must(c.m(t, "get_sparse_trie"), "get_sparse_trie")
        c.must(c.m(s, "update", unnib(k), new), "update of the sparse trie")
        c.must(c.m(s, "delete", unnib((7, 8))), "delete in the sparse trie")
        for n, o in (("root trie of the changed sparse trie", v), ("second sparse trie", s2), ("trie", t)):
            c.equal(rh(c, o), root, "root hash of the " + n)
            c.boolean(c.m(o, "verify_proof_of_inclusion", pin), True, "proof of inclusion on the " + n)
            c.boolean(c.m(o, "verify_proof_of_exclusion", pex), True, "proof of exclusion on the " + n)
        c.boolean(c.m(s2, "contains", unnib((7, 8))), True, "contains of the second sparse trie")
    elif op == "view emptied":
        if which != "sparse":
            return
        for q in cur:
            c.must(c.m(v, "delete", unnib(q)), "delete in the sparse trie")
        c.equal(rh(c, v), tries.EMPTY, "root hash of the emptied sparse trie")
        c.equal(rh(c, t), root, "root hash of the trie after its sparse trie was emptied")
        for q, x in cur.items():
            c.equal(c.must(c.m(t, "get", unnib(q)), "get"), x, "get after the sparse trie was emptied")
        same_storage(c, st, snap, "emptying the sparse trie")
        same_storage(c, ds, snapd, "emptying the sparse trie")
    elif op == "view changes":
        if which != "sparse":
            return
        c.must(c.m(v, "update", unnib(k), new), "update of the sparse trie")
        c.must(c.m(v, "update", unnib((7, 8)), new), "update of the sparse trie")
        c.must(c.m(v, "delete", unnib((1, 2, 5, 6))), "delete in the sparse trie")
        c.equal(rh(c, t), root, "root hash of the trie after its sparse trie was changed")
        ask(c, t, cur, [k], what="after the sparse trie was changed")
        w = dict(cur)
        w.update({(7, 8): new, k: new})
        del w[(1, 2, 5, 6)]
        c.equal(rh(c, v), spec_root(c, w, secure), "root hash of the changed sparse trie")
        ask(c, v, w, cur, full=False, what="on the changed sparse trie")
        same_storage(c, st, snap, "changing the sparse trie")
        same_storage(c, ds, snapd, "changing the sparse trie")
    else:
        c.must(c.m(t, "update", unnib(k), new), "update")
        c.must(c.m(t, "delete", unnib((7, 8))), "delete")
        if op == "rebuild":
            c.must(c.m(t, "build_trie"), "build_trie")
        if op == "original emptied":
            for q in ((1, 2, 3, 4), (1, 2, 5, 6), k):
                c.must(c.m(t, "delete", unnib(q)), "delete")
            c.must(c.m(t, "build_trie"), "build_trie")
            c.equal(rh(c, t), tries.EMPTY, "root hash of the emptied trie")
        c.equal(rh(c, v), root, "root hash of the %s trie after the original was changed" % which)
        c.boolean(c.m(v, "verify_proof_of_inclusion", pin), True, "proof on the %s trie after the original was changed" % which)
        if which == "sparse":
            ask(c, v, cur, [k], full=False, what="on the sparse trie after the original was changed")
            c.must(c.m(v, "get_proof_of_inclusion", unnib((7, 8))), "proof made by the sparse trie after the original was changed")


def separate(c, cname):
    """objects created without explicit storages share nothing"""
    cls = c.api(E, cname)
    a, b = c.must(c.call(cls), cname), c.must(c.call(cls), cname)
    x = value("D", "long")
    c.must(c.m(a, "update", b"\x12", x), "update")
    empty = rh(c, c.must(c.call(cls), cname))
    c.equal(rh(c, b), tries.EMPTY, "root hash of an unused %s" % cname)
    c.equal(empty, tries.EMPTY, "root hash of a new %s" % cname)
    c.boolean(c.m(b, "contains", b"\x12"), False, "contains of an unused %s" % cname)
    y = value("E", "long")
    c.must(c.m(b, "update", b"\x34", y), "update")
    c.equal(rh(c, b), spec_root(c, {(3, 4): y}), "root hash of the second %s" % cname)
    c.equal(rh(c, a), spec_root(c, {(1, 2): x}), "root hash of the first %s" % cname)
    if cname == "EMPT":
        for o in (a, b):
            c.equal(c.must(c.m(o, "__len__"), "len"), 1, "len of an EMPT with one key")
        c.raises(c.m(b, "get", b"\x12"), "get of a key of another EMPT")
        c.equal(c.must(c.m(a, "get", b"\x12"), "get"), x, "get of the first EMPT")
        c.must(c.m(b, "build_trie"), "build_trie")
        c.equal(rh(c, a), spec_root(c, {(1, 2): x}), "root hash of the first EMPT after the second was rebuilt")
    else:
        a2 = c.must(c.m(a, "get_reference", b"\x12"), "get_reference")
        c.equal(c.must(c.attr(a2, "data"), "data"), x, "reference of the first %s" % cname)


# ------------------------------------------------------------------ C17
def datareference(c, what):
    DR = c.api(E, "DataReference")
    I = c.I
    k, d = sym("K", lo=0, generic=True, group="KD"), sym("D", lo=0, generic=True, group="KD")
    if what == "round trip":
        r = c.must(c.call(DR, k, d), "DataReference")
        c.equal(c.must(c.attr(r, "key"), "key"), k, "key")
        c.equal(c.must(c.attr(r, "data"), "data"), d, "data")
        e = c.must(c.m(r, "encode"), "encode")
        r2 = c.must(c.call(I.getattr(DR, "decode"), e), "decode of an encoded reference")
        c.equal(c.must(c.attr(r2, "key"), "key"), k, "decoded key")
        c.equal(c.must(c.attr(r2, "data"), "data"), d, "decoded data")
        c.equal(c.must(c.attr(r2, "hash"), "hash"), c.must(c.attr(r, "hash"), "hash"), "decoded hash")
        c.boolean(c.eq(r, r2), True, "equality with the decoded reference")
        c.equal(c.must(c.hash(r), "hash"), c.must(c.hash(r2), "hash"), "hash of the decoded reference")
    elif what.startswith("moved"):
        # the same bytes, with the boundary between key and data elsewhere
        for key, data, k2, d2 in ((b"key", b"data", b"k", b"eydata"), (b"key", d, b"ke", mk("cat", (b"y", d))), (b"key", b"data", b"keydata", b""), (b"key", b"data", b"", b"keydata")):
            e = c.must(c.m(c.must(c.call(DR, key, data), "DataReference"), "encode"), "encode")
            if not (isinstance(e, Term) and e.op == "rlp" and isinstance(e.args[0], tuple)):
                raise Unsupported("encoding of a reference")
            items = list(e.args[0])
            at = [i for i, x in enumerate(items) if x == key], [i for i, x in enumerate(items) if x == data]
            if [len(a) for a in at] != [1, 1]:
                raise Unsupported("encoding of a reference")
            items[at[0][0]], items[at[1][0]] = k2, d2
            if c.call(I.getattr(DR, "decode"), mk("rlp", tuple(items))).ok:
                raise Failure("missing rejection", "decode accepted a reference in which bytes were moved between key and data")
    elif what.startswith("tampered"):
        r = c.must(c.call(DR, k, d), "DataReference")
        e = c.must(c.m(r, "encode"), "encode")
        if not (isinstance(e, Term) and e.op == "rlp" and isinstance(e.args[0], tuple)):
            raise Unsupported("encoding of a reference")
        items = list(e.args[0])
        i = int(what.split()[-1])
        if i >= len(items):
            return
        x = items[i]
        if isinstance(x, Term) and x.op in ("be", "H", "hex", "utf8"):
            items[i] = mk("be", lin(sym("h", kind="int", lo=1))) if x.op == "be" else sym("h32", lo=32, hi=32, generic=True)
            c.I.facts[("eq0", lin(0))] = True
        else:
            items[i] = sym("T", lo=1, generic=True, group="KD")
        bad = mk("rlp", tuple(items))
        if items[i] is x:
            return
        r = c.call(I.getattr(DR, "decode"), bad)
        if r.ok:
            # the change is only harmless where the unknown equals the original
            if isinstance(x, Term) and x.op == "be":
                for key, val in list(I.facts.items()):
                    if val is True and key[0] in ("eq0", "eq"):
                        return
            raise Failure("missing rejection", "decode accepted a reference whose field %d was replaced" % i)
    elif what == "malformed":
        h = mk("be", lin(mk("intof", keccak(mk("cat", (k, d))), kind="int")))
        for w, x in (("junk", sym("junk", junk=True, lo=1, generic=True)), ("a string item", mk("rlp", k)), ("three fields", mk("rlp", (b"FF", k, d))), ("nested fields", mk("rlp", (b"FF", (k,), d, h))), ("five fields", mk("rlp", (b"FF", k, d, h, b"x"))), ("a reference and another byte", mk("cat", (mk("rlp", (b"FF", k, d, h)), b"\x00"))), ("two references", mk("cat", (mk("rlp", (b"FF", k, d, h)),) * 2))):
            c.raises(c.call(I.getattr(DR, "decode"), x), "decode of %s" % w)
        for x in ("text", None, 5):
            c.raises(c.call(I.getattr(DR, "decode"), x), "decode of %r" % (x,), "TypeError")
    elif what == "several":
        # references decoded one after another: with the same key, the same data, the same bytes in another split
        a, b, e = (sym(n, lo=z, hi=z, generic=True, group="KDE") for n, z in (("A", 4), ("B", 5), ("E", 4)))
        ab, be, abe = mk("cat", (a, b)), mk("cat", (b, e)), mk("cat", (a, b, e))
        pairs = [(ab, e), (a, be), (ab, b), (a, e), (e, ab), (abe, b""), (b"", abe), (a, b), (b, a), (ab, b"")]
        refs = [c.must(c.call(DR, x, y), "DataReference") for x, y in pairs]
        encs = [c.must(c.m(r, "encode"), "encode") for r in refs]
        for order in (range(len(pairs)), reversed(range(len(pairs)))):
            for i in order:
                r = c.must(c.call(I.getattr(DR, "decode"), encs[i]), "decode of an encoded reference")
                c.equal(c.must(c.attr(r, "key"), "key"), pairs[i][0], "decoded key, after other references")
                c.equal(c.must(c.attr(r, "data"), "data"), pairs[i][1], "decoded data, after other references")
                c.equal(c.must(c.m(r, "encode"), "encode"), encs[i], "encoding of the decoded reference")
                c.boolean(c.eq(r, refs[i]), True, "equality with the decoded reference")
                c.equal(c.must(c.attr(refs[i], "key"), "key"), pairs[i][0], "key of the first reference")
    elif what == "types":
        for x in ("text", None, 5, (1,)):
            c.raises(c.call(DR, x, d), "DataReference with key %r" % (x,), "TypeError")
            c.raises(c.call(DR, k, x), "DataReference with data %r" % (x,), "TypeError")
    elif what == "equality":
        a, b, e = (sym(n, lo=z, hi=z, generic=True, group="KDE") for n, z in (("A", 4), ("B", 5), ("E", 4)))
        ab, be = mk("cat", (a, b)), mk("cat", (b, e))
        r1 = c.must(c.call(DR, ab, e), "DataReference")
        for w, kk, dd, eq in (
            ("the same key and data", ab, e, True), ("another split of the same bytes", a, be, False), ("other data", ab, b, False),
            ("another key", a, e, False), ("key and data exchanged", e, ab, False),
        ):
            r2 = c.must(c.call(DR, kk, dd), "DataReference")
            c.boolean(c.eq(r1, r2), eq, "equality with a reference of " + w)
        for o in (None, ab, 5, "x"):
            r = c.I.rich_eq(r1, o, "==")
            c.true(c.decided_truth(r, "==") is False, "a reference equals %s" % render(o))


# ------------------------------------------------------------------ C41
def node_lost(c, cname, keys, key, kind, secure=False):
    """one node is not in the trie storage: right answers, or errors that do not claim the key to be absent"""
    I = c.I
    t, st, ds = mkempt(c, cname, secure)
    cur = {}
    for i, k in enumerate(keys):
        v, x = mkdata(c, "D%d" % i, kind if i % 2 == 0 else "long")
        c.must(c.m(t, "update", unnib(k), v), "update")
        cur[k] = x
    root = rh(c, t)
    nodes = st.pairs()
    if not nodes:
        return
    h, node = nodes[I.choose(len(nodes), "missing node") if len(nodes) > 1 else 0]
    I.dict_del(st, h)
    snap, dsnap = snapshot(st), snapshot(ds)
    kb, there = unnib(key), key in cur
    for name in ("contains", "__contains__", "get_reference", "get", "__getitem__", "get_proof_of_inclusion", "get_proof_of_exclusion", "delete"):
        if cname != "EMPT" and name in ("get", "__getitem__"):
            continue
        r = c.m(t, name, kb)
        what = "%s of the %s key %s with a node missing" % (name, "stored" if there else "absent", fmt(key))
        c.obligations += 1
        if not r.ok:
            if there and name != "get_proof_of_exclusion" and exc_is(I, r.exc, *ABSENT):
                raise Failure("missing node taken for an absent key", "%s raised %s" % (what, excs(r.exc)), r.exc.attrs.get("__where__"))
            c.equal(rh(c, t), root, "root hash after a failed " + what)
            same_storage(c, st, snap, what)
            same_storage(c, ds, dsnap, what)
            continue
        if "contains" in name:
            c.boolean(r, there, what)
        elif name == "get_proof_of_exclusion":
            c.true(not there, what + " succeeded")
        else:
            c.true(there, what + " succeeded")
        if name in ("get", "__getitem__"):
            c.equal(encoding(c, r.value), cur[key], what)
        elif name == "get_reference":
            c.equal(c.must(c.attr(r.value, "data"), "data"), cur[key], what)
        elif name == "delete":
            rest = {k: v for k, v in cur.items() if k != key}
            c.equal(rh(c, t), spec_root(c, rest, secure), "root hash after " + what)


def gen_lost(tier, seed):
    import p_trie

    out, n = p_trie.gen_missing(tier, seed), 0
    for cname in ("EMPT", "SparseEMPT"):
        for ks in K3:
            for key in list(ks) + [(1, 2, 7, 7), (9, 9)]:
                for kind in ("long", "short", "object"):
                    n += 1
                    sec = n % 3 == 0 and () not in ks
                    out.append(("%s with a missing node: keys {%s}, key %s, %s values%s" % (cname, ", ".join(map(fmt, ks)), fmt(key), kind, ", secure" * sec), node_lost, (cname, ks, key, kind, sec)))
    return out


# ------------------------------------------------------------------ C42
def storage_fails(c, cname, keys, key, op, kind, which, secure=False):
    """one access to one of the storages fails; the failure may come at any access"""
    I = c.I
    t, st, ds = mkempt(c, cname, secure)
    cur, objs = {}, {}
    for i, k in enumerate(keys):
        v, x = mkdata(c, "D%d" % i, kind if i % 2 == 0 else "long")
        c.must(c.m(t, "update", unnib(k), v), "update")
        cur[k], objs[k] = x, v
    before, snap = rh(c, t), snapshot(ds)
    full = cname == "EMPT"
    kb = unnib(key)
    nv, nx = mkdata(c, "N", kind)
    if op == "wrong value":
        nv = None

    def go():
        if op in ("update", "wrong value"):
            return c.m(t, "update", kb, nv)
        if op == "assign":
            return c.m(t, "__setitem__", kb, nv)
        if op == "delete":
            return c.m(t, "delete", kb)
        if op == "pop":
            return c.m(t, "pop", kb)
        if op == "rebuild":
            return c.m(t, "build_trie")
        return c.m(t, "get", kb)

    done = dict(cur)
    if op in ("update", "assign"):
        done[key] = nx
    elif op in ("delete", "pop"):
        done.pop(key, None)
    f = Fault(("get", "set", "del"))
    (st if which == "trie" else ds).observer = f
    r = go()
    st.observer = ds.observer = None
    if f.fired is None:
        return
    what = "after a failed %s of the %s storage during %s of key %s" % (f.fired, which, op, fmt(key))
    if r.ok and op == "get":
        c.equal(encoding(c, r.value), cur[key], "get despite a failure of the storage")
    elif r.ok:
        # absorbed: then the operation has to have happened
        cur = done
    if op == "rebuild" and not r.ok:
        same_storage(c, ds, snap, what)
        c.must(go(), "rebuilding again " + what)
        ask(c, t, cur, [key], full, what + " and rebuilding again")
        c.equal(rh(c, t), spec_root(c, cur, secure), "root hash " + what + " and rebuilding again")
        return
    c.equal(rh(c, t), spec_root(c, cur, secure), "root hash " + what)
    if full:
        c.true(len(ds.pairs()) == len(cur), "%d entries in the data storage for %d keys %s" % (len(ds.pairs()), len(cur), what))
        if not r.ok:
            same_storage(c, ds, snap, what)
    ask(c, t, cur, [key], full, what, len(keys) < 3)
    if r.ok or op in ("get", "wrong value"):
        return
    r = go()
    if op in ("delete", "pop") and key not in cur:
        c.raises(r, op + " of an absent key " + what)
    else:
        c.must(r, "repeating %s of key %s %s" % (op, fmt(key), what))
        cur = done
    c.equal(rh(c, t), spec_root(c, cur, secure), "root hash " + what + " and repeating it")
    ask(c, t, {k: v for k, v in cur.items() if k == key}, [key], full, what + " and repeating it", False)


def gen_storage(tier, seed):
    out = []
    n = 0
    for cname in ("EMPT", "SparseEMPT"):
        for ks in K3 + ([((1, 2), (1, 2, 3, 4), (1, 2, 3, 4, 5, 6), (7, 7))] if tier != "quick" else []):
            for key in list(ks) + [(1, 2, 7, 7), (9, 9)]:
                for op in ("update", "assign", "delete", "pop", "get", "rebuild", "wrong value"):
                    if cname != "EMPT" and op in ("pop", "get", "rebuild"):
                        continue
                    if op == "get" and key not in ks or op == "rebuild" and key != ks[0]:
                        continue
                    for which in ("trie", "data")[:1 if cname != "EMPT" else 2]:
                        n += 1
                        if len(ks) > 2 and n % 2 and tier == "quick":
                            continue
                        kind = ("long", "short", "object", "bytearray")[n % 4]
                        sec = n % 3 == 0 and () not in ks
                        out.append(("%s storage of an %s fails: keys {%s}, %s of key %s, %s values%s" % (which, cname, ", ".join(map(fmt, ks)), op, fmt(key), kind, ", secure" * sec),
                                    storage_fails, (cname, ks, key, op, kind, which, sec)))
    return out


# ------------------------------------------------------------------ C18
def rebuild(c, keys, change, kind, secure=False, warmed=False):
    if len(keys) > 12:
        c.I.maxsteps *= 8
    t, st, ds = mkempt(c, secure=secure)
    cur = {}
    for i, k in enumerate(keys):
        v, x = mkdata(c, "D%d" % i, kind if i % 2 or len(keys) == 1 else "long")
        c.must(c.m(t, "update", unnib(k), v), "update")
        cur[k] = x
    I = c.I
    lost = keys[0] + (3, 3)
    if warmed:
        ask(c, t, cur, [lost], what="before the data is changed")
    if change == "emptied":
        for k in list(cur):
            I.dict_del(ds, unnib(k))
        cur = {}
    elif change == "removed":
        k = keys[0]
        I.dict_del(ds, unnib(k))
        del cur[k]
    elif change == "changed":
        v, x = mkdata(c, "N", kind)
        I.dict_set(ds, unnib(keys[-1]), v)
        cur[keys[-1]] = x
    elif change == "added":
        k = keys[0] + (3, 3)
        v, x = mkdata(c, "N", kind)
        I.dict_set(ds, unnib(k), v)
        cur[k] = x
    elif change == "deleted by key":
        c.must(c.m(t, "delete", unnib(keys[0])), "delete")
        del cur[keys[0]]
    elif change == "nodes lost":
        for k, _ in st.pairs():
            I.dict_del(st, k)
    elif change == "foreign nodes":
        I.dict_set(st, tries.keccak(mk("rlp", (b"\x20", value("J", "long")))), mk("rlp", (b"\x20", value("J", "long"))))
        I.dict_set(st, b"\x11" * 32, b"junk")
    elif change == "older nodes":
        v, x = mkdata(c, "N", kind)
        c.must(c.m(t, "update", unnib(keys[-1]), v), "update")
        cur[keys[-1]] = x
    snap = snapshot(ds)
    for n in (1, 2):
        c.must(c.m(t, "build_trie"), "build_trie (time %d) after the data was %s" % (n, change))
        what = "after build_trie (time %d), data %s" % (n, change)
        c.equal(rh(c, t), spec_root(c, cur, secure), "root hash " + what)
        same_storage(c, ds, snap, "build_trie")
        if warmed or n == 2:
            ask(c, t, cur, list(keys) + [lost], what=what)
    # the rebuilt trie can be used
    k = keys[0] + (9, 1)
    v, x = mkdata(c, "Z", kind)
    c.must(c.m(t, "update", unnib(k), v), "update " + what)
    cur[k] = x
    c.equal(rh(c, t), spec_root(c, cur, secure), "root hash of the updated trie " + what)
    c.must(c.m(t, "delete", unnib(k)), "delete " + what)
    del cur[k]
    c.equal(rh(c, t), spec_root(c, cur, secure), "root hash after delete " + what)


def rebuild_fresh(c, keys, kind, secure=False):
    if len(keys) > 12:
        c.I.maxsteps *= 8
    """a trie over an existing data storage"""
    if secure:
        interpret(c)
    ds, cur = Dict(name="data storage"), {}
    for i, k in enumerate(keys):
        v, x = mkdata(c, "D%d" % i, kind if i % 2 or len(keys) == 1 else "long")
        c.I.dict_set(ds, unnib(k), v)
        cur[k] = x
    cls = c.api(E, "EMPT")
    t = c.must(c.call(cls, trie_storage=Dict(), data_storage=ds, secure=secure), "EMPT over existing data")
    c.must(c.m(t, "build_trie"), "build_trie")
    c.equal(rh(c, t), spec_root(c, cur, secure), "root hash after build_trie over existing data")
    # the order of the data does not matter
    ds2 = Dict(reversed(ds.pairs()), name="data storage")
    t2 = c.must(c.call(cls, trie_storage=Dict(), data_storage=ds2, secure=secure), "EMPT over existing data")
    c.must(c.m(t2, "build_trie"), "build_trie")
    c.equal(rh(c, t2), rh(c, t), "root hash after build_trie over the same data in another order")


# ------------------------------------------------------------------ C11
def codec_mpt(c, keys, key, sizes, secure):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon, secure)
    snap = snapshot(st)
    e = c.must(c.m(t, "encode"), "encode of a trie")
    same_storage(c, st, snap, "encode")
    cls = c.api(*MPT)
    t2 = c.must(c.call(c.I.getattr(cls, "decode"), e), "decode of an encoded trie")
    what = "the decoded trie"
    c.secure(t2, secure, "secure flag of " + what)
    c.equal(rh(c, t2), canon.root_hash, "root hash of " + what)
    if secure:
        return
    for k in sorted(set(keys) | {key}):
        check_lookup(c, t2, k, vals.get(k), what)
    # the decoded trie can be changed and is independent
    nv = value("N", "long")
    c.must(c.m(t2, "update", unnib(key), nv), "update of the decoded trie")
    w = dict(vals)
    w[key] = nv
    c.equal(rh(c, t2), Canon(c.I, w).root_hash, "root hash after update of the decoded trie")
    c.equal(rh(c, t), canon.root_hash, "root hash of the original after update of the decoded trie")
    # nor do two decodings of the same bytes share anything
    t3 = c.must(c.call(c.I.getattr(cls, "decode"), e), "decoding the same bytes again")
    c.equal(rh(c, t3), canon.root_hash, "root hash of a trie decoded from the same bytes again")
    check_lookup(c, t3, key, vals.get(key), "the trie decoded from the same bytes again")
    same_storage(c, st, snap, "changing the decoded trie")
    # the changed trie is encoded as it is now
    e3 = c.must(c.m(t2, "encode"), "encode of the changed trie")
    t4 = c.must(c.call(c.I.getattr(cls, "decode"), e3), "decode of the changed trie")
    c.equal(rh(c, t4), Canon(c.I, w).root_hash, "root hash of the changed trie after encoding and decoding")
    for k in sorted(w):
        check_lookup(c, t4, k, w[k], "the changed trie after encoding and decoding")


def codec_emptied(c, cname):
    cls = c.api(*MPT) if cname == "MPT" else c.api(E, cname)
    t = c.must(c.call(cls, Dict()) if cname == "MPT" else c.call(cls), cname)
    enc, dec = ("encode", "decode") if cname == "MPT" else ("encode_rlp", "decode_rlp")

    def trip(what):
        e = c.must(c.m(t, enc), "%s of %s" % (enc, what))
        t2 = c.must(c.call(c.I.getattr(cls, dec), e), "%s of %s" % (dec, what))
        c.equal(rh(c, t2), tries.EMPTY, "root hash of the decoded %s" % what)
        c.boolean(c.m(t2, "contains", b"\x12"), False, "contains of the decoded %s" % what)
        v = value("N", "long")
        c.must(c.m(t2, "update", b"\x12", v), "update of the decoded %s" % what)
        c.boolean(c.m(t2, "contains", b"\x12"), True, "contains after update of the decoded %s" % what)

    trip("new %s" % cname)
    c.must(c.m(t, "update", b"\x12", value("A", "any")), "update")
    c.must(c.m(t, "delete", b"\x12"), "delete")
    trip("emptied %s" % cname)


def codec_view(c, cname, n, secure=False):
    t, st, ds = mkempt(c, "EMPT", secure)
    cur = {}
    for i, k in enumerate([(1, 2, 3, 4), (1, 2, 5, 6), (7, 8), (1, 2)][:n]):
        x = mkdata(c, "D%d" % i, "long" if i != 1 else "any")[1]
        c.must(c.m(t, "update", unnib(k), x), "update")
        cur[k] = x
    v = c.must(c.m(t, "get_sparse_trie" if cname == "SparseEMPT" else "get_root_trie"), "view")
    cls = c.api(E, cname)
    e = c.must(c.m(v, "encode_rlp"), "encode_rlp of a %s" % cname)
    w = c.must(c.call(c.I.getattr(cls, "decode_rlp"), e), "decode_rlp of a %s" % cname)
    c.true(isinstance(w, Instance) and c.I.isinstance_(w, cls), "decode_rlp of a %s yields %s" % (cname, c.I.type_name(w)))
    root = rh(c, t)
    c.equal(rh(c, w), root, "root hash of the decoded %s" % cname)
    c.secure(w, secure, "secure flag of the decoded %s" % cname)
    e2 = c.must(c.m(w, "encode_rlp"), "encode_rlp of the decoded %s" % cname)
    w2 = c.must(c.call(c.I.getattr(cls, "decode_rlp"), e2), "decode_rlp of a %s decoded and encoded" % cname)
    w3 = c.must(c.call(c.I.getattr(cls, "decode_rlp"), e), "decode_rlp of the same bytes again")
    c.true(w3 is not w, "decoding the same bytes twice yields one object", "shared state")
    c.equal(rh(c, w2), root, "root hash of the %s decoded twice" % cname)
    c.secure(w2, secure, "secure flag of the %s decoded twice" % cname)
    pin = c.must(c.m(t, "get_proof_of_inclusion", unnib((1, 2, 3, 4))), "get_proof_of_inclusion")
    pex = c.must(c.m(t, "get_proof_of_exclusion", b"\x12\x35"), "get_proof_of_exclusion")
    c.boolean(c.m(w, "verify_proof_of_inclusion", pin), True, "proof of inclusion on the decoded %s" % cname)
    c.boolean(c.m(w, "verify_proof_of_exclusion", pex), True, "proof of exclusion on the decoded %s" % cname)
    if cname == "SparseEMPT":
        for k, x in cur.items():
            d = c.must(c.m(w, "get_reference", unnib(k)), "get_reference of the decoded %s" % cname)
            c.equal(c.must(c.attr(d, "data"), "data"), x, "reference data of the decoded %s" % cname)
            c.boolean(c.m(w, "contains", unnib(k)), True, "contains of the decoded %s" % cname)
        c.boolean(c.m(w, "contains", b"\x12\x35"), False, "contains of the decoded %s" % cname)
        p2 = c.must(c.m(w, "get_proof_of_inclusion", unnib((1, 2, 3, 4))), "proof made by the decoded %s" % cname)
        c.boolean(c.m(t, "verify_proof_of_inclusion", p2), True, "proof made by the decoded %s" % cname)
        # the decoded trie can be changed and is independent
        v2 = value("N", "long")
        c.must(c.m(w, "update", b"\x12\x35", v2), "update of the decoded %s" % cname)
        c.must(c.m(w, "delete", unnib((1, 2, 3, 4))), "delete in the decoded %s" % cname)
        new = dict(cur)
        new[(1, 2, 3, 5)] = v2
        del new[(1, 2, 3, 4)]
        c.equal(rh(c, w), spec_root(c, new, secure), "root hash of the changed decoded %s" % cname)
        e3 = c.must(c.m(w, "encode_rlp"), "encode_rlp of the changed %s" % cname)
        w4 = c.must(c.call(c.I.getattr(cls, "decode_rlp"), e3), "decode_rlp of the changed %s" % cname)
        ask(c, w4, new, cur, full=False, what="on the changed %s after encoding and decoding" % cname)
        for n, o in (("sparse trie", v), ("EMPT", t), ("%s decoded from the same bytes" % cname, w3)):
            c.equal(rh(c, o), root, "root hash of the %s after the decoded one was changed" % n)
            c.boolean(c.m(o, "contains", unnib((1, 2, 3, 4))), True, "contains of the %s after the decoded one was changed" % n)


def codec_bad(c, cname):
    cls = c.api(*MPT) if cname == "MPT" else c.api(E, cname)
    dec = "decode" if cname == "MPT" else "decode_rlp"
    V = value("V", "long")
    for w, x in (
        ("junk", sym("junk", junk=True, lo=1, generic=True)), ("a string item", mk("rlp", V)), ("two fields", mk("rlp", (V, (V,)))),
        ("four fields", mk("rlp", (V, (V,), b"", V))), ("a flag that is not a boolean", mk("rlp", (V, (V,), b"\x02"))),
        ("nodes that are not a list", mk("rlp", (V, V, b""))), ("a nested node", mk("rlp", (V, ((V,),), b""))),
        ("an empty trie and another byte", mk("cat", (mk("rlp", (tries.EMPTY, (), b"")), b"\x00"))), ("two encodings", mk("cat", (mk("rlp", (keccak(V), (V,), b"")),) * 2)),
    ):
        c.raises(c.call(c.I.getattr(cls, dec), x), "%s of %s" % (dec, w))


def reopen(c, keys, key, sizes, secure=False):
    """the stores and the root are all there is to a trie"""
    if secure:
        interpret(c)
    st, ds, cur = Dict(name="trie storage"), Dict(name="data storage"), {}
    cls = c.api(E, "EMPT")
    t = c.must(c.call(cls, trie_storage=st, data_storage=ds, secure=secure), "EMPT")
    for i, k in enumerate(keys):
        x = value("D%d" % i, sizes[i])
        c.must(c.m(t, "update", unnib(k), x), "update")
        cur[k] = x
    root = c.must(c.m(t, "root"), "root()")
    t2 = c.must(c.call(cls, trie_storage=st, data_storage=ds, root=root, secure=secure), "EMPT over existing storages")
    c.equal(rh(c, t2), spec_root(c, cur, secure), "root hash of the reopened trie")
    for k in sorted(set(keys) | {key}):
        r = c.m(t2, "get", unnib(k))
        if k in cur:
            c.equal(c.must(r, "get of the reopened trie"), cur[k], "get of key %s of the reopened trie" % fmt(k))
        else:
            c.raises(r, "get of absent key %s of the reopened trie" % fmt(k))
        c.boolean(c.m(t2, "contains", unnib(k)), k in cur, "contains of key %s of the reopened trie" % fmt(k))
    if st.pairs():
        c.raises(c.call(cls, trie_storage=st, data_storage=ds), "EMPT over a used node storage without its root")


# ------------------------------------------------------------------ lists
K3 = [((1, 2),), ((1, 2), (1, 3)), ((1, 2, 3, 4), (1, 2, 3, 5), (1, 2)), ((1, 2), (15, 0), (0, 15)), ((), (1, 2))]


def gen_codec(tier, seed):
    out = []
    for i, (ks, k) in enumerate(reps(tier, seed)):
        if tier == "quick" and i % 3:
            continue
        s = tuple(size_variants(i, len(ks), tier)[0])
        out.append(("encode and decode: " + describe(ks, k, s), codec_mpt, (ks, k, s, i % 4 == 3)))
    for n in ("MPT", "SparseEMPT"):
        out.append(("empty %s" % n, codec_emptied, (n,)))
    for n in ("MPT", "SparseEMPT", "RootEMPT"):
        out.append(("malformed %s" % n, codec_bad, (n,)))
    for n in ("SparseEMPT", "RootEMPT"):
        for j in (1, 2, 3, 4):
            for sec in (False, True):
                out.append(("%s of %d keys%s" % (n, j, ", secure" * sec), codec_view, (n, j, sec)))
    for i, (ks, k) in enumerate(reps(tier, seed)):
        if i % (12 if tier == "quick" else 3) == 1 and len(ks) < 5:
            s = tuple(size_variants(i, len(ks), tier)[0])
            sec = () not in ks and k != () and i % 5 == 0
            out.append(("reopen: " + describe(ks, k, s), reopen, (ks, k, s, sec)))
    for i, (ks, k, s, n) in enumerate(many_entries(tier)):
        if i % 4 == 0 or tier != "quick":
            out.append(("encode and decode: trie of " + n, codec_mpt, (ks, k, s, False)))
            out.append(("reopen: trie of " + n, reopen, (ks[:36], k, ("long",) * len(ks), () not in ks and i % 8 == 0)))
    return out


TAMPER = ["none", "replaced", "replaced by bytearray", "replaced by object", "empty", "extended", "removed", "swapped", "added", "shifted",
          "truncated", "turned", "mutated", "reverted", "no encoder", "replaced by None", "replaced by str", "replaced by int", "replaced by list"]


def gen_reads(tier, seed):
    out = []
    for j, ks in enumerate(K3):
        for i, kind in enumerate(("long", "any", "bytearray", "object", "parts", "empty", "bytearray-empty", "object-empty")):
            for n, tm in enumerate(TAMPER):
                if tm in ("extended", "shifted") and (kind.startswith("object") or kind.endswith("empty")):
                    continue
                if tm == "mutated" and not kind.startswith(("bytearray", "object")):
                    continue
                if tm in ("truncated", "turned") and kind != "parts":
                    continue
                if tm == "reverted" and kind in ("object", "parts"):
                    continue
                if tm.startswith(("replaced by ", "no ")) and n > 9 and (i + n) % 3 and tier == "quick":
                    continue
                if tm == "swapped" and len(ks) < 2 or tm == "shifted" and not ks[0]:
                    continue
                sec = () not in ks and (i + n + j) % 4 == 0
                out.append(("stored data %s: keys {%s}, %s values%s" % (tm, ", ".join(map(fmt, ks)), kind, ", secure" * sec), tampered, ("EMPT", ks, tm, kind, sec, (i + j + n) % 2 == 0)))
    for w in ("other key", "other data", "a shorter key that goes on in the data", "a longer key that the data starts with", "no key", "no data", "the hash of the key", "not a reference"):
        for sec in (False, True):
            out.append(("trie holds a reference for %s%s" % (w, ", secure" * sec), wrong_reference, (w, sec)))
    for j, ks in enumerate(K3[:3]):
        for i, kind in enumerate(("long", "bytearray", "object", "parts")):
            for n, name in enumerate(("get", "__getitem__", "pop", "setdefault", "items", "values")):
                sec = () not in ks and (i + n + j) % 4 == 0
                out.append(("fickle data storage: %s, keys {%s}, %s values%s" % (name, ", ".join(map(fmt, ks)), kind, ", secure" * sec), fickle, (ks, kind, name, sec)))
    for made in ("view", "new"):
        for sec in (False, True):
            out.append(("reading a sparse trie (%s)%s" % (made, ", secure" * sec), no_data, (sec, made)))
    for i, (ks, k, s, n) in enumerate(many_entries(tier)):
        if i % 4 == 1:
            for j, tm in enumerate(("none", "replaced", "removed", "swapped", "added")):
                ks2 = (ks[-1],) + ks[:-1] if j % 2 else ks[len(ks) // 2:] + ks[:len(ks) // 2]
                kind = ("bytearray-long", "long", "object-long")[(i + j) % 3]
                out.append(("stored data %s: %d keys (%d), %s values" % (tm, len(ks), i, kind), tampered, ("EMPT", ks2, tm, kind, () not in ks and j == 1, False)))
    return out


def gen_instep(tier, seed):
    out = []
    for i, (n, ops, sz) in enumerate(sequences(tier)):
        if tier == "quick" and i % 2:
            continue
        kd = tuple(KINDS[(i + j) % len(KINDS)] for j in range(len(ops)))
        if sum(k.endswith(("any", "bytearray", "object")) for k in kd) > 2:
            kd = tuple(k if j % 2 else {"any": "long", "bytearray": "bytearray-long", "object": "object-short"}.get(k, k) for j, k in enumerate(kd))
        cname = "EMPT" if i % 3 else "SparseEMPT"
        sec = not any(k == () for _, k in ops) and i % 4 < 2
        out.append(("%s%s: %s" % (cname, " (secure)" * sec, n), in_step, (ops, kd, cname, sec, i % 4 == 2)))
    sets = [(), ((1, 2),), ((1, 2), (1, 3)), ((1, 2), (1, 2, 3, 4)), ((), (1, 2)), ((1, 2), (3, 4), (1, 5)), ((1, 2, 3, 4), (1, 2), (1, 2, 3, 5)), ((0, 1), (0, 1, 2, 3), (0, 1, 2, 3, 4, 5))]
    for i, ks in enumerate(sets if tier == "quick" else sets + [((1, 2), (1, 3), (2, 2), (1, 2, 3, 4)), ((), (0, 0), (0, 0, 0, 0), (0, 1))]):
        for j, order in enumerate(("popitem", "pop", "clear")):
            for sec in (False, True):
                if sec and () in ks:
                    continue
                kd = tuple((("long", "bytearray-long", "object-long") if len(ks) > 1 else ("long", "any", "bytearray", "object-empty"))[(i + j + x) % (3 if len(ks) > 1 else 4)] for x in range(len(ks)))
                out.append(("EMPT%s: %s of all of {%s}" % (" (secure)" * sec, order, ", ".join(map(fmt, ks))), bulk, (ks, kd, sec, order)))
    for cname in ("EMPT", "SparseEMPT"):
        names = ["update", "__setitem__", "delete", "__delitem__", "contains", "__contains__", "get_reference", "get_proof_of_inclusion", "get_proof_of_exclusion"]
        if cname == "EMPT":
            names += ["get", "__getitem__"]
        for n in names:
            for j, b in enumerate(("str", "bytearray", "None", "int", "tuple", "bool")):
                out.append(("%s.%s with a key of type %s" % (cname, n, b), validation, (cname, "key " + n, b, j % 2 == 1)))
        for j, v in enumerate(BADVALUES):
            out.append(("%s.update with value %s" % (cname, v), validation, (cname, "value", v, j % 2 == 1)))
            out.append(("%s.update of a stored key with value %s" % (cname, v), validation, (cname, "value of a stored key", v, j % 2 == 0)))
        for n in ["delete", "__delitem__", "get_reference", "get_proof_of_inclusion"] + (["get", "__getitem__", "pop"] if cname == "EMPT" else []):
            for sec in (False, True):
                out.append(("%s.%s of an absent key%s" % (cname, n, ", secure" * sec), validation, (cname, "absent", n, sec)))
        for n in ("verify_proof_of_inclusion", "verify_proof_of_exclusion"):
            out.append(("%s.%s of something else" % (cname, n), validation, (cname, "proof", n)))
    for i, (n, ops, sz) in enumerate(long_sequences(tier)):
        for cname, sec in (("EMPT", False), ("SparseEMPT", False), ("EMPT", True)):
            if sec and any(k == () for _, k in ops):
                continue
            kd = tuple(("long", "long", "bytearray-long", "long", "object-long")[(x + i) % 5] for x in range(len(ops)))
            out.append(("%s%s, long sequence: %s" % (cname, " (secure)" * sec, n), in_step, (ops, kd, cname, sec, False)))
    return out


def gen_isolation(tier, seed):
    out = []
    for w in ("sparse", "root", "root of sparse"):
        for op in ("view changes", "view emptied", "view of view changes", "original changes", "original emptied", "rebuild"):
            for sec in (False, True):
                for wm in (False, True):
                    out.append(("%s trie, %s%s%s" % (w, op, ", secure" * sec, ", after lookups" * wm), isolated, (w, op, sec, wm)))
    for n in ("EMPT", "SparseEMPT"):
        out.append(("two %s objects" % n, separate, (n,)))
    more = tuple((a, b, 1, a) if b % 3 else (a, b) for a in range(3, 9) for b in range(6) if (a, b) != (7, 8))
    for n, (w, op, sec) in enumerate((("sparse", "view changes", False), ("sparse", "view emptied", False), ("root", "original changes", False), ("sparse", "original changes", True), ("sparse", "rebuild", False), ("root of sparse", "view of view changes", False))):
        out.append(("%s trie, %s%s, %d keys" % (w, op, ", secure" * sec, len(more) + 3), isolated, (w, op, sec, n % 2 == 0, more)))
    return out


def gen_reference(tier, seed):
    out = [("data reference: " + w, datareference, (w,)) for w in ("round trip", "malformed", "types", "equality", "several", "moved boundary")]
    out += [("data reference: tampered field %d" % i, datareference, ("tampered %d" % i,)) for i in range(4)]
    return out


def gen_rebuild(tier, seed):
    out = []
    for j, ks in enumerate(K3):
        for i, kind in enumerate(("long", "any", "bytearray", "object", "empty", "bytearray-empty", "object-empty")):
            for n, ch in enumerate(("kept", "removed", "changed", "added", "emptied", "deleted by key", "nodes lost", "foreign nodes", "older nodes")):
                sec = () not in ks and (i + j + n) % 3 == 0
                out.append(("rebuild, data %s: keys {%s}, %s values%s" % (ch, ", ".join(map(fmt, ks)), kind, ", secure" * sec), rebuild, (ks, ch, kind, sec, (i + n) % 2 == 0)))
            for sec in (False, True) if () not in ks else (False,):
                out.append(("build over existing data: keys {%s}, %s values%s" % (", ".join(map(fmt, ks)), kind, ", secure" * sec), rebuild_fresh, (ks, kind, sec)))
    for i, (ks, k, s, n) in enumerate(many_entries(tier)):
        if i % 4 == 2:
            for j, ch in enumerate(("kept", "removed", "changed", "added", "emptied", "deleted by key", "nodes lost")):
                if len(ks) > 20 and j % 2 and tier == "quick":
                    continue
                kind = ("long", "bytearray-long", "object-long")[(i + j) % 3]
                out.append(("rebuild, data %s: %d keys (%d), %s values" % (ch, len(ks), i, kind), rebuild, (ks, ch, kind, () not in ks and j == 2, False)))
            out.append(("build over existing data: %d keys (%d)" % (len(ks), i), rebuild_fresh, (ks, "long", False)))
    return out
