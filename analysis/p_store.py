"""C35: tries work on every storage with the documented interface, as on a dict."""
from core import *
import tries
from tries import Canon, contents, Broken, unnib, nib, fmt, value
from p_trie import MPT, same_map, sequences, long_sequences, snapshot
from p_empt import E, KINDS, mkdata, encoding, interpret, tpath, spec_root, rh, ref_value

ABSENT = object()


def attempt(c, r):
    return r.value if r.ok else ABSENT


def trie(c, ops, sizes, secure=False):
    """MPT: item access is all it may use"""
    d = Dict(name="trie storage")
    st = c.must(c.call(user_class(c, "ItemStore"), d), "storage")
    if secure:
        interpret(c)
    cls = c.api(*MPT)
    t = c.must(c.call(cls, st, None, secure), "creating a trie")
    cur = {}
    for n, (op, k) in enumerate(ops):
        what = "step %d (%s %s) on a storage that has item access only" % (n + 1, op, fmt(k))
        kb = unnib(k)
        if op == "set":
            v = value("V%d" % n, sizes[n])
            c.must(c.m(t, "update", kb, v), what)
            cur[k] = v
        elif op == "del":
            r = c.m(t, "delete", kb)
            if k in cur:
                c.must(r, what)
                del cur[k]
            else:
                c.raises(r, what)
        else:
            r = c.m(t, "get", kb)
            if k in cur:
                c.equal(c.must(r, what), cur[k], what)
            else:
                c.raises(r, what)
            c.boolean(c.m(t, "contains", kb), k in cur, what)
            kind = "inclusion" if k in cur else "exclusion"
            if cur:
                p = c.must(c.m(t, "get_proof_of_" + kind, kb), "get_proof_of_%s, %s" % (kind, what))
                c.boolean(c.m(t, "verify_proof_of_" + kind, p), True, "verify_proof_of_%s, %s" % (kind, what))
        w = Canon(c.I, {tpath(c, q, secure): v for q, v in cur.items()})
        c.equal(rh(c, t), w.root_hash, "root hash after " + what)
        c.obligations += 1
        try:
            same_map(c, contents(c.I, c.must(c.m(t, "root"), "root()"), d), w.items, "after " + what)
        except Broken as b:
            raise Failure("stored trie is broken", "%s: %s" % (what, b))
    # another object on the same storage
    t2 = c.must(c.call(cls, st, c.must(c.m(t, "root"), "root()"), secure), "reopening")
    for k in sorted({k for _, k in ops}):
        r = c.m(t2, "get", unnib(k))
        if k in cur:
            c.equal(c.must(r, "get of the reopened trie"), cur[k], "get of the reopened trie")
        else:
            c.raises(r, "get of an absent key of the reopened trie")


def empt(c, ops, kinds, cname, secure=False):
    """EMPT and sparse EMPT on storages with the documented methods"""
    if len(ops) > 12:
        c.I.maxsteps *= 8
    S = user_class(c, "Store")
    if secure:
        interpret(c)
    d1, d2 = Dict(name="trie storage"), Dict(name="data storage")
    st, ds = c.must(c.call(S, d1), "storage"), c.must(c.call(S, d2), "storage")
    st.attrs["strict"] = True
    full = cname == "EMPT"
    kw = {"trie_storage": st, "secure": secure}
    if full:
        kw["data_storage"] = ds
    t = c.must(c.call(c.api(E, cname), **kw), "%s on given storages" % cname)
    cur, objs = {}, {}
    for n, (op, k) in enumerate(ops):
        what = "step %d (%s %s) of %s on given storages" % (n + 1, op, fmt(k), cname)
        kb = unnib(k)
        if op == "set":
            v, x = mkdata(c, "D%d" % n, kinds[n])
            c.must(c.m(t, "__setitem__" if n % 3 == 1 else "update", kb, v), what)
            cur[k], objs[k] = x, v
        elif op == "del":
            r = c.m(t, "__delitem__" if n % 3 == 1 else "delete", kb)
            if k in cur:
                c.must(r, what)
                del cur[k], objs[k]
            else:
                c.raises(r, what)
        elif full:
            c.must(c.m(t, "build_trie"), "build_trie, " + what)
        c.equal(rh(c, t), spec_root(c, cur, secure), "root hash after " + what)
        if full:
            c.true(sorted(nib(a) for a, _ in d2.pairs()) == sorted(cur), "keys in the data storage after %s: %s" % (what, [a for a, _ in d2.pairs()]))
            for a, v in d2.pairs():
                c.true(v is objs[nib(a)] or c.I.eq3(v, objs[nib(a)]) is True, "the data storage keeps %s for %s, given was %s" % (render(v), render(a), render(objs[nib(a)])))
            c.equal(c.must(c.m(t, "__len__"), "len"), len(cur), "len after " + what)
    same_map(c, contents(c.I, c.must(c.m(t, "root"), "root()"), d1), {tpath(c, k, secure): ref_value(c, unnib(k), x) for k, x in cur.items()}, "trie in the given storage")
    for k in sorted({k for _, k in ops}):
        kb = unnib(k)
        what = "of key %s of %s on given storages" % (fmt(k), cname)
        c.boolean(c.m(t, "contains", kb), k in cur, "contains " + what)
        c.boolean(c.m(t, "__contains__", kb), k in cur, "`in` " + what)
        for name in ("get", "__getitem__", "get_reference") if full else ("get_reference",):
            r = c.m(t, name, kb)
            if k in cur:
                got = c.must(r, name + " " + what)
                if name == "get_reference":
                    c.equal(c.must(c.attr(got, "data"), "data"), cur[k], name + " " + what)
                else:
                    c.equal(encoding(c, got), cur[k], name + " " + what)
            else:
                c.raises(r, name + " " + what)
        if cur:
            kind = "inclusion" if k in cur else "exclusion"
            p = c.must(c.m(t, "get_proof_of_" + kind, kb), "get_proof_of_%s %s" % (kind, what))
            c.boolean(c.m(t, "verify_proof_of_" + kind, p), True, "verify_proof_of_%s %s" % (kind, what))
            v = c.must(c.m(t, "get_root_trie"), "get_root_trie " + what)
            c.boolean(c.m(v, "verify_proof_of_" + kind, p), True, "verify_proof_of_%s on the root trie %s" % (kind, what))
    if not full:
        return

    def names(it, what):
        ks = [nib(x) for x in it]
        c.true(sorted(ks) == sorted(cur), "%s yields %s for keys {%s}" % (what, [fmt(x) for x in ks], ", ".join(map(fmt, cur))))

    try:
        names(c.each(t, "an EMPT"), "iteration of an EMPT on given storages")
        names(c.each(c.must(c.m(t, "keys"), "keys()"), "keys()"), "keys() of an EMPT on given storages")
        its = c.each(c.must(c.m(t, "items"), "items()"), "items()")
    except engine.PyRaise as e:
        raise Failure("unexpected exception", "iterating an EMPT on given storages raised %s" % excs(e.exc), e.exc.attrs.get("__where__"))
    names([k for k, _ in its], "items() of an EMPT on given storages")
    for a, v in its:
        c.equal(encoding(c, v), cur[nib(a)], "items() for key %r" % (a,))
    # the views do not use the storages
    before = rh(c, t)
    v = c.must(c.m(t, "get_sparse_trie"), "get_sparse_trie of an EMPT on given storages")
    w = c.must(c.call(c.I.getattr(c.api(E, "SparseEMPT"), "decode_rlp"), c.must(c.m(v, "encode_rlp"), "encode_rlp")), "decode_rlp")
    for n, o in (("sparse trie", v), ("decoded sparse trie", w)):
        c.equal(rh(c, o), before, "root hash of the %s of an EMPT on given storages" % n)
    s1, s2 = snapshot(d1), snapshot(d2)
    c.must(c.m(v, "update", b"\x77", value("N", "long")), "update of the sparse trie")
    c.true(snapshot(d1) == s1 and snapshot(d2) == s2, "changing the sparse trie changed the storages of the EMPT")
    # the rest of the mapping
    if cur:
        k = sorted(cur)[0]
        c.must(c.m(t, "pop", unnib(k)), "pop of an EMPT on given storages")
        del cur[k]
        c.equal(rh(c, t), spec_root(c, cur, secure), "root hash after pop of an EMPT on given storages")
        c.equal(len(d2.pairs()), len(cur), "entries of the data storage after pop")


def given(c, cname, n):
    """a given storage is used even when it is empty, and never replaced"""
    S = user_class(c, "Store")
    d1, d2 = Dict(name="trie storage"), Dict(name="data storage")
    st, ds = (c.must(c.call(S, d), "storage") for d in (d1, d2)) if n else (d1, d2)
    kw = {"trie_storage": st}
    if cname == "EMPT":
        kw["data_storage"] = ds
    t = c.must(c.call(c.api(E, cname), **kw), "%s on empty storages" % cname)
    x = value("D", "long")
    c.must(c.m(t, "update", b"\x12", x), "update")
    c.true(len(d1.pairs()) == 1, "the given empty node storage holds %d nodes after an update of %s" % (len(d1.pairs()), cname))
    if cname == "EMPT":
        c.true(len(d2.pairs()) == 1, "the given empty data storage holds %d entries after an update" % len(d2.pairs()))
        # data that is already there is not touched by opening
        d3 = Dict([(b"\x34", x)], name="data storage")
        s3 = c.must(c.call(S, d3), "storage") if n else d3
        t3 = c.must(c.call(c.api(E, "EMPT"), trie_storage=Dict(), data_storage=s3), "EMPT on given data")
        c.equal(c.must(c.m(t3, "__len__"), "len"), 1, "len of an EMPT on given data")
        c.must(c.m(t3, "build_trie"), "build_trie")
        c.equal(c.must(c.m(t3, "get", b"\x34"), "get"), x, "get of given data")


def gen(tier, seed):
    out = []
    for i, (n, ops, sz) in enumerate(sequences(tier)):
        sec = not any(k == () for _, k in ops) and i % 4 == 1
        if i % 3 == 0 or tier != "quick":
            out.append(("MPT on item access only%s: %s" % (", secure" * sec, n), trie, (ops, sz, sec)))
        if i % 3 or tier != "quick":
            kd = tuple(KINDS[(i + j) % len(KINDS)] for j in range(len(ops)))
            if sum(k.endswith(("any", "bytearray", "object")) for k in kd) > 2:
                kd = tuple(k if j % 2 else {"any": "long", "bytearray": "bytearray-long", "object": "object-short"}.get(k, k) for j, k in enumerate(kd))
            cname = "EMPT" if i % 4 else "SparseEMPT"
            out.append(("%s on given storages%s: %s" % (cname, ", secure" * sec, n), empt, (ops, kd, cname, sec)))
    for cname in ("EMPT", "SparseEMPT"):
        for n in (0, 1):
            out.append(("%s on an empty %s" % (cname, ("dict", "storage object")[n]), given, (cname, n)))
    for i, (n, ops, sz) in enumerate(long_sequences(tier)):
        out.append(("MPT on item access only, long sequence: " + n, trie, (ops, sz, False)))
        kd = tuple(("long", "long", "bytearray-long", "long", "object-long")[(x + i) % 5] for x in range(len(ops)))
        out.append(("%s on given storages, long sequence: %s" % (("EMPT", "SparseEMPT")[i % 2], n), empt, (ops, kd, ("EMPT", "SparseEMPT")[i % 2], False)))
    return out
