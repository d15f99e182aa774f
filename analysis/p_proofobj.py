"""C24: proof objects."""
from core import *
from p_crypto import atoms_of

P = ("pymt.proof", "Proof")


def text(name):
    """UTF-8 encoded text"""
    return mk("utf8", sym(name, kind="str", generic=True, group="text"))


def fields(I, ptype, shape):
    h = [mk("utf8", mk("hex", sym("h%d" % i, lo=32, hi=32, generic=True, group="h"), kind="str")) for i in range(4)]
    raw = [sym("node%d" % i, lo=1, generic=True, group="node") for i in range(3)]
    key = {"raw key": sym("K", lo=0, generic=True, group="key"), "any key": sym("K", lo=0), "empty key": b"", "odd key": b"\xff\xfe"}.get(shape) if shape.endswith(" key") else text("K") if ptype == b"MT-POI" else sym("K", lo=0, generic=True, group="key")
    proof = {
        "empty": (),
        "pairs": ((b"left", h[1]), (b"right", h[2])),
        "pair": ((b"right", h[1]),),
        "flat": (text("n0"), text("n1")),
        "nodes": tuple(raw),
        "long": tuple((b"left" if i % 3 else b"right", h[i % 4]) for i in range(12)),
        "equal": ((b"left", h[1]), (b"left", h[1])),
        "nested empty": ((b"left", b""), (b"right", h[1])),
    }[shape if not shape.endswith(" key") else "pairs"]
    return dict(target_key=key, root_hash=h[0] if ptype == b"MT-POI" else sym("root", lo=32, hi=32, generic=True, group="h"), proof=proof, proof_type=ptype)


def make(c, f):
    return c.must(c.call(c.api(*P), **f), "Proof")


def get(c, p):
    a = lambda n: c.must(c.attr(p, n), n)
    return dict(target_key=a("target_key"), root_hash=a("trie_root"), proof=a("proof"), proof_type=a("type"))


def same(c, got, want, what):
    for k in want:
        c.equal(got[k], want[k], "%s of %s" % (k, what))


def pairs(c, x, what):
    """an iterable of (name, value) pairs"""
    out = []
    for y in c.each(x, what, cap=6):
        c.true(isinstance(y, (tuple, List)), "%s yields something else than pairs" % what)
        y = c.each(y, "an item of %s" % what)
        c.true(len(y) == 2 and isinstance(y[0], str), "%s yields something else than (name, value) pairs" % what)
        out.append(tuple(y))
    return out


def accessors(c, ptype, shape):
    f = fields(c.I, ptype, shape)
    p = make(c, f)
    same(c, get(c, p), f, "a proof")
    ts = c.must(c.attr(p, "timestamp"), "timestamp")
    d = c.must(c.m(p, "items"), "items()")
    d = pairs(c, d, "items()")
    names = [k for k, _ in d]
    d = dict(d)
    c.true({"target_key", "root_hash", "proof", "proof_type", "timestamp"} <= set(names), "items() lacks a field")
    c.equal(d["target_key"], f["target_key"], "items()['target_key']")
    c.equal(d["root_hash"], f["root_hash"], "items()['root_hash']")
    c.equal(d["proof"], f["proof"], "items()['proof']")
    c.equal(d["proof_type"], ptype, "items()['proof_type']")
    c.equal(d["timestamp"], ts, "items()['timestamp']")
    # iterating yields the same items, every time
    for _ in range(2):
        got = pairs(c, p, "a proof")
        c.true([k for k, _ in got] == names, "iterating a proof does not yield its items in their order")
        got = dict(got)
        for k in ("target_key", "root_hash", "proof"):
            c.true(k in got, "iterating a proof does not yield %s" % k)
            c.equal(got[k], f[k], "%s while iterating" % k)


def reject(c, field, bad):
    f = fields(c.I, b"MPT-POI", "nodes")
    f[field] = {"str": "text", "None": None, "int": 5, "bytearray": BArr(b"xx"), "list": List([b"x"]), "bytes": b"xx", "other type": b"XX", "tuple": (b"x",), "prefix": b"MPT", "lower": b"mpt-poi", "empty": b"", "bytearray of a type": BArr(b"MPT-POI")}[bad]
    c.raises(c.call(c.api(*P), **f), "Proof with %s %s" % (field, bad), "TypeError")


def unknown_types(c, how):
    """everything near an accepted type is refused, by the constructor and by the decoders"""
    I = c.I
    acc = [b"MPT-POI", b"MPT-POE", b"MT-POI"]
    near = [b"", b"P", b"PO", b"POI", b"POE", b"-", b"MPT", b"MT", b"MPT-", b"MT-", b"MT-POE", b"MPT-PO", b"MT-PO", b"PT-POI", b"T-POI", b"-POI", b"MPT_POI", b"MPT-POI\x00", b"MPTPOI"]
    for a in acc:
        near += [a + b" ", b" " + a, a + b"x", b"x" + a, a.lower(), a.title(), a + a, a[:-1], a[1:], a[::-1], a + b"\n", a + b"," + acc[0], b"S" + a]
    near = [x for x in dict.fromkeys(near) if x not in acc]
    import models

    for x in near:
        if how == "constructor":
            f = fields(I, b"MT-POI", "pairs")
            f["proof_type"] = x
            c.raises(c.call(c.api(*P), **f), "Proof with type %r" % x, "TypeError")
        elif how == "json":
            good = dict(proof_type=x.decode(), timestamp="now", target_key="k", root_hash="r", proof=List())
            c.raises(c.call(I.getattr(c.api(*P), "decode_json"), models.json_dumps(I, Dict(good.items()))), "decode_json of type %r" % x)
        else:
            V = sym("V", lo=1, generic=True)
            p = make(c, fields(I, b"MT-POI", "pairs"))
            e = c.must(c.m(p, "encode_rlp"), "encode_rlp")
            if not (isinstance(e, Term) and e.op == "rlp" and isinstance(e.args[0], tuple)):
                raise Unsupported("proof format")
            bad = tuple(x if y == b"MT-POI" else y for y in e.args[0])
            c.raises(c.call(I.getattr(c.api(*P), "decode_rlp"), mk("rlp", bad)), "decode_rlp of type %r" % x)
    for a in acc:
        p = make(c, dict(fields(I, b"MT-POI", "pairs"), proof_type=a))
        c.equal(c.must(c.attr(p, "type"), "type"), a, "type")
    X = sym("T", lo=0, hi=20)
    r = c.call(c.api(*P), **dict(fields(I, b"MT-POI", "pairs"), proof_type=X))
    if r.ok and how == "constructor":
        hit = [a for a in acc if I.eq3(X, a) is True]
        c.true(bool(hit), "a proof with an unknown type was made", "missing rejection")


def several(c, which):
    """proofs do not share what they hold"""
    I = c.I
    f1, f2 = fields(I, b"MT-POI", "pairs"), fields(I, b"MT-POI", "pair")
    f2["target_key"] = text("K2")
    p1 = make(c, f1)
    t1 = c.must(c.attr(p1, "timestamp"), "timestamp")
    p2 = make(c, f2)
    same(c, get(c, p1), f1, "the first proof after a second was made")
    same(c, get(c, p2), f2, "the second proof")
    c.equal(c.must(c.attr(p1, "timestamp"), "timestamp"), t1, "time stamp of the first proof after a second was made")
    e1, e2 = c.must(c.m(p1, "encode_" + which), "encode"), c.must(c.m(p2, "encode_" + which), "encode")
    D = I.getattr(c.api(*P), "decode_" + which)
    q2, q1 = c.must(c.call(D, e2), "decode"), c.must(c.call(D, e1), "decode")
    for q, p, f in ((q1, p1, f1), (q2, p2, f2)):
        same(c, get(c, q), f, "the decoded proof")
        c.equal(c.must(c.attr(q, "timestamp"), "timestamp"), c.must(c.attr(p, "timestamp"), "timestamp"), "time stamp of the decoded proof")
        c.boolean(c.eq(p, q), True, "equality with the decoded proof")
        c.boolean(c.eq(q, p), True, "equality with the decoded proof")
    c.boolean(c.eq(p1, q2), False, "equality of different proofs")
    # twice through the codec, and through both codecs
    o = "rlp" if which == "json" else "json"
    r1 = c.must(c.call(I.getattr(c.api(*P), "decode_" + o), c.must(c.m(q1, "encode_" + o), "encode")), "decode")
    same(c, get(c, r1), f1, "the proof after both codecs")
    c.boolean(c.eq(p1, r1), True, "equality with the proof after both codecs")
    # iterating one does not disturb the other
    i1 = pairs(c, p1, "a proof")
    i2 = pairs(c, p2, "a proof")
    for its, f in ((i1, f1), (i2, f2)):
        d = dict(its)
        for k in ("target_key", "root_hash", "proof", "proof_type"):
            c.equal(d[k], f[k], k + " while iterating")
    # set-able from outside?
    for n in ("target_key", "trie_root", "proof", "type", "timestamp"):
        try:
            I.setattr(p1, n, b"x")
        except PyRaise:
            pass
        else:
            raise Failure("missing rejection", "%s of a proof can be replaced" % n)
    same(c, get(c, p1), f1, "the proof after refused assignments")


def stamped(c, ptype):
    """the time stamp is the time of making, the text form shows the fields"""
    f = fields(c.I, ptype, "pairs")
    seen = []
    for n in range(3):
        p = make(c, f)
        ts = c.must(c.attr(p, "timestamp"), "timestamp")
        c.true(kind_of(ts) == "bytes", "the time stamp is %s" % render(ts))
        now = {a for a in atoms_of(ts) if a.op == "sym"}
        c.true(bool(now), "the time stamp of a proof is %s and not the time when it was made" % render(ts))
        for other in seen:
            c.true(c.I.eq3(ts, other) is not True and not now & {a for a in atoms_of(other) if a.op == "sym"}, "proofs made at different times have the same time stamp")
        seen.append(ts)
        c.equal(c.must(c.attr(p, "timestamp"), "timestamp"), ts, "the time stamp when asked again")
        for name in ("__repr__",):
            t = c.must(c.m(p, name), name)
            c.true(kind_of(t) == "str", "%s of a proof is %s" % (name, render(t)))
            a = atoms_of(t)
            for k, v in list(f.items()) + [("timestamp", ts)]:
                if k == "proof":
                    v = v[0][1]
                for x in atoms_of(v):
                    if x.op == "sym":
                        c.true(x in a, "%s of a proof does not show its %s" % (name, k))


def codec(c, which, ptype, shape):
    f = fields(c.I, ptype, shape)
    p = make(c, f)
    before = get(c, p)
    r = c.m(p, "encode_" + which)
    same(c, get(c, p), before, "the proof after encode_" + which)
    if ptype != b"MT-POI" or which == "json" and shape in ("raw key", "any key", "odd key"):
        # may be refused, but not be wrong
        if not r.ok:
            return
    e = c.must(r, "encode_%s of a %s proof" % (which, ptype.decode()))
    cls = c.api(*P)
    q = c.must(c.call(c.I.getattr(cls, "decode_" + which), e), "decode_" + which)
    same(c, get(c, q), f, "the proof decoded from " + which)
    c.equal(c.must(c.attr(q, "timestamp"), "timestamp"), c.must(c.attr(p, "timestamp"), "timestamp"), "timestamp of the decoded proof")
    c.boolean(c.eq(p, q), True, "equality with the proof decoded from " + which)
    c.equal(c.must(c.hash(p), "hash"), c.must(c.hash(q), "hash"), "hash of the proof decoded from " + which)


def codec_bad(c, which):
    cls = c.api(*P)
    dec = c.I.getattr(cls, "decode_" + which)
    if which == "json":
        for x in (b"{}", None, 5, Dict()):
            c.raises(c.call(dec, x), "decode_json of %s" % c.I.type_name(x), "TypeError")
        good = dict(proof_type="MT-POI", timestamp="now", target_key="k", root_hash="r", proof=List())
        for k in good:
            d = Dict([(a, b) for a, b in good.items() if a != k])
            import models

            c.raises(c.call(dec, models.json_dumps(c.I, d)), "decode_json without " + k)
        d = Dict([(a, "XX" if a == "proof_type" else b) for a, b in good.items()])
        c.raises(c.call(dec, models.json_dumps(c.I, d)), "decode_json of an unknown type")
        d = Dict([(a, "MT-POX" if a == "proof_type" else b) for a, b in good.items()])
        c.raises(c.call(dec, models.json_dumps(c.I, d)), "decode_json of an unknown type")
        c.raises(c.call(dec, "not json"), "decode_json of something that is not JSON")
    else:
        for x in ("text", None, 5, BArr(b"x")):
            c.raises(c.call(dec, x), "decode_rlp of %s" % c.I.type_name(x), "TypeError")
        V = sym("V", lo=1, generic=True)
        for w, x in (
            ("junk", sym("junk", junk=True, lo=1, generic=True)), ("a string", mk("rlp", V)), ("four fields", mk("rlp", (b"MT-POI", V, V, V))),
            ("six fields", mk("rlp", (b"MT-POI", V, V, V, (), V))), ("an unknown type", mk("rlp", (b"XX", V, V, V, ()))), ("no list of steps", mk("rlp", (b"MT-POI", V, V, V, V))),
            ("a nested key", mk("rlp", (b"MT-POI", V, (V,), V, ()))),
            ("a proof and another byte", mk("cat", (mk("rlp", (b"MT-POI", V, V, V, ())), b"\x00"))), ("two proofs", mk("cat", (mk("rlp", (b"MT-POI", V, V, V, ())),) * 2)),
        ):
            c.raises(c.call(dec, x), "decode_rlp of " + w)


def equality(c, field):
    I = c.I
    f = fields(I, b"MT-POI", "pairs")
    p = make(c, f)
    c.boolean(c.eq(p, p), True, "equality with itself")
    g = dict(f)
    if field == "target_key":
        g[field] = text("K2")
    elif field == "root_hash":
        g[field] = mk("utf8", mk("hex", sym("h9", lo=32, hi=32, generic=True, group="h"), kind="str"))
    elif field == "proof_type":
        g[field] = b"MPT-POI"
    elif field == "proof":
        g[field] = f["proof"][:1]
    elif field == "proof order":
        g["proof"] = (f["proof"][1], f["proof"][0])
    elif field == "proof side":
        g["proof"] = ((b"right", f["proof"][0][1]), f["proof"][1])
    if field == "other":
        for o in (None, "text", b"x", 5, f["proof"], List([]), List([b"x"])):
            r = c.must(c.eq(p, o), "== of a proof and something else")
            c.true(c.decided_truth(r, "==") is False, "a proof equals %s" % render(o))
        return
    q = make(c, g)
    # with one timestamp, so only the field differs
    enc = c.must(c.m(q, "encode_rlp"), "encode_rlp") if g["proof_type"] == b"MT-POI" else None
    if enc is not None and isinstance(enc, Term) and enc.op == "rlp":
        import models

        ts = c.must(c.attr(p, "timestamp"), "timestamp")
        own = c.must(c.attr(q, "timestamp"), "timestamp")
        items = tuple(ts if x is own else x for x in enc.args[0])
        q = c.must(c.call(I.getattr(c.api(*P), "decode_rlp"), mk("rlp", items)), "decode_rlp")
    c.boolean(c.eq(p, q), False, "equality with a proof with another " + field)
    c.boolean(c.eq(q, p), False, "equality with a proof with another " + field)


def gen(tier, seed):
    out = []
    for t in (b"MT-POI", b"MPT-POI", b"MPT-POE"):
        for s in ("empty", "pairs", "pair", "flat", "nodes", "long", "equal", "nested empty", "raw key", "any key", "empty key", "odd key"):
            out.append(("fields of a %s proof, %s" % (t.decode(), s), accessors, (t, s)))
            for w in ("json", "rlp"):
                if w == "json" and s == "nodes":
                    continue
                out.append(("%s codec of a %s proof, %s" % (w, t.decode(), s), codec, (w, t, s)))
    for fld, bads in (("target_key", ("str", "None", "int", "bytearray", "list")), ("root_hash", ("str", "None", "int", "bytearray", "list")), ("proof", ("str", "None", "int", "list", "bytes")), ("proof_type", ("str", "None", "int", "bytearray", "tuple", "other type", "prefix", "lower", "empty", "bytearray of a type"))):
        for b in bads:
            out.append(("%s given as %s" % (fld, b), reject, (fld, b)))
    for t in (b"MT-POI", b"MPT-POI", b"MPT-POE"):
        out.append(("time stamp and text form, " + t.decode(), stamped, (t,)))
    for w in ("json", "rlp"):
        out.append(("malformed %s" % w, codec_bad, (w,)))
    for h in ("constructor", "json", "rlp"):
        out.append(("unknown types: " + h, unknown_types, (h,)))
    for w in ("json", "rlp"):
        out.append(("several proofs, " + w, several, (w,)))
    for fl in ("target_key", "root_hash", "proof_type", "proof", "proof order", "proof side", "other"):
        out.append(("equality: other " + fl, equality, (fl,)))
    return out
