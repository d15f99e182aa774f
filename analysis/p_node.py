"""C05 node encoding and the reference rule, C06 the algebra of nibble paths."""
from core import *
import tries
from tries import hp, keccak, value
import models

NP = ("pymt.utils.nibble_path", "NibblePath")
ND = "pymt.utils.node"


def atoms(prefix, n):
    return [mk("sym", "%s%d" % (prefix, i), (("hi", 15), ("lo", 0)), kind="int", lo=0, hi=15) for i in range(n)]


def pack(nibs):
    """nibbles (atoms or ints), even count, to abstract bytes"""
    import models

    return models.mkbseq([ladd(lscale(nibs[i], 16), nibs[i + 1]) for i in range(0, len(nibs), 2)])


def nibs_of(prefix, n):
    """n unknown nibbles; of a long path those at the ends and at every 16th place, the others fixed"""
    if n <= 12:
        return atoms(prefix, n)
    xs = atoms(prefix, n)
    return [x if i in (0, n - 1, n - 2) or i % 16 == 15 else (7 * i + i // 3) % 16 for i, x in enumerate(xs)]


def mkpath(c, nibs, lead):
    """a path over the given nibbles with `lead` nibbles in front of it that are skipped"""
    a = atoms("skip%d_" % len(nibs), lead)
    full = list(a) + list(nibs)
    assert len(full) % 2 == 0
    return c.must(c.call(c.api(*NP), pack(full), lead), "NibblePath")


def hp_spec(nibs, leaf):
    f = 2 if leaf else 0
    x = [f + 1] + list(nibs) if len(nibs) % 2 else [f, 0] + list(nibs)
    return pack(x)


def same_path(c, p, nibs, what):
    n = c.must(c.call(c.I.getattr(p, "__len__")), "len")
    c.equal(n, len(nibs), "length of " + what)
    for i, x in enumerate(nibs):
        c.equal(c.must(c.m(p, "at", i), "at(%d) of %s" % (i, what)), x if isinstance(x, int) else lin(x), "nibble %d of %s" % (i, what))


def lead_for(n, j=0):
    return n % 2 + 2 * j


def codec(c, n, j, leaf):
    """encode is the hex-prefix encoding and decode inverts it"""
    N = nibs_of("n", n)
    p = mkpath(c, N, lead_for(n, j))
    e = c.must(c.m(p, "encode", leaf), "encode")
    c.equal(e, hp_spec(N, leaf), "hex-prefix encoding of %d nibbles" % n)
    same_path(c, p, N, "the path after it was encoded")
    cls = c.api(*NP)
    r = c.must(c.call(c.I.getattr(cls, "decode_with_type"), e), "decode_with_type")
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Failure("wrong result", "decode_with_type returned %s" % render(r))
    q, l = r
    c.true(c.decided_truth(l, "leaf flag") == leaf, "leaf flag of a decoded path is %s" % render(l))
    same_path(c, q, N, "the decoded path")
    c.boolean(c.eq(p, q), True, "equality with the decoded path")
    d = c.must(c.call(c.I.getattr(cls, "decode"), e), "decode")
    same_path(c, d, N, "the decoded path (without type)")


def consume(c, n, j, k):
    N = nibs_of("n", n)
    p = mkpath(c, N, lead_for(n, j))
    q = c.must(c.m(p, "consume", k), "consume")
    same_path(c, q, N[k:], "a path after consuming %d nibbles" % k)
    e = c.must(c.m(q, "encode", True), "encode")
    c.equal(e, hp_spec(N[k:], True), "encoding after consuming %d nibbles" % k)
    # asked, consumed and asked again
    p = mkpath(c, N, lead_for(n, j))
    same_path(c, p, N, "a path")
    c.equal(c.must(c.m(p, "encode", False), "encode"), hp_spec(N, False), "encoding of a path")
    c.equal(c.must(c.m(p, "encode", True), "encode"), hp_spec(N, True), "encoding of a path as a leaf's")
    q = c.must(c.m(p, "consume", k), "consume")
    same_path(c, q, N[k:], "a path after asking and consuming %d nibbles" % k)
    for leaf in (True, False):
        c.equal(c.must(c.m(q, "encode", leaf), "encode"), hp_spec(N[k:], leaf), "encoding after asking and consuming %d nibbles" % k)


def common(c, na, nb, j):
    A, B = nibs_of("a", na), nibs_of("b", nb)
    p, q = mkpath(c, A, lead_for(na, j)), mkpath(c, B, lead_for(nb))
    r = c.must(c.m(p, "common_prefix", q), "common_prefix")
    n = c.must(c.call(c.I.getattr(r, "__len__")), "len")
    if not isinstance(n, int):
        raise Unsupported("length of the common prefix")
    c.true(n <= min(na, nb), "common prefix has %d nibbles" % n)
    for i in range(n):
        c.true(c.I.eq3(lin(A[i]), lin(B[i])) is True, "common prefix of length %d although nibble %d may differ" % (n, i))
    if n < min(na, nb):
        c.true(c.I.eq3(lin(A[n]), lin(B[n])) is False, "common prefix of length %d although nibble %d may agree" % (n, n))
    same_path(c, r, A[:n], "the common prefix")
    same_path(c, p, A, "the first path after common_prefix")
    same_path(c, q, B, "the second path after common_prefix")
    # encodable
    c.equal(c.must(c.m(r, "encode", False), "encode"), hp_spec(A[:n], False), "encoding of the common prefix")


def prefix(c, na, nb, j):
    A, B = nibs_of("a", na), nibs_of("b", nb)
    p, q = mkpath(c, A, lead_for(na, j)), mkpath(c, B, lead_for(nb))
    r = c.decided_truth(c.must(c.m(p, "starts_with", q), "starts_with"), "starts_with")
    if nb > na:
        c.true(r is False, "a path starts with a longer one")
        return
    e = [c.I.eq3(lin(A[i]), lin(B[i])) for i in range(nb)]
    if r:
        c.true(all(x is True for x in e), "starts_with is True although a nibble may differ")
    else:
        c.true(any(x is False for x in e), "starts_with is False although all nibbles may agree")


def equality(c, na, nb, j):
    A, B = nibs_of("a", na), nibs_of("b", nb)
    p, q = mkpath(c, A, lead_for(na, j)), mkpath(c, B, lead_for(nb))
    r = c.decided_truth(c.must(c.eq(p, q), "=="), "==")
    if nb != na:
        c.true(r is False, "paths of different length are equal")
        return
    e = [c.I.eq3(lin(A[i]), lin(B[i])) for i in range(nb)]
    if r:
        c.true(all(x is True for x in e), "== is True although a nibble may differ")
    else:
        c.true(any(x is False for x in e), "== is False although all nibbles may agree")


def combine(c, na, nb, j):
    A, B = nibs_of("a", na), nibs_of("b", nb)
    p, q = mkpath(c, A, lead_for(na, j)), mkpath(c, B, lead_for(nb))
    r = c.must(c.m(p, "combine", q), "combine")
    same_path(c, r, A + B, "the combined path")
    c.equal(c.must(c.m(r, "encode", True), "encode"), hp_spec(A + B, True), "encoding of the combined path")
    same_path(c, p, A, "the first path after combine")
    same_path(c, q, B, "the second path after combine")
    # the result does not share state with its parts
    if na + nb:
        c.must(c.m(r, "consume", 1), "consume")
        same_path(c, p, A, "the first path after consuming from the combination")
        same_path(c, q, B, "the second path after consuming from the combination")


def prefixes(c, first):
    """hex prefixes: exactly the 34 first bytes of encodings are accepted"""
    cls = c.api(*NP)
    A = atoms("a", 4)
    for rest in ((), A[:2], A):
        data = models.cat(c.I, [bytes([first]), pack(rest)]) if rest else bytes([first])
        good = first < 0x40 and (first & 0x10 or not first & 0x0F)
        for f in ("decode_with_type", "decode"):
            r = c.call(c.I.getattr(cls, f), data)
            if not good:
                c.raises(r, "%s of a path that starts with 0x%02x" % (f, first))
                continue
            q = c.must(r, f)
            if f == "decode_with_type":
                q, leaf = q
                c.true(c.decided_truth(leaf, "leaf flag") == bool(first & 0x20), "leaf flag of a path that starts with 0x%02x is %s" % (first, render(leaf)))
            want = ([first & 15] if first & 0x10 else []) + list(rest)
            same_path(c, q, want, "the path decoded after 0x%02x" % first)


def texts(c, na, nb, j):
    """paths have text forms, which show their nibbles in hexadecimal"""
    digits = "3a07f91c5e24bd68"
    A, B = [int(x, 16) for x in digits[:na]], [int(x, 16) for x in digits[1:nb + 1]]
    p, q = mkconst(c, A, lead_for(na, j)), mkconst(c, B, lead_for(nb))

    def shows(r, nibs, what):
        for f in ("str", "repr"):
            v = c.must(c.call(c.I.builtins[f], r), "%s of %s" % (f, what))
            if not isinstance(v, str):
                raise Unsupported("text of a path")
            c.true("".join("%x" % x for x in nibs) in v.lower(), "%s of %s is %s and does not show its nibbles" % (f, what, v))

    shows(p, A, "a path")
    shows(c.must(c.m(p, "combine", q), "combine"), A + B, "a combined path")
    n = 0
    while n < min(na, nb) and A[n] == B[n]:
        n += 1
    shows(c.must(c.m(p, "common_prefix", q), "common_prefix"), A[:n], "a common prefix")
    k = min(na, 2)
    pre = mkconst(c, A[:k] + B, lead_for(k + nb))
    m = 0
    while m < min(na, k + nb) and A[m] == (A[:k] + B)[m]:
        m += 1
    r = c.must(c.m(p, "common_prefix", pre), "common_prefix")
    same_path(c, r, A[:m], "the common prefix")
    shows(r, A[:m], "a common prefix")
    for leaf in (True, False):
        shows(c.must(c.call(c.I.getattr(c.api(*NP), "decode"), c.must(c.m(p, "encode", leaf), "encode")), "decode"), A, "a decoded path")
    same_path(c, p, A, "a path after it was shown")
    same_path(c, q, B, "a path after it was shown")
    for i in range(na + 1):
        x = mkconst(c, A, lead_for(na, j))
        shows(c.must(c.m(x, "consume", i), "consume"), A[i:], "a path after consuming %d nibbles" % i)
        same_path(c, x, A[i:], "a path after it was shown")


def apart(c, A, B):
    """a path that an operation gives is independent of the operands, whatever they are"""
    cls = c.api(*NP)
    for same in (False, True):
        for op in ("common_prefix", "combine"):
            for who in ("result", "first", "second"):
                p = mkconst(c, A, len(A) % 2 + 2 * len(op) % 4)
                q = p if same else mkconst(c, B, len(B) % 2)
                X, Y = list(A), list(A if same else B)
                r = c.must(c.m(p, op, q), op)
                if op == "combine":
                    R = X + Y
                else:
                    n = 0
                    while n < min(len(X), len(Y)) and X[n] == Y[n]:
                        n += 1
                    R = X[:n]
                what = "%s of %s and %s" % (op, "".join("%x" % x for x in X), "itself" if same else "".join("%x" % x for x in Y))
                for step in range(3):
                    same_path(c, r, R, "%s after consuming from the %s" % (what, who))
                    same_path(c, p, X, "the first operand of %s after consuming from the %s" % (what, who))
                    same_path(c, q, Y, "the second operand of %s after consuming from the %s" % (what, who))
                    o, nibs = {"result": (r, R), "first": (p, X), "second": (q, Y)}[who]
                    if not nibs:
                        break
                    c.must(c.m(o, "consume", 1), "consume")
                    if same and who != "result":
                        X, Y = X[1:], X[1:]
                    elif who == "result":
                        R = R[1:]
                    elif who == "first":
                        X = X[1:]
                    else:
                        Y = Y[1:]
    # encodings and their decodings are independent as well
    p = mkconst(c, A, len(A) % 2)
    e = c.must(c.m(p, "encode", True), "encode")
    d1, d2 = (c.must(c.call(c.I.getattr(cls, "decode"), e), "decode") for _ in (0, 1))
    if A:
        c.must(c.m(d1, "consume", 1), "consume")
        same_path(c, d1, A[1:], "a decoded path after consuming")
    same_path(c, d2, A, "a path decoded from the same encoding")
    same_path(c, p, A, "the encoded path")


def walk(c, seed):
    """operations one after another on a few paths, against plain sequences"""
    import random

    rnd = random.Random(seed)
    cls = c.api(*NP)
    pool = []
    for n in (0, 1, 2, 3, 5, 4):
        A = [rnd.randrange(2) * 3 + 1 for _ in range(n)]
        pool.append([mkconst(c, A, n % 2 + 2 * rnd.randrange(2)), A])
    for step in range(40):
        i, j = rnd.randrange(len(pool)), rnd.randrange(len(pool))
        (p, A), (q, B) = pool[i], pool[j]
        op = rnd.choice(("consume", "common_prefix", "combine", "starts_with", "==", "codec"))
        new = None
        if op == "consume":
            k = rnd.randrange(min(len(A), 2) + 1)
            c.must(c.m(p, "consume", k), "consume")
            for x in pool:
                if x[0] is p:
                    x[1] = A[k:]
        elif op == "common_prefix":
            n = 0
            while n < min(len(A), len(B)) and A[n] == B[n]:
                n += 1
            new = [c.must(c.m(p, op, q), op), A[:n]]
        elif op == "combine" and len(A) + len(B) < 14:
            new = [c.must(c.m(p, op, q), op), A + B]
        elif op == "starts_with":
            c.boolean(c.m(p, op, q), A[:len(B)] == B, "starts_with in step %d" % step)
        elif op == "==":
            c.boolean(c.eq(p, q), A == B, "== in step %d" % step)
        elif op == "codec":
            new = [c.must(c.call(c.I.getattr(cls, "decode"), c.must(c.m(p, "encode", bool(step % 2)), "encode")), "decode"), list(A)]
        if new is not None:
            pool[rnd.randrange(len(pool))] = new
        for p, A in pool:
            same_path(c, p, A, "a path after step %d (%s)" % (step, op))


def mkconst(c, nibs, lead):
    full = [0] * lead + list(nibs)
    return c.must(c.call(c.api(*NP), bytes(full[i] * 16 + full[i + 1] for i in range(0, len(full), 2)), lead), "NibblePath")


# ------------------------------------------------------------------ nodes
def refkinds(c):
    h = sym("h0", lo=32, hi=32, generic=True, group="ref")
    leaf = (hp((4, 5), True), value("IV", "short"))
    return {"hash": (h, h), "inline": (leaf, None), "empty": (b"", b"")}


def usage(I, content):
    """the in-memory form of a reference: bytes"""
    return mk("rlp", content) if isinstance(content, tuple) else content


def small(I, content):
    """the content of an embedded node is shorter than 32 bytes"""
    t = mk("rlp", content)
    if not I.lt0(ladd(I.blen(t), -32), "embedded node shorter than 32 bytes"):
        raise Infeasible()


def node_roundtrip(c, kind, n, variant, size):
    I = c.I
    m = c.api(ND, "Node")
    v = value("V", size)
    N = atoms("n", n)
    R = refkinds(c)
    small(I, R["inline"][0])
    if kind == "leaf":
        content = (hp_spec(N, True), v)
        o = c.must(c.call(c.api(ND, "Leaf"), mkpath(c, N, lead_for(n)), v), "Leaf")
    elif kind == "extension":
        ref = R[variant][0]
        content = (hp_spec(N, False), ref)
        o = c.must(c.call(c.api(ND, "Extension"), mkpath(c, N, lead_for(n)), usage(I, ref)), "Extension")
    else:
        order = ["hash", "inline", "empty"]
        kinds = [order[(i * (1 + n) + n) % 3] if variant == "mixed" else variant for i in range(16)]
        refs = []
        for i, k in enumerate(kinds):
            if k == "hash":
                refs.append(sym("h%d" % i, lo=32, hi=32, generic=True, group="ref"))
            elif k == "inline":
                refs.append((hp((i, 5), True), value("IV", "short")))
                small(I, refs[-1])
            else:
                refs.append(b"")
        dat = {"none": b"", "value": v}[size if size == "none" else "value"]
        content = tuple(refs) + (dat,)
        o = c.must(c.call(c.api(ND, "Branch"), List([usage(I, r) for r in refs]), None if size == "none" else dat), "Branch")
    e = c.must(c.m(o, "encode"), "encode of a " + kind)
    t = mk("rlp", content)
    c.equal(e, t, "RLP of a " + kind)
    ref = c.must(c.call(I.getattr(m, "into_reference"), o), "into_reference")
    want = t if I.lt0(ladd(I.blen(t), -32), "node shorter than 32 bytes") else keccak(t)
    c.equal(ref, want, "reference to a " + kind)
    for data in (e, BArr(e)):
        d = c.must(c.call(I.getattr(m, "decode"), data), "decode of an encoded " + kind)
        c.equal(c.must(c.m(d, "encode"), "encode"), t, "encoding of the decoded " + kind)
        cls = c.api(ND, {"leaf": "Leaf", "extension": "Extension", "branch": "Branch"}[kind])
        c.true(isinstance(d, Instance) and I.isinstance_(d, cls), "a %s decodes to a %s" % (kind, I.type_name(d)))
        if kind != "branch":
            same_path(c, c.must(c.attr(d, "path"), "path"), N, "the path of the decoded " + kind)
        if kind == "leaf":
            c.equal(c.must(c.attr(d, "data"), "data"), v, "the value of the decoded leaf")
        elif kind == "extension":
            c.equal(c.must(c.attr(d, "next_ref"), "next_ref"), usage(I, content[1]), "the reference of the decoded extension")
        else:
            br = c.must(c.attr(d, "branches"), "branches")
            br = list(I.iterate(br))
            c.true(len(br) == 16, "a decoded branch has %d children" % len(br))
            for i, (x, y) in enumerate(zip(br, content)):
                c.equal(x, usage(I, y), "child %d of the decoded branch" % i)
            c.equal(c.must(c.attr(d, "data"), "data"), content[16], "the value of the decoded branch")
    # a reference is the one of what the node holds now
    v2 = sym("V2", lo=1, generic=True, group="value")
    h2 = sym("h2", lo=32, hi=32, generic=True, group="ref")
    if kind == "branch":
        changes = [("data", v2, content[:16] + (v2,)), ("data", b"", content[:16] + (b"",)), ("branches", List([h2] * 2 + [b""] * 14), (h2,) * 2 + (b"",) * 14 + (b"",))]
    elif kind == "leaf":
        changes = [("data", v2, (content[0], v2)), ("path", mkpath(c, (1, 2, 3), 1), (hp_spec((1, 2, 3), True), v2)), ("data", v, (hp_spec((1, 2, 3), True), v))]
    else:
        changes = [("next_ref", h2, (content[0], h2)), ("path", mkpath(c, (1, 2, 3), 1), (hp_spec((1, 2, 3), False), h2))]
    for field, x, want2 in changes:
        if field == "branches":
            # in place, as a trie does
            br = c.must(c.attr(o, "branches"), "branches")
            for i, y in enumerate(x.items):
                I.setitem(br, i, y)
        else:
            I.setattr(o, field, x)
        t2 = mk("rlp", want2)
        c.equal(c.must(c.m(o, "encode"), "encode"), t2, "RLP of the changed " + kind)
        ref2 = c.must(c.call(I.getattr(m, "into_reference"), o), "into_reference")
        c.equal(ref2, t2 if I.lt0(ladd(I.blen(t2), -32), "changed node shorter than 32 bytes") else keccak(t2), "reference to the changed " + kind)
    o = d = c.must(c.call(I.getattr(m, "decode"), e), "decode")
    # without the data: the structure alone
    for flag in (None, 0, "no", 1):
        c.raises(c.call(I.getattr(m, "decode"), e, flag), "decoding a node with the flag %r" % (flag,))
        c.raises(c.m(o, "encode", flag), "encoding a node with the flag %r" % (flag,))
    bare = content[:-1] if kind == "branch" else (content[0],)
    c.equal(c.must(c.m(o, "encode", False), "encode without data"), mk("rlp", bare), "RLP of a %s without its %s" % (kind, "reference" if kind == "extension" else "value"))
    c.equal(c.must(c.m(o, "encode", True), "encode with data"), t, "RLP of a " + kind)
    d = c.must(c.call(I.getattr(m, "decode"), e, False), "decode without data")
    c.true(isinstance(d, Instance) and I.isinstance_(d, cls), "a %s decodes without data to a %s" % (kind, I.type_name(d)))
    if kind != "branch":
        same_path(c, c.must(c.attr(d, "path"), "path"), N, "the path of the %s decoded without data" % kind)
    if kind == "extension":
        c.equal(c.must(c.attr(d, "next_ref"), "next_ref"), usage(I, content[1]), "the reference of the extension decoded without data")
    elif kind == "leaf" or size != "none":
        c.equal(c.must(c.attr(d, "data"), "data"), b"1", "the marker in place of the value of the decoded " + kind)
    if kind == "branch":
        br = list(I.iterate(c.must(c.attr(d, "branches"), "branches")))
        c.true(len(br) == 16, "a branch decoded without data has %d children" % len(br))
        for i, (x, y) in enumerate(zip(br, content)):
            c.equal(x, usage(I, y), "child %d of the branch decoded without data" % i)


def malformed(c, what):
    V = value("V", "any")
    m = c.api(ND, "Node")
    dec = c.I.getattr(m, "decode")
    P = hp((1, 2), True)
    bad = {
        "junk": sym("junk", junk=True, lo=1, generic=True),
        "a leaf and another byte": mk("cat", (mk("rlp", (P, V)), b"\x00")),
        "a branch and another byte": mk("cat", (mk("rlp", (b"",) * 16 + (V,)), b"\x80")),
        "two leaves": mk("cat", (mk("rlp", (P, V)), mk("rlp", (P, V)))),
        "an empty list": mk("rlp", ()),
        "one item": mk("rlp", (P,)),
        "three items": mk("rlp", (P, V, V)),
        "16 items": mk("rlp", (b"",) * 16),
        "18 items": mk("rlp", (b"",) * 18),
        "an empty path": mk("rlp", (b"", V)),
        "a path with padding 5": mk("rlp", (b"\x25\x12", V)),
        "an extension path with padding 5": mk("rlp", (b"\x05\x12", sym("h0", lo=32, hi=32, generic=True, group="ref"))),
        "a path with flag 0x40": mk("rlp", (b"\x60\x12", V)),
        "a path with flag 0x80": mk("rlp", (b"\x91\x12", V)),
        "a path with all flags": mk("rlp", (b"\xff", V)),
        "text": "text",
        "None": None,
        "a number": 7,
    }
    if what in bad:
        c.raises(c.call(dec, bad[what]), "decoding a node from " + what)
    elif what == "constructors":
        p = mkpath(c, atoms("n", 2), 0)
        for name, args in (
            ("Leaf", (b"x", b"v")), ("Leaf", (p, "v")), ("Leaf", (p, None)), ("Leaf", (None, b"v")), ("Extension", (b"x", b"r" * 32)),
            ("Extension", (p, "r")), ("Extension", (p, None)), ("Branch", ((b"",) * 16, b"")), ("Branch", (List(["x"] * 16), b"")), ("Branch", (List([b""] * 16), "v")),
        ):
            c.raises(c.call(c.api(ND, name), *args), "%s of %s" % (name, ", ".join(c.I.type_name(a) for a in args)))


def stored(c, keys, sizes):
    """what the trie stores: every stored node is canonical, under its hash, and nothing short is stored"""
    from p_trie import MPT, Watch, upd
    from tries import Canon

    st = Dict(name="trie storage")
    t = c.must(c.call(c.api(*MPT), st), "creating a trie")
    st.observer = Watch(c)
    cur = {}
    for i, k in enumerate(keys):
        v = value("V%d" % i, sizes[i])
        c.must(upd(c, t, k, v), "update")
        cur[k] = v
    st.observer = None
    w = Canon(c.I, cur)
    have = {k: v for k, v in st.pairs()}
    for h, n in w.nodes.items():
        e = c.I.dict_find(st, h)
        c.obligations += 1
        if e is None:
            raise Failure("node encoding", "the node %s is not stored under its hash" % render(n)[:300])
        c.equal(e[1], n, "stored node")
    c.equal(c.must(c.m(t, "root"), "root()"), w.root, "the root reference")


def gen_node(tier, seed):
    out = []
    top = 5 if tier == "quick" else 12
    for n in range(top + 1):
        for size in ("short", "long", "any"):
            out.append(("leaf with %d path nibbles, value %s" % (n, size), node_roundtrip, ("leaf", n, None, size)))
        for v in ("hash", "inline"):
            out.append(("extension with %d path nibbles, %s child" % (n, v), node_roundtrip, ("extension", n, v, "short")))
    for n in range(3 if tier == "quick" else 8):
        for size in ("none", "short", "long", "any"):
            out.append(("branch with mixed children (%d), value %s" % (n, size), node_roundtrip, ("branch", n, "mixed", size)))
    for v in ("hash", "inline", "empty"):
        for size in ("none", "short", "long", "any"):
            out.append(("branch with %s children, value %s" % (v, size), node_roundtrip, ("branch", 0, v, size)))
    for w in ("junk", "a leaf and another byte", "a branch and another byte", "two leaves", "an empty list", "one item", "three items", "16 items", "18 items", "an empty path", "a path with padding 5", "an extension path with padding 5", "a path with flag 0x40", "a path with flag 0x80", "a path with all flags", "text", "None", "a number", "constructors"):
        out.append(("malformed node: " + w, malformed, (w,)))
    from p_trie import reps, size_variants, describe

    for i, (ks, k) in enumerate(reps(tier, seed)):
        if i % (4 if tier == "quick" else 2) == 0 and len(ks) > 0:
            for s in size_variants(i, len(ks), tier):
                out.append(("stored nodes: " + describe(ks, k, s), stored, (ks, tuple(s))))
    return out


def gen_path(tier, seed):
    out = []
    top = 6 if tier == "quick" else 11
    for n in range(top + 1):
        for j in (0, 1):
            for leaf in (True, False):
                out.append(("hex-prefix codec of %d nibbles, %d skipped" % (n, lead_for(n, j)), codec, (n, j, leaf)))
            for k in range(n + 1):
                out.append(("consume %d of %d nibbles" % (k, n), consume, (n, j, k)))
    for b in range(256):
        out.append(("hex prefix 0x%02x" % b, prefixes, (b,)))
    consts = [(), (1,), (1, 2), (1, 3), (2,), (1, 2, 3), (1, 2, 3, 4), (1, 2, 4, 3), (15, 0, 15, 0, 1)]
    out += [("independence: %s and %s" % (a, b), apart, (a, b)) for a in consts for b in consts]
    out += [("operations one after another %d" % i, walk, (i,)) for i in range(30 if tier == "quick" else 300)]
    # long paths: around the lengths of hashed keys and beyond
    long = (16, 31, 32, 33, 63, 64, 65, 66, 67, 80) + (() if tier == "quick" else (127, 128, 129, 160, 255, 256, 257))
    for n in long:
        for j in (0, 1):
            for leaf in (True, False):
                out.append(("hex-prefix codec of %d nibbles, %d skipped" % (n, lead_for(n, j)), codec, (n, j, leaf)))
            for k in (1, 2, n // 2, n - 1, n):
                out.append(("consume %d of %d nibbles" % (k, n), consume, (n, j, k)))
            for b in (n, n - 1, n + 1, 1, n // 2):
                for nm, f in (("common prefix", common), ("starts with", prefix), ("equality", equality), ("combine", combine)):
                    out.append(("%s of paths of %d and %d nibbles, %d skipped" % (nm, n, b, lead_for(n, j)), f, (n, b, j)))
    t2 = 4 if tier == "quick" else 6
    for a in range(t2 + 1):
        for b in range(t2 + 1):
            for j in (0, 1):
                for nm, f in (("text forms", texts), ("common prefix", common), ("starts with", prefix), ("equality", equality), ("combine", combine)):
                    out.append(("%s of paths of %d and %d nibbles" % (nm, a, b), f, (a, b, j)))
    return out
