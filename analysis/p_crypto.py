"""C25-C33: key pairs, envelopes, password encryption, hash helpers."""
from core import *
import models

KP = "pymt.keypairs"
UT = ("pymt.utils.utils", "Utils")
ENC = ("RsaKeyPair", "RsaEncKeyPair")
SIGN = ("RsaKeyPair", "RsaAuthKeyPair")
ALL = ("RsaKeyPair", "RsaAuthKeyPair", "RsaEncKeyPair")
FIELDS = ("enc_session_key", "nonce", "tag", "ciphertext", "signature")


def pair(c, cname, nick=None):
    return c.must(c.call(c.api(KP, cname), nick) if nick is not None else c.call(c.api(KP, cname)), cname)


def pub(c, k):
    return c.must(c.attr(k, "public_key"), "public_key")


def plain(name="D", **k):
    k.setdefault("lo", 0)
    return sym(name, generic=True, group="plain", **k)


def visible(t, out=None, seen=None):
    """what somebody who sees t but holds no key can read off it"""
    out = set() if out is None else out
    if isinstance(t, Term):
        if t in out:
            return out
        out.add(t)
        if t.op == "ct":
            visible(t.args[1], out)
        elif t.op in ("H", "sig", "oaep", "tag", "sym", "intof"):
            pass
        elif t.op == "pem_priv":
            if not isinstance(t.args[1], Term):
                out.add(("private key", t.args[0]))
        else:
            for a in t.args:
                visible(a, out)
    elif isinstance(t, tuple):
        for a in t:
            visible(a, out)
    elif isinstance(t, Lin):
        for x, _ in t.co:
            visible(x, out)
    elif isinstance(t, (List, Dict, BArr)):
        visible(models._fz(None, t), out)
    return out


def events(c, kind):
    return [e for e in c.I.events if e[0] == kind]


def envelope(c, A, B, d):
    return c.must(c.m(A, "encrypt", d, pub(c, B)), "encrypt")


def opened(c, env):
    d = models.json_loads(c.I, env)
    if not isinstance(d, Dict):
        raise Unsupported("envelope format")
    return d


def sealed(c, d):
    return models.encode(c.I, models.json_dumps(c.I, d))


# ------------------------------------------------------------------ C26
def roundtrip(c, ca, cb, data):
    I = c.I
    A, B = pair(c, ca), pair(c, cb)
    d = {"any": plain(), "empty": b"", "constant": b"hello", "zeros": b"\x00" * 40, "long": b"abc" * 700, "key": pub(c, A)}[data]
    e1 = envelope(c, A, B, d)
    c.true(kind_of(e1) == "bytes", "encrypt returned %s" % I.type_name(e1))
    got = c.must(c.m(B, "decrypt", e1, pub(c, A)), "decrypt of an honest message")
    c.equal(got, d, "the decrypted message")
    # a second message, interleaved
    d2 = plain("D2")
    e2 = envelope(c, A, B, d2)
    c.equal(c.must(c.m(B, "decrypt", e2, pub(c, A)), "decrypt of a second message"), d2, "the second message")
    c.equal(c.must(c.m(B, "decrypt", e1, pub(c, A)), "decrypt of the first message again"), d, "the first message again")
    # to oneself
    e3 = envelope(c, A, A, d)
    c.equal(c.must(c.m(A, "decrypt", e3, pub(c, A)), "decrypt of a message to oneself"), d, "the message to oneself")
    # keyword arguments
    e4 = c.must(c.m(A, "encrypt", data=d2, receiver_public_key=pub(c, B)), "encrypt with keyword arguments")
    c.equal(c.must(c.m(B, "decrypt", data=e4, sender_public_key=pub(c, A)), "decrypt with keyword arguments"), d2, "the message sent with keyword arguments")


def crowd(c, ca, cb, how):
    """several correspondents, messages in any order"""
    I = c.I
    if how == "many":
        P = [pair(c, ca), pair(c, cb), pair(c, ca), pair(c, cb)]
        sent = []
        for n, (i, j) in enumerate(((0, 1), (0, 2), (1, 0), (2, 1), (0, 1), (3, 1), (0, 3))):
            d = plain("D%d" % n)
            sent.append((i, j, d, envelope(c, P[i], P[j], d)))
        for i, j, d, e in sent[::-1] + sent:
            c.equal(c.must(c.m(P[j], "decrypt", e, pub(c, P[i])), "decrypt of message %s" % render(d)), d, "message %s" % render(d))
        for i, j, d, e in sent:
            for k in range(4):
                if k != j:
                    c.raises(c.m(P[k], "decrypt", e, pub(c, P[i])), "decrypt of message %s by somebody else" % render(d))
    elif how == "renewed":
        A, B = pair(c, ca), pair(c, cb)
        d, d2, d3 = plain(lo=1), plain("D2"), plain("D3")
        e = envelope(c, A, B, d)
        old = pub(c, A)
        c.must(c.m(A, "generate_keypair"), "generate_keypair")
        e2 = envelope(c, A, B, d2)
        c.equal(c.must(c.m(B, "decrypt", e2, pub(c, A)), "decrypt of a message sent with the new key"), d2, "the message sent with the new key")
        c.equal(c.must(c.m(B, "decrypt", e, old), "decrypt of a message sent with the old key"), d, "the message sent with the old key")
        c.raises(c.m(B, "decrypt", e, pub(c, A)), "decrypt of a message sent with the old key under the new one")
        c.must(c.m(B, "generate_keypair"), "generate_keypair")
        c.raises(c.m(B, "decrypt", e2, pub(c, A)), "decrypt with a new key of a message for the old one")
        e3 = envelope(c, A, B, d3)
        c.equal(c.must(c.m(B, "decrypt", e3, pub(c, A)), "decrypt with the new key"), d3, "the message for the new key")
        e4 = envelope(c, B, A, d2)
        c.equal(c.must(c.m(A, "decrypt", e4, pub(c, B)), "decrypt of an answer"), d2, "the answer")
    elif how == "loaded":
        A, B = pair(c, ca), pair(c, cb)
        pw = chars("passphrase")
        L = lambda k: c.must(c.call(I.getattr(k.cls, "from_key_string"), c.must(c.m(k, "to_key_string", pw), "to_key_string"), pw), "from_key_string")
        A2, B2 = L(A), L(B)
        d, d2 = plain(), plain("D2")
        e, e2 = envelope(c, A2, B, d), envelope(c, A, B2, d2)
        c.equal(c.must(c.m(B2, "decrypt", e, pub(c, A)), "decrypt with a loaded key pair"), d, "the message for a loaded key pair")
        c.equal(c.must(c.m(B, "decrypt", e2, pub(c, A2)), "decrypt of a message to a loaded key pair"), d2, "the message to a loaded key pair")
        c.equal(c.must(c.m(B2, "decrypt", e2, pub(c, A)), "decrypt with a loaded key pair"), d2, "the message to a loaded key pair")
    elif how == "refused":
        # a refused message leaves nothing behind
        A, B, M = pair(c, ca), pair(c, cb), pair(c, ca)
        d = plain(lo=1)
        e = envelope(c, A, B, d)
        for bad in (b"", b"{}", envelope(c, M, B, d), envelope(c, A, M, d)):
            c.raises(c.m(B, "decrypt", bad, pub(c, A)), "decrypt of something else")
            c.equal(c.must(c.m(B, "decrypt", e, pub(c, A)), "decrypt after a refused message"), d, "the message after a refused one")
        c.raises(c.m(A, "encrypt", d, b"no key"), "encrypt for something that is not a key")
        c.equal(c.must(c.m(B, "decrypt", envelope(c, A, B, d), pub(c, A)), "decrypt"), d, "the message after a refused one")


def secrecy(c, ca, cb, data="any"):
    I = c.I
    A, B = pair(c, ca), pair(c, cb)
    C = pair(c, cb)
    d = plain(lo=1)
    n0 = len(I.events)
    envs = [(envelope(c, A, B, d), B), (envelope(c, A, B, d), B), (envelope(c, A, C, d), C), (envelope(c, A, A, d), A), (envelope(c, B, A, d), A)]
    uses = [e for e in I.events[n0:] if e[0] == "enc"]
    c.true(len(uses) >= len(envs), "encrypt does not use the cipher")
    private_ops = [x for x in ("rsa_d", "rsa_p", "rsa_q", "rsa_u")]
    for e, _ in envs:
        v = visible(e)
        c.true(d not in v, "the plaintext can be read off the message", "plaintext exposed")
        for x in v:
            if isinstance(x, Term) and x.op == "H":
                c.true(d not in atoms_of(x) or any(is_random(y) and y not in v for y in atoms_of(x)), "the message contains a hash of the plaintext", "plaintext exposed")
        for u in uses:
            c.true(u[1] not in v, "the session key %s can be read off the message (cipher used at %s)" % (render(u[1]), u[-1]), "session key exposed")
        c.true(not any(isinstance(x, tuple) and x[0] == "private key" for x in v), "a private key can be read off the message", "private key exposed")
        c.true(not any(isinstance(x, Term) and x.op in private_ops for x in v), "a private exponent can be read off the message", "private key exposed")
    everything = set()
    for e, _ in envs:
        visible(e, everything)
    for u in uses:
        k = u[1]
        c.true(isinstance(k, Term), "the session key is the constant %s (at %s)" % (render(k), u[-1]), "session key not random")
        ent = 0
        for x in atoms_of(k):
            if is_random(x) and x not in everything:
                n = I.blen(x)
                ent += n if isinstance(n, int) else 0
        c.true(ent >= 16, "the session key %s holds %d random bytes that nobody else can see (at %s)" % (render(k), ent, u[-1]), "session key not random")
    for i, u in enumerate(uses):
        for w in uses[:i]:
            c.true(u[1] is not w[1], "two messages use the same session key", "session key reused")
    rec = {key_of(pub(c, k)): k for k in (A, B, C)}
    for e, to in envs:
        mineu = [u for u in uses if any(isinstance(x, Term) and x.op == "ct" and x.args[0] is u[1] for x in visible(e))]
        c.true(bool(mineu), "the message does not contain the ciphertext")
        for u in mineu:
            boxes = [x for x in I.events if x[0] == "oaep" and u[1] in atoms_of(x[2])]
            c.true(len(boxes) > 0, "the session key is not encrypted for the receiver")
            want = key_of(pub(c, to))
            for x in boxes:
                c.true(x[1] is want, "the session key is encrypted with the key %s (at %s)" % (render(x[1]), x[-1]), "session key for the wrong key")
            for v in visible(e):
                if isinstance(v, Term) and v.op == "oaep":
                    c.true(v.args[0] is want, "the message contains something encrypted for %s" % render(v.args[0]), "session key for the wrong key")


def is_random(x):
    return isinstance(x, Term) and x.op == "sym" and x.meta.get("group") == "rand"


def atoms_of(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            out.add(x)
            todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, Lin):
            todo.extend(t for t, _ in x.co)
    return out


def key_of(p):
    if isinstance(p, Term) and p.op == "pem_pub":
        return p.args[0]
    raise Unsupported("public key format")


def enc_args(c, cname, op):
    A = pair(c, cname)
    d, p = plain(), pub(c, A)
    for x in ("text", None, 5, BArr(b"x"), List([b"x"])):
        c.raises(c.m(A, op, x, p), "%s of %s" % (op, c.I.type_name(x)), "ValueError", "TypeError")
        c.raises(c.m(A, op, d, x), "%s with a key of type %s" % (op, c.I.type_name(x)), "ValueError", "TypeError")


# ------------------------------------------------------------------ C25
def aes(c, k, n):
    return models.new_aes(c.I, [k, Ext("Crypto.Cipher.AES.MODE_EAX")], {"nonce": n})


def use(c, o, name, *a):
    return c.I.call(models.opaque_attr(c.I, o, name), list(a))


def tampered(c, ca, cb, what):
    I = c.I
    A, B, M = pair(c, ca), pair(c, cb), pair(c, ca)
    d = plain(lo=1)
    env = opened(c, envelope(c, A, B, d))
    mine = opened(c, envelope(c, M, B, plain("M", lo=1)))
    other = opened(c, envelope(c, A, B, plain("O", lo=1)))
    own = opened(c, envelope(c, A, pair(c, cb), d)) if what in ("fields", "pairs") else None
    pa = pub(c, A)
    names = [k for k, _ in env.pairs()]
    X = lambda n: mk("hex", sym("X" + n, lo=0, generic=True, group="rand"), kind="str")

    def put(src=env, **ch):
        return sealed(c, Dict([(k, ch.get(k, v)) for k, v in src.pairs()]))

    def no(m, sender, w):
        c.raises(c.m(B, "decrypt", m, sender), "decrypt of " + w)

    f = lambda dd, k: dict(dd.pairs())[k]
    if not set(FIELDS) <= set(names):
        raise Unsupported("envelope format")
    raw = lambda k: models.fromhex(I, f(env, k))
    hx = lambda v: v.hex() if isinstance(v, bytes) else mk("hex", v, kind="str")
    c.equal(c.must(c.m(B, "decrypt", put(), pa), "decrypt of a rebuilt message"), d, "the rebuilt message")
    if what == "fields":
        for k in names:
            no(put(**{k: X(k)}), pa, "a message whose %s was replaced" % k)
            no(put(**{k: ""}), pa, "a message whose %s is empty" % k)
            no(put(**{k: "00" * 16}), pa, "a message whose %s is zero" % k)
            no(put(**{k: f(mine, k)}), pa, "a message whose %s comes from somebody else's message" % k)
            no(put(**{k: f(other, k)}), pa, "a message whose %s comes from another message of the sender" % k)
            no(put(**{k: f(own, k)}), pa, "a message whose %s comes from the sender's message to somebody else" % k)
            no(sealed(c, Dict([(a, b) for a, b in env.pairs() if a != k])), pa, "a message without %s" % k)
            for x in (None, 5, True, List(), Dict(), "zz", "0"):
                no(put(**{k: x}), pa, "a message whose %s is %s" % (k, render(x)))
            v = raw(k)
            no(put(**{k: hx(models.cat(I, [v, b"x"]))}), pa, "a message whose %s was extended" % k)
            no(put(**{k: hx(models.cat(I, [b"x", v]))}), pa, "a message whose %s has something in front" % k)
            no(put(**{k: hx(models.cat(I, [v, v]))}), pa, "a message whose %s was doubled" % k)
            for k2 in names:
                if k2 != k:
                    no(put(**{k: f(env, k2)}), pa, "a message whose %s is its %s" % (k, k2))
                    if names.index(k) < names.index(k2):
                        no(put(**{k: f(env, k2), k2: f(env, k)}), pa, "a message whose %s and %s changed places" % (k, k2))
    elif what == "pairs":
        import itertools

        for r in (2, 3, 4):
            for ks in itertools.combinations(names, r):
                for src, w in ((mine, "somebody else's message"), (other, "another message of the sender"), (own, "the sender's message to somebody else")):
                    no(put(**{k: f(src, k) for k in ks}), pa, "a message whose %s come from %s" % (", ".join(ks), w))
    elif what == "sender":
        no(put(), pub(c, M), "a message under another sender's key")
        no(sealed(c, mine), pa, "somebody else's message under the sender's key")
        no(put(), pub(c, B), "a message under the receiver's key")
        for k, w in ((b"no key", "something that is not a key"), (b"", "an empty key"), (d, "the data as key")):
            no(put(), k, "a message under " + w)
        no(put(), mk("pem_pub", mk("sym", "stranger", (), kind="key"), "PEM"), "a message under a stranger's key")
        # it is accepted again afterwards, and from the other sender
        c.equal(c.must(c.m(B, "decrypt", put(), pa), "decrypt of the message afterwards"), d, "the message afterwards")
        c.equal(c.must(c.m(B, "decrypt", sealed(c, mine), pub(c, M)), "decrypt of the other message"), plain("M", lo=1), "the other message")
        no(sealed(c, mine), pa, "somebody else's message under the sender's key, after both were accepted")
        no(put(), pub(c, M), "a message under another sender's key, after both were accepted")
    elif what == "receiver":
        c.raises(c.m(M, "decrypt", put(), pa), "decrypt by somebody else")
        c.raises(c.m(A, "decrypt", put(), pa), "decrypt by the sender")
        C = pair(c, cb)
        c.raises(c.m(C, "decrypt", put(), pa), "decrypt by another receiver")
        c.raises(c.m(C, "decrypt", put(), pub(c, C)), "decrypt by another receiver as a message of their own")
    elif what in ("rekeyed", "forwarded", "resigned"):
        # somebody puts the sender's signed ciphertext under another session key, or passes it on
        to = models.key_obj(key_of(pub(c, B)), False)
        oaep = lambda k: use(c, Opaque("oaep", key=to), "encrypt", k)
        if what == "rekeyed":
            k, n = I.fresh("k", lo=16, hi=16, group="rand", generic=True), I.fresh("n", lo=16, hi=16, group="nonce", generic=True)
            ct = raw("ciphertext")
            m2 = use(c, aes(c, k, n), "decrypt", ct)
            t = use(c, aes(c, k, n), "encrypt_and_digest", m2)[1]
            no(put(enc_session_key=hx(oaep(k)), nonce=hx(n), tag=hx(t)), pa, "a message whose ciphertext was put under another session key")
        elif what == "forwarded":
            C = pair(c, cb)
            env2 = opened(c, envelope(c, A, C, d))
            o = models.fromhex(I, f(env2, "enc_session_key"))
            if not (isinstance(o, Term) and o.op == "oaep"):
                raise Unsupported("envelope format")
            no(put(env2, enc_session_key=hx(oaep(o.args[1]))), pa, "a message that its receiver passed on to somebody else")
            no(put(env2), pa, "a message to somebody else")
        else:
            S = pair(c, "RsaKeyPair")
            for w, v in (("the ciphertext", raw("ciphertext")), ("nothing", b""), ("the session key", raw("enc_session_key")), ("the tag", raw("tag")), ("the nonce", raw("nonce")), ("the data", d)):
                no(put(signature=hx(c.must(c.m(S, "sign", v), "sign"))), pa, "a message with somebody else's signature of " + w)
                no(put(signature=hx(c.must(c.m(pair(c, "RsaKeyPair"), "sign", v), "sign"))), pub(c, S), "a message with a third signature of " + w)
    elif what == "junk":
        for w, m in (("nothing", b""), ("text", b"hello"), ("an empty object", b"{}"), ("a number", b"5"), ("a list", b"[]"), ("null", b"null"), ("a string", b'"x"')):
            no(m, pa, w)
        e = put()
        no(models.cat(I, [e, e]), pa, "two messages in one") if kind_of(e) == "bytes" else None
        for w, m in (("text", "text"), ("None", None), ("a number", 5), ("a bytearray", BArr(b"x")), ("an object", env)):
            c.raises(c.m(B, "decrypt", m, pa), "decrypt of " + w)
            c.raises(c.m(B, "decrypt", put(), m), "decrypt with a sender key given as " + w)


def authentic(c, cb, who):
    """any input that decrypts carries a valid signature over everything it is decrypted with, and a valid tag"""
    I = c.I
    B = pair(c, cb)
    if who == "unknown":
        S = mk("sym", "sender", (), kind="key")
        ps = mk("pem_pub", S, "PEM")
    elif who == "receiver":
        ps = pub(c, B)
        S = key_of(ps)
    else:
        ps = sym("key", lo=0)
        S = None
    m = sym("message")
    n0 = len(I.events)
    r = c.m(B, "decrypt", m, ps)
    ev = I.events[n0:]
    c.true(not [e for e in ev if e[0] == "sign"], "decrypt makes a signature", "unauthenticated data returned")
    if not r.ok:
        return
    if S is None:
        c.true(bool(I.facts.get(("iskey", ps))), "decrypt returned data under something that is not a key", "unauthenticated data returned")
        S = mk("keyof", ps, kind="key")
    tags = [e for e in ev if e[0] == "tag" and e[5]]
    good = None
    for e in tags:
        key, nonce, ct = e[1], e[2], e[3]
        if isinstance(r.value, Term) and r.value.op == "dec" and r.value.args[0] is key and r.value.args[3] is ct or ct == b"" == r.value:
            good = e
    c.true(good is not None, "decrypt returned %s, whose authentication tag was not checked" % render(r.value), "unauthenticated data returned")
    sigs = [e for e in ev if e[0] == "verify" and e[4] and e[1] is S]
    c.true(bool(sigs), "decrypt returned data without a valid signature of the sender", "unauthenticated data returned")
    sk = good[1]
    want = {"ciphertext": good[3], "nonce": good[2], "encrypted session key": sk.args[1] if isinstance(sk, Term) and sk.op == "oaepdec" else sk}
    best = max(sigs, key=lambda e: sum(covered(v, e[2]) for v in want.values()))
    for k, v in want.items():
        c.true(covered(v, best[2]), "the signature that decrypt checked does not cover the %s" % k, "unauthenticated data returned")
    c.true(covered(m, best[3]), "the signature that decrypt checked is not part of the message", "unauthenticated data returned")


def covered(v, by):
    at = atoms_of(by)
    return not isinstance(v, Term) or v in at


# ------------------------------------------------------------------ C27
def roles(c, cname, op, given):
    """given: how the arguments look"""
    I = c.I
    A, B = pair(c, cname), pair(c, "RsaKeyPair")
    d = plain()
    bases = [x for x in (I.mro(A.cls)) if isinstance(x, Cls) and x.name == "RsaKeyPair"]
    K = {"other": pub(c, B), "own": pub(c, A), "any": sym("key", lo=0), "stranger": mk("pem_pub", mk("sym", "stranger", (), kind="key"), "PEM"), "none": None, "text": "text", "empty": b""}
    full = pair(c, "RsaKeyPair")
    if op == "encrypt":
        args = (d, K[given])
    elif op == "decrypt":
        m = {"other": lambda: envelope(c, B, A, d), "own": lambda: envelope(c, full, A, d)}.get(given, lambda: sym("message", lo=0))()
        args = (m, K[given])
    elif op == "sign":
        args = ({"other": d, "own": pub(c, A), "any": sym("data", lo=0), "stranger": b"x", "none": None, "text": "text", "empty": b""}[given],)
    else:
        s = c.must(c.m(B, "sign", d), "sign")
        args = (d, s) if given == "none" else (d, sym("sig", lo=0), K["any"]) if given == "any" else (d, s, K[given])
    n = len(I.events)
    r = c.m(A, op, *args)
    c.raises(r, "%s of a %s" % (op, cname), "NotImplementedError")
    c.true(not [e for e in I.events[n:] if e[0] in ("sign", "enc", "dec", "oaep", "verify", "tag", "open", "write")], "%s of a %s does something before it is refused" % (op, cname), "refused operation took effect")
    # again, and with a key pair that was loaded
    c.raises(c.m(A, op, *args), "second %s of a %s" % (op, cname), "NotImplementedError")
    pw = chars("passphrase")
    C = c.must(c.call(I.getattr(A.cls, "from_key_string"), c.must(c.m(A, "to_key_string", pw), "to_key_string"), pw), "from_key_string")
    c.raises(c.m(C, op, *args), "%s of a loaded %s" % (op, cname), "NotImplementedError")
    c.must(c.m(A, "generate_keypair"), "generate_keypair")
    c.raises(c.m(A, op, *args), "%s of a %s with a new key" % (op, cname), "NotImplementedError")


GIVEN = ("other", "own", "any", "stranger", "none", "text", "empty")


# ------------------------------------------------------------------ C28
def chars(name):
    return sym(name, kind="str", lo=1, generic=True, group="word")


NICKS = (" alice ", "Alice\n", "", "ünï\u2028\U0001f511", '"quoted" \\ \'', "null", "00", "{}", "a/b\0c", "true", "x" * 300, "\u0130\ufb01 \u0065\u0301")


def nicknames(c, cname, way):
    """every nickname comes back"""
    I = c.I
    cls = c.api(KP, cname)
    A = pair(c, cname, "first")
    for n, nick in enumerate(NICKS):
        I.setattr(A, "nickname", nick)
        pw = chars("passphrase%d" % n)
        if way == "string":
            src = c.must(c.m(A, "to_key_string", pw), "to_key_string")
        else:
            I.cfg["path_default"] = False
            src = chars("path")
            c.must(c.m(A, "to_key_file", src, pw), "to_key_file")
        B = c.must(c.call(I.getattr(cls, "from_key_" + way), src, pw), "loading an exported key with nickname %r" % nick)
        c.equal(c.must(c.attr(B, "nickname"), "nickname"), nick, "nickname of the loaded key pair")
        c.boolean(c.eq(A, B), True, "equality with the loaded key pair with nickname %r" % nick)


def exported(c, cname, way):
    I = c.I
    A = pair(c, cname, chars("nick"))
    pw, path = chars("passphrase"), chars("path")
    K = key_of(pub(c, A))
    n0 = len(I.events)
    if way == "string":
        out = c.must(c.m(A, "to_key_string", pw), "to_key_string")
        blobs = [out]
    else:
        I.cfg["path_default"] = False
        if way == "file twice":
            # an export replaces what the file held
            c.must(c.m(pair(c, cname), "to_key_file", path, chars("old passphrase")), "to_key_file")
            n0 = len(I.events)
        c.must(c.m(A, "to_key_file", path, pw), "to_key_file")
        w = [e for e in I.events[n0:] if e[0] == "write"]
        c.true(bool(w), "to_key_file writes nothing")
        c.true(all(e[1] is path for e in w), "to_key_file writes somewhere else", "wrong file")
        blobs = [e[2] for e in w]
    privs = [t for b in blobs for t in atoms_of(models._fz(I, b)) if t.op == "pem_priv"]
    c.true(any(t.args[0] is K for t in privs), "the export does not contain the private key")
    for t in privs:
        c.true(t.args[1] is pw, "the private key is exported under %s instead of the passphrase" % (render(t.args[1]) if t.args[1] != "" else "no passphrase"), "private key not protected")
    for b in blobs:
        v = visible(models._fz(I, b))
        c.true(pw not in v, "the passphrase is part of the export", "passphrase exposed")
        c.true(not any(isinstance(x, Term) and x.op in ("rsa_d", "rsa_p", "rsa_q", "rsa_u") for x in v), "a private exponent is part of the export", "private key not protected")
    cls = c.api(KP, cname)
    load = I.getattr(cls, "from_key_string" if way == "string" else "from_key_file")
    src = out if way == "string" else path
    B = c.must(c.call(load, src, pw), "loading an exported key")
    c.true(isinstance(B, Instance) and B.cls is cls, "a %s is loaded as %s" % (cname, I.type_name(B)))
    c.equal(pub(c, B), pub(c, A), "public key of the loaded key pair")
    c.equal(c.must(c.attr(B, "nickname"), "nickname"), c.must(c.attr(A, "nickname"), "nickname"), "nickname of the loaded key pair")
    c.boolean(c.eq(A, B), True, "equality with the loaded key pair")
    c.raises(c.call(load, src, chars("wrong")), "loading with a wrong passphrase")
    c.raises(c.call(load, src, ""), "loading with an empty passphrase")
    c.raises(c.call(load, src, models.cat(I, [pw, "x"], kind="str")), "loading with an extended passphrase")
    c.raises(c.call(load, src, chars("nick")), "loading with the nickname as passphrase")
    # a second export, under another passphrase, and after the key and the name changed
    if way == "string":
        pw2 = chars("passphrase2")
        for step in ("again", "renamed", "renewed"):
            if step == "renamed":
                I.setattr(A, "nickname", "renamed")
            elif step == "renewed":
                c.must(c.m(A, "generate_keypair"), "generate_keypair")
            out2 = c.must(c.m(A, "to_key_string", pw2), "to_key_string")
            for x in atoms_of(models._fz(I, out2)):
                if x.op == "pem_priv":
                    c.true(x.args[1] is pw2, "a later private key is exported under %s instead of the passphrase" % render(x.args[1]), "private key not protected")
            C = c.must(c.call(load, out2, pw2), "loading a later export")
            c.boolean(c.eq(A, C), True, "equality with a key pair loaded from a later export (%s)" % step)
            c.raises(c.call(load, out2, pw), "loading a later export with the earlier passphrase")
            c.raises(c.call(load, out, pw2), "loading the earlier export with the later passphrase")
        A = c.must(c.call(load, out, pw), "loading the first export")
    # the loaded key pair can do what the original can
    d = plain()
    if cname in SIGN:
        s = c.must(c.m(B, "sign", d), "sign with the loaded key pair")
        c.boolean(c.m(A, "signature_valid", d, s), True, "signature of the loaded key pair")
    if cname in ENC:
        M = pair(c, "RsaKeyPair")
        e = envelope(c, M, A, d)
        c.equal(c.must(c.m(B, "decrypt", e, pub(c, M)), "decrypt with the loaded key pair"), d, "message for the loaded key pair")
    # file and string forms agree
    if way != "string" and len(blobs) == 1:
        B = c.must(c.call(I.getattr(cls, "from_key_string"), blobs[0], pw), "loading the file contents as a string")
        c.equal(pub(c, B), pub(c, A), "public key loaded from the file contents")


def export_args(c, cname):
    I = c.I
    A = pair(c, cname)
    cls = c.api(KP, cname)
    pw = chars("passphrase")
    bad = (None, b"bytes", 5, List())
    for x in bad:
        n = len(I.events)
        c.raises(c.m(A, "to_key_string", x), "to_key_string with passphrase %s" % I.type_name(x))
        c.raises(c.m(A, "to_key_file", x, pw), "to_key_file to %s" % I.type_name(x))
        c.raises(c.m(A, "to_key_file", chars("path"), x), "to_key_file with passphrase %s" % I.type_name(x))
        c.true(not [e for e in I.events[n:] if e[0] in ("open", "write")], "a refused export touched a file", "side effect")
        c.raises(c.call(I.getattr(cls, "from_key_string"), x, pw), "from_key_string of %s" % I.type_name(x))
        c.raises(c.call(I.getattr(cls, "from_key_file"), x, pw), "from_key_file of %s" % I.type_name(x))
        e = c.must(c.m(A, "to_key_string", pw), "to_key_string")
        c.raises(c.call(I.getattr(cls, "from_key_string"), e, x), "from_key_string with passphrase %s" % I.type_name(x))
    I.cfg["path_default"] = False
    n = len(I.events)
    c.raises(c.call(I.getattr(cls, "from_key_file"), chars("missing"), pw), "from_key_file of a missing file", "FileNotFoundError", "OSError")
    c.true(not [e for e in I.events[n:] if e[0] in ("open", "write")], "loading a missing file touched a file", "side effect")
    # a key pair that has no key yet cannot be exported, and the attempt leaves files alone
    E = c.must(c.call(cls, None, False), cname + " without keys")
    c.raises(c.m(E, "to_key_string", pw), "to_key_string of a key pair without keys")
    n = len(I.events)
    c.raises(c.m(E, "to_key_file", chars("path"), pw), "to_key_file of a key pair without keys")
    c.true(not [e for e in I.events[n:] if e[0] in ("open", "write")], "a refused export touched a file", "side effect")
    # damaged exports are refused
    e = c.must(c.m(A, "to_key_string", pw), "to_key_string")
    d = models.json_loads(I, e)
    if isinstance(d, Dict):
        J = lambda ps: models.json_dumps(I, Dict(ps))
        L = I.getattr(cls, "from_key_string")
        for k, v in d.pairs():
            if k != "public_key":
                c.raises(c.call(L, J([(a, b) for a, b in d.pairs() if a != k]), pw), "from_key_string of an export without " + k)
        priv = [k for k, v in d.pairs() if any(isinstance(x, Term) and x.op == "pem_priv" for x in atoms_of(v))]
        for k in priv:
            for w, x in (("zz", "text"), ("", "nothing"), (None, "null"), ("00" * 40, "zeros"), (mk("hex", pub(c, A), kind="str"), "the public key's hex and no private key")):
                r = c.call(L, J([(a, w if a == k else b) for a, b in d.pairs()]), pw)
                if r.ok and x.startswith("the public"):
                    # nothing that could sign or decrypt may come of it
                    K2 = c.attr(r.value, "_key_pair")
                    if K2.ok and isinstance(K2.value, Opaque) and K2.value.type == "rsakey":
                        c.true(K2.value.f["private"] is False, "a private key came out of a public one")
                    continue
                c.raises(r, "from_key_string with %s as private key" % x)
    for w in ("", "null", "[]", "{}", "5", "text"):
        c.raises(c.call(I.getattr(cls, "from_key_string"), w, pw), "from_key_string of %r" % w)


# ------------------------------------------------------------------ C29
def signatures(c, ca, cb, what):
    I = c.I
    A, B = pair(c, ca), pair(c, cb)
    d, d2 = plain(lo=1), plain("D2", lo=1)
    s = c.must(c.m(A, "sign", d), "sign")
    V = lambda who, *a, **k: c.m(who, "signature_valid", *a, **k)

    def no(r, what):
        """a signature that is not one: False, or an exception for malformed input; never True"""
        c.obligations += 1
        if r.ok and c.decided_truth(r.value, what):
            raise Failure("wrong result", "%s returned True" % what)

    if what == "accept":
        c.boolean(V(A, d, s), True, "signature_valid of an own signature")
        c.boolean(V(A, d, s, pub(c, A)), True, "signature_valid with the own public key")
        c.boolean(V(B, d, s, pub(c, A)), True, "signature_valid with the signer's public key")
        c.boolean(V(B, d, s, public_key=pub(c, A)), True, "signature_valid with the signer's public key")
        c.boolean(V(A, data=d, signature=s), True, "signature_valid with keyword arguments")
        e = c.must(c.m(A, "sign", b""), "sign of nothing")
        c.boolean(V(A, b"", e), True, "signature_valid of a signature of nothing")
        o = c.must(c.m(A, "sign", d2), "sign of other data")
        c.boolean(V(A, d2, o), True, "signature_valid of the second signature")
        c.boolean(V(A, d, s), True, "signature_valid of the first signature after the second")
        c.boolean(V(B, d, c.must(c.m(B, "sign", d), "sign")), True, "signature_valid of the other key pair's own signature")
        t = c.must(c.m(A, "sign", d), "second signature of the same data")
        c.boolean(V(B, d, t, pub(c, A)), True, "signature_valid of the second signature of the same data")
    elif what == "reject":
        c.boolean(V(A, d2, s), False, "signature_valid for other data")
        c.boolean(V(A, b"", s), False, "signature_valid for no data")
        c.boolean(V(A, mk("cat", (d, b"x")), s), False, "signature_valid for extended data")
        c.boolean(V(A, mk("cat", (b"x", d)), s), False, "signature_valid for data with something in front")
        c.boolean(V(A, models.cat(I, [d, d]), s), False, "signature_valid for doubled data")
        c.boolean(V(A, I.M.mkhash("sha256", d) if hasattr(I.M, "mkhash") else mk("H", "sha256", d), s), False, "signature_valid for the hash of the data")
        c.boolean(V(B, d, s), False, "signature_valid under another key")
        c.boolean(V(A, d, s, pub(c, B)), False, "signature_valid under another public key")
        c.boolean(V(B, d, s, pub(c, B)), False, "signature_valid under another public key")
        c.boolean(V(A, d, c.must(c.m(B, "sign", d), "sign")), False, "signature_valid of somebody else's signature")
        c.boolean(V(A, d, c.must(c.m(A, "sign", d2), "sign")), False, "signature_valid of a signature of other data")
        c.boolean(V(A, d, c.must(c.m(A, "sign", b""), "sign")), False, "signature_valid of a signature of nothing")
        c.boolean(V(A, d, b""), False, "signature_valid of nothing")
        c.boolean(V(A, b"", b""), False, "signature_valid of nothing for nothing")
        c.boolean(V(A, d, b"x" * 256), False, "signature_valid of a constant")
        c.boolean(V(A, d, d), False, "signature_valid of the data itself")
        c.boolean(V(A, d, pub(c, A)), False, "signature_valid of the public key")
        c.boolean(V(A, d, models.cat(I, [s, b"x"])), False, "signature_valid of an extended signature")
        c.boolean(V(A, d, models.cat(I, [b"x", s])), False, "signature_valid of a signature with something in front")
        c.boolean(V(A, d, models.cat(I, [s, s])), False, "signature_valid of a doubled signature")
        # the answer does not depend on earlier ones
        c.boolean(V(A, d, s), True, "signature_valid of the signature after all")
        c.boolean(V(A, d2, s), False, "signature_valid for other data afterwards")
        e = c.must(c.m(A, "sign", b""), "sign of nothing")
        c.boolean(V(A, d, e), False, "signature_valid of a signature of nothing for something")
    elif what == "keys":
        # something that is no key, or not the signer's, never makes a signature valid
        for k, w in ((b"", "an empty key"), (b"junk", "junk"), (b"\x00" * 32, "zeros"), (d, "the data"), (s, "the signature")):
            no(V(A, d, s, k), "signature_valid under " + w)
            no(V(B, d, s, k), "signature_valid under " + w)
        K = mk("sym", "stranger", (), kind="key")
        no(V(A, d, s, mk("pem_pub", K, "PEM")), "signature_valid under a stranger's key")
        no(V(B, d, s, mk("pem_pub", K, "PEM")), "signature_valid under a stranger's key")
        no(V(B, d, s, models.cat(I, [pub(c, A)[:0] if isinstance(pub(c, A), bytes) else b"x", pub(c, A)])), "signature_valid under a damaged key")
    elif what == "any":
        X = sym("X", lo=0)
        n = len(I.events)
        v = c.decided_truth(c.must(V(A, d, X), "signature_valid of any bytes"), "signature_valid")
        ok = [e for e in I.events[n:] if e[0] == "verify" and e[1] is key_of(pub(c, A)) and d in atoms_of(e[2]) and e[3] is X]
        c.true(bool(ok), "signature_valid does not check the signature")
        c.true(v == ok[-1][4], "signature_valid returned %s for a signature that is %s" % (v, "valid" if ok[-1][4] else "invalid"))
    elif what == "any key":
        X, P = sym("X", lo=0), sym("P", lo=0)
        n = len(I.events)
        r = V(A, d, X, P)
        ok = [e for e in I.events[n:] if e[0] == "verify" and d in atoms_of(e[2]) and e[3] is X]
        if r.ok and c.decided_truth(r.value, "signature_valid"):
            c.true(any(e[4] and I.facts.get(("iskey", P)) and P in atoms_of(e[1]) for e in ok), "signature_valid returned True without checking the signature under the key given", "wrong result")
    elif what == "renewed":
        old = pub(c, A)
        c.boolean(V(A, d, s), True, "signature_valid of an own signature")
        c.must(c.m(A, "generate_keypair"), "generate_keypair")
        c.boolean(V(A, d, s), False, "signature_valid of a signature of the earlier key")
        c.boolean(V(A, d, s, old), True, "signature_valid of a signature of the earlier key under that key")
        c.boolean(V(B, d, s, old), True, "signature_valid of a signature of the earlier key under that key")
        s2 = c.must(c.m(A, "sign", d), "sign with the new key")
        c.boolean(V(A, d, s2), True, "signature_valid of a signature of the new key")
        c.boolean(V(B, d, s2, pub(c, A)), True, "signature_valid of a signature of the new key")
        c.boolean(V(A, d, s2, old), False, "signature_valid of a signature of the new key under the old one")
    elif what == "types":
        for x in ("text", None, 5, BArr(b"x"), List([b"x"]), True):
            c.raises(c.m(A, "sign", x), "sign of %s" % I.type_name(x), "ValueError", "TypeError")
            c.raises(V(A, x, s), "signature_valid of data %s" % I.type_name(x), "ValueError", "TypeError")
            c.raises(V(A, d, x), "signature_valid of signature %s" % I.type_name(x), "ValueError", "TypeError")
            if x is not None:
                c.raises(V(A, d, s, x), "signature_valid with public key %s" % I.type_name(x), "ValueError", "TypeError")


# ------------------------------------------------------------------ C30
def password(c, what):
    I = c.I
    U = c.api(*UT)
    P = lambda n, lo=1: sym(n, kind="str", lo=lo, generic=True, group="pw")
    pw, pw2 = P("password"), P("password2")
    d = plain(lo=1)
    E, D = I.getattr(U, "encrypt"), I.getattr(U, "decrypt")
    if what == "types":
        for x in ("text", None, 5, BArr(b"x"), List(), True):
            c.raises(c.call(E, x, pw), "encrypt of %s" % I.type_name(x), "TypeError")
            c.raises(c.call(D, x, pw), "decrypt of %s" % I.type_name(x), "TypeError")
        e = c.must(c.call(E, d, pw), "encrypt")
        for x in (b"bytes", None, 5, BArr(b"x"), List()):
            c.raises(c.call(E, d, x), "encrypt with password %s" % I.type_name(x), "TypeError")
            c.raises(c.call(D, d, x), "decrypt with password %s" % I.type_name(x), "TypeError")
            c.raises(c.call(D, e, x), "decrypt with password %s" % I.type_name(x), "TypeError")
        return
    if what == "any input":
        X = sym("X", lo=0)
        n0 = len(I.events)
        r = c.call(D, X, pw)
        if r.ok:
            tags = [e for e in I.events[n0:] if e[0] == "tag" and e[5]]
            c.true(any(isinstance(r.value, Term) and r.value.op == "dec" and r.value.args[0] is e[1] and r.value.args[3] is e[3] or r.value == b"" == e[3] for e in tags), "decrypt returned %s, whose authentication tag was not checked" % render(r.value), "unauthenticated data returned")
            c.true(any(pw in atoms_of(e[1]) for e in tags), "the key does not depend on the password")
            # the whole input was used
            used = [(x.args[1], x.args[2]) for e in tags for x in atoms_of((e[2], e[3], e[4])) if isinstance(x, Term) and x.op == "slice" and x.args[0] is X]
            if used and all(isinstance(a, int) and (b is None or isinstance(b, int)) for a, b in used):
                at = 0
                for a, b in sorted(used, key=lambda q: q[0]):
                    c.true(a <= at, "decrypt ignores part of its input", "unauthenticated data returned")
                    at = 10 ** 9 if b is None else max(at, b)
                c.true(at == 10 ** 9, "decrypt ignores the end of its input", "unauthenticated data returned")
        return
    if what == "short input":
        for n in (0, 1, 8, 15, 16, 17, 31, 32):
            c.raises(c.call(D, b"\x07" * n, pw), "decrypt of %d bytes" % n)
        return
    n0 = len(I.events)
    e1 = c.must(c.call(E, d, pw), "encrypt")
    e2 = c.must(c.call(E, d, pw), "encrypt")
    if what == "round trip":
        for e in (e1, e2, e1):
            c.equal(c.must(c.call(D, e, pw), "decrypt"), d, "the decrypted data")
        for w in (pw, "", " ", "pass", "p\u00e4ss", P("any password", 0)):
            for v in (b"", b"x", b"\x00" * 16, b"\x00" * 32, plain("any data")):
                e = c.must(c.call(E, v, w), "encrypt")
                c.equal(c.must(c.call(D, e, w), "decrypt"), v, "the decrypted data")
                c.equal(c.must(c.call(D, data=e, password=w), "decrypt"), v, "the decrypted data")
        for n in (4096, 70001, (1 << 20) + 17):
            e = c.must(c.call(E, lots(n), pw), "encrypt")
            c.equal(c.must(c.call(D, e, pw), "decrypt"), lots(n), "the decrypted data of %d bytes" % n)
        # encrypting twice
        e = c.must(c.call(E, e1, pw2), "encrypt of a result")
        c.equal(c.must(c.call(D, c.must(c.call(D, e, pw2), "decrypt"), pw), "decrypt"), d, "the data encrypted twice")
    elif what == "wrong password":
        K = lambda *a: models.cat(I, list(a), kind="str")
        for w, x in ((pw2, "another password"), ("", "an empty password"), (K(pw, "x"), "an extended password"), (K("x", pw), "a password with something in front"), (K(pw, pw), "a doubled password"), (K(pw, " "), "a password with a space"), (K(pw, "\n"), "a password with a newline")):
            for e in (e1, e2):
                c.raises(c.call(D, e, w), "decrypt with " + x)
        e = c.must(c.call(E, d, ""), "encrypt with an empty password")
        c.raises(c.call(D, e, pw), "decrypt with a password of something encrypted without")
        for a, b in (("pass", "pass "), ("pass", "Pass"), ("pass", "pas"), (" pass", "pass"), ("pass\x00", "pass"), ("a" * 70, "a" * 64), ("a" * 32, "a" * 33), ("pass\u2460", "pass1"), ("p\u00e4ss", "pa\u0308ss"), ("\u00dfa", "ssa"), ("p\u00e4ss", "pass"), ("\u00c4", "\u00e4"), ("a" * 200, "a" * 199), ("a" * 5000, "a" * 4999), ("pa\nss", "pa\r\nss"), ("\ufeffpass", "pass"), ("pa\u00adss", "pass"), ("pass\u200b", "pass")):
            for v in (d, b"", b"x"):
                c.raises(c.call(D, c.must(c.call(E, v, a), "encrypt"), b), "decrypt with %r of something encrypted with %r" % (b, a))
                c.raises(c.call(D, c.must(c.call(E, v, b), "encrypt"), a), "decrypt with %r of something encrypted with %r" % (a, b))
        c.equal(c.must(c.call(D, e1, pw), "decrypt after wrong passwords"), d, "the decrypted data")
    elif what == "secrecy":
        for v in (b"", b"x"):
            c.must(c.call(E, v, pw), "encrypt")
        c.must(c.call(E, d, pw2), "encrypt")
        uses = [e for e in I.events[n0:] if e[0] == "enc"]
        c.true(len(uses) == 5, "encrypt uses the cipher %d times in 5 calls" % len(uses))
        for i, u in enumerate(uses):
            for w in uses[:i]:
                c.true(not (u[1] is w[1] and u[2] is w[2]), "two encryptions use the same key and nonce", "nonce reused")
            fresh = [x for x in atoms_of((u[1], u[2])) if isinstance(x, Term) and x.op == "sym" and x.meta.get("group") in models.RANDOM and I.blen(x) != 0]
            c.true(bool(fresh), "neither key nor nonce is random", "nonce reused")
            n = I.blen(u[2])
            c.true(not isinstance(n, int) or n >= 8, "the nonce has %s bytes" % n, "nonce reused")
        for u, e in zip(uses, (e1, e2)):
            c.true(pw in atoms_of(u[1]), "the key %s does not depend on the password" % render(u[1]))
            v = visible(e)
            c.true(u[1] not in v and pw not in v and mk("utf8", pw) not in v, "the key or the password can be read off the result", "key exposed")
            c.true(d not in v, "the data can be read off the result", "plaintext exposed")
            for x in v:
                if isinstance(x, Term) and x.op == "H":
                    c.true(pw not in atoms_of(x), "the result contains a hash of the password", "key exposed")
                    c.true(d not in atoms_of(x), "the result contains a hash of the data", "plaintext exposed")
    elif what == "tampered":
        parts = models._parts(e1)
        X = lambda i, n: sym("X%d" % i, lo=n if n is not None else 0, hi=n, generic=True, group="rand")
        c.true(len(parts) > 1, "the result has one part")
        o = models._parts(e2)
        cut = lambda v, a, b: models.mkslice(I, v, a, b)
        no = lambda ps, w: c.raises(c.call(D, models.cat(I, list(ps)), pw), "decrypt with " + w)
        o3 = models._parts(c.must(c.call(E, plain("D3", lo=1), pw), "encrypt"))
        o4 = models._parts(c.must(c.call(E, d, pw2), "encrypt"))
        for i, p in enumerate(parts):
            n = I.blen(p)
            n = n if isinstance(n, int) else None
            a, b = parts[:i], parts[i + 1:]
            if n is not None:
                no(a + [X(i, n)] + b, "part %d replaced" % i)
                no(a + [b"\x00" * n] + b, "part %d zeroed" % i)
            if i == len(parts) - 1:
                no(a + [X(i, None)] + b, "part %d replaced" % i)
                no(a + [p, b"x"], "something appended")
                no(a + [p, p], "the last part doubled")
                no(a, "the last part dropped")
            for w, q in (("another result", o), ("a result for other data", o3), ("a result for another password", o4)):
                if len(q) == len(parts):
                    no(a + [q[i]] + b, "part %d of %s" % (i, w))
                    no(q[:i] + [p] + q[i + 1:], "all parts but %d of %s" % (i, w))
        for v in (b"", b"x"):
            e = c.must(c.call(E, v, pw), "encrypt")
            n = I.blen(e)
            for m in range(n if isinstance(n, int) else 0):
                c.raises(c.call(D, I.getitem(e, slice(0, m)), pw), "decrypt of the first %d of %d bytes" % (m, n))
                if m:
                    c.raises(c.call(D, I.getitem(e, slice(m, None)), pw), "decrypt without the first %d of %d bytes" % (m, n))
        c.equal(c.must(c.call(D, e1, pw), "decrypt afterwards"), d, "the decrypted data")


# ------------------------------------------------------------------ C31
def keycheck(c, kind, key_type, exc):
    I = c.I
    U = c.api(*UT)
    f = I.getattr(U, "rsa_key_valid")
    K = mk("sym", "rsa", (), kind="key")
    key = {"public": mk("pem_pub", K, "PEM"), "private": mk("pem_priv", K, "", ("t", "PEM", 1, None)), "public DER": mk("pem_pub", K, "DER"), "private DER": mk("pem_priv", K, "", ("t", "DER", 1, None)), "private PKCS8": mk("pem_priv", K, "", ("t", "PEM", 8, None)), "public OpenSSH": mk("pem_pub", K, "OpenSSH"), "empty": b"", "junk": b"junk", "any": sym("X", lo=0), "protected": mk("pem_priv", K, chars("passphrase"), ("t", "PEM", 1, None))}[kind]
    r = c.call(f, key, key_type) if exc is None else c.call(f, key, key_type, exc)
    if kind.split()[0] in ("public", "private"):
        c.boolean(r, kind.split()[0] == key_type, "rsa_key_valid of a %s key as %s" % (kind, key_type))
        return
    if kind == "any":
        known = I.facts.get(("iskey", key))
        if known:
            pv = [v for k, v in I.facts.items() if k[0] == "private"]
            c.true(len(pv) == 1, "rsa_key_valid does not look at the kind of the key")
            c.boolean(r, pv[0] == (key_type == "private"), "rsa_key_valid of a %s key as %s" % ("private" if pv[0] else "public", key_type))
            return
    if exc:
        c.raises(r, "rsa_key_valid of something that is not a key, with exceptions requested")
    else:
        c.boolean(r, False, "rsa_key_valid of something that is not a key")


def keycheck_again(c, kinds):
    """the answer for a key does not depend on what was asked before"""
    I = c.I
    f = I.getattr(c.api(*UT), "rsa_key_valid")
    K = [mk("sym", "rsa%d" % i, (), kind="key") for i in range(2)]
    forms = {"public": lambda K: mk("pem_pub", K, "PEM"), "private": lambda K: mk("pem_priv", K, "", ("t", "PEM", 1, None)), "junk": lambda K: b"junk"}
    keys = [(k, forms[k](K[i])) for k in kinds for i in range(2)]
    for n in range(2):
        for k, key in keys if n else reversed(keys):
            for t in ("public", "private") if n else ("private", "public"):
                for a in ((), (False,), (True,)):
                    r = c.call(f, key, t, *a)
                    if k == "junk" and a == (True,):
                        c.raises(r, "rsa_key_valid of something that is not a key, with exceptions requested")
                    else:
                        c.boolean(r, k == t, "rsa_key_valid of a %s key as %s after other questions" % (k, t))


def keycheck_args(c):
    I = c.I
    f = I.getattr(c.api(*UT), "rsa_key_valid")
    key = mk("pem_pub", mk("sym", "rsa", (), kind="key"), "PEM")
    for x in ("text", None, 5):
        c.raises(c.call(f, x, "public"), "rsa_key_valid of %s" % I.type_name(x), "TypeError")
    for x in (b"public", None, 5):
        c.raises(c.call(f, key, x), "rsa_key_valid with key type %r" % (x,), "TypeError")
    for x in ("", "Public", "secret"):
        c.raises(c.call(f, key, x), "rsa_key_valid with key type %r" % x, "ValueError")
    for x in (None, "yes", 1):
        c.raises(c.call(f, key, "public", x), "rsa_key_valid with raise flag %r" % (x,), "TypeError")
    c.boolean(c.call(f, key), True, "rsa_key_valid of a public key by default")


# ------------------------------------------------------------------ C32
LARGE = [137, 4096, 4097, 70001, 1 << 20, (1 << 20) + 1, 3 * (1 << 20) + 17]


def lots(n, salt=0):
    """n bytes without a period that a block size could hide"""
    unit = b"".join(b"%d:" % (i * 7 + salt) for i in range(1, 2000))
    return (unit * (n // len(unit) + 1))[:n]


def many(c, what, hx):
    """inputs of every order of magnitude, and lists of many items"""
    I = c.I
    U = c.api(*UT)
    if what == "large keccak":
        f, g = c.api("pymt.utils.hash", "keccak_hash"), c.api("pymt.utils.hash", "keccak_hash_list")
        for n in LARGE:
            H = mk("H", "keccak256", lots(n))
            c.equal(c.must(c.call(f, lots(n)), "keccak_hash"), H, "keccak_hash of %d bytes" % n)
            c.equal(c.must(c.call(f, lots(n), True), "keccak_hash"), hx(H), "keccak_hash of %d bytes with hexdigest" % n)
            c.equal(c.must(c.call(g, List([lots(n)])), "keccak_hash_list"), H, "keccak_hash_list of one item of %d bytes" % n)
        for n in (10, 33, 65, 130, 300):
            for size in (1, 8, 64):
                xs = [lots(i % (size + 1) if i % 5 else 0, i) for i in range(n)]
                H = mk("H", "keccak256", b"".join(xs))
                c.equal(c.must(c.call(g, List(xs)), "keccak_hash_list"), H, "keccak_hash_list of %d items" % n)
                c.equal(c.must(c.call(g, List(xs), hexdigest=True), "keccak_hash_list"), hx(H), "keccak_hash_list of %d items with hexdigest" % n)
        xs = [lots(70001), b"", lots(1 << 20, 1), lots(3, 2)]
        c.equal(c.must(c.call(g, List(xs)), "keccak_hash_list"), mk("H", "keccak256", b"".join(xs)), "keccak_hash_list of large items")
        return
    for alg in ("sha256", "sha512"):
        own, gen = I.getattr(U, alg), I.getattr(U, "hash_data")
        for n in LARGE:
            d = lots(n)
            H = mk("H", alg, d)
            for f, k in ((own, {}), (gen, {"type": alg})):
                c.equal(c.must(c.call(f, d, **k), alg), hx(H), "%s of %d bytes" % (alg, n))
                h = c.must(c.call(f, d, finalize=False, **k), "unfinished " + alg)
                c.equal(c.must(c.m(h, "digest"), "digest"), H, "digest of the unfinished %s of %d bytes" % (alg, n))
                c.m(h, "update", lots(n, 5))
                c.equal(c.must(c.m(h, "digest"), "digest"), mk("H", alg, d + lots(n, 5)), "digest of the continued %s of %d bytes" % (alg, n))


def hashing(c, what):
    I = c.I
    d, d2 = plain(), plain("D2")
    hx = lambda t: mk("utf8", mk("hex", t, kind="str"))
    if what.startswith("large"):
        many(c, what, hx)
        return
    if what.startswith("keccak"):
        H = lambda t: mk("H", "keccak256", t)
        f, g = c.api("pymt.utils.hash", "keccak_hash"), c.api("pymt.utils.hash", "keccak_hash_list")
        for x in (d, b"", b"abc"):
            c.equal(c.must(c.call(f, x), "keccak_hash"), H(x), "keccak_hash")
            c.equal(c.must(c.call(f, x, hexdigest=True), "keccak_hash"), hx(H(x)), "keccak_hash with hexdigest")
            c.equal(c.must(c.call(f, x, True), "keccak_hash"), hx(H(x)), "keccak_hash with hexdigest")
        for xs in ([], [d], [d, d2], [d2, d], [b"a", d, b""], [d, d, d]):
            want = models.cat(I, list(xs)) if xs else b""
            c.equal(c.must(c.call(g, List(xs)), "keccak_hash_list"), H(want), "keccak_hash_list of %d items" % len(xs))
            c.equal(c.must(c.call(g, List(xs), True), "keccak_hash_list"), hx(H(want)), "keccak_hash_list of %d items with hexdigest" % len(xs))
            if xs:
                c.equal(c.must(c.call(g, List(xs)), "keccak_hash_list"), c.must(c.call(f, want), "keccak_hash"), "keccak_hash_list and keccak_hash of the concatenation")
        return
    U = c.api(*UT)
    for alg in ("sha256", "sha512"):
        H = lambda t: mk("H", alg, t)
        own, gen = I.getattr(U, alg), I.getattr(U, "hash_data")
        for x in (d, b"", b"abc"):
            c.equal(c.must(c.call(own, x), alg), hx(H(x)), alg)
            c.equal(c.must(c.call(gen, x, type=alg), "hash_data"), hx(H(x)), "hash_data with %s" % alg)
            c.equal(c.must(c.call(gen, x, True, alg), "hash_data"), hx(H(x)), "hash_data with %s" % alg)
            for f, k in ((own, {}), (gen, {"type": alg})):
                h = c.must(c.call(f, x, finalize=False, **k), "unfinished " + alg)
                c.equal(c.must(c.m(h, "digest"), "digest"), H(x), "digest of the unfinished " + alg)
                c.m(h, "update", d2)
                c.equal(c.must(c.m(h, "digest"), "digest"), H(models.cat(I, [x, d2])), "digest of the continued " + alg)
                c.equal(c.must(c.m(c.must(c.call(f, x, finalize=False, **k), "unfinished " + alg), "digest"), "digest"), H(x), "digest of a new unfinished %s after an earlier one was continued" % alg)
                c.equal(c.must(c.call(f, x, **k), alg), hx(H(x)), "%s after an unfinished one was continued" % alg)
        for x in ("text", None, 5, BArr(b"x")):
            c.raises(c.call(own, x), "%s of %s" % (alg, I.type_name(x)), "TypeError")
            c.raises(c.call(gen, x, type=alg), "hash_data of %s" % I.type_name(x), "TypeError")
    c.equal(c.must(c.call(I.getattr(U, "hash_data"), d), "hash_data"), hx(mk("H", "sha256", d)), "hash_data by default")
    for x in ("md5", "", "SHA256", "sha1", None):
        c.raises(c.call(I.getattr(U, "hash_data"), d, type=x), "hash_data with type %r" % (x,), "ValueError")


# ------------------------------------------------------------------ C33
def identity(c, ca, cb):
    I = c.I
    n1, n2 = chars("nick1"), chars("nick2")
    A, B = pair(c, ca, n1), pair(c, cb, n1)
    eq = lambda a, b: c.decided_truth(I.rich_eq(a, b, "=="), "==")
    c.boolean(c.eq(A, A), True, "equality with itself")
    c.true(eq(A, B) is False and eq(B, A) is False, "key pairs with different keys are equal")
    c.true(eq(A, pair(c, ca)) is False, "key pairs with different keys and names are equal")
    for o in (None, "x", b"x", 5, pub(c, A), n1, True, List(), c.must(c.attr(A, "public_key_string"), "public_key_string")):
        c.true(eq(A, o) is False, "a key pair equals %s" % render(o))
    pw = chars("passphrase")
    load = lambda k: c.must(c.call(I.getattr(k.cls, "from_key_string"), c.must(c.m(k, "to_key_string", pw), "to_key_string"), pw), "from_key_string")
    C = load(A)
    c.boolean(c.eq(A, C), True, "equality with a copy")
    c.true(eq(A, C) is True and eq(C, A) is True, "a key pair differs from its copy")
    c.true(eq(C, load(A)) is True, "two copies differ")
    h1, h2 = c.must(c.hash(A), "hash"), c.must(c.hash(C), "hash")
    c.true(isinstance(h1, (int, Lin)) and not isinstance(h1, bool), "the hash of a key pair is %s, not an integer" % render(h1))
    c.equal(h1, h2, "hash of a copy")
    c.equal(c.must(c.hash(A), "hash"), h1, "hash asked for again")
    c.must(c.call(models_hash(c), A), "hash()")
    # another name makes another key pair
    I.setattr(C, "nickname", n2)
    c.equal(c.must(c.attr(C, "nickname"), "nickname"), n2, "nickname of the renamed copy")
    c.boolean(c.eq(A, C), False, "equality with a copy under another nickname")
    c.true(eq(A, C) is False and eq(C, A) is False, "a key pair equals a copy under another nickname")
    c.equal(c.must(c.attr(A, "nickname"), "nickname"), n1, "nickname of the original after renaming the copy")
    c.equal(pub(c, C), pub(c, A), "public key of the renamed copy")
    I.setattr(C, "nickname", n1)
    c.true(eq(A, C) is True, "a key pair differs from a copy renamed back")
    for x, y in (("alice", "Alice"), ("alice", "alice "), ("alice", "alic"), ("", " "), ("a", "b")):
        I.setattr(A, "nickname", x)
        I.setattr(C, "nickname", y)
        c.true(eq(A, C) is False and eq(C, A) is False, "key pairs named %r and %r are equal" % (x, y))
        I.setattr(C, "nickname", x)
        c.true(eq(A, C) is True, "key pairs with one key, both named %r, differ" % x)
    I.setattr(A, "nickname", n1)
    I.setattr(C, "nickname", n1)
    # and generating anew changes the key
    k1 = pub(c, A)
    c.must(c.m(A, "generate_keypair"), "generate_keypair")
    c.true(I.eq3(pub(c, A), k1) is False, "generate_keypair keeps the key")
    c.equal(c.must(c.attr(A, "nickname"), "nickname"), n1, "nickname after generate_keypair")
    c.equal(pub(c, C), k1, "public key of a copy after the original generated a new key")
    c.true(eq(A, C) is False and eq(C, A) is False, "a key pair with a new key equals the copy of the old one")
    c.true(c.I.eq3(c.must(c.hash(A), "hash"), h1) is not True, "the hash stays when the key changes")
    c.equal(models.encode(I, c.must(c.attr(A, "public_key_string"), "public_key_string")), pub(c, A), "public_key_string after generate_keypair")
    d = plain()
    if ca in SIGN:
        c.boolean(c.m(A, "signature_valid", d, c.must(c.m(A, "sign", d), "sign")), True, "a signature with the new key")
        c.boolean(c.m(A, "signature_valid", d, c.must(c.m(C, "sign", d), "sign")), False, "a signature with the old key")
    c.must(c.m(A, "generate_keypair", 2048), "generate_keypair")
    for x in ("2048", None, 2048.0, b"2048"):
        k = pub(c, A)
        c.raises(c.m(A, "generate_keypair", x), "generate_keypair of length %r" % (x,), "ValueError", "TypeError")
        c.equal(pub(c, A), k, "public key after a refused generate_keypair")
    for x in ("public_key", "public_key_string"):
        k = pub(c, A)
        for v in (b"x", "x", pub(c, B), None):
            try:
                I.setattr(A, x, v)
            except PyRaise:
                c.equal(pub(c, A), k, "public key after a refused assignment")
                continue
            raise Failure("missing rejection", "%s of a key pair can be set" % x)
    for x in ("public_key", "public_key_string", "nickname"):
        try:
            I.delattr(A, x)
        except PyRaise:
            continue
        raise Failure("missing rejection", "%s of a key pair can be deleted" % x)


def models_hash(c):
    return Builtin("hash", models.B_hash)


def fresh_pairs(c, cname):
    P = [pair(c, cname) for _ in range(4)]
    for i, A in enumerate(P):
        for B in P[:i]:
            c.true(c.I.eq3(pub(c, A), pub(c, B)) is False, "two new key pairs have the same key")
            c.true(c.I.eq3(c.must(c.attr(A, "nickname"), "nickname"), c.must(c.attr(B, "nickname"), "nickname")) is False, "two new key pairs have the same nickname")
    A = P[0]
    s = c.must(c.attr(A, "public_key_string"), "public_key_string")
    c.equal(models.encode(c.I, s), pub(c, A), "public_key_string")
    for n in ("", "alice", chars("nick")):
        c.equal(c.must(c.attr(pair(c, cname, n), "nickname"), "nickname"), n, "nickname of a new key pair named %s" % render(n))
    for x in (5, b"name", List(), True, 1.5):
        c.raises(c.call(c.api(KP, cname), x), "%s with nickname %s" % (cname, c.I.type_name(x)), "ValueError", "TypeError")


# ------------------------------------------------------------------ C34
def views(c, cname, state):
    """nothing a key pair shows without being asked for its export holds the private key"""
    I = c.I
    nick = chars("nick")
    A = pair(c, cname, nick)
    pw = chars("passphrase")
    if state == "loaded":
        A = c.must(c.call(I.getattr(A.cls, "from_key_string"), c.must(c.m(A, "to_key_string", pw), "to_key_string"), pw), "from_key_string")
    elif state == "exported":
        c.must(c.m(A, "to_key_string", pw), "to_key_string")
    elif state == "used" and cname in SIGN:
        c.must(c.m(A, "sign", plain()), "sign")
    elif state == "used":
        c.must(c.m(pair(c, "RsaKeyPair"), "encrypt", plain(), pub(c, A)), "encrypt")
    K = key_of(pub(c, A))
    shown = [("str()", c.call(Builtin("str", models.B_str if hasattr(models, "B_str") else None), A) if hasattr(models, "B_str") else c.m(A, "__str__")), ("repr()", c.m(A, "__repr__"))]
    shown += [(n, c.attr(A, n)) for n in ("public_key", "public_key_string", "nickname")] + [("hash()", c.hash(A))]
    if cname in SIGN:
        shown.append(("a signature", c.m(A, "sign", plain())))
    if cname in ENC:
        shown.append(("a message", c.m(A, "encrypt", plain(), pub(c, pair(c, "RsaKeyPair")))))
    for w, r in shown:
        v = c.must(r, w)
        seen = {x for x in atoms_of(models._fz(I, v))} if not isinstance(v, Lin) else atoms_of(v)
        bad = [x for x in seen if isinstance(x, Term) and (x.op == "pem_priv" or x.op in ("rsa_d", "rsa_p", "rsa_q", "rsa_u"))]
        if w == "hash()":
            bad = []
        c.true(not bad, "%s of a %s shows %s" % (w, cname, render(bad[0]) if bad else ""), "private key exposed")
        c.true(pw not in seen, "%s of a %s shows the passphrase" % (w, cname), "passphrase exposed")
    for w in (0, 1):
        v = c.must(shown[w][1], shown[w][0])
        c.true(kind_of(v) == "str", "%s of a key pair is not text" % shown[w][0])
        c.true(nick in atoms_of(models._fz(I, v)), "%s of a key pair does not show its nickname" % shown[w][0])
    # no copy of the passphrase or of an export stays in the key pair
    for n, v in A.attrs.items():
        fz = models._fz(I, v) if not isinstance(v, Opaque) else v
        at = atoms_of(fz) if not isinstance(v, Opaque) else set()
        c.true(pw not in at, "the key pair keeps its passphrase in %s" % n, "passphrase exposed")


# ------------------------------------------------------------------ lists
def gen_auth(tier, seed):
    out = []
    for ca in ENC:
        for cb in ENC:
            for w in ("fields", "pairs", "sender", "receiver", "rekeyed", "forwarded", "resigned", "junk"):
                out.append(("tampering (%s): %s to %s" % (w, ca, cb), tampered, (ca, cb, w)))
    for cb in ENC:
        for w in ("unknown", "receiver", "any bytes"):
            out.append(("any message to %s, sender %s" % (cb, w), authentic, (cb, w)))
    return out


def gen_envelope(tier, seed):
    out = []
    for ca in ENC:
        for cb in ENC:
            for d in ("any", "empty", "constant", "zeros", "long", "key"):
                out.append(("round trip (%s data): %s to %s" % (d, ca, cb), roundtrip, (ca, cb, d)))
            for w in ("many", "renewed", "loaded", "refused"):
                out.append(("several messages (%s): %s and %s" % (w, ca, cb), crowd, (ca, cb, w)))
            out.append(("secrecy: %s to %s" % (ca, cb), secrecy, (ca, cb)))
        for op in ("encrypt", "decrypt"):
            out.append(("argument types of %s of %s" % (op, ca), enc_args, (ca, op)))
    return out


def gen_roles(tier, seed):
    return [("%s with a %s, arguments: %s" % (op, n, g), roles, (n, op, g))
            for n, ops in (("RsaAuthKeyPair", ("encrypt", "decrypt")), ("RsaEncKeyPair", ("sign", "signature_valid"))) for op in ops for g in GIVEN]


def gen_export(tier, seed):
    out = []
    for n in ALL:
        for w in ("string", "file", "file twice"):
            out.append(("%s exported to a %s" % (n, w), exported, (n, w)))
            if " " not in w:
                out.append(("nicknames of %s exported to a %s" % (n, w), nicknames, (n, w)))
        out.append(("export arguments of %s" % n, export_args, (n,)))
    return out


def gen_sign(tier, seed):
    return [("signatures (%s): %s and %s" % (w, a, b), signatures, (a, b, w)) for a in SIGN for b in SIGN for w in ("accept", "reject", "keys", "any", "any key", "renewed", "types")]


def gen_password(tier, seed):
    return [("password encryption: " + w, password, (w,)) for w in ("round trip", "wrong password", "secrecy", "tampered", "types", "any input", "short input")]


def gen_keycheck(tier, seed):
    out = [("%s key checked as %s, raise=%s" % (k, t, e), keycheck, (k, t, e)) for k in ("public", "private", "public DER", "private DER", "private PKCS8", "public OpenSSH", "junk", "empty", "any", "protected") for t in ("public", "private") for e in (None, False, True)]
    out += [("keys checked again: " + ", ".join(ks), keycheck_again, (ks,)) for ks in (("public",), ("private",), ("public", "private"), ("junk", "public", "private"), ("private", "public", "junk"))]
    return out + [("argument checks", keycheck_args, ())]


def gen_views(tier, seed):
    return [("what a %s %s shows" % (s, n), views, (n, s)) for n in ALL for s in ("new", "loaded", "exported", "used")]


def gen_hash(tier, seed):
    return [("hash helpers: " + w, hashing, (w,)) for w in ("keccak", "sha", "large keccak", "large sha")]


def gen_identity(tier, seed):
    return [("identity of %s and %s" % (a, b), identity, (a, b)) for a in ALL for b in ALL] + [("new %s" % a, fresh_pairs, (a,)) for a in ALL]
