"""C40: the interfaces of key pairs and key rings."""
import ast
from core import *
import engine

PAIRS = ["AbstractKeyPair", "AbstractAuthKeyPair", "AbstractEncKeyPair"]
RINGS = ["AbstractKeyRing", "AbstractAuthKeyRing", "AbstractEncKeyRing"]
TEXT = ["__str__", "__repr__", "__hash__", "__eq__"]
USE = ["sign", "signature_valid", "encrypt", "decrypt"]
KEEP = ["from_key_file", "to_key_file", "from_key_string", "to_key_string"]
PAIR_OPS = TEXT + ["public_key_string", "public_key", "nickname", "generate_keypair"] + USE + KEEP
RING_OPS = TEXT + ["generate_keypair"] + USE + KEEP


def ops_of(name):
    return PAIR_OPS if name in PAIRS else RING_OPS


def define(c, src, **names):
    """classes of the caller's program"""
    m = ModuleV("user", "<caller>", False)
    m.ns["__name__"] = "user"
    m.ns.update(names)
    fr = engine.Frame(None, m)
    fr.vars = m.ns
    c.I.exec_block(ast.parse(src).body, fr)
    return m.ns


def body(ops):
    out = []
    for o in ops:
        if o in ("public_key_string", "public_key", "nickname"):
            out.append("    @property\n    def %s(self):\n        return 'x'\n" % o)
        elif o.startswith("from_"):
            out.append("    @classmethod\n    def %s(cls, *args):\n        return cls()\n" % o)
        elif o == "__hash__":
            out.append("    def __hash__(self):\n        return 7\n")
        else:
            out.append("    def %s(self, *args):\n        return 'x'\n" % o)
    return "".join(out) or "    pass\n"


def interface(c, name, what):
    I = c.I
    base = c.api("pymt.base", name)
    ops = ops_of(name)
    if what == "itself":
        c.raises(c.call(base), "making an object of %s" % name, "TypeError")
        c.raises(c.call(define(c, "class A(Base):\n    pass\n", Base=base)["A"]), "making an object of an empty subclass of %s" % name, "TypeError")
    elif what == "complete":
        for src in (
            "class A(Base):\n" + body(ops),
            "class P(Base):\n" + body(ops[::2]) + "class A(P):\n" + body(ops[1::2]),
            "class M:\n" + body(ops[::3]) + "class A(M, Base):\n" + body([o for i, o in enumerate(ops) if i % 3]),
        ):
            cls = define(c, src, Base=base)["A"]
            a = c.must(c.call(cls), "making an object of a complete subclass of %s" % name)
            c.true(I.isinstance_(a, base) is True, "an object of a subclass of %s is none of %s" % (name, name))
            for o in USE:
                c.equal(c.must(c.m(a, o, b"d", b"s", b"k"), o), "x", "%s of the subclass" % o)
    else:
        gone = [what] if isinstance(what, str) else list(what)
        rest = [o for o in ops if o not in gone]
        for src in ("class A(Base):\n" + body(rest), "class P(Base):\n" + body(rest[::2]) + "class A(P):\n" + body(rest[1::2])):
            cls = define(c, src, Base=base)["A"]
            c.raises(c.call(cls), "making an object of a subclass of %s without %s" % (name, " and ".join(gone)), "TypeError")


def roles(c):
    I = c.I
    A = {n: c.api("pymt.base", n) for n in PAIRS + RINGS}
    want = {"RsaKeyPair": {"AbstractKeyPair"}, "RsaAuthKeyPair": {"AbstractKeyPair", "AbstractAuthKeyPair"}, "RsaEncKeyPair": {"AbstractKeyPair", "AbstractEncKeyPair"}}
    for n, w in want.items():
        k = c.must(c.call(c.api("pymt.keypairs", n), "nick"), n)
        for b, cls in A.items():
            got = I.isinstance_(k, cls)
            c.true(got == (b in w), "an object of %s is %s" % (n, "none of " + b if b in w else "one of " + b))


def gen_interfaces(tier, seed):
    out = []
    for n in PAIRS + RINGS:
        ops = ops_of(n)
        # a class that defines __eq__ alone has a __hash__ (None) of its own
        for w in ["itself", "complete"] + [o for o in ops if o != "__hash__"]:
            out.append(("interface: %s, %s" % (n, w if w in ("itself", "complete") else "without " + w), interface, (n, w)))
        for i, o in enumerate(ops):
            w = (o, ops[(i + 3) % len(ops)])
            out.append(("interface: %s, without %s" % (n, " and ".join(w)), interface, (n, w)))
    return out + [("roles of the RSA key pairs", roles, ())]
