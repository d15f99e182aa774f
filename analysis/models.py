"""Transfer functions for builtins and for the external libraries the package uses.

Hashes, encodings, signatures and ciphers are free constructors of the term algebra
(perfect cryptography); their inverses cancel.
"""
import ast
import math

from values import *
from engine import NO, PyRaise, Infeasible, Func as _F

MISSING_MODULES = {"django", "sha3"}

DUNDER = {
    "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
    "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
    "MatMult": "matmul",
}

HLEN = {
    "keccak256": 32, "keccak224": 28, "keccak384": 48, "keccak512": 64, "sha256": 32, "sha224": 28, "sha384": 48,
    "sha512": 64, "md5": 16, "sha1": 20, "sha3_256": 32, "sha3_224": 28, "sha3_384": 48, "sha3_512": 64,
    "blake2b": 64, "blake2s": 32,
}

EXT_EXC_BASES = {
    "rlp.exceptions.DecodingError": (Exception, BaseException),
    "rlp.exceptions.DeserializationError": (Exception, BaseException),
    "json.decoder.JSONDecodeError": (ValueError, Exception, BaseException),
    "dataclasses.FrozenInstanceError": (AttributeError, Exception, BaseException),
    "binascii.Error": (ValueError, Exception, BaseException),
    "queue.Empty": (Exception, BaseException),
}
EXT_EXC_PARENTS = {
    "rlp.exceptions.DecodingError": ("rlp.exceptions.RLPException", "rlp.RLPException", "rlp.DecodingError"),
    "rlp.exceptions.DeserializationError": ("rlp.exceptions.RLPException", "rlp.DeserializationError"),
    "json.decoder.JSONDecodeError": ("json.JSONDecodeError",),
}


def on_catch(I, e):
    pass


def unwrap(v):
    return v.fn if isinstance(v, (StaticM, ClassM)) else v


# ----------------------------------------------------------------- term algebra
RANDOM = ("rand", "nonce")
CTORS = {"H", "hex", "utf8", "rlp", "pem_pub", "pem_priv", "sig", "oaep", "ct", "tag", "json", "hp", "be", "repr"}


def cat(I, parts, kind="bytes"):
    out = []
    for p in parts:
        if isinstance(p, BArr):
            p = p.val
        if isinstance(p, Term) and p.op == "cat":
            out.extend(p.args[0])
        else:
            out.append(p)
    merged = []
    for p in out:
        if isinstance(p, (bytes, str)):
            if not p:
                continue
            if merged and isinstance(merged[-1], type(p)):
                merged[-1] = merged[-1] + p
                continue
        elif isinstance(p, Term):
            if p.op == "bseq" and merged and isinstance(merged[-1], bytes):
                merged[-1] = mkbseq(tuple(merged[-1]) + p.args[0])
                continue
            if p.op == "bseq" and merged and isinstance(merged[-1], Term) and merged[-1].op == "bseq":
                merged[-1] = mkbseq(merged[-1].args[0] + p.args[0])
                continue
            # rejoin adjacent slices of one value
            if merged and p.op == "slice" and isinstance(merged[-1], Term) and merged[-1].op == "slice":
                a, b = merged[-1], p
                if a.args[0] is b.args[0] and a.args[2] is not None and a.args[2] == b.args[1]:
                    merged[-1] = mkslice(I, a.args[0], a.args[1], b.args[2])
                    continue
        elif isinstance(p, (int, Lin)) or p is None or isinstance(p, (List, Dict, tuple)):
            I.throw(TypeError, "can't concat")
        merged.append(p)
    if isinstance(merged and merged[-1], Term) and merged[-1].op == "bseq" and len(merged) == 1:
        return merged[0]
    if not merged:
        return b"" if kind == "bytes" else ""
    for m in merged:
        k = kind_of(m)
        if k == "any":
            continue
        if k != kind:
            I.throw(TypeError, "can't concat %s to %s" % (k, kind))
    if len(merged) == 1:
        return merged[0]
    return mk("cat", tuple(merged), kind=kind)


def mkbseq(elems):
    if all(isinstance(e, int) for e in elems):
        return bytes(elems)
    return mk("bseq", tuple(elems))


def mkslice(I, x, a, b):
    if a == 0 and b is None:
        return x
    n = I.blen(x)
    if a == 0 and isinstance(n, int) and b is not None and b >= n:
        return x
    return mk("slice", x, a, b, kind=x.kind)


def rlp_bounds(I, c):
    """bounds on the length of the RLP encoding of content c"""
    if isinstance(c, tuple):
        lo = hi = 0
        for x in c:
            if isinstance(x, tuple):
                t = mk("rlp", x)
                a, b = I.bounds_term(mk("len", t, kind="int"))
            else:
                a, b = rlp_bounds(I, x)
            lo += a
            hi = None if hi is None or b is None else hi + b
        return lo + hdr(lo), (None if hi is None else hi + hdr(hi))
    if isinstance(c, bytes):
        n = len(c)
        if n == 1 and c[0] < 0x80:
            return 1, 1
        return n + hdr(n), n + hdr(n)
    n = I.blen(c)
    lo, hi = I.bounds(n)
    lo = max(lo or 0, 0)
    if lo == hi:
        if lo == 1:
            if isinstance(c, Term) and c.op == "hp":
                return 1, 1
            return 1, 2
        return lo + hdr(lo), lo + hdr(lo)
    return (lo if lo == 1 else lo + hdr(lo)), (None if hi is None else hi + hdr(hi))


def hdr(n):
    if n <= 55:
        return 1
    return 1 + (n.bit_length() + 7) // 8


def term_len(I, t):
    if isinstance(t, Lin):
        I.throw(TypeError, "object of type 'int' has no len()")
    op = t.op
    if op == "sym":
        m = t.meta
        if m.get("lo") is not None and m.get("lo") == m.get("hi"):
            return m["lo"]
    elif op == "H":
        return HLEN[t.args[0]]
    elif op == "hex":
        return lscale(I.blen(t.args[0]), 2)
    elif op == "unhex":
        pass
    elif op == "utf8" and isinstance(t.args[0], Term) and t.args[0].op == "hex":
        return I.blen(t.args[0])
    elif op == "cat":
        n = 0
        for p in t.args[0]:
            n = ladd(n, I.blen(p))
        return n
    elif op == "bseq":
        return len(t.args[0])
    elif op == "slice":
        x, a, b = t.args
        n = I.blen(x)
        if isinstance(n, int):
            return len(range(*slice(a, b).indices(n)))
        lo, hi = I.bounds(n)
        if b is not None and b >= 0 and a >= 0 and lo is not None and lo >= b:
            return b - a
        if b is None and a >= 0 and lo is not None and lo >= a:
            return ladd(n, -a)
    elif op == "tag" or op == "nonce":
        return t.args[5] if op == "tag" and len(t.args) > 5 else 16
    elif op in ("sig", "oaep"):
        return rsa_bytes(t.args[0])
    elif op == "ct":
        return I.blen(t.args[3])
    elif op == "dec":
        return I.blen(t.args[3])
    elif op == "rlp":
        lo, hi = rlp_bounds(I, t.args[0])
        if lo == hi:
            return lo
    elif op == "hp":
        return t.args[0].hp_len(I)
    if t.kind not in ("bytes", "str", "any"):
        I.throw(TypeError, "object of type '%s' has no len()" % t.kind)
    return Lin({mk("len", t, kind="int"): 1}, 0)


def rsa_bytes(K):
    n = K.meta.get("bits") if K.op == "sym" else None
    return (n + 7) // 8 if n else Lin({mk("rsabytes", K, kind="int"): 1}, 0)


def rsa_bits(K):
    n = K.meta.get("bits") if K.op == "sym" else None
    return n if n else Lin({mk("rsabits", K, kind="int"): 1}, 0)


def term_bounds(I, t):
    if t.op == "rsabits":
        return 1024, None
    if t.op == "rsabytes":
        return 128, None
    if t.op == "len":
        x = t.args[0]
        if isinstance(x, Term):
            if x.op == "sym":
                return x.meta.get("lo", 0), x.meta.get("hi")
            if x.op == "rlp":
                return rlp_bounds(I, x.args[0])
            if x.op == "slice":
                a, b = x.args[1], x.args[2]
                lo, hi = I.bounds(I.blen(x.args[0]))
                if a is not None and b is not None and 0 <= a <= b:
                    return 0, b - a
                return 0, hi
            if x.op in ("hp",):
                return 1, None
            if x.op == "utf8":
                lo, hi = I.bounds(lin(I.blen(x.args[0])))
                return lo or 0, None if hi is None else 4 * hi
            if x.op == "cat":
                return I.bounds(lin(I.blen(x)))
            if x.op in ("json", "pem_pub", "pem_priv"):
                return 2, None
        return 0, None
    if t.op == "sym":
        return t.meta.get("lo"), t.meta.get("hi")
    if t.op == "byteat":
        return 0, 255
    if t.op in ("mod",):
        return 0, t.args[1] - 1
    if t.op == "fdiv":
        lo, hi = I.bounds(t.args[0])
        k = t.args[1]
        return (None if lo is None else lo // k), (None if hi is None else hi // k)
    if t.op == "intof":
        return 0, None
    if t.op in ("count",):
        return t.args[-2], t.args[-1]
    return None, None


def split16(I, l, k=16):
    """l = k*q + r with 0 <= r < k, if evident; also for differences."""
    q, r = {}, {}
    for t, c in l.co:
        if c % k == 0:
            q[t] = c // k
        else:
            r[t] = c
    c = l.c
    R = Lin(r, c % k)
    Q = Lin(q, c // k)
    lo, hi = I.bounds(R)
    if lo is not None and hi is not None and -k < lo and hi < k:
        return unlin(Q), unlin(R)
    R2 = Lin(r, c % k - k)
    lo, hi = I.bounds(R2)
    if lo is not None and hi is not None and -k < lo and hi < k:
        return unlin(Lin(q, c // k + 1)), unlin(R2)
    return None, None


def divmod_const(I, v, k):
    l = lin(v)
    if not l.co:
        return l.c // k, l.c % k
    q, r = {}, {}
    for t, c in l.co:
        if c % k == 0:
            q[t] = c // k
        else:
            # split coefficient
            if c // k and (c % k):
                q[t] = c // k
            r[t] = c % k
    Q, R = Lin(q, l.c // k), Lin(r, l.c % k)
    lo, hi = I.bounds(R)
    if lo is not None and hi is not None and lo >= 0 and hi < k:
        return unlin(Q), unlin(R)
    lo, hi = I.bounds(l)
    if lo is not None and hi is not None and lo // k == hi // k:
        return lo // k, ladd(l, -k * (lo // k))
    return Lin({mk("fdiv", l, k, kind="int"): 1}, 0), Lin({mk("mod", l, k, kind="int"): 1}, 0)


def eq_ints(I, a, b):
    d = lin(ladd(a, b, -1))
    if len(d.co) == 2 and d.c == 0:
        (t1, k1), (t2, k2) = d.co
        if t1.op == "intof" == t2.op and k1 == -k2 and abs(k1) == 1:
            return I.eq3(t1.args[0], t2.args[0])
    if len(d.co) == 1 and d.co[0][0].op == "intof":
        return False
    return None


def force_eq_ints(I, a, b, label):
    d = lin(ladd(a, b, -1))
    if len(d.co) == 2 and d.c == 0:
        (t1, k1), (t2, k2) = d.co
        if t1.op == "intof" == t2.op and k1 == -k2 and abs(k1) == 1:
            return I.eq(t1.args[0], t2.args[0], label)
    return None


def fkey(a, b):
    x, y = sorted([hk(a), hk(b)], key=lambda q: (str(type(q)), repr(q), id(q)))
    return ("eq", x, y)


def eq_terms(I, a, b):
    """three-valued equality of bytes/str values"""
    if a is b:
        return True
    if not isinstance(a, Term) and not isinstance(b, Term):
        return a == b
    if isinstance(b, Term) and not isinstance(a, Term):
        a, b = b, a
    r = I.facts.get(fkey(a, b))
    if r is not None:
        return r
    if a.kind != "any" and kind_of(b) != "any":
        la, lb = I.blen(a), I.blen(b)
        if I.eq0_3(ladd(la, lb, -1)) is False:
            return False
    if a.op == "bseq":
        eb = b.args[0] if isinstance(b, Term) and b.op == "bseq" else (tuple(b) if isinstance(b, bytes) else None)
        if eb is not None:
            res = True
            for x, y in zip(a.args[0], eb):
                r = I.eq3(x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
    if not isinstance(b, Term):
        if a.op == "rlp":
            c = a.args[0]
            return False if not _conc(c) else _rlp_enc(c) == b
        if a.op == "hp":
            return a.args[0].hp_eq_const(I, a.args[1], b)
        if a.op == "cat":
            return _cat_eq(I, a, b)
        if a.op in ("H", "sig", "oaep", "tag", "pem_pub", "pem_priv", "ct"):
            return False
        if a.op == "hex":
            try:
                return I.eq3(a.args[0], bytes.fromhex(b))
            except ValueError:
                return False
        if a.op == "utf8":
            try:
                return I.eq3(a.args[0], b.decode())
            except UnicodeDecodeError:
                return False
        if a.op == "json":
            return False
        if a.op == "sym" and a.meta.get("generic"):
            if len(b) == 0:
                return I.eq0_3(lin(I.blen(a)))
            return False
        return None
    if a.op in CTORS and b.op in CTORS:
        if a.op != b.op:
            return False
        return _args_eq(I, a, b)
    if a.op == "sym" and b.op == "sym":
        ga, gb = a.meta.get("group"), b.meta.get("group")
        if ga is not None and ga == gb:
            return False
        if a.meta.get("generic") and b.meta.get("generic") and (ga in RANDOM or gb in RANDOM):
            return False
        return None
    if a.op == "oaepdec" or b.op == "oaepdec":
        # a secret nobody knows: chosen-ciphertext security of RSA-OAEP
        return _args_eq(I, a, b) if a.op == b.op else False
    for x, y in ((a, b), (b, a)):
        if x.op == "sym" and x.meta.get("generic") and y.op in CTORS:
            return False
        if x.op == "sym" and x.meta.get("nohash") and y.op == "cat" and any(isinstance(p, Term) and p.op == "H" for p in y.args[0]):
            return False
    if a.op == "cat" or b.op == "cat":
        return _cat_eq(I, a, b)
    return None


def _conc(c):
    if isinstance(c, tuple):
        return all(_conc(x) for x in c)
    return isinstance(c, bytes)


def _rlp_enc(c):
    if isinstance(c, bytes):
        if len(c) == 1 and c[0] < 0x80:
            return c
        return _hd(len(c), 0x80) + c
    p = b"".join(_rlp_enc(x) for x in c)
    return _hd(len(p), 0xC0) + p


def _hd(n, o):
    if n <= 55:
        return bytes([o + n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([o + 55 + len(b)]) + b


def _rlp_dec(b, strict=True):
    def item(i):
        x = b[i]
        if x < 0x80:
            return b[i:i + 1], i + 1
        if x < 0xB8:
            n, j = x - 0x80, i + 1
        elif x < 0xC0:
            k = x - 0xB7
            n, j = int.from_bytes(b[i + 1:i + 1 + k], "big"), i + 1 + k
        elif x < 0xF8:
            n, j = x - 0xC0, i + 1
        else:
            k = x - 0xF7
            n, j = int.from_bytes(b[i + 1:i + 1 + k], "big"), i + 1 + k
        if j + n > len(b):
            raise ValueError
        if x < 0xC0:
            return b[j:j + n], j + n
        out, e = [], j + n
        while j < e:
            v, j = item(j)
            out.append(v)
        if j != e:
            raise ValueError
        return tuple(out), e

    v, e = item(0)
    if e != len(b) and strict:
        raise ValueError
    return v


def _args_eq(I, a, b):
    res = True
    if len(a.args) != len(b.args):
        return False
    for x, y in zip(a.args, b.args):
        r = _arg_eq(I, x, y)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def _arg_eq(I, x, y):
    if x is y:
        return True
    if hasattr(x, "model_eq3"):
        return x.model_eq3(I, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return False
        res = True
        for p, q in zip(x, y):
            r = _arg_eq(I, p, q)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if isinstance(x, tuple) != isinstance(y, tuple):
        return False
    return I.eq3(x, y)


def _parts(x):
    if isinstance(x, Term) and x.op == "cat":
        return list(x.args[0])
    return [x]


def _strip(I, a, b):
    """strip common prefix/suffix parts of two concatenations"""
    a, b = _parts(a), _parts(b)
    while a and b:
        x, y = a[0], b[0]
        if I.eq3(x, y) is True:
            a.pop(0)
            b.pop(0)
            continue
        lx, ly = I.blen(x), I.blen(y)
        if isinstance(x, (bytes, str)) and isinstance(y, (bytes, str)):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return None
            a[0], b[0] = x[n:], y[n:]
            if not a[0]:
                a.pop(0)
            if not b[0]:
                b.pop(0)
            continue
        if I.eq0_3(ladd(lx, ly, -1)) is True:
            if I.eq3(x, y) is False:
                return None
        break
    while a and b:
        if I.eq3(a[-1], b[-1]) is True:
            a.pop()
            b.pop()
            continue
        x, y = a[-1], b[-1]
        lx, ly = I.blen(x), I.blen(y)
        if I.eq0_3(ladd(lx, ly, -1)) is True and I.eq3(x, y) is False:
            return None
        break
    return a, b


def _cat_eq(I, a, b):
    s = _strip(I, a, b)
    if s is None:
        return False
    x, y = s
    if not x and not y:
        return True
    if not x or not y:
        rest = x or y
        r = True
        for p in rest:
            z = I.eq0_3(I.blen(p))
            if z is False:
                return False
            if z is None:
                r = None
        return r
    if len(x) == 1 and len(y) == 1 and not (x[0] is a or y[0] is b):
        return I.eq3(x[0], y[0])
    for p, q in ((x, y), (y, x)):
        if any(_unguessable(I, t) for t in p) and not any(isinstance(t, Term) and guessable(t) for t in q):
            inside = _atoms(q)
            if any(_unguessable(I, t) and t not in inside for t in p):
                return False
    return None


def _unguessable(I, t):
    """a value of at least 8 bytes that nobody can know from independent values"""
    if isinstance(t, Term) and (t.op in ("H", "sig", "oaep", "tag") or t.op == "sym" and t.meta.get("generic") and t.meta.get("group") in RANDOM):
        lo, _ = I.bounds(lin(I.blen(t)))
        return lo is not None and lo >= 8
    return False


def _atoms(x):
    out, todo = set(), list(x)
    while todo:
        t = todo.pop()
        if isinstance(t, Term):
            if t not in out:
                out.add(t)
                todo.extend(t.args)
        elif isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, Lin):
            todo.extend(u for u, _ in t.co)
    return out


def force_eq_terms(I, a, b, label):
    if isinstance(b, Term) and not isinstance(a, Term):
        a, b = b, a
    if a.op == "bseq":
        eb = b.args[0] if isinstance(b, Term) and b.op == "bseq" else (tuple(b) if isinstance(b, bytes) else None)
        if eb is not None:
            return all(I.eq(x, y, label) for x, y in zip(a.args[0], eb))
    if isinstance(b, Term) and a.op in CTORS and a.op == b.op:
        return all(_force_arg(I, x, y, label) for x, y in zip(a.args, b.args))
    if a.op == "hp" and not isinstance(b, Term):
        return a.args[0].hp_force_const(I, a.args[1], b, label)
    if not isinstance(b, Term) and a.op == "hex":
        return I.eq(a.args[0], bytes.fromhex(b), label)
    if not isinstance(b, Term) and a.op == "utf8":
        return I.eq(a.args[0], b.decode(), label)
    if (a.op == "cat" or (isinstance(b, Term) and b.op == "cat")):
        s = _strip(I, a, b)
        if s is None:
            return False
        x, y = s
        if not x or not y:
            return all(I.eq0(I.blen(p), "length") for p in (x or y))
        if len(x) == 1 and len(y) == 1 and not (x[0] is a or y[0] is b):
            return I.eq(x[0], y[0], label)
    if a.kind != "any" and kind_of(b) != "any":
        la, lb = I.blen(a), I.blen(b)
        if isinstance(b, (bytes, str)) and len(b) == 0:
            return I.eq0(la, "%s is empty" % render(a))
    if I.exact and not all(not isinstance(x, Term) or x.op == "sym" for x in (a, b)):
        raise Unsupported("cannot decide whether %s equals %s" % (render(a), render(b)))
    k = fkey(a, b)
    r = I.choose_bool("%s == %s" % (render(a), render(b)))
    I.facts[k] = r
    if r and a.kind != "any" and kind_of(b) != "any":
        if I.eq0_3(ladd(la, lb, -1)) is None:
            d = ladd(la, lb, -1)
            I._refine(d, "==")
    return r


def free_int(t):
    """an unknown integer nothing else determines"""
    return isinstance(t, Term) and (t.op in ("sym", "rsabits", "rsabytes") or t.op == "len" and isinstance(t.args[0], Term) and t.args[0].op == "sym")


def _force_arg(I, x, y, label):
    if hasattr(x, "model_eq3"):
        return x.model_force_eq(I, y, label)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_force_arg(I, p, q, label) for p, q in zip(x, y))
    r = _arg_eq(I, x, y)
    return I.eq(x, y, label) if r is None else r


# ----------------------------------------------------------------- operators
def binop(I, op, a, b):
    if isinstance(a, EnumMember) and a.cls.is_enum == "mixed":
        a = a.value
    if isinstance(b, EnumMember) and b.cls.is_enum == "mixed":
        b = b.value
    if isinstance(a, Instance) or isinstance(b, Instance):
        n = DUNDER[op]
        if isinstance(a, Instance):
            m = I.find_class_attr(a.cls, "__%s__" % n)
            if m is not NO:
                r = I.call(I.bind(m, a), [b])
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Instance):
            m = I.find_class_attr(b.cls, "__r%s__" % n)
            if m is not NO:
                r = I.call(I.bind(m, b), [a])
                if r is not NOTIMPL:
                    return r
        for x in (a, b):
            if isinstance(x, Instance) and isinstance(x.cls, Cls):
                I.opaque_base(x.cls, "__%s__" % n)
        I.throw(TypeError, "unsupported operand")
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
        import operator as o

        f = {
            "Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod,
            "Pow": o.pow, "LShift": o.lshift, "RShift": o.rshift, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor,
        }[op]
        return I.conc(f, a, b)
    ka, kb = kind_of(a), kind_of(b)
    if isinstance(a, Term) and ka == "int":
        a = lin(a)
    if isinstance(b, Term) and kb == "int":
        b = lin(b)
    if ka in ("int", "bool") and kb in ("int", "bool"):
        if isinstance(a, Term):
            a = 1 if I.truth(a) else 0
        if isinstance(b, Term):
            b = 1 if I.truth(b) else 0
        return int_op(I, op, a, b)
    seq = ("bytes", "bytearray", "str")
    if op == "Add":
        if ka in ("bytes", "bytearray") and kb in ("bytes", "bytearray"):
            v = cat(I, [a, b])
            return BArr(v) if ka == "bytearray" else v
        if ka == "str" and kb == "str":
            return cat(I, [a, b], kind="str")
        if isinstance(a, List) and isinstance(b, List):
            return List(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(a) + tuple(b)
        if isinstance(a, XDict) and isinstance(b, XDict):
            d = XDict(a.type, a.pairs(), a.missing)
            counter_add(I, d, b, 1)
            return d
        if "any" not in (ka, kb):
            I.throw(TypeError, "unsupported operand type(s) for +: '%s' and '%s'" % (ka, kb))
    if op == "Mult":
        for x, n in ((a, b), (b, a)):
            if isinstance(n, int):
                if isinstance(x, List):
                    return List(x.items * n)
                if isinstance(x, (tuple, bytes, str)):
                    return x * n
                if isinstance(x, Term):
                    return cat(I, [x] * n, kind=x.kind)
                if isinstance(x, BArr):
                    return BArr(cat(I, [x.val] * n))
    if op == "Mod" and ka in ("bytes", "bytearray"):
        x, y = I.S.topy(I, a), I.S.topy(I, b)
        if x is NO or y is NO:
            raise Unsupported("bytes formatting")
        return I.S.frompy(I, I.S.guard(I, lambda: x % y))
    if op == "Mod" and ka in ("str",):
        args = b if isinstance(b, tuple) else (b,)
        if isinstance(a, str) and all(isinstance(x, (int, str, float, bytes, type(None))) for x in args):
            return I.conc(lambda: a % args)
        r = percent(I, a, b)
        if r is not NO:
            return r
        return mk("fmt", a, tuple(_fz(I, x) for x in args), kind="str")
    if op == "BitOr" and isinstance(a, Dict) and isinstance(b, Dict):
        d = Dict(a.pairs())
        for k, v in b.pairs():
            I.dict_set(d, k, v)
        return d
    if isinstance(a, (SetV, View)) and isinstance(b, (SetV, View)):
        A, B = list(I.iterate(a)), list(I.iterate(b))
        same = lambda x, y: x is y or I.truth(I.rich_eq(x, y, "set element"))
        ina = lambda x: any(same(x, y) for y in A)
        inb = lambda x: any(same(x, y) for y in B)
        if op == "BitOr":
            return SetV(A + [x for x in B if not ina(x)])
        if op == "BitAnd":
            return SetV([x for x in A if inb(x)])
        if op == "Sub":
            return SetV([x for x in A if not inb(x)])
        if op == "BitXor":
            return SetV([x for x in A if not inb(x)] + [x for x in B if not ina(x)])
    if op == "BitOr" and isinstance(a, (BType, Cls, Ext, Opaque, type(None))) and isinstance(b, (BType, Cls, Ext, Opaque, type(None))):
        items = []
        for x in (a, b):
            items.extend(x.f["items"] if isinstance(x, Opaque) else [x if x is not None else bt(type(None))])
        return Opaque("union", items=items)
    if isinstance(a, (Term, Lin)) or isinstance(b, (Term, Lin)):
        if ka in ("bytes", "str", "int", "bool", "NoneType", "bytearray") and kb in ("bytes", "str", "int", "bool", "NoneType", "bytearray") and op in ("Sub", "FloorDiv", "BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            I.throw(TypeError, "unsupported operand types")
        raise Unsupported("operator %s on %r, %r" % (op, a, b))
    I.throw(TypeError, "unsupported operand type(s) for %s: %s and %s" % (op, ka, kb))


def percent(I, s, b):
    """'...' % args with plain %s, %r and %d placeholders"""
    import re

    if not isinstance(s, str):
        return NO
    args = list(b) if isinstance(b, tuple) else [b]
    pos, out = 0, []
    for m in re.finditer(r"%(?:\((\w+)\))?([srd%])|%", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(2) is None:
            return NO
        if m.group(2) == "%":
            out.append("%")
            continue
        if m.group(1):
            x = I.getitem(b, m.group(1))
        else:
            if not args:
                I.throw(TypeError, "not enough arguments for format string")
            x = args.pop(0)
        if m.group(2) == "d" and kind_of(x) not in ("int", "bool"):
            return NO
        out.append(to_repr(I, x) if m.group(2) == "r" else to_str(I, x))
    if args and not isinstance(b, Dict):
        I.throw(TypeError, "not all arguments converted during string formatting")
    out.append(s[pos:])
    return cat(I, out, kind="str")


def int_op(I, op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        return binop(I, op, a, b)
    if op == "Add":
        return ladd(a, b)
    if op == "Sub":
        return ladd(a, b, -1)
    if op == "Mult":
        if isinstance(a, int):
            return lscale(b, a)
        if isinstance(b, int):
            return lscale(a, b)
        raise Unsupported("non-linear product")
    if isinstance(b, int):
        if op in ("FloorDiv", "Mod"):
            if b == 0:
                I.throw(ZeroDivisionError, "division by zero")
            if b < 0:
                raise Unsupported("negative divisor")
            return divmod_const(I, a, b)[0 if op == "FloorDiv" else 1]
        if op == "RShift":
            return divmod_const(I, a, 1 << b)[0]
        if op == "LShift":
            return lscale(a, 1 << b)
        if op == "Div":
            return Term_div(I, a, b)
        if op == "Pow" and b in (0, 1):
            return a if b else 1
    if op == "LShift" and isinstance(a, int) and isinstance(b, Lin):
        raise Unsupported("shift by unknown")
    if op == "BitAnd":
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b >= 0:
            out, m, sh = 0, b, 0
            while m:
                z = (m & -m).bit_length() - 1
                m >>= z
                sh += z
                w = ((m + 1) & -(m + 1)).bit_length() - 1
                q = divmod_const(I, a, 1 << sh)[0]
                q = divmod_const(I, q, 1 << w)[1]
                out = ladd(out, lscale(q, 1 << sh))
                m >>= w
                sh += w
            return out
    if op in ("BitOr", "BitXor"):
        for x, y in ((a, b), (b, a)):
            lo, hi = I.bounds(x)
            if lo is not None and hi is not None and lo >= 0:
                n = 1 << hi.bit_length()
                l = lin(y)
                if all(k % n == 0 for _, k in l.co) and l.c % n == 0:
                    return ladd(a, b)
        if isinstance(b, int) and isinstance(a, Lin) and op == "BitOr":
            q, r = divmod_const(I, a, 16)
            if isinstance(q, int):
                bq, br = divmod(b, 16)
                if br == 0:
                    return ladd(lscale(q | bq, 16), r)
    raise Unsupported("integer operator %s" % op)


def Term_div(I, a, b):
    return mk("div", lin(a), b, kind="float")


def order(I, op, a, b, label):
    if isinstance(a, EnumMember) and a.cls.is_enum == "mixed":
        a = a.value
    if isinstance(b, EnumMember) and b.cls.is_enum == "mixed":
        b = b.value
    ka, kb = kind_of(a), kind_of(b)
    if ka in ("int", "bool", "float") and kb in ("int", "bool", "float"):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if ka == "float" or kb == "float":
            raise Unsupported("float comparison")
        lab = "%s" % label
        if op == "Lt":
            return I.lt0(ladd(a, b, -1), lab)
        if op == "GtE":
            return not I.lt0(ladd(a, b, -1), lab)
        if op == "Gt":
            return I.lt0(ladd(b, a, -1), lab)
        if op == "LtE":
            return not I.lt0(ladd(b, a, -1), lab)
    if isinstance(a, (bytes, str, tuple)) and isinstance(b, (bytes, str, tuple)) and not isinstance(a, tuple):
        return I.conc(lambda: {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])
    if isinstance(a, (tuple, List)) and isinstance(b, (tuple, List)):
        xs = list(a) if isinstance(a, tuple) else a.items
        ys = list(b) if isinstance(b, tuple) else b.items
        for x, y in zip(xs, ys):
            if not I.eq(x, y, label):
                return order(I, op, x, y, label)
        return {"Lt": len(xs) < len(ys), "LtE": len(xs) <= len(ys), "Gt": len(xs) > len(ys), "GtE": len(xs) >= len(ys)}[op]
    if isinstance(a, Instance) or isinstance(b, Instance):
        n = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
        rn = {"Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}
        for x, y, names in ((a, b, n), (b, a, rn)):
            if isinstance(x, Instance):
                m = I.find_class_attr(x.cls, names[op])
                if m is not NO and m is not None:
                    r = I.call(I.bind(m, x), [y])
                    if r is not NOTIMPL:
                        return r
                elif m is NO:
                    I.opaque_base(x.cls, names[op])
        I.throw(TypeError, "'<' not supported")
    if isinstance(a, (SetV, View)) and isinstance(b, (SetV, View)):
        a, b = as_set(I, a), as_set(I, b)
        sub = all(any(I.eq(x, y) for y in b.items) for x in a.items)
        sup = all(any(I.eq(x, y) for y in a.items) for x in b.items)
        return {"LtE": sub, "GtE": sup, "Lt": sub and not sup, "Gt": sup and not sub}[op]
    if ka in ("bytes", "str") and ka == kb:
        k = ("ord", a, b)
        r = I.facts.get(k)
        if r is None:
            if I.eq(a, b, label):
                return op in ("LtE", "GtE")
            r = I.choose_bool("%s < %s" % (render(a), render(b)))
            I.facts[k] = r
            I.facts[("ord", b, a)] = not r
        return r if op in ("Lt", "LtE") else not r
    if "any" in (ka, kb):
        raise Unsupported("ordering of unknown values")
    I.throw(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (op, ka, kb))


def contains(I, c, x):
    if isinstance(c, BArr):
        return I.contains(c.val, x)
    if isinstance(x, BArr):
        return I.contains(c, x.val)
    if isinstance(c, Term) and c.op == "bseq":
        return any(I.eq(e, x) for e in c.args[0])
    if isinstance(c, Term) and c.kind in ("bytes", "str", "any"):
        if isinstance(x, (bytes, str)) and len(x) == 0:
            return True
        k = ("in", hk(c), hk(x))
        r = I.facts.get(k)
        if r is None:
            r = I.choose_bool("%s in %s" % (render(x), render(c)))
            I.facts[k] = r
        return r
    if isinstance(c, (bytes, str)) and isinstance(x, Term):
        k = ("in", hk(c), hk(x))
        r = I.facts.get(k)
        if r is None:
            r = I.choose_bool("%s in %s" % (render(x), render(c)))
            I.facts[k] = r
        return r
    if c is None or isinstance(c, (int, Lin)):
        I.throw(TypeError, "argument is not iterable")
    raise Unsupported("containment in %r" % (c,))


def iterate(I, v):
    if isinstance(v, Term):
        if v.op == "bseq":
            yield from v.args[0]
            return
        n = I.blen(v) if v.kind in ("bytes", "str") else None
        if isinstance(n, int) and v.kind == "bytes":
            for i in range(n):
                yield byte_at(I, v, i)
            return
        if v.kind in ("int", "bool", "float"):
            I.throw(TypeError, "'%s' object is not iterable" % v.kind)
        if n is not None:
            for i in range(4):
                if I.lt0(ladd(n, -i - 1), "length of %s < %d" % (render(v), i + 1)):
                    return
                yield getitem(I, v, i)
        raise Unsupported("iteration over unknown %r" % v)
    if isinstance(v, Opaque) and v.type == "file":
        yield from file_lines(I, v)
        return
    if v is None or isinstance(v, (int, float, Lin, Func, Bound, Cls, BType)):
        I.throw(TypeError, "'%s' object is not iterable" % I.type_name(v))
    raise Unsupported("iteration over %r" % (v,))


def file_lines(I, v):
    raise Unsupported("iteration over file")
    yield


def byte_at(I, x, i):
    if isinstance(x, Term) and x.op == "bseq":
        return x.args[0][i]
    return Lin({mk("byteat", x, i, kind="int"): 1}, 0)


def norm_index(I, k, n):
    if isinstance(k, bool):
        k = int(k)
    return k


def getitem(I, o, k):
    if isinstance(o, (List, tuple)):
        items = o.items if isinstance(o, List) else o
        if isinstance(k, Lin):
            lo, hi = I.bounds(k)
            if lo is not None and hi is not None and 0 <= lo and hi < 64:
                for c in range(lo, hi + 1):
                    if I.eq(k, c, "index"):
                        return getitem(I, o, c)
            raise Unsupported("unknown index")
        if isinstance(k, slice):
            k = conc_slice(I, k)
            r = items[k]
            return List(r) if isinstance(o, List) else r
        if not isinstance(k, int):
            I.throw(TypeError, "indices must be integers or slices, not %s" % I.type_name(k))
        return I.conc(lambda: items[k])
    if isinstance(o, (bytes, str, range)):
        if isinstance(k, slice):
            k = conc_slice(I, k)
            return o[k]
        if isinstance(k, int):
            return I.conc(lambda: o[k])
        if isinstance(k, Lin):
            lo, hi = I.bounds(k)
            if lo is not None and hi is not None and hi - lo < 64:
                for c in range(lo, hi + 1):
                    if I.eq(k, c, "index"):
                        return getitem(I, o, c)
            raise Unsupported("unknown index")
        I.throw(TypeError, "indices must be integers, not %s" % I.type_name(k))
    if isinstance(o, BArr):
        r = getitem(I, o.val, k)
        return BArr(r) if isinstance(k, slice) else r
    if isinstance(o, Term):
        if o.kind in ("bytes", "str"):
            if isinstance(k, slice):
                return term_slice(I, o, k)
            if isinstance(k, int):
                n = I.blen(o)
                if o.op == "cat":
                    if k >= 0:
                        pos = 0
                        for p in o.args[0]:
                            l = I.blen(p)
                            if not isinstance(l, int):
                                break
                            if k < pos + l:
                                return getitem(I, p, k - pos)
                            pos += l
                if k >= 0:
                    if I.lt0(ladd(ladd(n, -k - 1), 0), "length of %s < %d" % (render(o), k + 1)):
                        I.throw(IndexError, "index out of range")
                else:
                    if I.lt0(ladd(n, k), "length of %s < %d" % (render(o), -k)):
                        I.throw(IndexError, "index out of range")
                if o.op == "hp":
                    return o.args[0].hp_byte(I, o.args[1], k)
                if o.kind == "bytes":
                    if o.op == "bseq":
                        return o.args[0][k]
                    return byte_at(I, o, k)
                return mk("charat", o, k, kind="str")
            if k is None or isinstance(k, (bytes, str, float, tuple, List)) or isinstance(k, Term) and k.kind in ("bytes", "str"):
                I.throw(TypeError, "indices must be integers, not %s" % I.type_name(k))
            raise Unsupported("index of unknown bytes")
        if o.kind == "any" and o.op in ("jdoc", "jfield"):
            return json_field(I, o, k)
        if o.kind in ("int", "bool"):
            I.throw(TypeError, "'int' object is not subscriptable")
        raise Unsupported("subscript of %r" % o)
    if isinstance(o, Ext):
        return o
    if isinstance(o, BType):
        return o
    if isinstance(o, Cls):
        if o.is_enum and isinstance(k, str):
            return I.getattr(o, k)
        m = I.find_class_attr(o, "__class_getitem__")
        if m is not NO:
            return I.call(Bound(unwrap(m), o), [k])
        return o
    if o is None or isinstance(o, (int, float, Lin, Func, Bound, EnumMember, View, IterV, SetV)):
        I.throw(TypeError, "'%s' object is not subscriptable" % I.type_name(o))
    if isinstance(o, Opaque) and o.type == "environ":
        raise Unsupported("environment")
    raise Unsupported("subscript of %r" % (o,))


def conc_slice(I, k):
    def f(x):
        if isinstance(x, Lin):
            lo, hi = I.bounds(x)
            if lo is not None and hi is not None and hi - lo < 64:
                for c in range(lo, hi + 1):
                    if I.eq(x, c, "slice bound"):
                        return c
            raise Unsupported("unknown slice bound")
        if x is not None and not isinstance(x, int):
            I.throw(TypeError, "slice indices must be integers or None")
        return x

    return slice(f(k.start), f(k.stop), f(k.step))


FIELD = {"Y": 4, "m": 2, "d": 2, "H": 2, "I": 2, "M": 2, "S": 2, "y": 2, "f": 6, "j": 3, "z": 5, "%": 1}


def time_slice(I, o, k):
    """part of the text of a time, where it consists of whole fields (an offset has the form +hhmm)"""
    import re

    u = o.args[0] if o.op == "utf8" else o
    fmt = u.args[1]
    if not isinstance(fmt, str) or any(x is not None and not isinstance(x, int) for x in (k.start, k.stop)):
        return None
    at, n = {}, 0
    for m in re.finditer("%(.)|(.)", fmt, re.S):
        at[n] = m.start()
        if m.group(1) is not None:
            if m.group(1) not in FIELD or m.group(1) == "z" and not u.args[2]:
                return None
            n += FIELD[m.group(1)]
        else:
            n += 1
    at[n] = len(fmt)
    a, b, _ = slice(k.start, k.stop).indices(n)
    if a >= b:
        return b"" if o.op == "utf8" else ""
    if a not in at or b not in at:
        return None
    r = mk("dtstr", u.args[0], fmt[at[a]:at[b]], u.args[2], kind="str")
    return encode(I, r) if o.op == "utf8" else r


def term_slice(I, o, k):
    a, b, st = k.start, k.stop, k.step
    if st in (None, 1) and (o.op == "dtstr" or o.op == "utf8" and isinstance(o.args[0], Term) and o.args[0].op == "dtstr"):
        r = time_slice(I, o, k)
        if r is not None:
            return r
    if st not in (None, 1):
        if o.op == "bseq":
            return mkbseq(o.args[0][conc_slice(I, k)])
        raise Unsupported("stepped slice")
    n = I.blen(o)
    # bounds that equal the length
    def isn(x):
        return isinstance(x, Lin) and isinstance(n, Lin) and x == n

    if isn(b):
        b = None
    if isn(a):
        return b"" if o.kind == "bytes" else ""
    if isinstance(a, Lin) or isinstance(b, Lin):
        if o.op == "cat":
            return cat_slice(I, o, a, b)
        k = conc_slice(I, slice(a, b))
        a, b = k.start, k.stop
    if o.op == "bseq":
        return mkbseq(o.args[0][slice(a, b)])
    a = a or 0
    if isinstance(n, int):
        a, b, _ = slice(a, b).indices(n)
        if b <= a:
            return b"" if o.kind == "bytes" else ""
        if a == 0 and b == n:
            return o
    if o.op == "cat":
        return cat_slice(I, o, a, b)
    if o.op == "slice" and isinstance(o.args[1], int) and a >= 0:
        x, a0, b0 = o.args
        if a0 >= 0 and (b is None or b >= 0):
            nb = b0 if b is None else (a0 + b if b0 is None or b0 < 0 else min(b0, a0 + b))
            if not (b0 is not None and b0 < 0 and b is not None):
                return mkslice(I, x, a0 + a, nb)
    if o.op == "hp" and a == 0 and b is None:
        return o
    return mkslice(I, o, a, b)


def cat_slice(I, o, a, b):
    parts = list(o.args[0])
    a = a if a is not None else 0

    def cut(parts, k):
        """split parts at offset k (k>=0 or Lin)"""
        head = []
        rest = k
        ps = list(parts)
        while ps:
            if rest == 0:
                break
            l = I.blen(ps[0])
            d = ladd(rest, l, -1)
            lo, hi = I.bounds(d)
            if lo is not None and lo >= 0:
                head.append(ps.pop(0))
                rest = d
                continue
            if isinstance(rest, int):
                p = ps.pop(0)
                head.append(getitem(I, p, slice(None, rest)))
                ps.insert(0, getitem(I, p, slice(rest, None)))
                rest = 0
                break
            raise Unsupported("slice of concatenation")
        return head, ps

    def fromend(k):
        n = I.blen(o)
        return ladd(n, k)

    if isinstance(a, int) and a < 0:
        a = fromend(a)
    if isinstance(b, int) and b < 0:
        b = fromend(b)
    if b is not None:
        head, _ = cut(parts, b)
        parts = head
    _, tail = cut(parts, a)
    return cat(I, tail, kind=o.kind)


def setitem(I, o, k, v):
    if isinstance(o, List):
        if isinstance(k, Lin):
            lo, hi = I.bounds(k)
            if lo is not None and hi is not None and hi - lo < 64:
                for c in range(lo, hi + 1):
                    if I.eq(k, c, "index"):
                        k = c
                        break
        if isinstance(k, slice):
            o.items[conc_slice(I, k)] = list(I.iterate(v))
            return
        if not isinstance(k, int):
            if is_abs(k):
                raise Unsupported("store at unknown index")
            I.throw(TypeError, "list indices must be integers")

        def st():
            o.items[k] = v

        I.conc(st)
        if o.tag is not None and hasattr(o.tag, "mutated"):
            o.tag.mutated(I, o)
        return
    if isinstance(o, BArr) and isinstance(k, (int, slice)):
        if isinstance(k, slice) and k.step in (None, 1):
            x = mk_bytes(I, [v], {})
            n = I.blen(o)
            if isinstance(n, int):
                i, j, _ = conc_slice(I, k).indices(n)
                j = max(i, j)
                o.val = cat(I, [getitem(I, o.val, slice(0, i)), x, getitem(I, o.val, slice(j, n))])
            else:
                i = k.start or 0
                o.val = cat(I, [getitem(I, o.val, slice(0, i)), x] + ([getitem(I, o.val, slice(k.stop, None))] if k.stop is not None else []))
            return
        el = List(barr_elems(I, o))
        setitem(I, el, k, v)
        o.val = mk_bytes(I, [el], {})
        return
    if isinstance(o, (tuple, bytes, str)) or o is None or isinstance(o, int) or isinstance(o, Term) and o.kind in ("bytes", "str"):
        I.throw(TypeError, "object does not support item assignment")
    raise Unsupported("item assignment on %r" % (o,))


# ----------------------------------------------------------------- strings
def _fz(I, v):
    """freeze a value for use as term argument"""
    if isinstance(v, (List,)):
        return ("l",) + tuple(_fz(I, x) for x in v.items)
    if isinstance(v, tuple):
        return ("t",) + tuple(_fz(I, x) for x in v)
    if isinstance(v, Dict):
        return ("d",) + tuple((_fz(I, k), _fz(I, x)) for k, x in v.pairs())
    if isinstance(v, BArr):
        return _fz(I, v.val)
    if isinstance(v, (Term, Lin, bytes, str, int, float, type(None), bool)):
        return v
    if isinstance(v, (BType, Cls)):
        return v.name
    return repr(type(v))


def to_str(I, v):
    if isinstance(v, Term) and v.kind == "str":
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, Instance):
        for n in ("__str__", "__repr__"):
            m = I.find_class_attr(v.cls, n)
            if m is not NO and isinstance(m, Func):
                return I.call(I.bind(m, v), [])
            if m is not NO and isinstance(m, Builtin):
                return I.call(I.bind(m, v), [])
            if n == "__str__" and I.is_exc(v.cls):
                return exc_text(I, v, "str")
        return mk("objstr", getattr(v.cls, "name", None) or v.cls.path, kind="str")
    if isinstance(v, EnumMember) and v.cls.is_enum == "mixed":
        return to_str(I, v.value)
    return to_repr(I, v, conv="str")


def exc_text(I, v, how):
    a = v.attrs.get("args", ())
    name = getattr(v.cls, "name", None) or v.cls.path.rsplit(".", 1)[-1]
    if how == "str":
        if I.exc_match(v, (bt(UnicodeError), bt(OSError), bt(SyntaxError))) and len(a) > 1:
            raise Unsupported("text of %s" % name)
        if len(a) == 0:
            return ""
        if len(a) == 1:
            return to_repr(I, a[0]) if I.exc_match(v, bt(KeyError)) else to_str(I, a[0])
        return to_repr(I, tuple(a))
    if len(a) == 1:
        return cat(I, [name, "(", to_repr(I, a[0]), ")"], kind="str")
    return cat(I, [name, to_repr(I, tuple(a))], kind="str")


def to_repr(I, v, conv="repr"):
    if isinstance(v, (int, float, bytes, type(None), bool, str)):
        return repr(v)
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__repr__")
        if m is not NO and isinstance(m, (Func, Builtin)):
            return I.call(I.bind(m, v), [])
        if I.is_exc(v.cls):
            return exc_text(I, v, "repr")
        return mk("objstr", getattr(v.cls, "name", None) or v.cls.path, kind="str")
    if isinstance(v, EnumMember):
        if I.find_class_attr(v.cls, "__" + conv + "__") is not NO:
            return I.call(I.getattr(v, "__" + conv + "__"), [])
        if conv == "str":
            return "%s.%s" % (v.cls.name, v.name)
        return cat(I, ["<%s.%s: " % (v.cls.name, v.name), to_repr(I, v.value), ">"], kind="str")
    if isinstance(v, NTup):
        return cat(I, [v.cls.name, "("] + [p for i, (n, x) in enumerate(zip(v.cls.ns["_fields"], v)) for p in (", " if i else "", n + "=", to_repr(I, x))] + [")"], kind="str")
    if isinstance(v, Cls):
        return "<class '%s.%s'>" % (v.module.name, v.qual)
    if isinstance(v, BType):
        return repr(v.py)
    c = I.S.topy(I, v)
    if c is not NO and not isinstance(v, Opaque):
        return repr(c)
    if isinstance(v, (tuple, List)) and any(isinstance(x, (Instance, tuple, List, Dict, EnumMember)) for x in (v if isinstance(v, tuple) else v.items)):
        xs = v if isinstance(v, tuple) else v.items
        parts = ["(" if isinstance(v, tuple) else "["]
        for i, x in enumerate(xs):
            if i:
                parts.append(", ")
            parts.append(to_repr(I, x))
        parts.append((",)" if len(xs) == 1 else ")") if isinstance(v, tuple) else "]")
        return cat(I, parts, kind="str")
    if isinstance(v, (tuple, List)):
        # repr of elements may run user code
        xs = v if isinstance(v, tuple) else v.items
        for x in xs:
            if isinstance(x, Instance):
                to_repr(I, x)
        if all(isinstance(x, (int, str, bytes, type(None))) for x in xs):
            return repr(tuple(xs) if isinstance(v, tuple) else list(xs))
        return mk("repr", _fz(I, v), kind="str")
    if isinstance(v, Opaque):
        if v.type == "datetime":
            return mk("dtstr", v.f["t"], "repr", v.f.get("zone") is not None, kind="str")
        return mk("objstr", v.type, kind="str")
    return mk("repr", _fz(I, v), kind="str")


def format_value(I, v, spec):
    if isinstance(v, Instance) and spec != "":
        m = I.find_class_attr(v.cls, "__format__")
        if m is not NO:
            return I.call(I.bind(m, v), [spec])
        I.throw(TypeError, "unsupported format string")
    if isinstance(v, EnumMember) and v.cls.is_enum == "mixed":
        v = v.value
    if isinstance(v, Opaque) and v.type == "datetime" and spec != "":
        return strftime(I, v, spec)
    if isinstance(v, (int, float, str)) and isinstance(spec, str):
        return I.conc(format, v, spec)
    if isinstance(v, Lin) or isinstance(v, Term):
        if spec == "":
            return to_str(I, v)
        if isinstance(v, Lin) and spec in ("x", "02x", "X", "d", "b") and I.bounds(v)[0] is not None and I.bounds(v)[0] == I.bounds(v)[1]:
            return format(I.bounds(v)[0], spec)
        return mk("fmtspec", _fz(I, v), spec, kind="str")
    return to_str(I, v)


def str_format(I, s, args, kw):
    import string

    if not isinstance(s, str):
        return mk("fmt", _fz(I, s), tuple(_fz(I, a) for a in args), kind="str")
    out = []
    auto = 0
    for lit, field, spec, conv in I.conc(lambda: list(string.Formatter().parse(s))):
        if lit:
            out.append(lit)
        if field is None:
            continue
        name = field
        rest = ""
        for i, ch in enumerate(field):
            if ch in ".[":
                name, rest = field[:i], field[i:]
                break
        if name == "":
            if auto >= len(args):
                I.throw(IndexError, "Replacement index %d out of range" % auto)
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = I.conc(lambda: args[int(name)])
        else:
            if name not in kw:
                I.throw(KeyError, name)
            v = kw[name]
        if rest:
            if rest.startswith("."):
                for p in rest[1:].split("."):
                    v = I.getattr(v, p)
            else:
                raise Unsupported("format field")
        if conv:
            v = to_repr(I, v) if conv != "s" else to_str(I, v)
            if spec:
                v = format_value(I, v, spec)
        elif spec:
            v = format_value(I, v, spec)
        else:
            v = to_str(I, v)
        out.append(v)
    return cat(I, out, kind="str")


def b_hex(I, x):
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, Term) and x.op == "unhex":
        return x.args[0]
    if isinstance(x, Term) and x.op == "cat":
        return cat(I, [b_hex(I, p) for p in x.args[0]], kind="str")
    return mk("hex", x, kind="str")


def fromhex(I, s):
    if isinstance(s, str):
        return I.conc(bytes.fromhex, s)
    if isinstance(s, Term):
        if s.op == "hex":
            return s.args[0]
        if s.op == "cat" and s.kind == "str":
            return cat(I, [fromhex(I, p) for p in s.args[0]])
        if s.kind in ("str", "any"):
            if not s.meta.get("hexok"):
                k = ("hexok", s)
                ok = I.facts.get(k)
                if ok is None:
                    ok = I.choose_bool("%s is valid hex" % render(s))
                    I.facts[k] = ok
                if not ok:
                    I.throw(ValueError, "non-hexadecimal number found in fromhex() arg")
            return mk("unhex", s)
    I.throw(TypeError, "fromhex() argument must be str, not %s" % I.type_name(s))


def encode(I, s):
    if isinstance(s, str):
        return s.encode()
    if isinstance(s, Term):
        if s.op == "utf8dec":
            return s.args[0]
        if s.op == "cat":
            return cat(I, [encode(I, p) for p in s.args[0]])
        if s.kind in ("str", "any"):
            return mk("utf8", s)
    I.throw(AttributeError, "encode")


def decode(I, b):
    if isinstance(b, bytes):
        return I.conc(b.decode)
    if isinstance(b, Term):
        if b.op == "utf8":
            return b.args[0]
        if b.op == "cat" and all(isinstance(p, bytes) or isinstance(p, Term) and p.op == "utf8" for p in b.args[0]):
            return cat(I, [decode(I, p) for p in b.args[0]], kind="str")
        if not (b.meta.get("utf8ok") or b.op in ("pem_pub", "pem_priv")):
            k = ("utf8ok", b)
            ok = I.facts.get(k)
            if ok is None:
                ok = I.choose_bool("%s is valid UTF-8" % render(b))
                I.facts[k] = ok
            if not ok:
                I.throw(UnicodeDecodeError, "invalid UTF-8")
        return mk("utf8dec", b, kind="str")
    raise Unsupported("decode")


def mapped(I, v):
    """deep Python value if concrete else NO"""
    if isinstance(v, (int, float, str, bytes, type(None))):
        return v
    if isinstance(v, tuple):
        xs = [mapped(I, x) for x in v]
        return NO if any(x is NO for x in xs) else tuple(xs)
    if isinstance(v, List):
        xs = [mapped(I, x) for x in v.items]
        return NO if any(x is NO for x in xs) else list(xs)
    return NO


def unmap(v):
    if isinstance(v, list):
        return List([unmap(x) for x in v])
    if isinstance(v, tuple):
        return tuple(unmap(x) for x in v)
    if isinstance(v, dict):
        return Dict([(k, unmap(x)) for k, x in v.items()])
    if isinstance(v, bytearray):
        return BArr(bytes(v))
    return v


def seq_method(I, v, name):
    """methods of concrete/abstract str and bytes values"""
    k = "bytes" if kind_of(v) in ("bytes", "bytearray") else kind_of(v)
    if k not in ("bytes", "str"):
        return None
    if not hasattr(bytes if k == "bytes" else str, name) and not (isinstance(v, BArr) and hasattr(bytearray, name)):
        if k == "bytes" and I.cfg.get("memoryview") and hasattr(memoryview, name):
            return mview_method(I, v.val if isinstance(v, BArr) else v, name)
        return None
    if name.startswith("__"):
        return None
    val = v.val if isinstance(v, BArr) else v

    def run(I, a, kw):
        if name == "hex" and not a and not kw:
            return b_hex(I, val)
        if name == "fromhex":
            r = fromhex(I, a[0])
            return BArr(r) if isinstance(v, BArr) else r
        if name == "encode":
            if a and a[0] not in ("utf-8", "utf8", "UTF-8", "ascii") or kw and list(kw.values())[0] not in ("utf-8", "utf8", "UTF-8", "ascii"):
                raise Unsupported("codec")
            return encode(I, val)
        if name == "decode":
            if a and a[0] not in ("utf-8", "utf8", "UTF-8", "ascii") or kw and list(kw.values())[0] not in ("utf-8", "utf8", "UTF-8", "ascii"):
                raise Unsupported("codec")
            return decode(I, val)
        if name == "join":
            items = list(I.iterate(a[0]))
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(val)
                if kind_of(x) not in (k, "bytearray", "any") or (k == "str" and kind_of(x) == "bytearray"):
                    I.throw(TypeError, "sequence item %d: expected %s instance, %s found" % (i, k, I.type_name(x)))
                out.append(x)
            return cat(I, out, kind=k)
        if name == "format":
            return str_format(I, val, a, kw)
        if isinstance(v, BArr):
            if name == "append":
                v.val = cat(I, [v.val, mkbseq([a[0]])])
                return None
            if name == "extend":
                x = a[0]
                if kind_of(x) in ("bytes", "bytearray"):
                    v.val = cat(I, [v.val, x])
                else:
                    v.val = cat(I, [v.val, mkbseq(list(I.iterate(x)))])
                return None
            if name == "copy":
                return BArr(v.val)
            if name == "clear":
                v.val = b""
                return None
            if name in ("pop", "insert", "reverse", "remove"):
                el = List(barr_elems(I, v))
                r = I.call(I.getattr(el, name), a)
                v.val = mk_bytes(I, [el], {})
                return r
        args = [I.S.topy(I, x.val if isinstance(x, BArr) else x) for x in a]
        kws = {q: I.S.topy(I, x) for q, x in kw.items()}
        if isinstance(val, (bytes, str)) and NO not in args and NO not in kws.values():
            r = I.conc(lambda: getattr(val, name)(*args, **kws))
            if isinstance(v, BArr) and type(r) is bytes:
                return BArr(r)
            return unmap(r)
        if name in ("startswith", "endswith"):
            x = a[0]
            if isinstance(x, tuple):
                return any(run_one(I, val, name, y) for y in x)
            return run_one(I, val, name, x)
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "replace", "zfill", "ljust", "rjust", "removeprefix", "removesuffix", "casefold", "capitalize", "swapcase"):
            if name in ("lower",) and isinstance(val, Term) and val.op == "hex":
                return val
            return mk("m_" + name, val, tuple(_fz(I, x) for x in a), kind=k)
        raise Unsupported("method %s.%s on abstract value" % (k, name))

    return Builtin(name, run)


def barr_elems(I, v):
    n = I.blen(v)
    if not isinstance(n, int):
        raise Unsupported("bytearray of unknown length")
    return [byte_at(I, v.val, i) if isinstance(v.val, Term) else v.val[i] for i in range(n)]


def barr_del(I, o, k):
    if isinstance(k, slice) and k.step in (None, 1):
        n = I.blen(o)
        if isinstance(n, int):
            a, b, _ = conc_slice(I, k).indices(n)
            o.val = cat(I, [getitem(I, o.val, slice(0, a)), getitem(I, o.val, slice(max(a, b), n))])
            return
        if k.start in (None, 0) and k.stop is not None:
            o.val = getitem(I, o.val, slice(k.stop, None))
            return
        if k.stop is None:
            o.val = getitem(I, o.val, slice(None, k.start))
            return
    el = List(barr_elems(I, o))
    I.delitem(el, k)
    o.val = mk_bytes(I, [el], {})


def mview_method(I, v, name):
    M = lambda f: Builtin(name, f)
    if name == "tobytes":
        return M(lambda I, a, k: v)
    if name == "tolist":
        return M(lambda I, a, k: List(list(I.iterate(v))))
    if name in ("release", "__exit__"):
        return M(lambda I, a, k: None)
    if name in ("__enter__", "toreadonly"):
        return M(lambda I, a, k: v)
    if name == "nbytes":
        return I.blen(v)
    if name == "obj":
        return v
    if name == "itemsize":
        return 1
    if name == "readonly":
        return True
    raise Unsupported("memoryview.%s" % name)


def run_one(I, val, name, x):
    lx, lv = I.blen(x), I.blen(val)
    if isinstance(lx, int) and lx == 0:
        return True
    if I.lt0(ladd(lv, lx, -1), "length"):
        return False
    if isinstance(lx, int):
        part = getitem(I, val, slice(None, lx) if name == "startswith" else slice(ladd(lv, -lx), None))
        return I.eq(part, x, name)
    raise Unsupported(name)


# ----------------------------------------------------------------- object protocol
def is_exc_path(p):
    last = p.rsplit(".", 1)[-1]
    return p.startswith("rlp.exceptions.") or last.endswith(("Error", "Exception")) or last in ("error",)


def known_base(path, name):
    """whether a base class from outside the package is known not to supply the attribute"""
    root, last = path.split(".")[0], path.rsplit(".", 1)[-1]
    if root in ("abc", "enum"):
        return not (root == "enum" and name.startswith("_"))
    if root in ("collections", "_collections_abc", "typing", "typing_extensions"):
        return last[:1].isupper() and last not in ("UserDict", "UserList", "UserString", "OrderedDict", "Counter")
    if is_exc_path(path):
        return not name.startswith("__")
    return False


def exc_attr(I, v, name):
    if name in ("add_note", "with_traceback"):
        return Builtin(name, lambda I, a, k: v if name == "with_traceback" else None)
    if name == "args":
        return v.attrs.get("args", ())
    if name == "value" or name == "code":
        if I.exc_match(v, bt(StopIteration if name == "value" else SystemExit)):
            a = v.attrs.get("args", ())
            return a[0] if a else None
        return NO
    return v.attrs.get(name)


def object_attr(I, v, name):
    """what every object has; v is None for access through a class"""
    M = lambda f: Builtin(name, f)
    pick = (lambda a: (v, a)) if v is not None else (lambda a: (a[0], a[1:]))
    if name in ("__init__", "__init_subclass__"):
        return M(lambda I, a, k: None)
    if name in ("__eq__", "__ne__"):
        def eq(I, a, k):
            x, r = pick(a)
            if isinstance(x, Instance):
                return (name == "__eq__") if x is r[0] else NOTIMPL
            return I.compare("Eq" if name == "__eq__" else "NotEq", x, r[0])
        return M(eq)
    if name in ("__lt__", "__le__", "__gt__", "__ge__"):
        def cmp(I, a, k):
            x, r = pick(a)
            if isinstance(x, Instance):
                return NOTIMPL
            return order(I, {"__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE"}[name], x, r[0], name)
        return M(cmp)
    if name == "__hash__":
        def hs(I, a, k):
            x, r = pick(a)
            if isinstance(x, Instance):
                return Lin({mk("pyhash", repr(id(x)), kind="int"): 1}, 0)
            return B_hash(I, [x], {})
        return M(hs)
    if name in ("__repr__", "__str__"):
        def rp(I, a, k):
            x, r = pick(a)
            if isinstance(x, Instance):
                if I.is_exc(x.cls):
                    return exc_text(I, x, name[2:-2])
                if name == "__str__":
                    return to_repr(I, x)
                return mk("objstr", x.cls.name, kind="str")
            return to_repr(I, x) if name == "__repr__" else to_str(I, x)
        return M(rp)
    if name == "__format__":
        return M(lambda I, a, k: format_value(I, *(lambda x, r: (x, r[0]))(*pick(a))))
    if name == "__setattr__":
        return M(lambda I, a, k: I.setattr(*(lambda x, r: (x, r[0], r[1]))(*pick(a)), raw=True))
    if name == "__getattribute__":
        return M(lambda I, a, k: I.getattr(*(lambda x, r: (x, r[0]))(*pick(a)), raw=True))
    if name == "__delattr__":
        return M(lambda I, a, k: I.delattr(*(lambda x, r: (x, r[0]))(*pick(a))))
    if name == "__dir__" or name in ("__reduce__", "__reduce_ex__", "__sizeof__", "__getstate__"):
        raise Unsupported(name)
    if v is None or isinstance(v, Instance):
        return None
    if name == "__class__":
        return I.type_of(v)
    if name == "__doc__":
        return None
    t = I.type_of(v)
    if not (isinstance(t, BType) and hasattr(t.py, name)):
        return None
    n = name[2:-2]
    for op, d in DUNDER.items():
        if n == d:
            return M(lambda I, a, k: I.binop_name(op, v, a[0]))
        if n == "r" + d:
            return M(lambda I, a, k: I.binop_name(op, a[0], v))
    one = {
        "len": lambda I: B_len(I, [v], {}), "iter": lambda I: B_iter(I, [v], {}), "bool": lambda I: I.truth(v), "int": lambda I: to_int(I, [v], {}),
        "index": lambda I: v, "bytes": lambda I: mk_bytes(I, [v], {}), "neg": lambda I: binop(I, "Sub", 0, v), "abs": lambda I: B_abs(I, [v], {}),
        "reversed": lambda I: B_reversed(I, [v], {}),
    }
    if n in one:
        return M(lambda I, a, k: one[n](I))
    if n == "contains":
        return M(lambda I, a, k: I.contains(v, a[0]))
    if n == "getitem":
        return M(lambda I, a, k: I.getitem(v, a[0]))
    if n == "setitem":
        return M(lambda I, a, k: I.setitem(v, a[0], a[1]))
    if n == "delitem":
        return M(lambda I, a, k: I.delitem(v, a[0]))
    if n == "call":
        return M(lambda I, a, k: I.call(v, a, k))
    return None


# ----------------------------------------------------------------- attributes
def value_attr(I, v, name):
    if isinstance(v, List):
        return list_method(I, v, name)
    if isinstance(v, Dict):
        return dict_method(I, v, name)
    if isinstance(v, SetV):
        return set_method(I, v, name)
    if isinstance(v, View):
        if name == "isdisjoint":
            return Builtin(name, lambda I, a, k: not any(I.contains(v, x) for x in I.iterate(a[0])))
        if name == "mapping":
            return v.d
        return None
    if isinstance(v, (bytes, str, BArr)) or isinstance(v, Term) and v.kind in ("bytes", "str"):
        return seq_method(I, v, name)
    if isinstance(v, tuple):
        if name == "index":
            return Builtin("index", lambda I, a, k: seq_index(I, v, a))
        if name == "count":
            return Builtin("count", lambda I, a, k: sum(1 for x in v if I.eq(x, a[0])))
        return None
    if isinstance(v, (int,)) or isinstance(v, Lin) or isinstance(v, Term) and v.kind == "int":
        if name == "to_bytes":
            def tb(I, a, k):
                n = a[0] if a else k.get("length", 1)
                order_ = a[1] if len(a) > 1 else k.get("byteorder", "big")
                if isinstance(v, int):
                    return I.conc(lambda: v.to_bytes(n, order_))
                l = lin(v)
                if len(l.co) == 1 and l.c == 0 and l.co[0][1] == 1 and l.co[0][0].op == "intof":
                    x = l.co[0][0].args[0]
                    if I.blen(x) == n and order_ == "big":
                        return x
                if n == 1:
                    return mkbseq([v])
                return mk("tobytes", l, n, order_)
            return Builtin("to_bytes", tb)
        if name == "bit_length":
            if isinstance(v, int):
                return Builtin(name, lambda I, a, k: v.bit_length())
            return Builtin(name, lambda I, a, k: bit_length(I, v))
        if name in ("real", "numerator"):
            return v
        if name in ("imag",):
            return 0
        if name == "denominator":
            return 1
        if isinstance(v, int) and hasattr(int, name) and not name.startswith("__"):
            return Builtin(name, conc_only(name, lambda *a, **k: getattr(v, name)(*a, **k)))
        return None
    if isinstance(v, BType):
        return btype_static(I, v, name)
    if isinstance(v, Opaque):
        return opaque_attr(I, v, name)
    if isinstance(v, IterV):
        if name == "__next__":
            return Builtin("next", lambda I, a, k: B_next(I, [v], {}))
        if name == "__iter__":
            return Builtin("iter", lambda I, a, k: v)
        if name in ("close", "send", "throw") and hasattr(v, "resume"):
            return Builtin(name, lambda I, a, k: gen_method(I, v, name, a))
        return None
    if isinstance(v, Term) and v.kind == "any":
        if v.op in ("jdoc", "jfield") and name in ("get", "keys", "items", "values"):
            if name == "get":
                def g(I, a, k):
                    return json_field(I, v, a[0], default=a[1] if len(a) > 1 else None)
                return Builtin("get", g)
            raise Unsupported("iteration over unknown JSON")
        if v.op == "jfield" and name in ("encode",):
            return Builtin("encode", lambda I, a, k: encode(I, v))
        if v.op == "extval":
            return ext_value_attr(I, v, name)
        return None
    if isinstance(v, (Builtin, Func)) and name in ("__name__", "__doc__"):
        return v.name
    if isinstance(v, float) and name in ("is_integer", "hex", "as_integer_ratio", "conjugate"):
        return Builtin(name, conc_only(name, lambda *a: getattr(v, name)(*a)))
    if isinstance(v, range):
        if name in ("start", "stop", "step"):
            return getattr(v, name)
        if name in ("index", "count"):
            return Builtin(name, conc_only(name, lambda *a: getattr(v, name)(*a)))
    if isinstance(v, slice):
        if name in ("start", "stop", "step"):
            return getattr(v, name)
        if name == "indices":
            return Builtin(name, conc_only(name, lambda *a: v.indices(*a)))
    return None


def bit_length(I, v):
    lo, hi = I.bounds(v)
    if lo is None or lo < 0 or hi is None or hi > 1 << 20:
        raise Unsupported("bit_length")
    n = 0
    while not I.lt0(ladd(v, -(1 << n)), "value < 2**%d" % n):
        n += 1
    return n


def gen_method(I, v, name, a):
    if name == "close":
        return v.close()
    if name == "send" and not v.started and a[0] is not None:
        I.throw(TypeError, "can't send non-None value to a just-started generator")
    x = a[0]
    if name == "throw" and isinstance(x, (Cls, BType)):
        x = I.call(x, a[1:2])
    try:
        return v.resume(name, x)
    except StopIteration as e:
        raise PyRaise(stop(I, e.value))


def stop(I, value):
    e = I.mkexc(bt(StopIteration), *([] if value is None else [value]))
    e.attrs["value"] = value
    return e


def ext_value_attr(I, v, name):
    # a duck-typed user object with the documented codec methods
    has = v.meta["attrs"]
    if name in has:
        f = has[name]
        if callable(f):
            return Builtin(name, lambda I, a, k: f(I, v, a, k))
        return f
    return None


def seq_index(I, v, a):
    items = v.items if isinstance(v, List) else v
    for i, x in enumerate(items):
        if I.truth(I.rich_eq(x, a[0], "index")):
            return i
    I.throw(ValueError, "x not in list")


def list_method(I, v, name):
    def M(f):
        return Builtin(name, f)

    def mut(f):
        def g(I, a, k):
            r = f(I, a, k)
            return r
        return Builtin(name, g)

    if name == "append":
        return mut(lambda I, a, k: v.items.append(a[0]))
    if name == "extend":
        def ext(I, a, k):
            if a[0] is v:
                v.items.extend(list(v.items))
            else:
                for x in I.iterate(a[0]):
                    v.items.append(x)
        return mut(ext)
    if name == "insert":
        return mut(lambda I, a, k: v.items.insert(conc_index(I, a[0]), a[1]))
    if name == "pop":
        return mut(lambda I, a, k: I.conc(v.items.pop, *[conc_index(I, x) for x in a]))
    if name == "copy":
        return M(lambda I, a, k: List(v.items))
    if name == "clear":
        return mut(lambda I, a, k: v.items.clear())
    if name == "reverse":
        return mut(lambda I, a, k: v.items.reverse())
    if name == "index":
        return M(lambda I, a, k: seq_index(I, v, a))
    if name == "count":
        return M(lambda I, a, k: sum(1 for x in v.items if I.truth(I.rich_eq(x, a[0]))))
    if name == "remove":
        def rm(I, a, k):
            del v.items[seq_index(I, v, a)]
        return mut(rm)
    if name == "sort":
        def so(I, a, k):
            v.items[:] = do_sort(I, v.items, k)
        return mut(so)
    if name in ("__len__",):
        return M(lambda I, a, k: len(v.items))
    if name == "__getitem__":
        return M(lambda I, a, k: I.getitem(v, a[0]))
    if name == "__iter__":
        return M(lambda I, a, k: IterV(I.iterate(v)))
    if name == "__contains__":
        return M(lambda I, a, k: I.contains(v, a[0]))
    if name == "__setitem__":
        return M(lambda I, a, k: I.setitem(v, a[0], a[1]))
    return None


def conc_index(I, x):
    x = I.index(x)
    if isinstance(x, Term) and x.kind == "int":
        x = lin(x)
    if isinstance(x, Lin):
        x = conc_slice(I, slice(x, None)).start
    if not isinstance(x, int):
        I.throw(TypeError, "'%s' object cannot be interpreted as an integer" % I.type_name(x))
    return x


def do_sort(I, items, k):
    import functools

    key = k.get("key")
    dec = [(I.call(key, [x]) if key is not None else x, x) for x in items]

    def cmp(p, q):
        if I.truth(order(I, "Lt", p[0], q[0], "sort")):
            return -1
        if I.truth(order(I, "Lt", q[0], p[0], "sort")):
            return 1
        return 0

    rev = "reverse" in k and I.truth(k["reverse"])
    if rev:
        dec.reverse()
    out = [x for _, x in sorted(dec, key=functools.cmp_to_key(cmp))]
    if rev:
        out.reverse()
    return out


def dict_method(I, v, name):
    def M(f):
        return Builtin(name, f)

    if type(v) is XDict and name in ("popitem",):
        r = xdict_method(I, v, name, M)
        if r is not None:
            return r
    if name in ("keys", "values", "items"):
        if v.observer:
            v.observer.before(I, name, v, None, None)
        return M(lambda I, a, k: View(v, name))
    if name == "get":
        def g(I, a, k):
            if v.observer:
                v.observer.before(I, "get", v, a[0], None)
            e = I.dict_find(v, a[0])
            return e[1] if e is not None else (a[1] if len(a) > 1 else k.get("default"))
        return M(g)
    if name == "pop":
        def p(I, a, k):
            e = I.dict_find(v, a[0])
            if e is None:
                if len(a) > 1:
                    return a[1]
                I.throw(KeyError, a[0])
            I.dict_del(v, e[0])
            return e[1]
        return M(p)
    if name == "popitem":
        def pi(I, a, k):
            if not v.d:
                I.throw(KeyError, "popitem(): dictionary is empty")
            kk, vv = v.pairs()[-1]
            I.dict_del(v, kk)
            return (kk, vv)
        return M(pi)
    if name == "setdefault":
        def sd(I, a, k):
            e = I.dict_find(v, a[0])
            if e is not None:
                return e[1]
            d = a[1] if len(a) > 1 else None
            I.dict_set(v, a[0], d)
            return d
        return M(sd)
    if name == "update":
        def u(I, a, k):
            for s in a:
                if isinstance(v, XDict) and v.type.path == "collections.Counter":
                    counter_add(I, v, s, 1)
                elif isinstance(s, Dict):
                    if s.opaque:
                        s.opaque.iterate(I, s)
                    for x, y in s.pairs():
                        I.dict_set(v, x, y)
                elif not isinstance(s, (List, tuple)) and I.getattr(s, "keys", None) is not None:
                    for x in I.iterate(I.call(I.getattr(s, "keys"), [])):
                        I.dict_set(v, x, I.getitem(s, x))
                else:
                    for pr in I.iterate(s):
                        xy = list(I.iterate(pr))
                        if len(xy) != 2:
                            I.throw(ValueError, "dictionary update sequence element has wrong length")
                        I.dict_set(v, xy[0], xy[1])
            for x, y in k.items():
                I.dict_set(v, x, y)
        return M(u)
    if name == "copy":
        def cp(I, a, k):
            if type(v) is XDict:
                return XDict(v.type, v.pairs(), v.missing)
            d = Dict(v.pairs())
            d.opaque = v.opaque
            return d
        return M(cp)
    if name == "clear":
        def cl(I, a, k):
            for x, _ in v.pairs():
                I.dict_del(v, x)
        return M(cl)
    if name == "__contains__":
        return M(lambda I, a, k: I.contains(v, a[0]))
    if name == "__getitem__":
        return M(lambda I, a, k: I.dict_get(v, a[0]))
    if name == "__setitem__":
        return M(lambda I, a, k: I.dict_set(v, a[0], a[1]))
    if name == "__delitem__":
        return M(lambda I, a, k: (I.dict_del(v, a[0]), None)[1])
    if type(v) is XDict:
        r = xdict_method(I, v, name, M)
        if r is not None:
            return r
    if name == "fromkeys":
        return btype_static(I, bt(dict), name)
    if name == "__len__":
        return M(lambda I, a, k: B_len(I, [v], {}))
    if name == "__iter__":
        return M(lambda I, a, k: IterV(I.iterate(v)))
    return None


def counter_add(I, v, s, sign):
    if isinstance(s, Dict):
        prs = s.pairs()
    else:
        prs = [(x, 1) for x in I.iterate(s)]
    for x, n in prs:
        e = I.dict_find(v, x)
        I.dict_set(v, x, binop(I, "Add" if sign > 0 else "Sub", e[1] if e is not None else 0, n))


def xdict_method(I, v, name, M):
    p = v.type.path
    if p == "collections.OrderedDict":
        if name == "move_to_end":
            def mte(I, a, k):
                e = I.dict_find(v, a[0])
                if e is None:
                    I.throw(KeyError, a[0])
                last = a[1] if len(a) > 1 else k.get("last", True)
                h = hk(e[0])
                x = v.d.pop(h)
                if last:
                    v.d[h] = x
                else:
                    rest = dict(v.d)
                    v.d.clear()
                    v.d[h] = x
                    v.d.update(rest)
            return M(mte)
        if name == "popitem":
            def pi(I, a, k):
                if not v.d:
                    I.throw(KeyError, "dictionary is empty")
                last = a[0] if a else k.get("last", True)
                kk, vv = v.pairs()[-1 if last else 0]
                I.dict_del(v, kk)
                return (kk, vv)
            return M(pi)
    if p == "collections.Counter":
        if name == "most_common":
            def mc(I, a, k):
                xs = do_sort(I, v.pairs(), {"key": Builtin("k", lambda I, b, q: b[0][1]), "reverse": True})
                return List(xs[: a[0]] if a and a[0] is not None else xs)
            return M(mc)
        if name == "elements":
            return M(lambda I, a, k: IterV(iter([x for x, n in v.pairs() for _ in range(n)])))
        if name == "subtract":
            return M(lambda I, a, k: counter_add(I, v, a[0], -1))
        if name == "total":
            return M(lambda I, a, k: B_sum(I, [List([n for _, n in v.pairs()])], {}))
    if p == "collections.defaultdict" and name == "default_factory":
        return v.attrs.get("factory")
    return None


def set_add(I, s, x):
    I.check_hashable(x)
    for y in s.items:
        if y is x or I.truth(I.rich_eq(y, x, "set element")):
            return
    s.items.append(x)


def as_set(I, x):
    if isinstance(x, SetV):
        return x
    r = SetV()
    for y in I.iterate(x):
        set_add(I, r, y)
    return r


def set_method(I, v, name):
    def M(f):
        return Builtin(name, f)

    if name == "add":
        return M(lambda I, a, k: set_add(I, v, a[0]))
    if name in ("discard", "remove"):
        def rm(I, a, k):
            for i, y in enumerate(v.items):
                if I.eq(y, a[0]):
                    del v.items[i]
                    return None
            if name == "remove":
                I.throw(KeyError, a[0])
        return M(rm)
    if name == "copy":
        return M(lambda I, a, k: SetV(v.items, frozen=v.frozen))
    if name == "update":
        def up(I, a, k):
            for s in a:
                for x in I.iterate(s):
                    set_add(I, v, x)
        return M(up)
    ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}
    if name in ops:
        def alg(I, a, k):
            r = SetV(v.items, frozen=v.frozen)
            for x in a:
                r = binop(I, ops[name], r, as_set(I, x))
            r.frozen = v.frozen
            return r
        return M(alg)
    if name.endswith("_update") and name[:-7] in ops:
        def algu(I, a, k):
            r = v
            for x in a:
                r = binop(I, ops[name[:-7]], r, as_set(I, x))
            v.items[:] = list(r.items)
        return M(algu)
    if name == "isdisjoint":
        return M(lambda I, a, k: not any(I.contains(v, x) for x in I.iterate(a[0])))
    if name in ("issubset", "issuperset"):
        return M(lambda I, a, k: order(I, "LtE" if name == "issubset" else "GtE", v, as_set(I, a[0]), ""))
    if name == "pop":
        return M(lambda I, a, k: v.items.pop(0) if v.items else I.throw(KeyError, "pop from an empty set"))
    if name == "clear":
        return M(lambda I, a, k: v.items.clear())
    return None


def btype_attr(I, c, name):
    """attributes provided to instances by builtin base classes"""
    if c.py is object:
        if name in ("__init__",):
            return Builtin("object.__init__", lambda I, a, k: None)
        if name == "__new__":
            return Builtin("object.__new__", lambda I, a, k: Instance(a[0]))
        return None
    if issubclass(c.py, BaseException):
        if name == "__init__":
            def init(I, a, k):
                a[0].attrs["args"] = tuple(a[1:])
            return Builtin("__init__", init)
        return None
    return None


def ext_base_attr(I, c, name):
    n = c.path.rsplit(".", 1)[-1]
    if n in ("MutableMapping", "Mapping"):
        if name in ("keys", "values", "items"):
            def kv(I, a, k):
                return View(a[0], name)
            return Builtin(name, kv)
        if name == "get":
            def g(I, a, k):
                try:
                    return I.getitem(a[0], a[1])
                except PyRaise as e:
                    if I.exc_match(e.exc, bt(KeyError)):
                        return a[2] if len(a) > 2 else None
                    raise
            return Builtin("get", g)
        if name == "pop":
            def p(I, a, k):
                try:
                    v = I.getitem(a[0], a[1])
                except PyRaise as e:
                    if I.exc_match(e.exc, bt(KeyError)) and len(a) > 2:
                        return a[2]
                    raise
                I.delitem(a[0], a[1])
                return v
            return Builtin("pop", p)
        if name == "setdefault":
            def sd(I, a, k):
                try:
                    return I.getitem(a[0], a[1])
                except PyRaise as e:
                    if not I.exc_match(e.exc, bt(KeyError)):
                        raise
                    I.setitem(a[0], a[1], a[2] if len(a) > 2 else None)
                    return a[2] if len(a) > 2 else None
            return Builtin("setdefault", sd)
        if name == "__contains__":
            def co(I, a, k):
                try:
                    I.getitem(a[0], a[1])
                    return True
                except PyRaise as e:
                    if I.exc_match(e.exc, bt(KeyError)):
                        return False
                    raise
            return Builtin("__contains__", co)
    if c.path.split(".")[0] in ("collections", "_collections_abc", "typing"):
        r = I.S.mixin(I, n, name)
        if r is not NO:
            return r
    return None


def btype_static(I, c, name):
    t = c.py
    if name == "fromhex" and t in (bytes, bytearray):
        def fh(I, a, k):
            r = fromhex(I, a[0])
            return BArr(r) if t is bytearray else r
        return Builtin("fromhex", fh)
    if name == "from_bytes" and t is int:
        def fb(I, a, k):
            b = a[0].val if isinstance(a[0], BArr) else a[0]
            o = a[1] if len(a) > 1 else k.get("byteorder", "big")
            if isinstance(b, bytes):
                return int.from_bytes(b, o)
            if isinstance(b, List):
                b = call_btype(I, bt(bytes), [b], {})
                if isinstance(b, bytes):
                    return int.from_bytes(b, o)
            if isinstance(b, Term) and b.op == "bseq" and len(b.args[0]) <= 8:
                v = 0
                for e in (b.args[0] if o == "big" else reversed(b.args[0])):
                    v = ladd(lscale(v, 256), e)
                return v
            if o != "big":
                return Lin({mk("intofle", b, kind="int"): 1}, 0)
            return Lin({mk("intof", b, kind="int"): 1}, 0)
        return Builtin("from_bytes", fb)
    if name == "fromkeys" and t is dict:
        def fk(I, a, k):
            d = Dict()
            for x in I.iterate(a[0]):
                I.dict_set(d, x, a[1] if len(a) > 1 else None)
            return d
        return Builtin("fromkeys", fk)
    if name == "__name__" or name == "__qualname__":
        return t.__name__
    if name == "maketrans":
        def mt(I, a, k):
            xs = [I.S.topy(I, x) for x in a]
            if any(x is NO for x in xs):
                raise Unsupported("maketrans")
            return I.S.frompy(I, I.S.guard(I, lambda: t.maketrans(*xs)))
        return Builtin("maketrans", mt)
    if t in (bytes, str, bytearray, list, dict, set, tuple) and hasattr(t, name):
        def unb(I, a, k):
            return I.call(I.getattr(a[0], name), a[1:], k)
        return Builtin(name, unb)
    r = btype_attr(I, c, name)
    if r is None:
        if name == "__doc__":
            return t.__doc__
        if name == "__module__":
            return t.__module__
        if name in ("__mro__", "__bases__"):
            return tuple(bt(x) for x in getattr(t, name))
        r = object_attr(I, None, name)
        if r is None and hasattr(t, name):
            raise Unsupported("attribute %s of %s" % (name, t.__name__))
    return r


# ----------------------------------------------------------------- builtin calls
def few_digits(I, x, base):
    if I.choose_bool("%s has only digits below %d" % (render(x), base)):
        raise Unsupported("int of abstract text")
    I.throw(ValueError, "invalid literal for int() with base %d" % base)


def to_int(I, a, k):
    v = a[0] if a else 0
    base = a[1] if len(a) > 1 else k.get("base")
    if isinstance(v, BArr):
        v = v.val
    if base is None:
        if isinstance(v, (int, float)):
            return I.conc(int, v)
        if isinstance(v, Lin) or isinstance(v, Term) and v.kind == "int":
            return v
        if isinstance(v, Term) and v.kind == "bool":
            return 1 if I.truth(v) else 0
        if isinstance(v, (str, bytes)):
            return I.conc(int, v)
        if isinstance(v, Term) and v.op == "div":
            l, d = v.args
            return divmod_const(I, l, d)[0]
        if isinstance(v, Instance):
            m = I.find_class_attr(v.cls, "__int__")
            if m is not NO:
                return I.call(I.bind(m, v), [])
        if v is None or isinstance(v, (List, Dict, tuple)):
            I.throw(TypeError, "int() argument must be a string or a number")
        if isinstance(v, Term) and v.kind == "float":
            return Lin({mk("floor", v, kind="int"): 1}, 0)
        x = v.args[0] if isinstance(v, Term) and v.op == "utf8" else v
        if isinstance(x, Term) and x.op == "hex":
            return few_digits(I, x, 10)
        raise Unsupported("int of %r" % (v,))
    if isinstance(v, (str, bytes)):
        return I.conc(int, v, base)
    if isinstance(v, Term):
        x = v
        if x.op == "utf8":
            x = x.args[0]
        if isinstance(x, Term) and x.op == "slice" and isinstance(x.args[0], Term) and x.args[0].op == "utf8":
            x = mk("slice", x.args[0].args[0], *x.args[1:], kind="str")
        if isinstance(x, Term) and x.op == "hex" and base == 16:
            return Lin({mk("intof", x.args[0], kind="int"): 1}, 0)
        if isinstance(x, Term) and x.op == "slice" and isinstance(x.args[0], Term) and x.args[0].op == "hex" and base == 16:
            return Lin({mk("intof", x, kind="int"): 1}, 0)
        if isinstance(x, Term) and x.op == "hex" and isinstance(base, int) and 16 < base <= 36:
            return Lin({mk("intof", x.args[0], base, kind="int"): 1}, 0)
        if isinstance(x, Term) and x.op == "hex" and isinstance(base, int) and 2 <= base < 16:
            return few_digits(I, x, base)
        if isinstance(x, Term) and x.op == "H":
            # the characters of a raw digest are not digits
            I.throw(ValueError, "invalid literal for int() with base %r" % (base,))
        if isinstance(x, Term) and x.op == "rlp":
            I.throw(ValueError, "invalid literal for int()")
        raise Unsupported("int of abstract text")
    I.throw(TypeError, "int() can't convert non-string with explicit base")


def call_btype(I, c, a, k):
    t = c.py
    if t is int:
        return to_int(I, a, k)
    if t is bool:
        return I.truth(a[0]) if a else False
    if t is float:
        if a and isinstance(a[0], (int, float, str)):
            return I.conc(float, a[0])
        raise Unsupported("float of abstract value")
    if t is str:
        k = dict(k)
        if "object" in k:
            a = [k.pop("object")] + list(a)
        if not a:
            return ""
        if len(a) > 1 or k:
            return decode(I, a[0].val if isinstance(a[0], BArr) else a[0])
        return to_str(I, a[0])
    if t in (bytes, bytearray):
        v = mk_bytes(I, a, k)
        return BArr(v) if t is bytearray else v
    if t is memoryview:
        I.cfg["memoryview"] = True
        if kind_of(a[0]) not in ("bytes", "bytearray"):
            I.throw(TypeError, "memoryview: a bytes-like object is required, not '%s'" % I.type_name(a[0]))
        return a[0].val if isinstance(a[0], BArr) else a[0]
    if t is list:
        return List(list(I.iterate(a[0]))) if a else List()
    if t is tuple:
        return tuple(I.iterate(a[0])) if a else ()
    if t in (set, frozenset):
        s = SetV(frozen=t is frozenset)
        for x in I.iterate(a[0]) if a else []:
            set_add(I, s, x)
        return s
    if t is dict:
        d = Dict()
        if a:
            s = a[0]
            if isinstance(s, Dict):
                if s.opaque:
                    s.opaque.iterate(I, s)
                for x, y in s.pairs():
                    I.dict_set(d, x, y)
            elif isinstance(s, Instance) and I.find_class_attr(s.cls, "keys") is not NO:
                for x in I.iterate(I.call(I.getattr(s, "keys"), [])):
                    I.dict_set(d, x, I.getitem(s, x))
            else:
                for pr in I.iterate(s):
                    xy = list(I.iterate(pr))
                    if len(xy) != 2:
                        I.throw(ValueError, "dictionary update sequence element has wrong length")
                    I.dict_set(d, xy[0], xy[1])
        for x, y in k.items():
            I.dict_set(d, x, y)
        return d
    if t is type:
        if len(a) == 1:
            return I.type_of(a[0])
        return dynamic_class(I, *a)
    if t is range:
        a2 = []
        for x in a:
            if isinstance(x, Lin):
                lo, hi = I.bounds(x)
                if lo is not None and lo == hi:
                    x = lo
                elif lo is not None and hi is not None and hi - lo <= 40:
                    for cnd in range(lo, hi + 1):
                        if I.eq(x, cnd, "range bound"):
                            x = cnd
                            break
                else:
                    raise Unsupported("range with unknown bound")
            a2.append(x)
        return I.conc(range, *a2)
    if t is slice:
        return slice(*a)
    if t is object:
        return Instance(bt(object))
    if issubclass(t, BaseException):
        return I.mkexc(c, *a)
    if t is complex:
        raise Unsupported("complex")
    raise Unsupported("call of %s" % t.__name__)


def mk_bytes(I, a, k):
    if not a:
        return b""
    v = a[0]
    if len(a) > 1 or k:
        if kind_of(v) == "str":
            return encode(I, v)
        I.throw(TypeError, "encoding without a string argument")
    if isinstance(v, bytes):
        return v
    if isinstance(v, BArr):
        return v.val
    if isinstance(v, Term):
        if v.kind == "bytes":
            return v
        if v.kind == "str":
            I.throw(TypeError, "string argument without an encoding")
        if v.kind == "int":
            raise Unsupported("bytes of unknown size")
        raise Unsupported("bytes of %r" % v)
    if isinstance(v, int):
        return I.conc(bytes, v)
    if isinstance(v, str):
        I.throw(TypeError, "string argument without an encoding")
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__bytes__")
        if m is not NO:
            return I.call(I.bind(m, v), [])
    if v is None or isinstance(v, float):
        I.throw(TypeError, "cannot convert '%s' object to bytes" % I.type_name(v))
    elems = list(I.iterate(v))
    for e in elems:
        if isinstance(e, int):
            if not 0 <= e <= 255:
                I.throw(ValueError, "bytes must be in range(0, 256)")
        elif isinstance(e, (Lin,)):
            lo, hi = I.bounds(e)
            if lo is None or hi is None or lo < 0 or hi > 255:
                if I.lt0(e, "byte value < 0") or I.lt0(ladd(255, e, -1), "byte value > 255"):
                    I.throw(ValueError, "bytes must be in range(0, 256)")
        elif isinstance(e, Term) and e.kind in ("int", "any"):
            pass
        else:
            I.throw(TypeError, "'%s' object cannot be interpreted as an integer" % I.type_name(e))
    return mkbseq(elems)


def B_len(I, a, k):
    v = a[0]
    if isinstance(v, (bytes, str, tuple, range)):
        return len(v)
    if isinstance(v, (List, SetV)):
        return len(v.items)
    if isinstance(v, Dict):
        if v.observer:
            v.observer.before(I, "len", v, None, None)
        if v.opaque:
            return v.opaque.length(I, v)
        return len(v.d)
    if isinstance(v, View):
        return B_len(I, [v.d], {})
    if isinstance(v, BArr):
        return I.blen(v)
    if isinstance(v, Term):
        return I.blen(v)
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__len__")
        if m is not NO:
            return I.call(I.bind(m, v), [])
    if isinstance(v, Cls) and v.is_enum:
        return len(v.enums)
    I.throw(TypeError, "object of type '%s' has no len()" % I.type_name(v))


def B_isinstance(I, a, k):
    return I.isinstance_(a[0], a[1])


def any_isinstance(I, v, c):
    key = ("isinst", v, c.name if not isinstance(c, Ext) else c.path)
    allowed = v.meta.get("types")
    if v.op == "extval":
        n = c.name if not isinstance(c, Ext) else c.path
        return n in v.meta.get("isa", ())
    r = I.facts.get(key)
    if r is None:
        r = I.choose_bool("%r is %s" % (v, key[2]))
        I.facts[key] = r
    return r


def B_next(I, a, k):
    it = a[0]
    if isinstance(it, Instance):
        m = I.find_class_attr(it.cls, "__next__")
        if m is NO:
            I.throw(TypeError, "not an iterator")
        try:
            return I.call(I.bind(m, it), [])
        except PyRaise as e:
            if len(a) > 1 and I.exc_match(e.exc, bt(StopIteration)):
                return a[1]
            raise
    if not isinstance(it, IterV):
        I.throw(TypeError, "'%s' object is not an iterator" % I.type_name(it))
    try:
        return next(it.it)
    except StopIteration as e:
        if len(a) > 1:
            return a[1]
        raise PyRaise(stop(I, e.value))


def B_iter(I, a, k):
    v = a[0]
    if len(a) == 2:
        def g():
            while True:
                x = I.call(a[0], [])
                if I.eq(x, a[1]):
                    return
                yield x
        return IterV(g())
    if isinstance(v, IterV):
        return v
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__iter__")
        if m is not NO:
            return I.call(I.bind(m, v), [])
    if v is None or isinstance(v, int):
        I.throw(TypeError, "'%s' object is not iterable" % I.type_name(v))
    return IterV(I.iterate(v))


def B_sum(I, a, k):
    v = a[1] if len(a) > 1 else k.get("start", 0)
    for x in I.iterate(a[0]):
        if isinstance(x, Term) and x.kind == "bool":
            x = 1 if I.truth(x) else 0
        v = binop(I, "Add", v, x)
    return v


def B_minmax(which):
    def f(I, a, k):
        items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        key = k.get("key")
        if not items:
            if "default" in k:
                return k["default"]
            I.throw(ValueError, "%s() arg is an empty sequence" % which)
        best = items[0]
        bk = I.call(key, [best]) if key is not None else best
        for x in items[1:]:
            xk = I.call(key, [x]) if key is not None else x
            if I.truth(order(I, "Lt" if which == "min" else "Gt", xk, bk, which)):
                best, bk = x, xk
        return best
    return f


def B_any(I, a, k):
    for x in I.iterate(a[0]):
        if I.truth(x, "any"):
            return True
    return False


def B_all(I, a, k):
    for x in I.iterate(a[0]):
        if not I.truth(x, "all"):
            return False
    return True


def B_zip(I, a, k):
    its = [I.iterate(x) for x in a]

    def g():
        while True:
            row = []
            for i, it in enumerate(its):
                try:
                    row.append(next(it))
                except StopIteration:
                    if k.get("strict") is True:
                        if i > 0 or any(next(o, NO) is not NO for o in its[1:]):
                            I.throw(ValueError, "zip() arguments have different lengths")
                    return
            yield tuple(row)

    return IterV(g())


def B_map(I, a, k):
    f = a[0]
    its = [I.iterate(x) for x in a[1:]]

    def g():
        while True:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield I.call(f, row)

    return IterV(g())


def B_filter(I, a, k):
    f = a[0]

    def g():
        for x in I.iterate(a[1]):
            if I.truth(x if f is None else I.call(f, [x])):
                yield x

    return IterV(g())


def B_enumerate(I, a, k):
    st = a[1] if len(a) > 1 else k.get("start", 0)

    def g():
        i = st
        for x in I.iterate(a[0]):
            yield (i, x)
            i = ladd(i, 1)

    return IterV(g())


def B_reversed(I, a, k):
    v = a[0]
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__reversed__")
        if m is not NO:
            return I.call(I.bind(m, v), [])
        n = B_len(I, [v], {})
        return IterV(iter([I.getitem(v, i) for i in range(n - 1, -1, -1)]))
    return IterV(iter(list(I.iterate(v))[::-1]))


def B_getattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with unknown name")
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as e:
            if I.exc_match(e.exc, bt(AttributeError)):
                return a[2]
            raise
    return I.getattr(a[0], a[1])


def B_hasattr(I, a, k):
    if not isinstance(a[1], str):
        if kind_of(a[1]) != "str":
            I.throw(TypeError, "attribute name must be string, not '%s'" % I.type_name(a[1]))
        raise Unsupported("hasattr with unknown name")
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if I.exc_match(e.exc, bt(AttributeError)):
            return False
        raise


def B_hash(I, a, k):
    v = a[0]
    I.check_hashable(v)
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__hash__")
        if m is not NO:
            r = I.call(I.bind(m, v), [])
            if kind_of(r) not in ("int", "bool"):
                I.throw(TypeError, "__hash__ method should return an integer")
            return r
    return Lin({mk("pyhash", _fz(I, v), kind="int"): 1}, 0)


def B_divmod(I, a, k):
    return (binop(I, "FloorDiv", a[0], a[1]), binop(I, "Mod", a[0], a[1]))


def B_open(I, a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if not isinstance(mode, str) or "+" in mode and mode.replace("b", "").replace("t", "") != "r+":
        raise Unsupported("file mode")
    fs = I.cfg.setdefault("fs", {})
    path = ex_fspath(I, a[:1] or [k["file"]], {}) if not isinstance(a[0] if a else k["file"], Opaque) else a[0]
    if kind_of(path) not in ("str", "bytes") or isinstance(path, Opaque):
        I.throw(TypeError, "expected str, bytes or os.PathLike object, not %s" % I.type_name(path))
    c = fs.get(hk(path))
    if "x" in mode and c is not None:
        I.throw(FileExistsError, "File exists")
    if "r" in mode and c is None:
        I.throw(FileNotFoundError, "No such file or directory")
    I.events.append(("open", path, mode, I.where()))
    if "+" in mode:
        # from the beginning, over what is there
        fs[hk(path)] = f = Opaque("file", path=path, mode=mode, parts=list(c.f["parts"]), under=list(c.f["parts"]), new=[])
        return f
    if "w" in mode or "x" in mode or "a" in mode:
        old = list(c.f["parts"]) if "a" in mode and c is not None else []
        f = Opaque("file", path=path, mode=mode, parts=old)
        fs[hk(path)] = f
        return f
    return Opaque("file", path=path, mode=mode, content=cat(I, [x for x in c.f["parts"]], kind="str" if "b" not in mode else "bytes"))


def B_id(I, a, k):
    v = a[0]
    return Lin({mk("id", repr(id(v)), kind="int"): 1}, 0)


def B_callable(I, a, k):
    v = a[0]
    if isinstance(v, (Func, Bound, Builtin, BType, Cls)):
        return True
    if isinstance(v, Instance):
        return I.find_class_attr(v.cls, "__call__") is not NO
    if isinstance(v, (int, str, bytes, type(None), List, Dict, tuple, Lin)) or isinstance(v, Term) and v.kind != "any":
        return False
    if isinstance(v, (Ext, Opaque)):
        raise Unsupported("callable")
    return False


def B_format(I, a, k):
    return format_value(I, a[0], a[1] if len(a) > 1 else "")


def B_chr(I, a, k):
    if isinstance(a[0], int):
        return I.conc(chr, a[0])
    raise Unsupported("chr")


def B_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def B_delattr(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("delattr with unknown name")
    I.delattr(a[0], a[1])


def B_abs(I, a, k):
    if isinstance(a[0], (int, float)):
        return abs(a[0])
    lo, hi = I.bounds(a[0])
    if lo is not None and lo >= 0:
        return a[0]
    if I.lt0(a[0], "abs"):
        return lscale(a[0], -1)
    return a[0]


def conc_only(name, f):
    def g(I, a, k):
        aa = [mapped(I, x) for x in a]
        if NO in aa:
            raise Unsupported("%s of abstract value" % name)
        return unmap(I.conc(lambda: f(*aa, **k)))
    return g


def B_hexint(I, a, k):
    if isinstance(a[0], int):
        return hex(a[0])
    return mk("hexint", lin(a[0]), kind="str")


ARITY = {"len": (1, 1), "isinstance": (2, 2), "issubclass": (2, 2), "hasattr": (2, 2), "getattr": (2, 3), "setattr": (3, 3), "delattr": (2, 2), "hash": (1, 1), "id": (1, 1),
         "iter": (1, 2), "next": (1, 2), "repr": (1, 1), "callable": (1, 1), "abs": (1, 1), "chr": (1, 1), "ord": (1, 1), "hex": (1, 1), "bin": (1, 1), "any": (1, 1), "all": (1, 1),
         "sorted": (1, 1), "reversed": (1, 1), "divmod": (2, 2), "map": (2, 99), "filter": (2, 2), "open": (1, 8), "enumerate": (1, 2), "sum": (1, 2), "format": (1, 2), "ascii": (1, 1)}
KWCOUNT = ("open", "enumerate", "sum")


def builtins(I):
    d = {}

    def B(name, f):
        lo, hi = ARITY.get(name, (0, 99))

        def g(I, a, k):
            if not lo <= len(a) + (len(k) if name in KWCOUNT else 0) <= hi:
                I.throw(TypeError, "%s() takes %d to %d arguments (%d given)" % (name, lo, hi, len(a)))
            return f(I, a, k)

        d[name] = Builtin(name, g if name in ARITY else f)

    for t in (int, bool, float, str, bytes, bytearray, list, tuple, dict, set, frozenset, object, type, range, slice, memoryview, complex):
        d[t.__name__] = bt(t)
    import builtins as b

    for n in dir(b):
        t = getattr(b, n)
        if isinstance(t, type) and issubclass(t, BaseException):
            d[n] = bt(t)
    B("len", B_len)
    B("isinstance", B_isinstance)
    B("issubclass", lambda I, a, k: any(I.subclass(a[0], x) for x in a[1]) if isinstance(a[1], tuple) else I.subclass(a[0], a[1]))
    B("print", lambda I, a, k: None)
    B("repr", lambda I, a, k: to_repr(I, a[0]))
    B("ascii", lambda I, a, k: (lambda r: ascii(a[0]) if isinstance(a[0], str) else r)(to_repr(I, a[0])))
    B("super", None)
    B("locals", None)
    B("vars", None)
    B("globals", None)
    B("sum", B_sum)
    B("min", B_minmax("min"))
    B("max", B_minmax("max"))
    B("any", B_any)
    B("all", B_all)
    B("zip", B_zip)
    B("map", B_map)
    B("filter", B_filter)
    B("enumerate", B_enumerate)
    B("reversed", B_reversed)
    B("sorted", lambda I, a, k: List(do_sort(I, list(I.iterate(a[0])), k)))
    B("iter", B_iter)
    B("next", B_next)
    B("getattr", B_getattr)
    B("hasattr", B_hasattr)
    B("setattr", B_setattr)
    B("delattr", B_delattr)
    B("hash", B_hash)
    B("divmod", B_divmod)
    B("open", B_open)
    B("id", B_id)
    B("callable", B_callable)
    B("format", B_format)
    B("chr", B_chr)
    B("oct", conc_only("oct", oct))
    B("dir", None)
    for n in ("exit", "quit"):
        B(n, lambda I, a, k: I.throw(SystemExit, *a))
    B("ord", conc_only("ord", ord))
    B("round", conc_only("round", round))
    B("pow", conc_only("pow", pow))
    B("bin", conc_only("bin", bin))
    B("hex", B_hexint)
    B("abs", B_abs)
    B("property", lambda I, a, k: Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"), a[2] if len(a) > 2 else k.get("fdel")))
    B("staticmethod", lambda I, a, k: StaticM(a[0]))
    B("classmethod", lambda I, a, k: ClassM(a[0]))
    d["NotImplemented"] = NOTIMPL
    d["Ellipsis"] = Ellipsis
    d["__name__"] = "pymt"
    d["__debug__"] = True
    return d


# ----------------------------------------------------------------- externals
ALIAS = {
    "rlp.DecodingError": "rlp.exceptions.DecodingError",
    "rlp.DeserializationError": "rlp.exceptions.DeserializationError",
    "rlp.exceptions.ListDeserializationError": "rlp.exceptions.DeserializationError",
    "json.JSONDecodeError": "json.decoder.JSONDecodeError",
    "Cryptodome": "Crypto",
}


def ext_attr(I, e, name):
    p = e.path + "." + name
    if p.startswith("posixpath."):
        p = "os.path." + name
    if p in ALIAS:
        p = ALIAS[p]
    if p in CONSTS:
        return CONSTS[p]
    if e.path in ("datetime.datetime", "datetime.date", "datetime.time", "datetime.timedelta", "datetime.timezone"):
        import datetime

        if not hasattr(getattr(datetime, e.path[9:]), name):
            I.throw(AttributeError, "type object '%s' has no attribute '%s'" % (e.path, name))
    if p.startswith("rlp.sedes."):
        n = p[len("rlp.sedes."):]
        if n in ("binary", "boolean", "big_endian_int", "raw", "text"):
            return Opaque("sedes", kind=n, items=None)
    if name == "__name__":
        return e.path.rsplit(".", 1)[-1]
    if p not in EXTCALL:
        r = I.S.shim_attr(I, e.path, name)
        if r is NO:
            r = I.S.real_const(p)
        if r is not NO:
            return r
    if p == "hashlib." + name and name in HLEN:
        return Builtin("hashlib." + name, lambda I, a, k: new_hash(I, name, a, k))
    return Ext(p)


CONSTS = {
    "sys.version_info": (3, 12, 3, "final", 0),
    "sys.byteorder": "little",
    "sys.maxsize": 2 ** 63 - 1,
    "os.sep": "/",
    "math.inf": float("inf"),
    "string.hexdigits": "0123456789abcdefABCDEF",
    "os.linesep": "\n",
}


def new_hash(I, alg, a, k):
    h = Opaque("hash", alg=alg, parts=[])
    data = a[0] if a else k.get("data", k.get("string"))
    if data is not None:
        hash_update(I, h, data)
    return h


def hash_update(I, h, data):
    if isinstance(data, BArr):
        data = data.val
    if isinstance(data, Term) and data.kind == "any":
        raise Unsupported("hash of unknown")
    if h.f.get("closed"):
        I.throw(TypeError, "You can only call 'digest' or 'hexdigest' on this object")
    if kind_of(data) != "bytes":
        I.throw(TypeError, "object supporting the buffer API required")
    h.f["parts"].append(data)
    return h


def hash_term(I, h):
    if h.f.get("once"):
        h.f["closed"] = True
    data = cat(I, h.f["parts"])
    interp = I.cfg.get("hash_interpretation")
    if interp is not None and isinstance(data, bytes):
        r = interp(h.f["alg"], data)
        if r is not None:
            return r
    return mk("H", h.f["alg"], data)


def H(I, alg, data):
    return mk("H", alg, data)


def exc(I, path, *args):
    raise PyRaise(I.mkexc(Ext(path), *args))


def call_opaque(I, f, a, k):
    if f.type == "py" and callable(f.f["obj"]):
        aa = [I.S.topy(I, x) for x in a]
        kk = {q: I.S.topy(I, x) for q, x in k.items()}
        if any(x is NO for x in aa) or any(x is NO for x in kk.values()):
            raise Unsupported("call on abstract value")
        return I.S.frompy(I, I.S.guard(I, lambda: f.f["obj"](*aa, **kk)))
    if f.type == "partial":
        kk = dict(f.f["kw"])
        kk.update(k)
        return I.call(f.f["fn"], list(f.f["args"]) + a, kk)
    if f.type == "cached":
        key = hk(tuple(a) + tuple(sorted(k.items())))
        for x in a:
            I.check_hashable(x)
        c = f.f["cache"]
        if key not in c:
            c[key] = I.call(f.f["fn"], a, k)
        return c[key]
    if f.type == "itemgetter":
        r = [I.getitem(a[0], x) for x in f.f["keys"]]
        return r[0] if len(r) == 1 else tuple(r)
    if f.type == "attrgetter":
        r = []
        for n in f.f["keys"]:
            v = a[0]
            for p in n.split("."):
                v = I.getattr(v, p)
            r.append(v)
        return r[0] if len(r) == 1 else tuple(r)
    if f.type == "methodcaller":
        return I.call(I.getattr(a[0], f.f["name"]), f.f["args"], f.f["kw"])
    I.throw(TypeError, "'%s' object is not callable" % f.type)


NONE_VALUE = object()  # the attribute is there and is None


def opaque_attr(I, v, name):
    def M(f):
        p = v.type + "." + name
        if p in SIG:
            def g(I, a, k):
                a, k = normalized(I, p, a, k)
                return f(I, a, k)
            return Builtin(p, g)
        return Builtin(p, f)

    t = v.type
    if t == "py":
        return I.S.py_attr(I, v, name)
    if t == "hash":
        if name == "update":
            return M(lambda I, a, k: hash_update(I, v, a[0] if a else k["data"]))
        if name == "digest":
            return M(lambda I, a, k: hash_term(I, v))
        if name == "hexdigest":
            return M(lambda I, a, k: b_hex(I, hash_term(I, v)))
        if name == "copy":
            def cp(I, a, k):
                h = Opaque("hash", alg=v.f["alg"], parts=list(v.f["parts"]))
                h.f.update({q: x for q, x in v.f.items() if q in ("once", "closed")})
                return h
            return M(cp)
        if name in ("digest_size", "digest_bytes"):
            return HLEN[v.f["alg"]]
        if name == "name":
            return v.f["alg"]
        if name == "new":
            return M(lambda I, a, k: new_hash(I, v.f["alg"], a, k))
        return None
    if t == "cached" and name in ("cache_clear", "cache_info"):
        return M(lambda I, a, k: v.f["cache"].clear())
    if t == "cached":
        return v.f["fn"] if name == "__wrapped__" else I.getattr(v.f["fn"], name)
    if t == "partial":
        if name == "func":
            return v.f["fn"]
        if name == "args":
            return tuple(v.f["args"])
        if name == "keywords":
            return Dict(list(v.f["kw"].items()))
        return None
    if t == "rsakey":
        return key_attr(I, v, name, M)
    if t == "signer":
        return signer_attr(I, v, name, M)
    if t == "oaep":
        return oaep_attr(I, v, name, M)
    if t == "aes":
        return aes_attr(I, v, name, M)
    if t == "datetime":
        return datetime_attr(I, v, name, M)
    if t == "ecckey":
        if name in ("export_key", "exportKey"):
            return M(lambda I, a, k: ecc_export(I, v, a, k))
        if name == "curve":
            return CURVES[v.f["curve"]][0]
        if name == "has_private":
            return M(lambda I, a, k: True)
        raise Unsupported("%s of an ECC key" % name)
    if t == "uuid":
        if name == "hex":
            return v.f["hex"]
        if name == "bytes":
            return fromhex(I, v.f["hex"])
        return None
    if t == "file":
        return file_attr(I, v, name, M)
    if t == "sedes":
        if name == "serialize":
            return M(lambda I, a, k: a[0])
        return None
    if t == "stringio":
        if name == "write":
            return M(lambda I, a, k: v.f["parts"].append(a[0]))
        if name == "getvalue":
            return M(lambda I, a, k: cat(I, v.f["parts"], kind=v.f["kind"]))
        return None
    if t == "suppress":
        return None
    return None


# --- files
def file_attr(I, v, name, M):
    if name == "write":
        def w(I, a, k):
            want = "bytes" if "b" in v.f["mode"] else "str"
            if kind_of(a[0]) not in (want, "any") or v.f.get("parts") is None:
                I.throw(TypeError, "write() argument must be %s, not %s" % (want, I.type_name(a[0])))
            if v.f.get("new") is not None:
                v.f["new"].append(a[0])
                new, old = (cat(I, list(v.f[x]), kind=want) for x in ("new", "under"))
                v.f["parts"][:] = [mk("overlay", new, old, kind=want)]
            else:
                v.f["parts"].append(a[0])
            I.events.append(("write", v.f["path"], a[0], I.where()))
        return M(w)
    if name == "read":
        if v.f.get("new") is not None:
            if v.f["new"]:
                raise Unsupported("reading behind what was written")
            return M(lambda I, a, k: cat(I, list(v.f["under"]), kind="bytes" if "b" in v.f["mode"] else "str"))
        return M(lambda I, a, k: v.f["content"])
    if v.f.get("new") is not None and name in ("seek", "truncate"):
        def at(I, a, k):
            if a and a != [0] or name == "truncate" and bool(a) == bool(v.f["new"]):
                raise Unsupported("position in a file")
            if name == "seek":
                v.f["new"] = []
            elif not v.f["new"]:
                v.f["under"][:] = []
                v.f["parts"][:] = []
            else:
                v.f["parts"][:] = v.f["new"]
        return M(at)
    if name in ("close", "flush", "__exit__", "seek"):
        return M(lambda I, a, k: None)
    if name == "__enter__":
        return M(lambda I, a, k: v)
    return None


# --- RSA keys
def key_obj(K, private):
    return Opaque("rsakey", key=K, private=private)


def key_attr(I, v, name, M):
    K, priv = v.f["key"], v.f["private"]
    if name in ("publickey", "public_key"):
        return M(lambda I, a, k: key_obj(K, False))
    if name == "has_private":
        def hp(I, a, k):
            if priv is None:
                r = I.facts.get(("private", K))
                if r is None:
                    r = I.choose_bool("%s is a private key" % render(K))
                    I.facts[("private", K)] = r
                return r
            return priv
        return M(hp)
    if name in ("export_key", "exportKey"):
        def ex(I, a, k):
            fmt = a[0] if a else "PEM"
            pw = a[1] if len(a) > 1 else None
            p = priv
            if p is None:
                p = I.call(key_attr(I, v, "has_private", M), [])
            if not p:
                return mk("pem_pub", K, fmt)
            prot = a[3] if len(a) > 3 else None
            pk = (a[2] if len(a) > 2 else None) or 1
            if pw is not None and isinstance(pw, (str, bytes)) and not pw:
                pw = None
            return mk("pem_priv", K, pw if pw is not None else "", _fz(I, (fmt, pk, prot)))
        return M(ex)
    if name in ("size_in_bits",):
        return M(lambda I, a, k: rsa_bits(K))
    if name in ("size_in_bytes",):
        return M(lambda I, a, k: rsa_bytes(K))
    if name in ("n", "e", "d", "p", "q", "u"):
        return Lin({mk("rsa_" + name, K, kind="int"): 1}, 0)
    return None


def import_key(I, a, k):
    b = a[0]
    pw = a[1] if len(a) > 1 else None
    if isinstance(b, BArr):
        b = b.val
    if isinstance(b, Term) and b.op == "utf8dec":
        b = b.args[0]
    if isinstance(b, Term) and b.op == "pem_pub":
        return key_obj(b.args[0], False)
    if isinstance(b, Term) and b.op == "pem_priv":
        p = b.args[1]
        if p == "" and not isinstance(p, Term):
            return key_obj(b.args[0], True)
        if pw is None:
            I.throw(ValueError, "RSA key format is not supported")
        if kind_of(pw) == "bytes" and kind_of(p) == "str":
            pw = decode(I, pw)
        if I.eq(pw, p, "passphrase"):
            return key_obj(b.args[0], True)
        I.throw(ValueError, "RSA key format is not supported (wrong passphrase)")
    if isinstance(b, Term) and b.op == "cat" and not (isinstance(b.args[0][0], bytes) and b.args[0][0][:1] not in (b"-", b"\x30", b"s")):
        if any(isinstance(x, Term) and x.op in ("pem_pub", "pem_priv") for x in _atoms([b])):
            raise Unsupported("a key with something attached")
    if isinstance(b, Term) and not guessable(b):
        I.throw(ValueError, "RSA key format is not supported")
    if isinstance(b, Term):
        r = I.facts.get(("iskey", b))
        if r is None:
            r = I.choose_bool("%s is a valid RSA key" % render(b))
            I.facts[("iskey", b)] = r
        if not r:
            I.throw(ValueError, "RSA key format is not supported")
        I.events.append(("import_key", b, I.where()))
        return key_obj(mk("keyof", b, kind="key"), b.meta.get("private"))
    if isinstance(b, (bytes, str)):
        I.throw(ValueError, "RSA key format is not supported")
    I.throw(TypeError, "expected bytes")


def K_eq(I, a, b):
    """equality of key identities"""
    if a is b:
        return True
    if a.op == "keyof" or b.op == "keyof":
        k = ("keq",) + tuple(sorted((id(a), id(b))))
        r = I.facts.get(k)
        if r is None:
            r = I.choose_bool("%s is the key %s" % (render(a), render(b)))
            I.facts[k] = r
        return r
    return False


def guessable(t):
    """may t be any value at all (does it contain an unconstrained unknown)?"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "sym" and not x.meta.get("generic") and x.kind != "key":
                return True
            if x.op in CTORS or x.op in ("cat", "slice", "sym", "bseq", "utf8", "unhex", "strbytes"):
                if x.op not in ("H", "sig", "oaep", "tag"):
                    todo.extend(x.args)
            else:
                return True
        elif isinstance(x, tuple):
            todo.extend(x)
    return False


def must_decide(I, a, b):
    if a.op == "sym":
        return False
    r = I.eq3(a, b)
    if r is None:
        raise Unsupported("cannot decide whether %s equals %s" % (render(a), render(b)))
    return r


def signer_attr(I, v, name, M):
    key = v.f["key"]
    if name == "sign":
        def sg(I, a, k):
            if key.f["private"] is False:
                I.throw(TypeError, "This is not a private key")
            h = a[0]
            if not (isinstance(h, Opaque) and h.type == "hash"):
                I.throw(AttributeError, "hash object expected")
            I.events.append(("sign", key.f["key"], hash_term(I, h), I.where()))
            return mk("sig", key.f["key"], v.f["scheme"], hash_term(I, h))
        return M(sg)
    if name == "verify":
        def vf(I, a, k):
            h, s = a
            if isinstance(s, BArr):
                s = s.val
            ht = hash_term(I, h)
            K = key.f["key"]
            if isinstance(s, Term) and s.op == "sig":
                good = K_eq(I, K, s.args[0]) and s.args[1] == v.f["scheme"] and I.eq(ht, s.args[2], "signed digest")
            elif isinstance(s, Term) and not guessable(s):
                good = must_decide(I, s, mk("sig", K, v.f["scheme"], ht))
            elif isinstance(s, Term):
                kk = ("sigok", K, s, ht)
                good = I.facts.get(kk)
                if good is None:
                    good = I.choose_bool("signature %s is valid" % render(s))
                    I.facts[kk] = good
            else:
                good = False
            I.events.append(("verify", K, ht, s, good, I.where()))
            if v.f["scheme"] == "pss" or v.f.get("boolean"):
                if v.f.get("boolean"):
                    return good
            if not good:
                I.throw(ValueError, "Invalid signature")
            return None
        return M(vf)
    if name == "can_sign":
        return M(lambda I, a, k: key.f["private"] is not False)
    return None


def oaep_params(I, a):
    h = a[1] if len(a) > 1 else None
    if isinstance(h, Opaque) and h.type == "hash":
        h = h.f["alg"]
    elif isinstance(h, Ext):
        h = h.path.rsplit(".", 1)[-1].lower()
    label = a[3] if len(a) > 3 else b""
    if len(a) > 2 and a[2] is not None:
        raise Unsupported("mask function")
    h = h or "sha1"
    return () if (h, label) == ("sha1", b"") else (h, label)


def oaep_attr(I, v, name, M):
    key = v.f["key"]
    if not (isinstance(key, Opaque) and key.type == "rsakey"):
        raise Unsupported("OAEP key")
    params = v.f.get("params", ())
    if name == "encrypt":
        def en(I, a, k):
            m = a[0]
            if kind_of(m) != "bytes":
                I.throw(TypeError, "bytes expected")
            I.events.append(("oaep", key.f["key"], m, I.where()))
            I.counter += 1
            return mk("oaep", key.f["key"], m, ("r%d" % I.counter,) + params)
        return M(en)
    if name == "decrypt":
        def de(I, a, k):
            c = a[0]
            if key.f["private"] is False:
                I.throw(TypeError, "This is not a private key")
            if isinstance(c, Term) and c.op == "oaep":
                if c.args[2][1:] == params and K_eq(I, key.f["key"], c.args[0]):
                    return c.args[1]
                I.throw(ValueError, "Incorrect decryption.")
            if isinstance(c, Term):
                kk = ("oaepok", c, key.f["key"])
                g = I.facts.get(kk)
                if g is None:
                    g = I.choose_bool("%s decrypts under the RSA key" % render(c))
                    I.facts[kk] = g
                if g:
                    return mk("oaepdec", key.f["key"], c)
            I.throw(ValueError, "Incorrect decryption.")
        return M(de)
    return None


def is_slice(t):
    return isinstance(t, Term) and t.op == "slice"


AEAD = ("EAX", "GCM", "CCM", "OCB", "SIV")


def aes_attr(I, v, name, M):
    mode = v.f["mode"]
    if name in ("nonce", "iv"):
        return v.f["nonce"]
    key, nonce = v.f["key"], v.f["nonce"]
    aad = lambda: cat(I, v.f["aad"])
    if name == "update":
        def up(I, a, k):
            if v.f.get("phase"):
                I.throw(TypeError, "update() can only be called before the message")
            v.f["aad"].append(a[0])
            return v
        return M(up)
    def ct(m):
        if isinstance(m, Term) and m.op == "dec" and m.args[0] is key and m.args[1] is nonce and m.args[2] == mode:
            return m.args[3]
        return b"" if m == b"" else mk("ct", key, nonce, mode, m)

    mac = v.f.get("mac", 16)

    def tag(m):
        if mac < 16 and mode in ("EAX", "GCM"):
            return mkslice(I, mk("tag", key, nonce, mode, m, aad()), 0, mac)
        return mk("tag", key, nonce, mode, m, aad(), *(() if mac == 16 else (mac,)))

    def phase(*allowed):
        """the calls a cipher object takes in order"""
        if v.f.get("phase") not in allowed:
            I.throw(TypeError, "%s() cannot be called now" % name)

    def dec(c):
        if c == b"":
            return b""
        if isinstance(c, Term) and c.op == "ct" and I.eq(c.args[0], key, "cipher key") and I.eq(c.args[1], nonce, "nonce") and c.args[2] == mode:
            return c.args[3]
        return mk("dec", key, nonce, mode, c)

    def b(x):
        return x.val if isinstance(x, BArr) else x

    if name == "encrypt":
        def en(I, a, k):
            if v.f.get("phase") == "enc":
                raise Unsupported("encryption in pieces")
            if len(a) > 1 and a[1] is not None:
                raise Unsupported("output buffer")
            phase(None)
            v.f["phase"] = "enc"
            v.f["plain"] = b(a[0])
            I.events.append(("enc", key, nonce, v.f["plain"], I.where()))
            return ct(v.f["plain"])
        return M(en)
    if name == "digest" and mode in AEAD:
        def dg(I, a, k):
            phase(None, "enc", "digest")
            v.f["phase"] = "digest"
            return tag(v.f.get("plain", b""))
        return M(dg)
    if name == "hexdigest" and mode in AEAD:
        return M(lambda I, a, k: b_hex(I, I.call(aes_attr(I, v, "digest", M), [])))
    if name == "encrypt_and_digest" and mode in AEAD:
        def ed(I, a, k):
            if len(a) > 1 and a[1] is not None:
                raise Unsupported("output buffer")
            m = b(a[0])
            phase(None)
            v.f["phase"] = "digest"
            v.f["plain"] = m
            I.events.append(("enc", key, nonce, m, I.where()))
            return (ct(m), tag(m))
        return M(ed)
    if name == "decrypt":
        def de(I, a, k):
            if v.f.get("phase") == "dec":
                raise Unsupported("decryption in pieces")
            if len(a) > 1 and a[1] is not None:
                raise Unsupported("output buffer")
            phase(None)
            v.f["phase"] = "dec"
            v.f["ct"] = b(a[0])
            m = dec(b(a[0]))
            v.f["plain"] = m
            I.events.append(("dec", key, nonce, b(a[0]), m, I.where()))
            return m
        return M(de)

    def check(c, t):
        m = dec(c)
        if isinstance(t, Term) and t.op == "tag":
            if isinstance(m, Term) and m.op == "dec":
                # an authentic tag belongs to one ciphertext
                good = I.eq(c, ct(t.args[3]), "ciphertext") and I.eq(t, tag(t.args[3]), "authentication tag")
            else:
                good = I.eq(t, tag(m), "authentication tag")
        elif is_slice(t) and isinstance(t.args[0], Term) and t.args[0].op == "tag" and is_slice(tag(m)):
            u = tag(m)
            good = t.args[1:] == u.args[1:] and I.eq(t.args[0], u.args[0], "authentication tag")
        elif isinstance(t, Term) and not guessable(t):
            good = must_decide(I, t, tag(m))
        elif isinstance(t, Term):
            kk = ("tagok", key, nonce, c, t)
            good = I.facts.get(kk)
            if good is None:
                good = I.choose_bool("authentication tag %s matches" % render(t))
                I.facts[kk] = good
        else:
            good = False
        I.events.append(("tag", key, nonce, c, t, good, I.where()))
        if not good:
            I.throw(ValueError, "MAC check failed")
        return m

    if name == "verify" and mode in AEAD:
        def vf(I, a, k):
            phase(None, "dec", "verify")
            v.f["phase"] = "verify"
            check(v.f.get("ct", b""), b(a[0]))
        return M(vf)
    if name == "decrypt_and_verify" and mode in AEAD:
        def dv(I, a, k):
            if len(a) > 2 and a[2] is not None:
                raise Unsupported("output buffer")
            phase(None)
            v.f["phase"] = "verify"
            return check(b(a[0]), b(a[1]))
        return M(dv)
    return None


def new_aes(I, a, k):
    key, mode = a[:2]
    if isinstance(key, BArr):
        key = key.val
    if not isinstance(mode, Ext):
        raise Unsupported("cipher mode")
    mode = mode.path.rsplit("MODE_", 1)[-1]
    n = I.blen(key)
    if isinstance(n, int) and n not in (16, 24, 32):
        I.throw(ValueError, "Incorrect AES key length (%d bytes)" % n)
    nonce = a[2] if len(a) > 2 and a[2] is not None else k.get("iv")
    mac = k.get("mac_len", 16)
    if isinstance(mac, Lin) and mode in AEAD:
        # a length that is a lawful one, or not the full one
        for n in (16, *range(2, 16)):
            if I.eq(mac, n, "mac_len"):
                mac = n
                break
        else:
            I.throw(ValueError, "Parameter 'mac_len' must be in the range 2..16")
    if not isinstance(mac, int) or mac != 16 and mode not in AEAD:
        raise Unsupported("mac_len")
    if mode in AEAD and not 2 <= mac <= 16:
        I.throw(ValueError, "Parameter 'mac_len' must be in the range 2..16")
    if isinstance(nonce, BArr):
        nonce = nonce.val
    if nonce is None:
        nonce = I.fresh("nonce", lo=16, hi=16, group="nonce", generic=True) if mode != "ECB" else b""
    if kind_of(nonce) not in ("bytes", "any"):
        I.throw(TypeError, "Object type %s cannot be passed to C code" % I.type_name(nonce))
    return Opaque("aes", key=key, mode=mode, nonce=nonce, aad=[], mac=mac)


# --- JSON
def jfreeze(I, v):
    if isinstance(v, Dict):
        out = []
        for kk, x in v.pairs():
            if kind_of(kk) != "str":
                if isinstance(kk, (int, float, bool, type(None))):
                    kk = str(kk)
                else:
                    I.throw(TypeError, "keys must be str, int, float, bool or None, not %s" % I.type_name(kk))
            out.append((kk, jfreeze(I, x)))
        return ("d",) + tuple(out)
    if isinstance(v, (List, tuple)):
        return ("l",) + tuple(jfreeze(I, x) for x in (v.items if isinstance(v, List) else v))
    if isinstance(v, (str, int, float, type(None))) or isinstance(v, Lin) or isinstance(v, Term) and v.kind in ("str", "int", "bool", "any"):
        return ("v", v)
    I.throw(TypeError, "Object of type %s is not JSON serializable" % I.type_name(v))


def jthaw(I, s):
    if s[0] == "d":
        return Dict([(k, jthaw(I, x)) for k, x in s[1:]])
    if s[0] == "l":
        return List([jthaw(I, x) for x in s[1:]])
    return s[1]


def json_dumps(I, v, k=None):
    return mk("json", jfreeze(I, v), kind="str")


def json_loads(I, s):
    if isinstance(s, BArr):
        s = s.val
    if isinstance(s, Term) and s.op == "utf8":
        s = s.args[0]
    if isinstance(s, Term) and s.op == "json":
        return jthaw(I, s.args[0])
    if isinstance(s, Term) and s.op == "overlay":
        if I.choose_bool("%s is longer than what is written over it" % render(s.args[1])):
            exc(I, "json.decoder.JSONDecodeError", "Extra data")
        return json_loads(I, s.args[0])
    if isinstance(s, (str, bytes)):
        import json

        try:
            return unmap(json.loads(s))
        except ValueError:
            exc(I, "json.decoder.JSONDecodeError", "bad JSON")
    if isinstance(s, Term) and s.op == "cat":
        ps = [p.args[0] if isinstance(p, Term) and p.op == "utf8" else p for p in s.args[0]]
        ps = [p for p in ps if isinstance(p, Term) or p.strip()]
        js = [p for p in ps if isinstance(p, Term) and p.op == "json"]
        if len(ps) == 1 and js:
            return json_loads(I, js[0])
        if js and js[0].args[0][0] == "d" and ps[0] is js[0]:
            exc(I, "json.decoder.JSONDecodeError", "Extra data")
    if isinstance(s, Term) and s.kind in ("str", "bytes", "any"):
        if s.meta.get("jsonok") is None:
            r = I.facts.get(("jsonok", s))
            if r is None:
                r = I.choose_bool("%s is JSON" % render(s))
                I.facts[("jsonok", s)] = r
            if not r:
                exc(I, "json.decoder.JSONDecodeError", "bad JSON")
        return mk("jdoc", s, kind="any")
    I.throw(TypeError, "the JSON object must be str, bytes or bytearray, not %s" % I.type_name(s))


def json_field(I, d, k, default=NO):
    key = ("jhas", d, hk(k))
    r = I.facts.get(key)
    if r is None:
        r = I.choose_bool("%s has field %r" % (render(d), k))
        I.facts[key] = r
    if not r:
        if default is not NO:
            return default
        I.throw(KeyError, k)
    return mk("jfield", d, k, kind=I.cfg.get("jfield_kind", "str"))


# --- RLP
def rlp_content(I, v):
    if isinstance(v, (bytes,)):
        return v
    if isinstance(v, BArr):
        return v.val
    if isinstance(v, Term):
        if v.kind == "bytes":
            return v
        if v.kind == "bool":
            return mk("rlpbool", v)
        if v.kind == "int":
            return mk("be", lin(v))
        if v.kind == "any":
            raise Unsupported("RLP of unknown")
        I.throw(TypeError, "Did not find sedes handling type str")
    if isinstance(v, bool):
        return b"\x01" if v else b""
    if isinstance(v, int):
        if v < 0:
            exc(I, "rlp.exceptions.SerializationError", "negative")
        return v.to_bytes((v.bit_length() + 7) // 8, "big")
    if isinstance(v, Lin):
        return mk("be", v)
    if isinstance(v, (List, tuple)):
        return tuple(rlp_content(I, x) for x in (v.items if isinstance(v, List) else v))
    I.throw(TypeError, "Did not find sedes handling type %s" % I.type_name(v))


def rlp_encode(I, a, k):
    if len(a) > 1 and a[1] is not None:
        c = ensed(I, a[0], a[1])
        return mk("rlp", c)
    return mk("rlp", rlp_content(I, a[0]))


def ensed(I, v, s):
    """serialization under a sedes"""
    bad = lambda m: exc(I, "rlp.exceptions.SerializationError", m)
    if isinstance(s, List):
        s = Opaque("sedes", kind="list", items=list(s.items))
    if not (isinstance(s, Opaque) and s.type == "sedes"):
        raise Unsupported("sedes")
    kd = s.f["kind"]
    if kd == "raw":
        return rlp_content(I, v)
    if kd in ("list", "clist"):
        if not isinstance(v, (List, tuple)):
            bad("Can only serialize sequences")
        xs = list(v.items) if isinstance(v, List) else list(v)
        if kd == "clist":
            return tuple(ensed(I, x, s.f["items"]) for x in xs)
        if len(xs) != len(s.f["items"]):
            bad("List has wrong length")
        return tuple(ensed(I, x, t) for x, t in zip(xs, s.f["items"]))
    want = {"binary": ("bytes",), "big_endian_int": ("int",), "boolean": ("bool",), "text": ("str",)}.get(kd)
    if want is None or kind_of(v) == "any":
        raise Unsupported("sedes %s" % kd)
    if kind_of(v) not in want:
        bad("Object is not serializable")
    return rlp_content(I, v)


def rlp_raw(I, c):
    if isinstance(c, tuple):
        return List([rlp_raw(I, x) for x in c])
    return c


def more_than_nothing(I, parts):
    return any(isinstance(p, bytes) and p for p in parts) or I.truth(I.compare("Gt", term_len(I, cat(I, parts)), 0, "length"), "trailing bytes")


def rlp_decode(I, a, k):
    x = a[0]
    sedes = a[1] if len(a) > 1 else None
    strict = a[2] if len(a) > 2 else True
    if not isinstance(strict, bool):
        raise Unsupported("rlp.decode with unknown strictness")
    if isinstance(x, BArr):
        x = x.val
    if kind_of(x) not in ("bytes", "any"):
        exc(I, "rlp.exceptions.DecodingError", "Can only decode RLP bytes, got type %s" % I.type_name(x))
    if isinstance(x, Term):
        if x.op == "rlp":
            c = x.args[0]
        elif x.meta.get("junk"):
            exc(I, "rlp.exceptions.DecodingError", "junk")
        elif x.meta.get("decodes") is not None:
            c = x.meta["decodes"]
        elif x.op == "H":
            exc(I, "rlp.exceptions.DecodingError", "a digest is not RLP")
        elif x.op == "slice" and isinstance(x.args[0], Term) and x.args[0].op == "rlp":
            exc(I, "rlp.exceptions.DecodingError", "truncated")
        elif x.op == "cat" and isinstance(x.args[0][0], Term) and x.args[0][0].op == "rlp" and more_than_nothing(I, x.args[0][1:]):
            # a whole item, and more
            if strict:
                exc(I, "rlp.exceptions.DecodingError", "trailing bytes")
            c = x.args[0][0].args[0]
        else:
            if I.choose_bool("%s is not RLP" % render(x)):
                exc(I, "rlp.exceptions.DecodingError", "not RLP")
            raise Unsupported("RLP decoding of unknown %s" % render(x))
    else:
        try:
            c = _rlp_dec(x, strict)
        except (ValueError, IndexError):
            exc(I, "rlp.exceptions.DecodingError", "bad RLP")
    if sedes is None:
        return rlp_raw(I, c)
    return desed(I, c, sedes)


def desed(I, c, s):
    bad = lambda m: exc(I, "rlp.exceptions.DeserializationError", m)
    if isinstance(s, List):
        s = Opaque("sedes", kind="list", items=list(s.items))
    if not (isinstance(s, Opaque) and s.type == "sedes"):
        raise Unsupported("sedes")
    kd = s.f["kind"]
    if kd == "raw":
        return rlp_raw(I, c)
    if kd == "list":
        if not isinstance(c, tuple):
            bad("expected list")
        items = s.f["items"]
        if len(items) != len(c):
            bad("wrong length")
        return tuple(desed(I, x, t) for x, t in zip(c, items))
    if kd == "clist":
        if not isinstance(c, tuple):
            bad("expected list")
        return tuple(desed(I, x, s.f["items"]) for x in c)
    if isinstance(c, tuple):
        bad("expected bytes")
    if kd == "binary":
        return c
    if kd == "big_endian_int":
        if isinstance(c, Term) and c.op == "be":
            return c.args[0]
        if isinstance(c, bytes):
            if c[:1] == b"\0":
                bad("leading zero")
            return int.from_bytes(c, "big")
        return Lin({mk("intof", c, kind="int"): 1}, 0)
    if kd == "boolean":
        if isinstance(c, Term) and c.op == "rlpbool":
            return c.args[0]
        if c == b"":
            return False
        if c == b"\x01":
            return True
        if isinstance(c, Term):
            return mk("boolof", c, kind="bool")
        bad("not a boolean")
    if kd == "text":
        return decode(I, c)
    raise Unsupported("sedes %s" % kd)


# --- copy
def deepcopy(I, v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, List):
        n = memo[id(v)] = List()
        n.items = [deepcopy(I, x, memo) for x in v.items]
        return n
    if isinstance(v, Dict):
        n = memo[id(v)] = Dict()
        n.opaque = v.opaque
        for k, x in v.pairs():
            kk = deepcopy(I, k, memo)
            n.d[hk(kk)] = (kk, deepcopy(I, x, memo))
        return n
    if isinstance(v, SetV):
        return SetV([deepcopy(I, x, memo) for x in v.items], v.frozen)
    if isinstance(v, BArr):
        return BArr(v.val)
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__deepcopy__")
        if m is not NO:
            return I.call(I.bind(m, v), [Dict()])
        n = memo[id(v)] = Instance(v.cls)
        n.attrs = {k: deepcopy(I, x, memo) for k, x in v.attrs.items()}
        if getattr(v, "tag", None) is not None:
            n.tag = v.tag.clone() if hasattr(v.tag, "clone") else v.tag
        return n
    return v


def shallow(I, v):
    if isinstance(v, List):
        return List(v.items)
    if isinstance(v, Dict):
        n = Dict(v.pairs())
        n.opaque = v.opaque
        return n
    if isinstance(v, SetV):
        return SetV(v.items, v.frozen)
    if isinstance(v, BArr):
        return BArr(v.val)
    if isinstance(v, Instance):
        m = I.find_class_attr(v.cls, "__copy__")
        if m is not NO:
            return I.call(I.bind(m, v), [])
        n = Instance(v.cls)
        n.attrs = dict(v.attrs)
        if getattr(v, "tag", None) is not None:
            n.tag = v.tag.clone() if hasattr(v.tag, "clone") else v.tag
        return n
    return v


def noop_dec(I, a, k):
    return a[0]


def abstractmethod(I, a, k):
    f = a[0]
    if isinstance(f, Func):
        f.attrs["__isabstractmethod__"] = True
    return f


def lru_cache(I, a, k):
    def wrap(I, aa, kk):
        return Opaque("cached", fn=aa[0], cache={})
    if a and isinstance(a[0], (Func, Bound, Builtin)):
        return wrap(I, a, k)
    return Builtin("lru_cache", wrap)


def dataclass(I, a, k):
    def opt(f, n, default):
        return f.f["kw"].get(n, default) if isinstance(f, Opaque) and f.type == "field" else default

    def wrap(I, aa, kk):
        c = aa[0]
        fields = []
        kwonly = set()
        for b in reversed(c.mro):
            if isinstance(b, Cls) and b.node is not None and (b is c or "__dataclass_fields__" in b.ns):
                allkw = b is c and k.get("kw_only") is True
                if b is not c:
                    for n, d in b.ns["__dataclass_fields__"].attrs["list"]:
                        fields = [f for f in fields if f[0] != n] + [(n, d)] if n not in [f[0] for f in fields] else [(x, d if x == n else y) for x, y in fields]
                    kwonly |= b.ns["__dataclass_fields__"].attrs["kwonly"]
                    continue
                for s in b.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        ann = ast.unparse(s.annotation)
                        if "ClassVar" in ann:
                            continue
                        if ann.endswith("KW_ONLY"):
                            allkw = True
                            continue
                        if "InitVar" in ann:
                            raise Unsupported("InitVar")
                        n = s.target.id
                        d = b.ns.get(n, NO)
                        if isinstance(d, (List, Dict, SetV)):
                            I.throw(ValueError, "mutable default for field %s is not allowed: use default_factory" % n)
                        if n in [f[0] for f in fields]:
                            fields = [(x, d if x == n else y) for x, y in fields]
                        else:
                            fields.append((n, d))
                        if allkw or opt(d, "kw_only", False) is True:
                            kwonly.add(n)
        frozen = k.get("frozen") is True
        for n, d in fields:
            if isinstance(d, Opaque) and d.type == "field":
                if "default" in d.f["kw"]:
                    c.ns[n] = d.f["kw"]["default"]
                elif c.ns.get(n) is d:
                    del c.ns[n]
        lst = Builtin("__dataclass_fields__", None)
        lst.attrs = {"list": fields, "kwonly": kwonly}
        c.ns["__dataclass_fields__"] = lst
        fl = []
        for n, d in fields:
            o = Instance(new_class(I, "Field", [], {}))
            dv = d if not (isinstance(d, Opaque) and d.type == "field") else d.f["kw"].get("default", NO)
            o.attrs.update(name=n, init=opt(d, "init", True), repr=opt(d, "repr", True), compare=opt(d, "compare", True), default=Ext("dataclasses.MISSING") if dv is NO else dv,
                           default_factory=opt(d, "default_factory", Ext("dataclasses.MISSING")), metadata=opt(d, "metadata", None))
            fl.append(o)
        c.ns["__dataclass_fields_list__"] = tuple(fl)
        pos_names = [n for n, d in fields if n not in kwonly and opt(d, "init", True) is not False]
        all_names = pos_names + [n for n, d in fields if n in kwonly and opt(d, "init", True) is not False]
        comparable = [n for n, d in fields if opt(d, "compare", True) is not False]

        def init(I, x, kw):
            o, pos = x[0], x[1:]
            if len(pos) > len(pos_names):
                I.throw(TypeError, "too many arguments")
            given = dict(zip(pos_names, pos))
            for n in kw:
                if n not in all_names:
                    I.throw(TypeError, "unexpected argument %s" % n)
                if n in given:
                    I.throw(TypeError, "multiple values for argument %s" % n)
                given[n] = kw[n]
            for n, d in fields:
                fd = isinstance(d, Opaque) and d.type == "field"
                if n in given:
                    v = given[n]
                elif fd and "default_factory" in d.f["kw"]:
                    v = I.call(d.f["kw"]["default_factory"], [])
                elif fd and "default" in d.f["kw"]:
                    v = d.f["kw"]["default"]
                elif not fd and d is not NO:
                    v = d
                elif n not in all_names:
                    continue
                else:
                    I.throw(TypeError, "missing argument %s" % n)
                I.setattr(o, n, v, raw=True)
            pi = I.find_class_attr(c, "__post_init__")
            if pi is not NO:
                I.call(I.bind(pi, o), [])

        def row(o):
            return tuple(I.getattr(o, n) for n in comparable)

        if "__init__" not in c.ns and k.get("init") is not False:
            c.ns["__init__"] = Builtin("__init__", init)
        if "__eq__" not in c.ns and k.get("eq") is not False:
            def eq(I, x, kw):
                o, p = x
                if not isinstance(p, Instance) or p.cls is not o.cls:
                    return NOTIMPL
                return all(I.truth(I.rich_eq(p1, p2)) for p1, p2 in zip(row(o), row(p)))
            c.ns["__eq__"] = Builtin("__eq__", eq)
        if k.get("order") is True:
            for n, op in (("__lt__", "Lt"), ("__le__", "LtE"), ("__gt__", "Gt"), ("__ge__", "GtE")):
                def cmp(I, x, kw, op=op):
                    o, p = x
                    if not isinstance(p, Instance) or p.cls is not o.cls:
                        return NOTIMPL
                    return order(I, op, row(o), row(p), op)
                c.ns[n] = Builtin(n, cmp)
        if "__repr__" not in c.ns and k.get("repr") is not False:
            def rep(I, x, kw):
                o = x[0]
                parts = [o.cls.qual, "("]
                for i, n in enumerate([n for n, d in fields if opt(d, "repr", True) is not False]):
                    parts += [", " if i else "", n, "=", to_repr(I, I.getattr(o, n))]
                return cat(I, parts + [")"], kind="str")
            c.ns["__repr__"] = Builtin("__repr__", rep)
        c.ns.setdefault("__match_args__", tuple(pos_names))
        if frozen:
            def fz(I, x, kw):
                if x[1] in [n for n, _ in fields] or True:
                    raise PyRaise(I.mkexc(Ext("dataclasses.FrozenInstanceError"), "cannot assign to field %r" % (x[1],)))
            c.ns.setdefault("__setattr__", Builtin("__setattr__", fz))
            c.ns.setdefault("__delattr__", Builtin("__delattr__", fz))
        if (frozen and k.get("eq") is not False) or k.get("unsafe_hash") is True:
            def hs(I, x, kw):
                return B_hash(I, [row(x[0])], {})
            c.ns.setdefault("__hash__", Builtin("__hash__", hs))
        return c
    if a:
        return wrap(I, a, k)
    return Builtin("dataclass", wrap)


def unsupported(what):
    raise Unsupported(what)


def norm(I, what, sig, a, k):
    """positional form of a call: keyword arguments moved to their places"""
    names = [x[0] if isinstance(x, tuple) else x for x in sig]
    rest = "*" in names
    a = list(a)
    if rest:
        names = names[:names.index("*")]
    if len(a) > len(names) and not rest:
        I.throw(TypeError, "%s() takes at most %d arguments (%d given)" % (what, len(names), len(a)))
    if not k:
        return a, k
    k = dict(k)
    last = max([names.index(q) for q in k if q in names], default=-1)
    for i in range(min(len(a), len(names))):
        if names[i] in k:
            I.throw(TypeError, "%s() got multiple values for argument %r" % (what, names[i]))
    for i in range(len(a), last + 1):
        if names[i] in k:
            a.append(k.pop(names[i]))
        elif isinstance(sig[i], tuple):
            a.append(sig[i][1])
        else:
            I.throw(TypeError, "%s() missing argument %r" % (what, names[i]))
    return a, k


SIG = {
    "rlp.encode": ("obj", ("sedes", None), ("infer_serializer", True), ("cache", True)),
    "rlp.decode": ("rlp", ("sedes", None), ("strict", True), ("recursive_cache", False)),
    "rlp.sedes.List": (("elements", None), ("strict", True)),
    "rlp.sedes.CountableList": ("element_sedes", ("max_length", None)),
    "json.dump": ("obj", "fp"),
    "json.dumps": ("obj",),
    "json.load": ("fp",),
    "json.loads": ("s",),
    "os.path.isfile": ("path",), "os.path.exists": ("path",), "os.path.isdir": ("s",), "os.path.islink": ("path",), "os.path.lexists": ("path",), "os.path.expanduser": ("path",), "os.path.expandvars": ("path",), "os.fspath": ("path",),
    "Crypto.PublicKey.RSA.generate": ("bits", ("randfunc", None), ("e", 65537)),
    "Crypto.PublicKey.RSA.import_key": ("extern_key", ("passphrase", None)),
    "Crypto.PublicKey.RSA.importKey": ("extern_key", ("passphrase", None)),
    "Crypto.Signature.pkcs1_15.new": ("rsa_key",),
    "Crypto.Signature.pss.new": ("rsa_key",),
    "Crypto.Cipher.PKCS1_OAEP.new": ("key", ("hashAlgo", None), ("mgfunc", None), ("label", b""), ("randfunc", None)),
    "Crypto.Cipher.AES.new": ("key", "mode", ("nonce", None)),
    "Crypto.Random.get_random_bytes": ("N",),
    "os.urandom": ("size",),
    "secrets.token_bytes": (("nbytes", None),),
    "hmac.compare_digest": ("a", "b"), "secrets.compare_digest": ("a", "b"),
    "binascii.hexlify": ("data", ("sep", None), ("bytes_per_sep", 1)), "binascii.unhexlify": ("hexstr",),
    "pickle.dumps": ("obj", ("protocol", None)),
    "copy.copy": ("x",), "copy.deepcopy": ("x", ("memo", None)),
    "typing.cast": ("typ", "val"),
    "datetime.datetime.strptime": ("date_string", "format"),
    "datetime.strptime": ("date_string", "format"),
    "hash.update": ("data",), "signer.sign": ("msg_hash",), "signer.verify": ("msg_hash", "signature"), "signer.can_sign": (),
    "oaep.encrypt": ("message",), "oaep.decrypt": ("ciphertext",),
    "aes.encrypt": ("plaintext", ("output", None)), "aes.decrypt": ("ciphertext", ("output", None)), "aes.update": ("assoc_data",),
    "aes.encrypt_and_digest": ("plaintext", ("output", None)), "aes.decrypt_and_verify": ("ciphertext", "received_mac_tag", ("output", None)),
    "aes.verify": ("received_mac_tag",), "aes.digest": (),
    "rsakey.export_key": (("format", "PEM"), ("passphrase", None), ("pkcs", None), ("protection", None)),
    "rsakey.exportKey": (("format", "PEM"), ("passphrase", None), ("pkcs", None), ("protection", None)),
    "rsakey.has_private": (), "rsakey.publickey": (), "rsakey.public_key": (),
    "datetime.strftime": ("format",),
}
# keyword arguments that change nothing the analysis looks at
HARMLESS = {"Crypto.Cipher.AES.new": ("use_aesni", "msg_len", "assoc_len"), "Crypto.PublicKey.RSA.import_key": ("threads", "max_iteration_count", "max_memory"),
            "rsakey.export_key": ("randfunc", "prot_params", "threads"), "Crypto.Signature.pss.new": ("rand_func",)}
KEPT = {"Crypto.Cipher.AES.new": ("iv", "mac_len"), "json.dumps": ("default", "indent", "sort_keys", "separators", "ensure_ascii", "check_circular", "allow_nan", "skipkeys"),
        "json.dump": ("indent", "sort_keys", "separators", "ensure_ascii", "check_circular", "allow_nan"), "Crypto.Signature.pss.new": ("salt_bytes", "mask_func")}


def normalized(I, p, a, k):
    sig = SIG.get(p)
    if sig is None:
        return a, k
    a, k = norm(I, p, sig, a, k)
    k = {q: x for q, x in k.items() if q not in HARMLESS.get(p, ())}
    if any(q not in KEPT.get(p, ()) for q in k):
        raise Unsupported("keyword arguments %s of %s" % (", ".join(sorted(k)), p))
    need = len([x for x in sig if not isinstance(x, tuple) and x != "*"])
    if len(a) < need:
        I.throw(TypeError, "%s() missing required arguments" % p)
    return a, k


def call_ext(I, p, a, k):
    if p.startswith("posixpath."):
        p = "os.path." + p[10:]
    p = {"rlp.codec.encode": "rlp.encode", "rlp.codec.decode": "rlp.decode", "rlp.sedes.lists.List": "rlp.sedes.List", "rlp.sedes.lists.CountableList": "rlp.sedes.CountableList"}.get(p, p)
    a, k = normalized(I, p, a, k)
    f = EXTCALL.get(p)
    if f is not None:
        return f(I, a, k)
    last = p.rsplit(".", 1)[-1]
    if p.startswith("rlp.exceptions.") or last.endswith("Error") or last.endswith("Exception"):
        return I.mkexc(Ext(p), *a)
    if p.startswith("Crypto.Hash.") and p.endswith(".new"):
        mod = p.split(".")[2]
        alg = {"SHA256": "sha256", "SHA512": "sha512", "SHA224": "sha224", "SHA384": "sha384", "MD5": "md5", "SHA1": "sha1",
               "SHA3_256": "sha3_256", "SHA3_224": "sha3_224", "SHA3_384": "sha3_384", "SHA3_512": "sha3_512"}.get(mod)
        if mod == "keccak":
            if a:
                I.throw(TypeError, "new() takes 0 positional arguments")
            bits = k.get("digest_bits")
            bits = (k.get("digest_bytes") or 0) * 8 if bits is None else bits
            if not isinstance(bits, int):
                raise Unsupported("digest size")
            if bits not in (224, 256, 384, 512):
                I.throw(ValueError, "'digest_bits' must be: 224, 256, 384 or 512")
            alg = "keccak%d" % bits if "keccak%d" % bits in HLEN else None
            k = {q: x for q, x in k.items() if q not in ("digest_bits", "digest_bytes")}
        if alg:
            late = k.get("update_after_digest", False)
            k = {q: x for q, x in k.items() if q != "update_after_digest"}
            if any(q != "data" for q in k):
                raise Unsupported("keyword arguments of %s" % p)
            h = new_hash(I, alg, a, k)
            if alg.startswith(("keccak", "sha3")) and late is False:
                h.f["once"] = True
            return h
    if p.startswith("warnings.") or p.startswith("logging."):
        if p in ("logging.getLogger", "logging.Logger", "logging.StreamHandler", "logging.NullHandler", "logging.Formatter"):
            return Ext("logging.logger")
        if last == "catch_warnings":
            return I.call(I.S.shim(I, "contextlib").ns["nullcontext"], [])
        if last == "isEnabledFor":
            return False
        return None
    if p.startswith("typing."):
        if last == "cast":
            return a[1]
        if last in ("TypeVar", "NewType"):
            return Ext(p)
        if last == "NamedTuple":
            return ex_namedtuple(I, [a[0], [f for f, _ in [tuple(I.iterate(x)) for x in I.iterate(a[1])]]], {})
        if last == "TypedDict":
            return bt(dict)
        if last == "get_type_hints":
            raise Unsupported("type hints")
        return a[0] if a else Ext(p)
    r = I.S.call_real(I, p, a, k)
    if r is not NO:
        return r
    raise Unsupported("external call %s" % p)


def ex_reduce(I, a, k):
    it = I.iterate(a[1])
    if len(a) > 2:
        v = a[2]
    else:
        try:
            v = next(it)
        except StopIteration:
            I.throw(TypeError, "reduce() of empty iterable with no initial value")
    for x in it:
        v = I.call(a[0], [v, x])
    return v


def ex_chain(I, a, k):
    def g():
        for s in a:
            yield from I.iterate(s)
    return IterV(g())


def ex_chain_it(I, a, k):
    def g():
        for s in I.iterate(a[0]):
            yield from I.iterate(s)
    return IterV(g())


def ex_islice(I, a, k):
    import itertools

    return IterV(itertools.islice(I.iterate(a[0]), *a[1:]))


def ex_takewhile(I, a, k):
    def g():
        for x in I.iterate(a[1]):
            if not I.truth(I.call(a[0], [x])):
                return
            yield x
    return IterV(g())


def ex_dropwhile(I, a, k):
    def g():
        drop = True
        for x in I.iterate(a[1]):
            if drop and I.truth(I.call(a[0], [x])):
                continue
            drop = False
            yield x
    return IterV(g())


def ex_count(I, a, k):
    def g():
        i = a[0] if a else k.get("start", 0)
        while True:
            yield i
            i = ladd(i, a[1] if len(a) > 1 else k.get("step", 1))
    return IterV(g())


def ex_repeat(I, a, k):
    import itertools

    return IterV(itertools.repeat(*a))


def ex_zip_longest(I, a, k):
    def g():
        ls = [list(I.iterate(x)) for x in a]
        n = max([len(x) for x in ls] or [0])
        for i in range(n):
            yield tuple(x[i] if i < len(x) else k.get("fillvalue") for x in ls)
    return IterV(g())


def ex_starmap(I, a, k):
    return IterV(I.call(a[0], list(I.iterate(x))) for x in I.iterate(a[1]))


def op_bin(name):
    return lambda I, a, k: binop(I, name, a[0], a[1])


def op_cmp(name):
    return lambda I, a, k: I.compare(name, a[0], a[1])


def ex_compare_digest(I, a, k):
    return I.eq(a[0], a[1], "compare_digest")


def ex_fspath(I, a, k):
    p = a[0]
    if kind_of(p) in ("str", "bytes", "any"):
        return p
    if isinstance(p, Instance):
        m = I.find_class_attr(p.cls, "__fspath__")
        if m is not NO:
            return I.call(I.bind(m, p), [])
    I.throw(TypeError, "expected str, bytes or os.PathLike object, not %s" % I.type_name(p))


def path_join(I, a, k):
    a = [ex_fspath(I, [x], {}) for x in a]
    if all(isinstance(x, str) for x in a):
        import os

        return os.path.join(*a)
    return mk("pathjoin", tuple(_fz(I, x) for x in a), kind="str")


def path_q(name):
    def f(I, a, k):
        import posixpath

        fs = I.cfg.get("fs", {})
        if isinstance(a[0], Instance):
            a = [ex_fspath(I, a, {})]
        if I.cfg.get("tree") is not None:
            p = a[0]
            if isinstance(p, bytes):
                p = p.decode()
            if not isinstance(p, str):
                raise Unsupported("unknown path")
            p = posixpath.join(I.cfg.get("cwd", "/cwd"), p)
            link = "/" + posixpath.normpath(p).lstrip("/") in I.cfg.get("links", ()) and not p.endswith("/")
            if name == "islink":
                return link
            kind = I.cfg["tree"].get("/" + posixpath.normpath(p).lstrip("/"))
            if p.endswith("/") and kind != "dir":
                kind = None
            if name == "lexists" and link:
                return True
            return kind == name[2:] if name not in ("exists", "lexists") else kind is not None
        if hk(a[0]) in fs:
            return True
        key = (name, hk(a[0]))
        r = I.facts.get(key)
        if r is None:
            r = I.cfg.get("path_default")
            if r is None:
                r = I.choose_bool("%s(%s)" % (name, render(a[0])))
            I.facts[key] = r
        return r
    return f


def ex_expand(what):
    """~ at the start, or $NAME anywhere"""
    def f(I, a, k):
        import re

        p = ex_fspath(I, [a[0]], {})
        home = I.cfg.get("home", "/home/u")
        if isinstance(p, str):
            if what == "user":
                return home + p[1:] if p == "~" or p.startswith("~/") else p
            return re.sub(r"\$(?:HOME\b|\{HOME\})", lambda m: home, p, flags=re.A)
        if isinstance(p, Term) and p.kind == "str":
            if I.choose_bool("%s has a %s to be expanded" % (render(p), "~ in front" if what == "user" else "$NAME")):
                return mk("expanded", p, kind="str")
            return p
        raise Unsupported("expansion of a path")
    return f


def abspath(I, p):
    import posixpath

    p = ex_fspath(I, [p], {}) if isinstance(p, Instance) else p
    if not isinstance(p, str):
        if kind_of(p) in ("str", "bytes"):
            raise Unsupported("absolute form of an unknown path")
        I.throw(TypeError, "expected str, bytes or os.PathLike object, not %s" % I.type_name(p))
    return posixpath.normpath(posixpath.join(I.cfg.get("cwd", "/cwd"), p))


CURVES = {"p192": ("NIST P-192", "p192", "P-192", "prime192v1", "secp192r1"), "p224": ("NIST P-224", "p224", "P-224", "prime224v1", "secp224r1"),
          "p256": ("NIST P-256", "p256", "P-256", "prime256v1", "secp256r1"), "p384": ("NIST P-384", "p384", "P-384", "prime384v1", "secp384r1"),
          "p521": ("NIST P-521", "p521", "P-521", "prime521v1", "secp521r1"), "ed25519": ("ed25519", "Ed25519"), "ed448": ("ed448", "Ed448")}


def ex_ecc_generate(I, a, k):
    if a or "curve" not in k:
        I.throw(TypeError, "generate() takes keyword arguments only") if a else I.throw(KeyError, "curve")
    c = k["curve"]
    if set(k) - {"curve"}:
        raise Unsupported("options of ECC.generate")
    if not isinstance(c, str):
        if kind_of(c) == "str":
            raise Unsupported("unknown curve name")
        I.throw(ValueError, "Unsupported curve %s" % I.type_name(c))
    for n, names in CURVES.items():
        if c in names:
            return Opaque("ecckey", key=I.fresh("ecc", kind="key", generic=True, group="ecc"), curve=n)
    I.throw(ValueError, "Unsupported curve '%s'" % c)


def ecc_export(I, v, a, k):
    if a or set(k) - {"format"}:
        raise Unsupported("options of an ECC export")
    f = k.get("format")
    if f == "PEM":
        return mk("ecc_pem", v.f["curve"], v.f["key"], kind="str")
    if f == "DER":
        return mk("ecc_der", v.f["curve"], v.f["key"], kind="bytes")
    raise Unsupported("format of an ECC export")


def ex_json_dump(I, a, k):
    f = a[1]
    I.call(I.getattr(f, "write"), [json_dumps(I, a[0])])


def ex_json_load(I, a, k):
    return json_loads(I, I.call(I.getattr(a[0], "read"), []))


def ex_rsa_generate(I, a, k):
    bits = a[0]
    if isinstance(bits, int) and bits < 1024:
        I.throw(ValueError, "RSA modulus length must be >= 1024")
    I.counter += 1
    K = mk("sym", "rsa%d" % I.counter, (("bits", bits), ("gen", True)) if isinstance(bits, int) else (("gen", True),), kind="key")
    return key_obj(K, True)


def signer(scheme):
    def f(I, a, k):
        if not (isinstance(a[0], Opaque) and a[0].type == "rsakey"):
            if a[0] is None:
                return Opaque("signer", key=key_obj(mk("sym", "none", (), kind="key"), False), scheme=scheme)
            raise Unsupported("signer key")
        sch = scheme
        if scheme == "pss" and (k.get("salt_bytes") is not None or k.get("mask_func") is not None):
            sch = "pss%s" % (_fz(I, k.get("salt_bytes")),)
            if k.get("mask_func") is not None:
                raise Unsupported("mask function")
        return Opaque("signer", key=a[0], scheme=sch)
    return f


def ex_uuid5(I, a, k):
    # a function of its arguments
    ns, name = (a + [k.get("namespace"), k.get("name")])[:2] if not k or len(a) == 2 else (a[0] if a else k["namespace"], k["name"])
    if kind_of(name) not in ("str", "any"):
        I.throw(TypeError, "name must be text")
    if isinstance(ns, Opaque) and ns.type == "uuid":
        ns = ns.f["hex"]
    elif isinstance(ns, Ext):
        ns = ns.path
    elif not isinstance(ns, (Opaque, Term)):
        I.throw(AttributeError, "'%s' object has no attribute 'bytes'" % I.type_name(ns))
    return Opaque("uuid", hex=mk("uuid5", _fz(I, ns), _fz(I, name), kind="str"))


def ex_uuid4(I, a, k):
    return Opaque("uuid", hex=I.fresh("uuid", kind="str", lo=32, hi=32, group="uuid", generic=True))


# ------------------------------------------------------------------ time
def is_zone(I, z):
    """None, or the name of a time zone"""
    if z is None:
        return None
    if isinstance(z, Ext) and z.path.endswith("timezone.utc") or isinstance(z, Ext) and z.path in ("datetime.UTC", "django.utils.timezone.utc"):
        return "utc"
    if isinstance(z, Opaque) and z.type == "tz":
        return z.f["name"]
    if isinstance(z, (Ext, Opaque, Instance)):
        raise Unsupported("time zone")
    I.throw(TypeError, "tzinfo argument must be None or of a tzinfo subclass")


def ex_now(I, a, k):
    z = is_zone(I, a[0] if a else k.get("tz"))
    return Opaque("datetime", t=I.fresh("now", kind="str", generic=True, group="now"), zone=z)


def ex_utcnow(I, a, k):
    # the clock of another zone, without saying so
    return Opaque("datetime", t=mk("utcclock", I.fresh("now", kind="str", generic=True, group="now"), kind="str"), zone=None)


def strftime(I, v, fmt):
    aware = v.f.get("zone") is not None
    if v.f.get("const") is not None and isinstance(fmt, str):
        return v.f["const"].strftime(fmt)
    if kind_of(fmt) != "str":
        I.throw(TypeError, "strftime() argument 1 must be str, not %s" % I.type_name(fmt))
    return mk("dtstr", v.f["t"], _fz(I, fmt), aware, kind="str")


def ex_strptime(I, a, k):
    import datetime

    s, fmt = a[0], a[1]
    for i, x in enumerate((s, fmt)):
        if kind_of(x) != "str":
            I.throw(TypeError, "strptime() argument %d must be str, not %s" % (i + 1, I.type_name(x)))
    if isinstance(s, str) and isinstance(fmt, str):
        d = I.conc(datetime.datetime.strptime, s, fmt)
        return Opaque("datetime", t=d.replace(tzinfo=None).isoformat(), zone=None if d.tzinfo is None else str(d.utcoffset()), const=d)
    if isinstance(s, Term) and s.op == "dtstr" and isinstance(fmt, str):
        t, f, aware = s.args
        if f != fmt or "%z" in f and not aware:
            I.throw(ValueError, "time data does not match format")
        return Opaque("datetime", t=mk("fields", t, tuple(sorted(x[0] for x in f.split("%")[1:] if x)), kind="str"), zone="read" if "%z" in f else None)
    raise Unsupported("time from unknown text")


def datetime_attr(I, v, name, M):
    f = v.f

    def astimezone(I, a, k):
        z = is_zone(I, a[0] if a else k.get("tz"))
        t = f["t"]
        if f.get("zone") is None and isinstance(t, Term) and t.op == "utcclock":
            t = mk("shifted", t, kind="str")
        return Opaque("datetime", t=t, zone=z or "local")

    def replace(I, a, k):
        t, z = f["t"], f.get("zone")
        if a:
            raise Unsupported("positional replace of a time")
        for n, x in k.items():
            if n == "tzinfo":
                x = is_zone(I, x)
                if isinstance(t, Term) and t.op == "utcclock" and x == "utc":
                    t = t.args[0]
                elif x is not None and x != z and not (x == "local" and z is None):
                    t = mk("shifted", t, kind="str")
                z = x
            elif not (n == "microsecond" and x == 0):
                t = mk("altered", t, n, _fz(I, x), kind="str")
        return Opaque("datetime", t=t, zone=z)

    if name == "strftime":
        return M(lambda I, a, k: strftime(I, v, a[0]))
    if name == "__format__":
        return M(lambda I, a, k: strftime(I, v, a[0]) if a[0] != "" else to_str(I, v))
    if name == "isoformat":
        return M(lambda I, a, k: mk("dtstr", f["t"], ("iso",) + tuple(_fz(I, x) for x in a) + tuple(sorted((n, _fz(I, x)) for n, x in k.items())), f.get("zone") is not None, kind="str"))
    if name in ("timestamp", "utctimetuple", "timetuple"):
        return M(lambda I, a, k: mk("dtstr", f["t"], name, f.get("zone") is not None, kind="any"))
    if name == "astimezone":
        return M(astimezone)
    if name == "replace":
        return M(replace)
    if name == "tzinfo":
        return NONE_VALUE if f.get("zone") is None else Opaque("tz", name=f["zone"])
    if name == "utcoffset":
        return M(lambda I, a, k: None if f.get("zone") is None else Opaque("tz", name=f["zone"]))
    raise Unsupported("%s of a time" % name)


def ex_random(I, a, k):
    n = a[0] if a else 16
    return I.fresh("rand", lo=n, hi=n, group="rand", generic=True) if isinstance(n, int) else I.fresh("rand", group="rand", generic=True)


def ex_hexlify(I, a, k):
    return encode(I, b_hex(I, a[0].val if isinstance(a[0], BArr) else a[0]))


def ex_unhexlify(I, a, k):
    s = a[0]
    if kind_of(s) == "bytes":
        s = decode(I, s)
    return fromhex(I, s)


def ex_pickle_dumps(I, a, k):
    return mk("pickle", _fz(I, a[0]))


def new_class(I, name, bases, ns, module=None, node=None):
    c = Cls()
    c.tag = None
    c.name = c.qual = name
    c.module = module or ModuleV("pymt", "<made>", False)
    c.node = node
    c.bases = list(bases)
    c.is_enum = False
    c.abc = False
    c.ns = ns
    c.mro = I.c3(c)
    return c


def dynamic_class(I, name, bases, ns):
    bases = list(I.iterate(bases))
    if any(isinstance(b, Cls) and (b.is_enum or "__init_subclass__" in b.ns) or isinstance(b, Ext) for b in bases):
        raise Unsupported("dynamic class")
    d = {k: v for k, v in ns.pairs()}
    c = new_class(I, name, bases, d)
    c.abc = any(isinstance(b, Cls) and b.abc for b in bases)
    return c


def nt_members(I, c, names, defaults):
    """attributes of a named tuple class"""
    def new(I, a, k):
        kind, a = a[0], list(a[1:])
        if len(a) > len(names):
            I.throw(TypeError, "too many arguments")
        for i, n in enumerate(names):
            if i < len(a):
                if n in k:
                    I.throw(TypeError, "multiple values for argument %s" % n)
                continue
            if n in k:
                a.append(k[n])
            elif n in defaults:
                a.append(defaults[n])
            else:
                I.throw(TypeError, "missing argument %s" % n)
        for n in k:
            if n not in names:
                I.throw(TypeError, "unexpected argument %s" % n)
        return NTup(a, kind)

    def rep(I, a, k):
        for n in k:
            if n not in names:
                I.throw(ValueError, "Got unexpected field names")
        return NTup([k.get(n, x) for n, x in zip(names, a[0])], a[0].cls)

    ns = {"_fields": tuple(names), "__new__": Builtin("namedtuple", new), "_replace": Builtin("_replace", rep), "__match_args__": tuple(names),
          "_asdict": Builtin("_asdict", lambda I, a, k: Dict(list(zip(names, a[0])))),
          "_make": ClassM(Builtin("_make", lambda I, a, k: NTup(list(I.iterate(a[1])), a[0]))), "_field_defaults": Dict(list(defaults.items()))}
    for i, n in enumerate(names):
        ns[n] = Prop(Builtin(n, lambda I, a, k, i=i: a[0][i]))
    return ns


def ex_namedtuple(I, a, k):
    f = a[1] if len(a) > 1 else k["field_names"]
    names = f.replace(",", " ").split() if isinstance(f, str) else list(I.iterate(f) if not isinstance(f, list) else f)
    ds = k.get("defaults")
    ds = list(I.iterate(ds)) if ds is not None else []
    defaults = dict(zip(names[len(names) - len(ds):], ds))
    return new_class(I, a[0], [bt(tuple)], nt_members(I, None, names, defaults))


def named_tuple_class(I, c, node):
    names = [s.target.id for s in node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    defaults = {n: c.ns[n] for n in names if n in c.ns}
    ns = {q: v for q, v in c.ns.items() if q not in defaults}
    for q, v in nt_members(I, c, names, defaults).items():
        ns.setdefault(q, v)
    c.ns = ns
    c.bases = [bt(tuple)]
    c.mro = I.c3(c)
    return c


def ex_defaultdict(I, a, k):
    f = a[0] if a else None
    d = XDict(Ext("collections.defaultdict"))
    d.attrs["factory"] = f
    if f is not None:
        def missing(I, key, d=d):
            v = I.call(f, [])
            I.dict_set(d, key, v)
            return v
        d.missing = missing
    fill(I, d, a[1:], k)
    return d


def fill(I, d, a, k):
    if a or k:
        I.call(dict_method(I, d, "update"), a, k)


def ex_ordereddict(I, a, k):
    d = XDict(Ext("collections.OrderedDict"))
    fill(I, d, a, k)
    return d


def ex_counter(I, a, k):
    d = XDict(Ext("collections.Counter"), missing=lambda I, key: 0)
    fill(I, d, a, k)
    return d


def ex_normalize(I, a, k):
    if len(a) == 2 and isinstance(a[1], Term) and isinstance(a[0], str):
        return mk("m_normalize", a[1], (a[0],), kind="str")
    r = I.S.call_real(I, "unicodedata.normalize", a, k)
    if r is NO:
        raise Unsupported("unicodedata.normalize")
    return r


EXTCALL = {
    "unicodedata.normalize": ex_normalize,
    "rlp.encode": rlp_encode,
    "rlp.decode": rlp_decode,
    "rlp.codec.encode": rlp_encode,
    "rlp.codec.decode": rlp_decode,
    "rlp.sedes.List": lambda I, a, k: Opaque("sedes", kind="list", items=list(I.iterate(a[0])) if a and a[0] is not None else []),
    "rlp.sedes.CountableList": lambda I, a, k: Opaque("sedes", kind="clist", items=a[0]) if len(a) < 2 or a[1] is None else unsupported("bounded list"),
    "rlp.sedes.Binary": lambda I, a, k: Opaque("sedes", kind="binary", items=None),
    "functools.reduce": ex_reduce,
    "functools.partial": lambda I, a, k: Opaque("partial", fn=a[0], args=a[1:], kw=k),
    "functools.lru_cache": lru_cache,
    "functools.cache": lru_cache,
    "functools.cached_property": lambda I, a, k: Opaque("cached_property", fn=a[0]),
    "itertools.chain": ex_chain,
    "itertools.chain.from_iterable": ex_chain_it,
    "itertools.islice": ex_islice,
    "itertools.takewhile": ex_takewhile,
    "itertools.dropwhile": ex_dropwhile,
    "itertools.count": ex_count,
    "itertools.repeat": ex_repeat,
    "itertools.zip_longest": ex_zip_longest,
    "itertools.starmap": ex_starmap,
    "operator.itemgetter": lambda I, a, k: Opaque("itemgetter", keys=a),
    "operator.attrgetter": lambda I, a, k: Opaque("attrgetter", keys=a),
    "operator.methodcaller": lambda I, a, k: Opaque("methodcaller", name=a[0], args=a[1:], kw=k),
    "operator.eq": op_cmp("Eq"), "operator.ne": op_cmp("NotEq"), "operator.lt": op_cmp("Lt"), "operator.le": op_cmp("LtE"),
    "operator.gt": op_cmp("Gt"), "operator.ge": op_cmp("GtE"), "operator.add": op_bin("Add"), "operator.sub": op_bin("Sub"),
    "operator.mul": op_bin("Mult"), "operator.xor": op_bin("BitXor"), "operator.and_": op_bin("BitAnd"), "operator.or_": op_bin("BitOr"),
    "operator.getitem": lambda I, a, k: I.getitem(a[0], a[1]),
    "operator.not_": lambda I, a, k: not I.truth(a[0]),
    "operator.contains": lambda I, a, k: I.contains(a[0], a[1]),
    "operator.is_": lambda I, a, k: I.is_(a[0], a[1]),
    "copy.copy": lambda I, a, k: shallow(I, a[0]),
    "copy.deepcopy": lambda I, a, k: deepcopy(I, a[0], {}),
    "abc.abstractmethod": abstractmethod,
    "enum.auto": lambda I, a, k: Ext("enum.auto()"),
    "enum.unique": noop_dec,
    "dataclasses.dataclass": dataclass,
    "dataclasses.field": lambda I, a, k: Opaque("field", kw=k),
    "typing.cast": lambda I, a, k: a[1],
    "typing.overload": noop_dec,
    "typing.final": noop_dec,
    "hmac.compare_digest": ex_compare_digest,
    "secrets.compare_digest": ex_compare_digest,
    "json.dumps": lambda I, a, k: json_dumps(I, a[0], k),
    "json.loads": lambda I, a, k: json_loads(I, a[0]),
    "json.dump": ex_json_dump,
    "json.load": ex_json_load,
    "os.path.isfile": path_q("isfile"),
    "os.path.exists": path_q("exists"),
    "os.path.isdir": path_q("isdir"),
    "os.path.islink": path_q("islink"),
    "os.path.lexists": path_q("lexists"),
    "os.path.expanduser": ex_expand("user"),
    "os.path.expandvars": ex_expand("vars"),
    "os.path.join": path_join,
    "os.fspath": ex_fspath,
    "os.getcwd": lambda I, a, k: I.cfg.get("cwd", "/cwd"),
    "os.path.abspath": lambda I, a, k: abspath(I, a[0]),
    "os.path.realpath": lambda I, a, k: abspath(I, a[0]),
    "Crypto.PublicKey.ECC.generate": ex_ecc_generate,
    "Crypto.PublicKey.RSA.generate": ex_rsa_generate,
    "Crypto.PublicKey.RSA.import_key": import_key,
    "Crypto.PublicKey.RSA.importKey": import_key,
    "Crypto.Signature.pkcs1_15.new": signer("pkcs1_15"),
    "Crypto.Signature.pss.new": signer("pss"),
    "Crypto.Cipher.PKCS1_OAEP.new": lambda I, a, k: Opaque("oaep", key=a[0], params=oaep_params(I, a)),
    "Crypto.Cipher.AES.new": new_aes,
    "Crypto.Random.get_random_bytes": ex_random,
    "os.urandom": ex_random,
    "secrets.token_bytes": ex_random,
    "uuid.uuid4": ex_uuid4,
    "uuid.uuid1": ex_uuid4,
    "uuid.uuid3": ex_uuid5,
    "uuid.uuid5": ex_uuid5,
    "datetime.datetime.now": ex_now,
    "datetime.datetime.utcnow": ex_utcnow,
    "datetime.now": ex_now,
    "datetime.datetime.strptime": ex_strptime,
    "time.time": lambda I, a, k: mk("time", kind="float"),
    "binascii.hexlify": ex_hexlify,
    "binascii.unhexlify": ex_unhexlify,
    "pickle.dumps": ex_pickle_dumps,
    "collections.OrderedDict": ex_ordereddict,
    "collections.defaultdict": ex_defaultdict,
    "collections.Counter": ex_counter,
    "collections.namedtuple": ex_namedtuple,
    "struct.pack": lambda I, a, k: I.S.pack(I, a, k),
    "struct.unpack": lambda I, a, k: I.S.unpack(I, a, k),
    "hashlib.new": lambda I, a, k: new_hash(I, a[0], a[1:], k),
    "sys.setrecursionlimit": lambda I, a, k: None,
    "sys.getrecursionlimit": lambda I, a, k: 1000,
    "os.remove": lambda I, a, k: I.events.append(("remove", a[0], I.where())),
}
