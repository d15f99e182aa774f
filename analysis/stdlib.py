"""The standard library, as far as the analysed package may come to use it.

Three layers: a few sources under shims/ are interpreted in place of modules whose
behaviour can be written down in plain Python (they work on unknown values as on known
ones); functions of modules without state are evaluated when every argument is a
constant; everything else is Unsupported, which makes the partition inconclusive.
"""
import ast
import importlib
import os

from values import *
from engine import NO, PyRaise, Frame

HERE = os.path.dirname(os.path.abspath(__file__))
SHIMS = {
    "itertools": "itertools", "functools": "functools", "contextlib": "contextlib", "types": "types",
    "threading": "threading", "weakref": "weakref", "collections": "collections", "pathlib": "pathlib",
    "traceback": "traceback", "operator": "operator", "heapq": "heapq", "bisect": "bisect",
    "dataclasses": "dataclasses", "collections.abc": "collections_abc", "_collections_abc": "collections_abc",
    "io": "io", "copyreg": "copyreg",
}
PURE = {
    "re", "string", "struct", "math", "base64", "binascii", "textwrap", "zlib", "codecs", "posixpath", "os.path",
    "urllib.parse", "unicodedata", "fnmatch", "difflib", "html", "shlex", "decimal", "fractions", "statistics",
    "calendar", "ipaddress", "keyword", "numbers", "builtins", "sys", "os", "datetime", "operator", "cmath", "stat", "errno",
}
OSPATH = {"basename", "dirname", "split", "splitext", "normpath", "isabs", "commonprefix", "commonpath"}
_trees = {}


def tree(name):
    t = _trees.get(name)
    if t is None:
        p = os.path.join(HERE, "shims", name + ".py")
        if not os.path.exists(p):
            return None
        with open(p) as f:
            t = _trees[name] = ast.parse(f.read())
    return t


def shim(I, mod):
    n = SHIMS.get(mod)
    if n is None:
        return None
    m = I.shims.get(n)
    if m is None:
        t = tree(n)
        if t is None:
            return None
        m = I.shims[n] = ModuleV(mod, "<shim %s>" % mod, False)
        m.ns["__name__"] = mod
        fr = Frame(None, m)
        fr.vars = m.ns
        I.stack.append(("<module>", m.path, 0))
        try:
            I.exec_block(t.body, fr)
        finally:
            I.stack.pop()
    return m


def shim_attr(I, mod, name):
    """NO when there is no interpreted definition"""
    if mod.endswith("collections_abc") or mod == "collections.abc":
        return NO
    if SHIMS.get(mod) is None:
        return NO
    m = shim(I, mod)
    if m is None:
        return NO
    return m.ns.get(name, NO)


def mixin(I, cls, name):
    """method a collections.abc base class provides"""
    m = shim(I, "collections.abc")
    c = m.ns.get(cls)
    if not isinstance(c, Cls):
        return NO
    return I.find_class_attr(c, name)


def public(mod):
    """names a star import of a standard library module binds"""
    import sys

    if mod.split(".")[0] not in sys.stdlib_module_names:
        return None
    try:
        m = importlib.import_module(mod)
    except ImportError:
        return None
    return list(getattr(m, "__all__", None) or [n for n in dir(m) if not n.startswith("_")])


# ------------------------------------------------------------------ constants
def topy(I, v):
    """the Python value of a constant; NO when anything in it is unknown"""
    if isinstance(v, (int, float, str, bytes, type(None), range, slice)) or v is Ellipsis:
        return v
    if isinstance(v, tuple):
        xs = [topy(I, x) for x in v]
        return NO if any(x is NO for x in xs) else tuple(xs)
    if isinstance(v, List):
        xs = [topy(I, x) for x in v.items]
        return NO if any(x is NO for x in xs) else xs
    if isinstance(v, SetV):
        xs = [topy(I, x) for x in v.items]
        return NO if any(x is NO for x in xs) else (frozenset(xs) if v.frozen else set(xs))
    if type(v) is Dict and not v.opaque:
        out = {}
        for k, x in v.pairs():
            k, x = topy(I, k), topy(I, x)
            if k is NO or x is NO:
                return NO
            out[k] = x
        return out
    if isinstance(v, BArr):
        x = topy(I, v.val)
        return NO if x is NO else bytearray(x)
    if isinstance(v, Opaque) and v.type == "py":
        return v.f["obj"]
    if isinstance(v, BType):
        return v.py
    return NO


def frompy(I, v):
    if v is None or v is Ellipsis or isinstance(v, type):
        return bt(v) if isinstance(v, type) else v
    t = type(v)
    if t in (bool, int, float, str, bytes, range, slice):
        return v
    if t is list:
        return List([frompy(I, x) for x in v])
    if t is tuple:
        return tuple(frompy(I, x) for x in v)
    if t is dict:
        return Dict([(frompy(I, k), frompy(I, x)) for k, x in v.items()])
    if t in (set, frozenset):
        return SetV([frompy(I, x) for x in v], frozen=t is frozenset)
    if t is bytearray:
        return BArr(bytes(v))
    if isinstance(v, int) and not isinstance(v, bool):
        return int(v)
    if hasattr(v, "__next__"):
        return IterV(frompy(I, x) for x in v)
    return Opaque("py", obj=v)


def guard(I, f):
    """call f(); Python exceptions become exceptions of the program"""
    try:
        return f()
    except (RecursionError, MemoryError):
        raise Unsupported("resource")
    except (Unsupported, PyRaise):
        raise
    except Exception as e:
        t = type(e)
        import builtins

        if getattr(builtins, t.__name__, None) is t:
            I.throw(t, *[a for a in e.args if isinstance(a, (str, int, bytes))])
        p = t.__module__ + "." + t.__qualname__
        raise PyRaise(I.mkexc(Ext(p), *[a for a in e.args if isinstance(a, (str, int, bytes))]))


def resolve(path):
    """real object behind a dotted path in a module without state; NO otherwise"""
    mod, _, rest = path.rpartition(".")
    names = [rest]
    while mod:
        if mod in PURE:
            break
        mod, _, r = mod.rpartition(".")
        names.insert(0, r)
    if not mod:
        return NO
    if mod in ("os", "sys", "datetime"):
        return NO
    if mod in ("os.path", "posixpath") and names[0] not in OSPATH:
        return NO
    try:
        o = importlib.import_module(mod)
        for n in names:
            o = getattr(o, n)
    except (ImportError, AttributeError):
        return NO
    return o


def call_real(I, path, a, k):
    """NO when not applicable"""
    o = resolve(path)
    if o is NO or not callable(o):
        return NO
    args = [topy(I, x) for x in a]
    kws = {q: topy(I, x) for q, x in k.items()}
    if any(x is NO for x in args) or any(x is NO for x in kws.values()):
        return NO
    return frompy(I, guard(I, lambda: o(*args, **kws)))


def real_const(path):
    """value of a plain module constant; NO otherwise"""
    o = resolve(path)
    if type(o) in (int, float, str, bytes, bool):
        return o
    return NO


def py_attr(I, v, name):
    o = v.f["obj"]
    try:
        x = getattr(o, name)
    except AttributeError:
        return None
    if callable(x) and not isinstance(x, type):
        def run(I, a, k):
            args = [topy(I, y) for y in a]
            kws = {q: topy(I, y) for q, y in k.items()}
            if any(y is NO for y in args) or any(y is NO for y in kws.values()):
                raise Unsupported("%s.%s of abstract value" % (type(o).__name__, name))
            return frompy(I, guard(I, lambda: x(*args, **kws)))
        return Builtin(name, run)
    return frompy(I, x)


# ------------------------------------------------------------------ struct
SIZES = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}


def _fmt(f):
    if isinstance(f, bytes):
        f = f.decode()
    order = "big"
    if f[:1] in ("<",):
        order = "little"
    if f[:1] in (">", "!", "<"):
        f = f[1:]
    elif any(c not in "Bsx0123456789" for c in f):
        raise Unsupported("native struct format")
    out, n = [], ""
    for c in f:
        if c.isdigit():
            n += c
            continue
        if c == "s":
            out.append((c, int(n or 1)))
        elif c in SIZES:
            out.extend([(c, SIZES[c])] * int(n or 1))
        else:
            raise Unsupported("struct format")
        n = ""
    return order, out


def pack(I, a, k):
    r = call_real(I, "struct.pack", a, k)
    if r is not NO:
        return r
    if not isinstance(a[0], (str, bytes)):
        raise Unsupported("struct format")
    order, fs = _fmt(a[0])
    if len(fs) != len(a) - 1:
        raise PyRaise(I.mkexc(Ext("struct.error"), "pack expected %d items" % len(fs)))
    parts = []
    for (c, n), x in zip(fs, a[1:]):
        if c == "s":
            if kind_of(x) not in ("bytes", "bytearray") or I.blen(x) != n:
                raise Unsupported("struct text of unknown length")
            parts.append(x)
            continue
        if kind_of(x) not in ("int", "bool"):
            raise PyRaise(I.mkexc(Ext("struct.error"), "required argument is not an integer"))
        if I.lt0(lin(x), "negative value") or I.lt0(ladd(256 ** n - 1, x, -1), "value needs more than %d bytes" % n):
            raise PyRaise(I.mkexc(Ext("struct.error"), "argument out of range"))
        parts.append(I.call(I.getattr(x, "to_bytes"), [n, order]))
    return I.M.cat(I, parts)


def unpack(I, a, k):
    r = call_real(I, "struct.unpack", a, k)
    if r is not NO:
        return r
    order, fs = _fmt(a[0])
    data = a[1]
    n = sum(s for _, s in fs)
    if not I.eq(I.blen(data), n, "length of struct data"):
        raise PyRaise(I.mkexc(Ext("struct.error"), "unpack requires a buffer of %d bytes" % n))
    out, pos = [], 0
    for c, s in fs:
        p = I.getitem(data, slice(pos, pos + s))
        pos += s
        out.append(p if c == "s" else I.call(I.getattr(bt(int), "from_bytes"), [p, order]))
    return tuple(out)
