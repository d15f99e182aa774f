"""Abstract value domain.

Concrete immutable Python values (None, bool, int, str, bytes, tuple, ...) stand
for themselves.  Everything the analysis does not know is a Term: a node of a free
(Herbrand) term algebra with a kind.  Abstract integers are linear forms over
integer terms.  Mutable program objects are List/Dict/SetV/BArr/Instance.
"""


class Unsupported(Exception):
    """The abstract interpreter cannot decide this construct: inconclusive."""


class Term:
    __slots__ = ("op", "args", "kind", "meta", "_key", "__weakref__")

    def __repr__(self):
        return render(self)


_intern = {}


def _k(x):
    if isinstance(x, tuple):
        return ("t",) + tuple(_k(i) for i in x)
    if isinstance(x, Term):
        return x
    if isinstance(x, Lin):
        return x
    return (type(x).__name__, x)


def mk(op, *args, kind="bytes", **meta):
    key = (op, kind, tuple(_k(a) for a in args))
    t = _intern.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.kind, t.meta = op, args, kind, meta
        t._key = key
        _intern[key] = t
    return t


def sym(name, kind="bytes", **meta):
    """A named unknown.  meta: lo/hi length bounds, group (pairwise distinct),
    generic (differs from every constant and constructor term), adv."""
    return mk("sym", name, tuple(sorted(meta.items())), kind=kind, **meta)


class Lin:
    """sum(coef * int-term) + const"""

    __slots__ = ("co", "c", "_h")

    def __init__(self, co, c):
        self.co = tuple(sorted(((t, k) for t, k in co.items() if k), key=lambda p: id(p[0])))
        self.c = c
        self._h = hash((self.co, c))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.co == o.co and self.c == o.c

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + " + ".join(["%s*%r" % (k, t) if k != 1 else repr(t) for t, k in self.co] + ([str(self.c)] if self.c else [])) + ")"


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Term):
        return Lin({x: 1}, 0)
    return Lin({}, int(x))


def unlin(l):
    return l.c if not l.co else l


def ladd(a, b, s=1):
    a, b = lin(a), lin(b)
    co = dict(a.co)
    for t, k in b.co:
        co[t] = co.get(t, 0) + s * k
    return unlin(Lin(co, a.c + s * b.c))


def lscale(a, k):
    a = lin(a)
    return unlin(Lin({t: c * k for t, c in a.co}, a.c * k))


class Obj:
    """Mutable program object (identity semantics)."""

    __slots__ = ("tag",)


class List(Obj):
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = list(items)
        self.tag = None

    def __repr__(self):
        return "list" + repr(self.items)


class BArr(Obj):
    __slots__ = ("val",)

    def __init__(self, val=b""):
        self.val = val
        self.tag = None

    def __repr__(self):
        return "bytearray(%r)" % (self.val,)


class SetV(Obj):
    __slots__ = ("items", "frozen")

    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen
        self.tag = None

    def __repr__(self):
        return "set" + repr(self.items)


class Dict(Obj):
    """Ordered mapping; keys are abstract values."""

    __slots__ = ("d", "observer", "opaque", "name", "frozen_iter")

    def __init__(self, pairs=(), name=None):
        self.d = {}
        self.tag = None
        self.observer = None
        self.opaque = None
        self.name = name
        self.frozen_iter = 0
        for k, v in pairs:
            self.d[hk(k)] = (k, v)

    def pairs(self):
        return list(self.d.values())

    def __repr__(self):
        return "dict{" + ", ".join("%r: %r" % kv for kv in self.d.values()) + "}"


def hk(k):
    """Hashable structural key for an abstract value."""
    if isinstance(k, bool):
        return ("n", int(k))
    if isinstance(k, (int, float)):
        return ("n", k)
    if isinstance(k, tuple):
        return ("t",) + tuple(hk(i) for i in k)
    if isinstance(k, (Term, Lin)):
        return k
    if isinstance(k, Obj):
        return ("o", id(k), k)
    if isinstance(k, EnumMember) and k.cls.is_enum == "mixed":
        return hk(k.value)
    return (type(k).__name__, k)


class Instance(Obj):
    __slots__ = ("cls", "attrs", "observer")

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.tag = None
        self.observer = None

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, ", ".join("%s=%r" % (k, v) for k, v in list(self.attrs.items())[:4]))


class Opaque(Obj):
    """Modelled external object (hash object, cipher, file, ...)."""

    __slots__ = ("type", "f")

    def __init__(self, type, **f):
        self.type = type
        self.f = f
        self.tag = None

    def __repr__(self):
        return "<%s>" % self.type


class BType:
    """A builtin type."""

    __slots__ = ("py", "name")
    table = {}

    def __init__(self, py):
        self.py = py
        self.name = py.__name__

    def __repr__(self):
        return "<class %s>" % self.name


def bt(py):
    t = BType.table.get(py)
    if t is None:
        t = BType.table[py] = BType(py)
    return t


class Cls(Obj):
    __slots__ = ("name", "bases", "ns", "mro", "module", "node", "is_enum", "qual", "abc", "enums")

    def __repr__(self):
        return "<class %s>" % self.name


class NTup(tuple):
    """instance of a named tuple class"""

    def __new__(cls, items, kind):
        t = tuple.__new__(cls, items)
        t.cls = kind
        return t


class XDict(Dict):
    """instance of a standard dict subclass; missing(I, key) supplies absent values"""

    __slots__ = ("type", "missing", "attrs")

    def __init__(self, type, pairs=(), missing=None):
        Dict.__init__(self, pairs)
        self.type, self.missing, self.attrs = type, missing, {}


class EnumMember:
    __slots__ = ("cls", "name", "value")

    def __index__(self):
        return int(self.value)

    __int__ = __index__

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "<%s.%s>" % (self.cls.name, self.name)


class Func:
    __slots__ = ("node", "env", "module", "defaults", "kwdefaults", "name", "cls", "isgen", "attrs", "cache", "qual", "params", "locals_")

    def __repr__(self):
        return "<function %s>" % self.qual


class Bound:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.fn, type(self.self).__name__)


class Builtin:
    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.attrs = None

    def __repr__(self):
        return "<builtin %s>" % self.name


class Prop:
    __slots__ = ("get", "set", "dele")

    def __init__(self, get, set=None, dele=None):
        self.get, self.set, self.dele = get, set, dele


class StaticM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class ClassM:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class IterV(Obj):
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it
        self.tag = None


class ModuleV:
    __slots__ = ("name", "ns", "path", "is_pkg")

    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        self.ns = {}

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """Dotted name of something outside the package."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "<external %s>" % self.path


class View(Obj):
    """dict keys/values/items view"""

    __slots__ = ("d", "which")

    def __init__(self, d, which):
        self.d, self.which = d, which
        self.tag = None


class NotImpl:
    def __repr__(self):
        return "NotImplemented"


NOTIMPL = NotImpl()


def render(t, depth=0):
    if isinstance(t, Term):
        if t.op == "sym":
            return str(t.args[0])
        if depth > 3:
            return t.op + "(..)"
        return "%s(%s)" % (t.op, ", ".join(render(a, depth + 1) for a in t.args))
    if isinstance(t, tuple):
        if depth > 3:
            return "(..)"
        return "[" + ", ".join(render(a, depth + 1) for a in t) + "]"
    r = repr(t)
    return r if len(r) < 120 else r[:117] + "..."


def is_abs(v):
    return isinstance(v, (Term, Lin))


def kind_of(v):
    if isinstance(v, Term):
        return v.kind
    if isinstance(v, Lin):
        return "int"
    if isinstance(v, EnumMember) and v.cls.is_enum == "mixed":
        return kind_of(v.value)
    if isinstance(v, BArr):
        return "bytearray"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, bytes):
        return "bytes"
    if isinstance(v, str):
        return "str"
    return type(v).__name__
