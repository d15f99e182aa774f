"""Abstract interpreter for the Python subset used by the analysed package.

It works on the syntax tree of the current source only; no code of the package is
imported or run.  Values are taken from the domain in values.py.  Where a test has no
answer in the abstract state, the state is partitioned (one partition per answer, the
assumption is added to the state); partitions are enumerated depth first by explore().
Constructs outside the modelled language raise Unsupported: the partition is
inconclusive and never reported as a violation.
"""
import ast
import builtins as _py_builtins
import os
import sys
import threading

from values import *
import values as V

sys.setrecursionlimit(60000)
threading.stack_size(64 << 20)

MAX_STEPS = 400000


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    """The partition's assumptions contradict each other."""


class _Kill(BaseException):
    """unwinds an abandoned generator"""


class GenV(IterV):
    """A generator: its body runs in a thread of its own, one side at a time."""

    __slots__ = ("I", "body", "started", "done", "running", "go", "back", "inbox", "outbox", "frames", "hand", "ret")

    def __init__(self, I, body):
        IterV.__init__(self, self)
        self.I, self.body = I, body
        self.started = self.done = self.running = False
        self.frames, self.hand = [], []
        self.ret = None
        I.gens.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        return self.resume("send", None)

    def resume(self, how, val):
        """value yielded; StopIteration(value) at the end"""
        I = self.I
        if self.running:
            I.throw(ValueError, "generator already executing")
        if self.done:
            if how == "throw":
                raise PyRaise(val)
            raise StopIteration(None)
        if not self.started:
            if how == "throw":
                self.done = True
                raise PyRaise(val)
            if how == "kill":
                self.done = True
                return None
            self.started = True
            self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
            t = threading.Thread(target=self.main, daemon=True)
            self.inbox = (how, val)
            self.switch(t.start)
        else:
            self.inbox = (how, val)
            self.switch(self.go.release)
        k, v = self.outbox
        if k == "yield":
            return v
        self.done = True
        if k == "ret":
            raise StopIteration(v)
        raise v

    def switch(self, start):
        I = self.I
        b, h = len(I.stack), len(I.handling)
        I.stack.extend(self.frames)
        I.handling.extend(self.hand)
        self.running = True
        start()
        self.back.acquire()
        self.running = False
        self.frames, self.hand = I.stack[b:], I.handling[h:]
        del I.stack[b:], I.handling[h:]

    def main(self):
        try:
            self.outbox = ("ret", self.body())
        except BaseException as e:
            self.outbox = ("exc", e)
        self.back.release()

    def yield_(self, v):
        self.outbox = ("yield", v)
        self.back.release()
        self.go.acquire()
        how, val = self.inbox
        if how == "kill":
            raise _Kill()
        if how == "throw":
            raise PyRaise(val)
        return val

    def kill(self):
        if self.started and not self.done:
            try:
                self.resume("kill", None)
            except BaseException:
                pass
        self.done = True

    def close(self):
        I = self.I
        if self.done:
            return
        if not self.started:
            self.done = True
            return
        try:
            self.resume("throw", I.mkexc(bt(GeneratorExit)))
        except StopIteration:
            return
        except PyRaise as e:
            if I.exc_match(e.exc, (bt(GeneratorExit), bt(StopIteration))):
                return
            raise
        I.throw(RuntimeError, "generator ignored GeneratorExit")


class Frame:
    __slots__ = ("vars", "parent", "func", "globals", "nonlocals", "globs", "module", "locals_", "is_class", "cls")

    def __init__(self, parent, module, func=None, locals_=None, is_class=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.nonlocals = ()
        self.globs = ()
        self.locals_ = locals_
        self.is_class = is_class
        self.cls = None


class Program:
    """All parsed source files of the package."""

    def __init__(self, root, package="pymt"):
        self.package = package
        self.root = root
        self.files = {}
        self.trees = {}
        self.by_name = {}
        base = os.path.join(root, package)
        for d, dirs, fs in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, ".")
                is_pkg = False
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                    is_pkg = True
                src = open(p, encoding="utf-8").read()
                self.trees[mod] = ast.parse(src, p)
                self.files[mod] = (os.path.join("src", rel), is_pkg)
        self.nfuncs = 0
        for t in self.trees.values():
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.nfuncs += 1


_scope_cache = {}


def scope_info(node):
    """(locals, nonlocals, globals, is_generator) of a function body."""
    r = _scope_cache.get(node)
    if r is not None:
        return r
    loc, nl, gl = set(), set(), set()
    gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n, top=False):
        if not top and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    target(x.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(p.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    loc -= nl | gl
    r = (frozenset(loc), frozenset(nl), frozenset(gl), gen[0])
    _scope_cache[node] = r
    return r


NO = object()


class Interp:
    def __init__(self, program, prefix=None):
        self.program = program
        self.prefix = prefix if prefix is not None else []
        self.pos = 0
        self.labels = []
        self.steps = 0
        self.maxsteps = MAX_STEPS
        self.iv = {}
        self.ne = {}
        self.facts = {}
        self.exact = False
        self.events = []
        self.modules = {}
        self.stack = []
        self.visited = set()
        self.funcs = set()
        self.line = 0
        self.counter = 0
        self.frames = []
        self.handling = []
        self.gens = []
        self.hooks = {}
        self.fault = None
        self.cfg = {}
        self.notes = []
        self.shims = {}
        self.getattributes = set()
        import models
        import stdlib

        self.S = stdlib

        self.M = models
        self.builtins = models.builtins(self)

    # ---------------------------------------------------------------- choices
    def where(self):
        for q, m, l in reversed(self.stack):
            if m[0] != "<":
                return "%s:%s (%s)" % (m, l, q)
        return "<entry>"

    def choose(self, n, label=""):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos][0]
        else:
            if len(self.prefix) > 200:
                raise Unsupported("too many undecided tests on one path")
            self.prefix.append([0, n])
            c = 0
        self.pos += 1
        self.labels.append("%s: %s = %s" % (self.where(), label, c if n > 2 else bool(1 - c)))
        return c

    def choose_bool(self, label=""):
        return self.choose(2, label) == 0

    def fresh(self, base, kind="bytes", **meta):
        self.counter += 1
        return sym("%s#%d" % (base, self.counter), kind=kind, **meta)

    # ------------------------------------------------------------- exceptions
    def throw(self, pyexc, *args):
        raise PyRaise(self.mkexc(pyexc, *args))

    def mkexc(self, cls, *args):
        if isinstance(cls, type):
            cls = bt(cls)
        i = Instance(cls)
        i.attrs["args"] = tuple(args)
        i.attrs["__where__"] = self.where()
        if self.handling:
            i.attrs["__context__"] = self.handling[-1]
        return i

    def conc(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (RecursionError, MemoryError):
            raise Unsupported("resource")
        except Exception as e:
            self.throw(type(e), str(e))

    # ------------------------------------------------------------ int reasoning
    def bounds_term(self, t):
        r = self.iv.get(t)
        if r is not None:
            return r
        r = self.M.term_bounds(self, t)
        self.iv[t] = r
        return r

    def bounds(self, v):
        l = lin(v)
        lo = hi = l.c
        for t, k in l.co:
            a, b = self.bounds_term(t)
            if k < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        return lo, hi

    def _refine(self, d, op):
        """assume d op 0 for a single-term linear form."""
        l = lin(d)
        if len(l.co) != 1:
            return
        (t, k), c = l.co[0], l.c
        lo, hi = self.bounds_term(t)
        # k*t + c op 0
        if op == "==":
            if (-c) % k:
                raise Infeasible()
            v = (-c) // k
            lo = hi = v
        elif op == "<":  # k*t < -c
            if k > 0:
                b = -((c) // k) - 1 if (-c) % k == 0 else (-c) // k
                hi = b if hi is None else min(hi, b)
            else:  # t > c/(-k)... t > -c/k
                q = (-c) / k
                import math

                b = math.floor(q) + 1
                lo = b if lo is None else max(lo, b)
        elif op == ">=":
            if k > 0:
                b = -(c // k)  # ceil(-c/k)
                lo = b if lo is None else max(lo, b)
            else:
                b = c // (-k)
                hi = b if hi is None else min(hi, b)
        elif op == "!=":
            if (-c) % k == 0:
                v = (-c) // k
                s = self.ne.setdefault(t, set())
                s.add(v)
        s = self.ne.get(t, ())
        while lo is not None and lo in s and (hi is None or lo <= hi):
            lo += 1
        while hi is not None and hi in s and (lo is None or lo <= hi):
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            raise Infeasible()
        self.iv[t] = (lo, hi)

    def lt0(self, d, label):
        lo, hi = self.bounds(d)
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        key = ("lt0", lin(d))
        r = self.facts.get(key)
        if r is None:
            neg = self.facts.get(("lt0", lin(ladd(lscale(d, -1), -1))))
            if neg is not None:
                return not neg
            r = self.choose_bool(label)
            self.facts[key] = r
            self._refine(d, "<" if r else ">=")
        return r

    def is_nibble(self, t):
        lo, hi = self.bounds_term(t)
        return lo is not None and hi is not None and 0 <= lo and hi <= 15

    def eq0_3(self, d):
        l = lin(d)
        if not l.co:
            return l.c == 0
        lo, hi = self.bounds(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lo == 0 and hi == 0:
            return True
        import math

        g = 0
        for t, k in l.co:
            g = math.gcd(g, k)
        if g and l.c % g:
            return False
        if len(l.co) == 1:
            (t, k) = l.co[0]
            v = (-l.c) // k
            if v in self.ne.get(t, ()):
                return False
        else:
            if all(self.is_nibble(t) for t, k in l.co):
                # difference of two bytes written with nibbles
                q, r = self.M.split16(self, l)
                if q is not None and q != 0:
                    a, b = self.eq0_3(q), self.eq0_3(r)
                    if a is False or b is False:
                        return False
                    if a and b:
                        return True
        if l.co and l.co[0][1] < 0:
            l = lin(lscale(l, -1))
        r = self.facts.get(("eq0", l))
        return r

    def eq0(self, d, label):
        r = self.eq0_3(d)
        if r is None:
            l = lin(d)
            if l.co[0][1] < 0:
                l = lin(lscale(l, -1))
            if len(l.co) > 1 and all(self.is_nibble(t) for t, k in l.co):
                q, rr = self.M.split16(self, l)
                if q is not None and q != 0:
                    return self.eq0(q, label) and self.eq0(rr, label)
            r = self.choose_bool(label)
            self.facts[("eq0", l)] = r
            self._refine(d, "==" if r else "!=")
            if r and len(l.co) == 2:
                # t1 - t2 + c == 0: share bounds
                (t1, k1), (t2, k2) = l.co
                if k1 == 1 and k2 == -1:
                    self.facts[("subst", t1)] = (t2, -l.c)
        return r

    # ------------------------------------------------------------- lengths
    def blen(self, v):
        """length of a bytes/str abstract value as an abstract int"""
        if isinstance(v, (bytes, str, tuple)):
            return len(v)
        if isinstance(v, BArr):
            return self.blen(v.val)
        return self.M.term_len(self, v)

    # ------------------------------------------------------------- truth/equality
    def truth(self, v, label="condition"):
        if v is None or isinstance(v, (bool, int, float, bytes, str, tuple)):
            return bool(v)
        if v is Ellipsis or isinstance(v, (Func, Bound, Builtin, BType, Cls, Ext, ModuleV, EnumMember)):
            return True
        if isinstance(v, Lin):
            return not self.eq0(v, label)
        if isinstance(v, Term):
            if v.kind in ("bytes", "str"):
                return not self.eq0(self.blen(v), label + " is empty: " + render(v))
            if v.kind == "bool":
                r = self.facts.get(("b", v))
                if r is None:
                    r = self.choose_bool(label + " " + render(v))
                    self.facts[("b", v)] = r
                return r
            if v.kind == "int":
                return not self.eq0(lin(v), label)
            r = self.facts.get(("b", v))
            if r is None:
                r = self.choose_bool(label + " " + render(v))
                self.facts[("b", v)] = r
            return r
        if isinstance(v, List):
            return len(v.items) > 0
        if isinstance(v, SetV):
            return len(v.items) > 0
        if isinstance(v, Dict):
            if v.opaque and not v.d:
                return self.truth(v.opaque.nonempty(self), label)
            return len(v.d) > 0
        if isinstance(v, View):
            return self.truth(v.d, label)
        if isinstance(v, BArr):
            return self.truth(v.val, label)
        if isinstance(v, range):
            return len(v) > 0
        if isinstance(v, Instance):
            m = self.find_class_attr(v.cls, "__bool__")
            if m is not NO:
                return self.truth(self.call(self.bind(m, v), []))
            m = self.find_class_attr(v.cls, "__len__")
            if m is not NO:
                return self.truth(self.call(self.bind(m, v), []), label)
            return True
        if isinstance(v, Opaque):
            return True
        raise Unsupported("truth of %r" % (v,))

    def eq(self, a, b, label="=="):
        r = self.eq3(a, b)
        if r is None:
            return self.force_eq(a, b, label)
        return r

    def eq3(self, a, b):
        """True/False/None(unknown) without partitioning (structural values only)."""
        if a is b:
            return True if not isinstance(a, float) else a == b
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return a == b
        if isinstance(a, EnumMember) and a.cls.is_enum == "mixed":
            a = a.value
        if isinstance(b, EnumMember) and b.cls.is_enum == "mixed":
            b = b.value
        if a is None or b is None or a is Ellipsis or b is Ellipsis:
            o = b if (a is None or a is Ellipsis) else a
            if isinstance(o, Term) and o.kind == "any":
                return self.facts.get(("eq", o, "None"))
            return False
        ka, kb = kind_of(a), kind_of(b)
        if ka == "bytearray":
            a, ka = a.val, "bytes"
        if kb == "bytearray":
            b, kb = b.val, "bytes"
        num = ("int", "bool", "float")
        if "any" in (ka, kb) and isinstance(a, (Term, bytes, str, int)) and isinstance(b, (Term, bytes, str, int)):
            return self.M.eq_terms(self, a, b)
        if ka in num and kb in num:
            if isinstance(a, float) or isinstance(b, float):
                return None
            if isinstance(a, Term) and a.kind == "bool" or isinstance(b, Term) and b.kind == "bool":
                return None
            if isinstance(a, Term):
                a = lin(a)
            if isinstance(b, Term):
                b = lin(b)
            d = ladd(a, b, -1)
            r = self.eq0_3(d)
            if r is None:
                r = self.M.eq_ints(self, a, b)
            return r
        if ka in ("bytes", "str"):
            if ka != kb:
                return False
            return self.M.eq_terms(self, a, b)
        if kb in ("bytes", "str"):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, List) and isinstance(b, List):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            if len(xs) != len(ys):
                return False
            res = True
            for x, y in zip(xs, ys):
                r = self.eq3(x, y)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if isinstance(a, Instance) or isinstance(b, Instance):
            return None
        if isinstance(a, Dict) and isinstance(b, Dict):
            if a.opaque or b.opaque:
                return None
            if len(a.d) != len(b.d):
                return None if any(is_abs(k) for k, _ in a.pairs() + b.pairs()) else False
            res = True
            for h, (k, v) in a.d.items():
                if h not in b.d:
                    return None if (is_abs(k) or any(is_abs(q) for q, _ in b.pairs())) else False
                r = self.eq3(v, b.d[h][1])
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if isinstance(a, SetV) and isinstance(b, SetV):
            return None
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            if isinstance(a, EnumMember) and isinstance(b, EnumMember):
                return a.cls is b.cls and a.name == b.name
            return False
        if type(a) is type(b) and isinstance(a, (Bound,)):
            return a.fn is b.fn and a.self is b.self
        if isinstance(a, (Ext, BType, Cls, Func, Builtin, ModuleV)) or isinstance(b, (Ext, BType, Cls, Func, Builtin, ModuleV)):
            return a == b
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, (View, Opaque, Term)) or isinstance(b, (View, Opaque, Term)):
                return None
            return False
        return False

    def force_eq(self, a, b, label):
        """Equality that may call user code or partition."""
        if isinstance(a, Instance) or isinstance(b, Instance):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Instance):
                    m = self.find_class_attr(x.cls, "__eq__")
                    if m is not NO and m is not None:
                        r = self.call(self.bind(m, x), [y])
                        if r is NOTIMPL:
                            continue
                        return self.truth(r)
            return a is b
        if isinstance(a, BArr):
            a = a.val
        if isinstance(b, BArr):
            b = b.val
        if isinstance(a, (tuple, List)) and isinstance(b, (tuple, List)):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            for x, y in zip(list(xs), list(ys)):
                if not self.eq(x, y, label):
                    return False
            return True
        if isinstance(a, Dict) and isinstance(b, Dict) and not a.opaque and not b.opaque:
            if len(a.d) != len(b.d):
                return False
            for k, v in a.pairs():
                e = self.dict_find(b, k)
                if e is None or not self.eq(v, e[1], label):
                    return False
            return True
        if isinstance(a, (SetV, View)) and isinstance(b, (SetV, View)) and not (isinstance(a, View) and a.which == "values" or isinstance(b, View) and b.which == "values"):
            a, b = [x if isinstance(x, SetV) else SetV(list(self.iterate(x))) for x in (a, b)]
            if len(a.items) != len(b.items):
                return False
            return all(any(self.eq(x, y) for y in b.items) for x in a.items)
        if (a is None or b is None) and (isinstance(a, Term) or isinstance(b, Term)):
            o = a if isinstance(a, Term) else b
            r = self.choose_bool("%s is None" % render(o))
            self.facts[("eq", o, "None")] = r
            return r
        ka, kb = kind_of(a), kind_of(b)
        if ka in ("int", "bool") and kb in ("int", "bool"):
            if isinstance(a, Term) and a.kind == "bool" or isinstance(b, Term) and b.kind == "bool":
                x = self.truth(a) if ka == "bool" else a
                y = self.truth(b) if kb == "bool" else b
                return self.eq(x, y)
            r = self.M.force_eq_ints(self, a, b, label)
            if r is not None:
                return r
            if self.exact and not all(self.M.free_int(t) for t, _ in lin(ladd(a, b, -1)).co):
                raise Unsupported("cannot decide whether %s equals %s" % (render(a), render(b)))
            return self.eq0(ladd(a, b, -1), "%s %s %s" % (render(a), label, render(b)))
        if isinstance(a, (Term, bytes, str, int)) and isinstance(b, (Term, bytes, str, int)):
            return self.M.force_eq_terms(self, a, b, label)
        raise Unsupported("equality of %r and %r" % (a, b))

    # ------------------------------------------------------------- dict helpers
    def dict_find(self, d, k):
        """entry (key, value) or None"""
        self.check_hashable(k)
        h = hk(k)
        e = d.d.get(h)
        if e is not None:
            return e
        if isinstance(k, (str, bytes, int, bool, type(None))) and not any(isinstance(q, (Term, Lin, Instance, tuple)) for q, _ in d.d.values()):
            pass
        else:
            for q, v in list(d.d.values()):
                if self.eq3(q, k) is False:
                    continue
                if self.eq(q, k, "dict key"):
                    return d.d.get(hk(q))
        if d.opaque:
            return d.opaque.lookup(self, d, k)
        return None

    def check_hashable(self, k):
        if isinstance(k, (List, Dict, BArr)) or isinstance(k, SetV) and not k.frozen:
            self.throw(TypeError, "unhashable type: '%s'" % self.type_name(k))
        if isinstance(k, tuple):
            for i in k:
                self.check_hashable(i)
        if isinstance(k, Instance) and isinstance(k.cls, Cls):
            # Python sets __hash__ to None when only __eq__ is defined
            for c in k.cls.mro:
                if isinstance(c, Cls):
                    if "__hash__" in c.ns:
                        return
                    if "__eq__" in c.ns:
                        self.throw(TypeError, "unhashable type: '%s'" % k.cls.name)

    def dict_get(self, d, k):
        if d.observer:
            d.observer.before(self, "get", d, k, None)
        e = self.dict_find(d, k)
        if e is None:
            if type(d) is XDict and d.missing is not None:
                return d.missing(self, k)
            self.throw(KeyError, k)
        return e[1]

    def dict_set(self, d, k, v):
        if d.observer:
            d.observer.before(self, "set", d, k, v)
        e = self.dict_find(d, k)
        if e is not None:
            d.d[hk(e[0])] = (e[0], v)
        else:
            if d.frozen_iter:
                self.cfg["size_changed"] = True
                d.frozen_iter = -1
            d.d[hk(k)] = (k, v)
        if d.observer:
            d.observer.after(self, "set", d, k, v)

    def dict_del(self, d, k):
        if d.observer:
            d.observer.before(self, "del", d, k, None)
        e = self.dict_find(d, k)
        if e is None:
            self.throw(KeyError, k)
        if d.frozen_iter:
            d.frozen_iter = -1
        d.d.pop(hk(e[0]), None)
        if d.observer:
            d.observer.after(self, "del", d, k, None)
        return e[1]

    # ------------------------------------------------------------- classes
    def type_of(self, v):
        t = type(v)
        if t is Instance:
            return v.cls
        if t in _PLAIN:
            return bt(t)
        if t is Term:
            k = _KINDS.get(v.kind)
            if k:
                return bt(k)
        if isinstance(v, Instance):
            return v.cls
        if isinstance(v, (EnumMember, NTup)):
            return v.cls
        if t is XDict:
            return v.type
        m = {List: list, Dict: dict, BArr: bytearray, range: range}
        for k, t in m.items():
            if isinstance(v, k):
                return bt(t)
        if isinstance(v, SetV):
            return bt(frozenset if v.frozen else set)
        if isinstance(v, (Func,)):
            return bt(type(lambda: 0))
        if isinstance(v, (BType, Cls)):
            return bt(type)
        if isinstance(v, Lin):
            return bt(int)
        if isinstance(v, Term):
            k = {"bytes": bytes, "str": str, "int": int, "bool": bool, "float": float}.get(v.kind)
            if k:
                return bt(k)
            raise Unsupported("type of unknown %r" % v)
        if isinstance(v, Opaque):
            return Ext(v.type)
        if isinstance(v, (Bound, Builtin, View, IterV, SuperV)):
            return Ext("types." + type(v).__name__)
        return bt(type(v))

    def type_name(self, v):
        t = self.type_of(v)
        return getattr(t, "name", None) or getattr(t, "path", "?")

    def mro(self, c):
        if type(c) is Cls:
            return c.mro
        if isinstance(c, Cls):
            return c.mro
        if isinstance(c, BType):
            r = _mro_cache.get(c)
            if r is None:
                r = _mro_cache[c] = [bt(x) for x in c.py.__mro__]
            return r
        return [c]

    def subclass(self, c, p):
        if isinstance(p, BType) and p.py is object:
            return True
        for x in self.mro(c):
            if x is p or x == p:
                return True
        if isinstance(c, Cls) and c.is_enum == "mixed" and isinstance(p, BType):
            return any(isinstance(b, Ext) and {"enum.IntEnum": int, "enum.IntFlag": int, "enum.StrEnum": str}.get(b.path) is p.py for b in c.mro)
        if isinstance(c, Ext) and c.path.startswith("collections.") and isinstance(p, BType) and p.py is dict:
            return c.path in ("collections.defaultdict", "collections.Counter", "collections.OrderedDict")
        if isinstance(p, Ext):
            # abstract base classes of collections.abc and friends
            abc = {
                "MutableMapping": (dict,), "Mapping": (dict,), "Sequence": (list, tuple, bytes, str, bytearray, range),
                "Iterable": (list, tuple, bytes, str, dict, set, frozenset, bytearray, range), "Hashable": (),
                "MutableSequence": (list, bytearray), "Sized": (list, tuple, bytes, str, dict, set, frozenset, bytearray, range),
                "Container": (list, tuple, bytes, str, dict, set, frozenset, bytearray, range), "Collection": (list, tuple, bytes, str, dict, set, frozenset, bytearray, range),
                "Reversible": (list, tuple, bytes, str, dict, bytearray, range), "ByteString": (bytes, bytearray), "Buffer": (bytes, bytearray),
                "Set": (set, frozenset), "MutableSet": (set,), "AbstractSet": (set, frozenset), "Real": (int, float),
                "Number": (int, float), "Integral": (int,),
            }
            n = p.path.rsplit(".", 1)[-1]
            up = {"Mapping": ("MutableMapping",), "Sequence": ("MutableSequence",), "Set": ("MutableSet",), "Iterator": ("Generator",),
                  "Collection": ("Mapping", "MutableMapping", "Sequence", "MutableSequence", "Set", "MutableSet")}
            if isinstance(c, Cls) and n in up and any(isinstance(b, Ext) and b.path.rsplit(".", 1)[-1] in up[n] for b in c.mro):
                return True
            need = {"Iterable": "__iter__", "Iterator": "__next__", "Sized": "__len__", "Container": "__contains__", "Callable": "__call__",
                    "SupportsBytes": "__bytes__", "SupportsInt": "__int__", "SupportsIndex": "__index__", "PathLike": "__fspath__"}.get(n)
            if need and isinstance(c, Cls):
                return self.find_class_attr(c, need) is not NO
            if n == "Hashable" and isinstance(c, BType):
                return c.py not in (list, dict, set, bytearray)
            if n == "Callable" and (isinstance(c, Ext) and c.path in ("types.Bound", "types.Builtin") or isinstance(c, BType) and c.py in (type, type(lambda: 0))):
                return True
            if n in ("List", "Dict", "Tuple", "Set"):
                pass
            if n in abc and p.path.split(".")[0] in ("collections", "_collections_abc", "typing", "numbers"):
                return isinstance(c, BType) and issubclass(c.py, abc[n])
        return False

    def isinstance_(self, v, c):
        if isinstance(c, tuple):
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, Opaque) and c.type == "union":
            return any(self.isinstance_(v, x) for x in c.f["items"])
        if c is None:
            return v is None
        if isinstance(v, Term) and v.kind == "any":
            if isinstance(c, BType) and c.py is object:
                return True
            return self.M.any_isinstance(self, v, c)
        if not isinstance(c, (BType, Cls, Ext)):
            self.throw(TypeError, "isinstance() arg 2 must be a type")
        return self.subclass(self.type_of(v), c)

    def find_class_attr(self, cls, name):
        if isinstance(cls, Cls):
            for c in cls.mro:
                if isinstance(c, Cls):
                    if name in c.ns:
                        return c.ns[name]
                elif isinstance(c, BType):
                    r = self.M.btype_attr(self, c, name)
                    if r is not None:
                        return r
                elif isinstance(c, Ext):
                    r = self.M.ext_base_attr(self, c, name)
                    if r is not None:
                        return r
        elif isinstance(cls, BType):
            r = self.M.btype_attr(self, cls, name)
            if r is not None:
                return r
        return NO

    def bind(self, m, obj, cls=None):
        if isinstance(m, (Func, Builtin)) and obj is not None:
            return Bound(m, obj)
        if isinstance(m, ClassM):
            return Bound(m.fn, cls if cls is not None else self.type_of(obj))
        if isinstance(m, StaticM):
            return m.fn
        if isinstance(m, Opaque) and m.type == "cached":
            return Bound(m, obj)
        return m

    def getattr(self, v, name, default=NO, raw=False):
        if isinstance(v, Instance):
            if v.cls in self.getattributes and not raw:
                ca = self.find_class_attr(v.cls, "__getattribute__")
                try:
                    return self.call(Bound(ca, v), [name])
                except PyRaise as e:
                    ga = self.find_class_attr(v.cls, "__getattr__")
                    if not self.exc_match(e.exc, bt(AttributeError)):
                        raise
                    if ga is not NO:
                        return self.call(self.bind(ga, v), [name])
                    if default is not NO:
                        return default
                    raise
            ca = self.find_class_attr(v.cls, name)
            if isinstance(ca, Prop):
                if ca.get is None:
                    self.throw(AttributeError, "unreadable attribute")
                return self.call(ca.get, [v])
            if type(ca) is Instance:
                g = self.find_class_attr(ca.cls, "__get__")
                if g is not NO and (name not in v.attrs or self.find_class_attr(ca.cls, "__set__") is not NO):
                    return self.call(self.bind(g, ca), [v, v.cls])
            if isinstance(ca, Opaque) and ca.type == "cached_property":
                if name not in v.attrs:
                    v.attrs[name] = self.call(ca.f["fn"], [v])
                return v.attrs[name]
            if name in v.attrs:
                return v.attrs[name]
            if ca is not NO:
                return self.bind(ca, v)
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                d = Dict([(k, x) for k, x in v.attrs.items() if k != "__where__"])
                d.observer = _AttrDict(v)
                return d
            if name == "__doc__" or name == "__module__":
                return self.getattr(v.cls, name) if isinstance(v.cls, Cls) else None
            if name in ("args", "__traceback__", "__cause__", "__context__", "add_note", "with_traceback", "value", "code") and self.is_exc(v.cls):
                r = self.M.exc_attr(self, v, name)
                if r is not NO:
                    return r
            ga = self.find_class_attr(v.cls, "__getattr__") if not raw else NO
            if ga is not NO:
                return self.call(self.bind(ga, v), [name])
            r = self.M.object_attr(self, v, name)
            if r is not None:
                return r
            if default is not NO:
                return default
            self.opaque_base(v.cls, name)
            self.throw(AttributeError, "'%s' object has no attribute '%s'" % (getattr(v.cls, "name", None) or v.cls.path, name))
        if isinstance(v, Cls):
            ca = self.find_class_attr(v, name)
            if ca is not NO:
                if isinstance(ca, ClassM):
                    return Bound(ca.fn, v)
                if isinstance(ca, StaticM):
                    return ca.fn
                if type(ca) is Instance:
                    g = self.find_class_attr(ca.cls, "__get__")
                    if g is not NO:
                        return self.call(self.bind(g, ca), [None, v])
                return ca
            if name == "__name__":
                return v.name
            if name == "__qualname__":
                return v.qual
            if name == "__mro__":
                return tuple(v.mro)
            if name == "__bases__":
                return tuple(v.bases or [bt(object)])
            if name == "__doc__":
                return ast.get_docstring(v.node) if v.node is not None else None
            if name == "__module__":
                return v.module.name
            if name == "__dict__":
                return Dict(list(v.ns.items()))
            if name == "__annotations__":
                return Dict([(s.target.id, ast.unparse(s.annotation)) for s in (v.node.body if v.node is not None else []) if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)])
            if name == "mro":
                return Builtin("mro", lambda I, a, k: List(v.mro))
            if name == "__class__":
                return bt(type)
            if name == "__subclasses__":
                raise Unsupported("__subclasses__")
            if v.is_enum and name == "__members__":
                return Dict([(k, x) for k, x in v.ns.items() if isinstance(x, EnumMember)])
            r = self.M.object_attr(self, None, name)
            if r is not None:
                return r
            if default is not NO:
                return default
            self.opaque_base(v, name)
            self.throw(AttributeError, "type object '%s' has no attribute '%s'" % (v.name, name))
        if isinstance(v, SuperV):
            mro = self.mro(v.obj if isinstance(v.obj, Cls) else self.type_of(v.obj))
            i = [k for k, c in enumerate(mro) if c is v.cls]
            rest = mro[i[0] + 1:] if i else []
            for c in rest:
                if isinstance(c, Cls):
                    if name in c.ns:
                        ca = c.ns[name]
                        if isinstance(ca, Prop):
                            return self.call(ca.get, [v.obj])
                        if isinstance(v.obj, Cls):
                            if isinstance(ca, ClassM):
                                return Bound(ca.fn, v.obj)
                            if isinstance(ca, StaticM):
                                return ca.fn
                            return Bound(ca, v.obj) if name == "__new__" else ca
                        return self.bind(ca, v.obj)
                elif isinstance(c, BType):
                    r = self.M.btype_attr(self, c, name)
                    if r is not None:
                        return self.bind(r, v.obj)
                elif isinstance(c, Ext):
                    r = self.M.ext_base_attr(self, c, name)
                    if r is not None:
                        return self.bind(r, v.obj)
            r = self.M.object_attr(self, v.obj, name)
            if r is not None:
                return r
            if default is not NO:
                return default
            self.opaque_base(v.obj if isinstance(v.obj, Cls) else self.type_of(v.obj), name)
            self.throw(AttributeError, "'super' object has no attribute '%s'" % name)
        if isinstance(v, ModuleV):
            if name in v.ns:
                return v.ns[name]
            sub = v.name + "." + name
            if sub in self.program.trees:
                return self.import_module(sub)
            if default is not NO:
                return default
            self.throw(AttributeError, "module has no attribute %r" % name)
        if isinstance(v, EnumMember):
            if name == "value":
                return v.value
            if name == "name":
                return v.name
            if name == "__class__":
                return v.cls
            ca = self.find_class_attr(v.cls, name)
            if isinstance(ca, Prop):
                return self.call(ca.get, [v])
            if ca is not NO:
                return self.bind(ca, v)
            if v.cls.is_enum == "mixed":
                return self.getattr(v.value, name, default)
            if default is not NO:
                return default
            if name.startswith("__"):
                raise Unsupported("attribute %s of an enum member" % name)
            self.throw(AttributeError, name)
        if isinstance(v, NTup):
            ca = self.find_class_attr(v.cls, name)
            if isinstance(ca, Prop):
                return self.call(ca.get, [v])
            if ca is not NO:
                return self.bind(ca, v)
        if isinstance(v, Func):
            if name in v.attrs:
                return v.attrs[name]
            if name in ("__name__",):
                return v.name
            if name == "__qualname__":
                return v.qual
            if name == "__doc__":
                return ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None
            if name == "__module__":
                return v.module.name
            if name == "__dict__":
                return Dict(list(v.attrs.items()))
            if name == "__annotations__" and not isinstance(v.node, ast.Lambda):
                a = v.node.args
                d = [(p.arg, self.eval(p.annotation, v.env)) for p in a.posonlyargs + a.args + a.kwonlyargs if p.annotation is not None]
                if v.node.returns is not None:
                    d.append(("return", self.eval(v.node.returns, v.env)))
                return Dict(d)
            if name == "__defaults__":
                return tuple(v.defaults) if v.defaults else None
            if name in ("__code__", "__closure__", "__globals__", "__kwdefaults__"):
                raise Unsupported("function internals")
            if name == "__get__":
                return Builtin("__get__", lambda I, a, k: Bound(v, a[0]) if a[0] is not None else v)
            if name == "__call__":
                return v
        if isinstance(v, Prop):
            if name == "setter":
                return Builtin("setter", lambda I, a, k: Prop(v.get, a[0], v.dele))
            if name == "deleter":
                return Builtin("deleter", lambda I, a, k: Prop(v.get, v.set, a[0]))
            if name == "getter":
                return Builtin("getter", lambda I, a, k: Prop(a[0], v.set, v.dele))
            if name == "fget":
                return v.get
        if isinstance(v, Ext):
            return self.M.ext_attr(self, v, name)
        if isinstance(v, Bound) and name == "__self__":
            return v.self
        if isinstance(v, Bound) and name == "__func__":
            return v.fn
        if isinstance(v, Bound) and name.startswith("__") and isinstance(v.fn, Func):
            return self.getattr(v.fn, name)
        if isinstance(v, Bound) and isinstance(v.fn, Func) and name in v.fn.attrs:
            return v.fn.attrs[name]
        if isinstance(v, Builtin) and v.attrs is not None and name in v.attrs:
            return v.attrs[name]
        r = self.M.value_attr(self, v, name)
        if r is self.M.NONE_VALUE:
            return None
        if r is not None:
            return r
        if default is not NO:
            return default
        if isinstance(v, Term) and v.kind == "any":
            raise Unsupported("attribute %s of unknown value %r" % (name, v))
        if name.startswith("__"):
            r = self.M.object_attr(self, v, name)
            if r is not None:
                return r
        t = self.type_of(v)
        if isinstance(t, BType) and hasattr(t.py, name) or isinstance(v, Opaque) and v.type in ("py", "partial", "cached", "cached_property", "field", "union"):
            raise Unsupported("attribute %s of %s" % (name, self.type_name(v)))
        self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(v), name))

    def is_exc(self, c):
        if isinstance(c, Cls):
            return any(isinstance(b, BType) and issubclass(b.py, BaseException) or isinstance(b, Ext) and self.M.is_exc_path(b.path) for b in c.mro)
        if isinstance(c, BType):
            return issubclass(c.py, BaseException)
        return isinstance(c, Ext) and self.M.is_exc_path(c.path)

    def opaque_base(self, c, name):
        """attribute possibly supplied by a base class the analysis knows nothing about"""
        if isinstance(c, Cls):
            for b in c.mro:
                if isinstance(b, Cls) and b.module.path.startswith("<shim") and not name.startswith("__"):
                    raise Unsupported("attribute %s of %s" % (name, b.name))
                if isinstance(b, Ext) and not self.M.known_base(b.path, name):
                    raise Unsupported("attribute %s of a class derived from %s" % (name, b.path))
                if isinstance(b, BType) and b.py is not object and hasattr(b.py, name):
                    raise Unsupported("attribute %s inherited from %s" % (name, b.name))
        elif isinstance(c, BType) and hasattr(c.py, name):
            raise Unsupported("attribute %s of %s" % (name, c.name))
        elif isinstance(c, Ext):
            raise Unsupported("attribute %s of %s" % (name, c.path))

    def setattr(self, v, name, val, raw=False):
        if isinstance(v, Instance):
            ca = self.find_class_attr(v.cls, name)
            if isinstance(ca, Prop):
                if ca.set is None:
                    self.throw(AttributeError, "can't set attribute '%s'" % name)
                self.call(ca.set, [v, val])
                return
            if type(ca) is Instance:
                g = self.find_class_attr(ca.cls, "__set__")
                if g is not NO:
                    self.call(self.bind(g, ca), [v, val])
                    return
            sa = self.find_class_attr(v.cls, "__setattr__") if not raw else NO
            if sa is not NO and isinstance(sa, (Func, Builtin)):
                self.call(Bound(sa, v), [name, val])
                return
            if v.observer:
                v.observer.setattr(self, v, name, val)
            v.attrs[name] = val
            return
        if isinstance(v, Cls):
            v.ns[name] = val
            return
        if isinstance(v, Func):
            v.attrs[name] = val
            return
        if isinstance(v, ModuleV):
            v.ns[name] = val
            return
        if isinstance(v, SuperV):
            v.obj.attrs[name] = val
            return
        if v is None or isinstance(v, (int, str, bytes, tuple, List, Dict)):
            self.throw(AttributeError, "object has no attribute %r" % name)
        if isinstance(v, Builtin):
            if v.attrs is None:
                v.attrs = {}
            v.attrs[name] = val
            return
        if isinstance(v, Opaque) and v.type in ("cached", "partial"):
            return
        raise Unsupported("setattr on %r" % (v,))

    def delattr(self, o, n):
        if isinstance(o, Instance):
            ca = self.find_class_attr(o.cls, n)
            if isinstance(ca, Prop):
                if ca.dele is None:
                    self.throw(AttributeError, n)
                self.call(ca.dele, [o])
            elif type(ca) is Instance and self.find_class_attr(ca.cls, "__delete__") is not NO:
                self.call(self.bind(self.find_class_attr(ca.cls, "__delete__"), ca), [o])
            elif n in o.attrs:
                if o.observer:
                    o.observer.setattr(self, o, n, None)
                del o.attrs[n]
            else:
                self.throw(AttributeError, n)
        elif isinstance(o, (Cls, ModuleV)):
            if n not in o.ns:
                self.throw(AttributeError, n)
            del o.ns[n]
        else:
            raise Unsupported("del attribute")

    # ------------------------------------------------------------- imports
    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in self.program.trees:
            return None
        pm = None
        if "." in name:
            pm = self.import_module(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        path, is_pkg = self.program.files[name]
        m = ModuleV(name, path, is_pkg)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        self.modules[name] = m
        fr = Frame(None, m)
        fr.vars = m.ns
        self.stack.append(("<module>", path, 0))
        try:
            self.exec_block(self.program.trees[name].body, fr)
        finally:
            self.stack.pop()
        if "." in name and pm is not None:
            pm.ns.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def do_import(self, node, fr):
        if isinstance(node, ast.Import):
            for a in node.names:
                self.ext_import(a.name)
                m = self.import_module(a.name)
                if m is not None:
                    if a.asname:
                        self.assign_name(a.asname, m, fr)
                    else:
                        self.assign_name(a.name.split(".")[0], self.import_module(a.name.split(".")[0]), fr)
                else:
                    self.assign_name(a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]), fr)
            return
        base = node.module or ""
        if node.level:
            mod = fr.module.name
            parts = mod.split(".")
            up = node.level if not fr.module.is_pkg else node.level - 1
            parts = parts[: len(parts) - up] if up else parts
            base = ".".join(parts + ([node.module] if node.module else []))
        m = self.import_module(base)
        if m is None:
            self.ext_import(base)
        for a in node.names:
            if a.name == "*":
                if m is None:
                    names = self.S.public(base)
                    if names is None:
                        raise Unsupported("star import of external module")
                    for k in names:
                        self.assign_name(k, self.M.ext_attr(self, Ext(base), k), fr)
                    continue
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.assign_name(k, v, fr)
                continue
            if m is not None:
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.import_module(base + "." + a.name)
                    if v is None:
                        self.throw(ImportError, "cannot import name %r" % a.name)
            else:
                v = self.M.ext_attr(self, Ext(base), a.name)
            self.assign_name(a.asname or a.name, v, fr)

    def ext_import(self, name):
        if name.split(".")[0] == self.program.package:
            if name not in self.program.trees:
                self.throw(ImportError, name)
            return
        if name.split(".")[0] in self.M.MISSING_MODULES:
            self.throw(ModuleNotFoundError, "No module named %r" % name)

    # ------------------------------------------------------------- names
    def lookup(self, name, fr):
        f = fr
        if name in f.vars and name not in f.globs and name not in f.nonlocals:
            return f.vars[name]
        if f.locals_ is not None and name in f.locals_:
            self.throw(UnboundLocalError, "cannot access local variable %r" % name)
        if name in f.globs:
            f = None
        else:
            f = f.parent
        while f is not None:
            if not f.is_class:
                if name in f.vars and name not in f.nonlocals and name not in f.globs:
                    return f.vars[name]
                if f.locals_ is not None and name in f.locals_:
                    self.throw(NameError, "free variable %r" % name)
            f = f.parent
        g = fr.module.ns
        if name in g:
            return g[name]
        b = self.builtins.get(name)
        if b is not None:
            return b
        if name in ("None", "True", "False"):
            return {"None": None, "True": True, "False": False}[name]
        if hasattr(_py_builtins, name):
            raise Unsupported("builtin %s" % name)
        self.throw(NameError, "name %r is not defined" % name)

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__"):
            f = fr
            while f is not None:
                c = f.cls
                if c is not None:
                    return "_" + c.lstrip("_") + name
                f = f.parent
        return name

    def assign_name(self, name, v, fr):
        if name in fr.globs:
            fr.module.ns[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if not f.is_class and name in f.vars:
                    f.vars[name] = v
                    return
                f = f.parent
        fr.vars[name] = v

    # ------------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for s in body:
            r = self.exec(s, fr)
            if r is not None:
                return r
        return None

    def tick(self, node):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("analysis step budget exhausted")
        st = self.stack
        if st:
            q, m, _ = st[-1]
            l = node.lineno
            st[-1] = (q, m, l)
            if m[0] != "<":
                self.visited.add((m, l))

    def exec(self, s, fr):
        self.tick(s)
        m = _STMT.get(type(s))
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(self, s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        return None

    def s_Return(self, s, fr):
        return ("ret", self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        return ("brk", None)

    def s_Continue(self, s, fr):
        return ("cont", None)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)
        if fr.is_class and isinstance(s.target, ast.Name):
            fr.vars.setdefault("__annotations__", Dict())
            self.dict_set(fr.vars["__annotations__"], s.target.id, None)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.augop(s.op, cur, self.eval(s.value, fr))
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            n = self.mangle(t.attr, fr)
            cur = self.getattr(o, n)
            self.setattr(o, n, self.augop(s.op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented target")

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, List):
            a.items.extend(self.iterate(b))
            return a
        if isinstance(op, ast.Add) and isinstance(a, BArr):
            a.val = self.M.cat(self, [a.val, b.val if isinstance(b, BArr) else b])
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, Dict) and isinstance(b, Dict):
            for k, v in b.pairs():
                self.dict_set(a, k, v)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, SetV) and not a.frozen:
            for x in self.iterate(b):
                self.M.set_add(self, a, x)
            return a
        if isinstance(op, (ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(a, SetV) and not a.frozen and isinstance(b, (SetV, View)):
            a.items[:] = self.binop(op, a, b).items
            return a
        if isinstance(op, ast.Mult) and isinstance(a, List) and isinstance(b, int):
            a.items[:] = a.items * b
            return a
        if isinstance(a, Instance):
            n = self.M.DUNDER[type(op).__name__]
            m = self.find_class_attr(a.cls, "__i" + n + "__")
            if m is not NO:
                r = self.call(self.bind(m, a), [b])
                if r is not NOTIMPL:
                    return r
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(self.mangle(t.id, fr), v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, List(items[i: len(items) - after]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
            else:
                if len(items) != len(t.elts):
                    self.throw(ValueError, "wrong number of values to unpack (expected %d, got %d)" % (len(t.elts), len(items)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.vars:
                    self.throw(NameError, t.id)
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), self.mangle(t.attr, fr))
            else:
                raise Unsupported("del target")

    def s_If(self, s, fr):
        if self.test(s.test, fr):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def test(self, e, fr):
        return self.truth(self.eval(e, fr), _short(e))

    def s_While(self, s, fr):
        n = 0
        while self.test(s.test, fr):
            n += 1
            if n > 3000:
                raise Unsupported("loop bound")
            self.tick(s)
            r = self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == "brk":
                    return None
                if r[0] == "ret":
                    return r
        return self.exec_block(s.orelse, fr)

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        for x in self.iterate(it):
            self.tick(s)
            self.assign(s.target, x, fr)
            r = self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == "brk":
                    return None
                if r[0] == "ret":
                    return r
        return self.exec_block(s.orelse, fr)

    def s_With(self, s, fr):
        return self.with_items(s, list(s.items), fr)

    def with_items(self, s, items, fr):
        if not items:
            return self.exec_block(s.body, fr)
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, Opaque) and cm.type == "suppress":
            try:
                return self.with_items(s, items[1:], fr)
            except PyRaise as e:
                if any(self.exc_match(e.exc, c) for c in cm.f["classes"]):
                    return None
                raise
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            r = self.with_items(s, items[1:], fr)
        except PyRaise as e:
            if self.truth(self.call(exit_, [self.type_of(e.exc), e.exc, None])):
                return None
            raise
        self.call(exit_, [None, None, None])
        return r

    def s_Raise(self, s, fr):
        if s.exc is None:
            if self.handling:
                raise PyRaise(self.handling[-1])
            self.throw(RuntimeError, "No active exception to reraise")
        v = self.eval(s.exc, fr)
        cause = self.eval(s.cause, fr) if s.cause is not None else None
        if isinstance(v, (Cls, BType)):
            v = self.call(v, [])
        if isinstance(v, Ext):
            v = self.mkexc(v)
        if not isinstance(v, Instance):
            self.throw(TypeError, "exceptions must derive from BaseException")
        if isinstance(cause, (Cls, BType)):
            cause = self.call(cause, [])
        v.attrs["__cause__"] = cause
        if self.handling and self.handling[-1] is not v:
            v.attrs["__context__"] = self.handling[-1]
        v.attrs.setdefault("__where__", self.where())
        raise PyRaise(v)

    def exc_match(self, exc, c):
        if isinstance(c, tuple):
            return any(self.exc_match(exc, x) for x in c)
        if self.subclass(exc.cls, c):
            return True
        if isinstance(c, BType) and isinstance(exc.cls, Ext):
            return c.py in self.M.EXT_EXC_BASES.get(exc.cls.path, (Exception, BaseException))
        if isinstance(c, Ext) and isinstance(exc.cls, Ext):
            return c.path in self.M.EXT_EXC_PARENTS.get(exc.cls.path, ())
        return False

    def s_Try(self, s, fr):
        try:
            try:
                r = self.exec_block(s.body, fr)
            except PyRaise as e:
                self.M.on_catch(self, e)
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_match(e.exc, self.eval(h.type, fr))
                    if ok:
                        if h.name:
                            self.assign_name(h.name, e.exc, fr)
                        self.handling.append(e.exc)
                        try:
                            r = self.exec_block(h.body, fr)
                        finally:
                            self.handling.pop()
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.exec_block(s.orelse, fr)
        except PyRaise:
            if s.finalbody:
                r2 = self.exec_block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def s_Assert(self, s, fr):
        if not self.test(s.test, fr):
            self.throw(AssertionError, self.eval(s.msg, fr) if s.msg is not None else "")

    def s_Import(self, s, fr):
        self.do_import(s, fr)

    s_ImportFrom = s_Import

    def s_Global(self, s, fr):
        if fr.func is None:
            return

    def s_Nonlocal(self, s, fr):
        return

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.assign_name(self.mangle(s.name, fr), v, fr)

    def make_func(self, s, fr):
        f = Func()
        f.node = s
        f.env = fr
        f.module = fr.module
        f.name = getattr(s, "name", "<lambda>")
        f.cls = None
        f.attrs = {}
        f.cache = None
        f.params = None
        loc, nl, gl, gen = scope_info(s)
        f.isgen = gen
        c = fr.cls if fr.is_class else None
        f.qual = (fr.vars.get("__qualname__", "") + "." if fr.is_class else "") + f.name
        f.defaults = [self.eval(d, fr) for d in s.args.defaults]
        f.kwdefaults = [self.eval(d, fr) if d is not None else NO for d in s.args.kw_defaults]
        return f

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        ckw = {k.arg: self.eval(k.value, fr) for k in s.keywords}
        meta = ckw.pop("metaclass", None)
        if meta is not None and not (isinstance(meta, Ext) and meta.path in ("abc.ABCMeta", "enum.EnumMeta", "enum.EnumType") or meta == bt(type)):
            raise Unsupported("metaclass")
        if any(isinstance(b, BType) and b.py is type for b in bases):
            raise Unsupported("metaclass")
        c = Cls()
        c.tag = None
        c.name = s.name
        c.module = fr.module
        c.node = s
        c.qual = fr.vars.get("__qualname__", "") + "." + s.name if fr.is_class else s.name
        c.bases = bases
        c.is_enum = any(
            (isinstance(b, Ext) and b.path.startswith("enum.")) or (isinstance(b, Cls) and b.is_enum) for b in bases
        )
        if c.is_enum and any(isinstance(b, Ext) and b.path in ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum") or isinstance(b, BType) or isinstance(b, Cls) and b.is_enum == "mixed" for b in bases):
            c.is_enum = "mixed"
        c.abc = isinstance(meta, Ext) and meta.path == "abc.ABCMeta" or any(isinstance(b, Cls) and b.abc for b in bases)
        cf = Frame(fr, fr.module, is_class=True)
        cf.cls = s.name
        cf.vars["__qualname__"] = c.qual
        self.exec_block(s.body, cf)
        ns = dict(cf.vars)
        c.ns = ns
        for k, v in list(ns.items()):
            f = v
            if isinstance(f, (StaticM, ClassM)):
                f = f.fn
            if isinstance(f, Prop):
                for g in (f.get, f.set, f.dele):
                    if isinstance(g, Func):
                        g.cls = c
            if isinstance(f, Opaque) and isinstance(f.f.get("fn"), Func):
                f = f.f["fn"]
            if isinstance(f, Func) and f.env is cf:
                f.cls = c
        cf.vars["__class__cell__"] = c
        if c.is_enum:
            auto = None
            flag = any(isinstance(b, Ext) and b.path in ("enum.Flag", "enum.IntFlag") for b in bases)
            made = []
            for k, v in list(ns.items()):
                if not k.startswith("_") and not isinstance(v, (Func, StaticM, ClassM, Prop, Cls)):
                    if isinstance(v, Ext) and v.path == "enum.auto()":
                        if "_generate_next_value_" in ns:
                            raise Unsupported("enum values")
                        if any(isinstance(b, Ext) and b.path == "enum.StrEnum" for b in bases):
                            v = k.lower()
                        elif flag:
                            v = 1 if auto is None else 1 << auto.bit_length()
                        else:
                            v = 1 if auto is None else auto + 1
                    if isinstance(v, int):
                        auto = v if auto is None else max(auto, v)
                    same = [m for m in made if type(m.value) is type(v) and self.eq(m.value, v)]
                    if same:
                        c.ns[k] = same[0]
                        continue
                    m = c.ns[k] = EnumMember(c, k, v)
                    made.append(m)
                    if "__init__" in ns or "__new__" in ns:
                        raise Unsupported("enum with initialiser")
            c.enums = made
        c.mro = self.c3(c)
        if any(isinstance(b, Cls) and "__getattribute__" in b.ns for b in c.mro):
            self.getattributes.add(c)
        for k, v in list(ns.items()):
            if type(v) is Instance:
                sn = self.find_class_attr(v.cls, "__set_name__")
                if sn is not NO:
                    self.call(self.bind(sn, v), [c, k])
        for b in c.mro[1:]:
            if isinstance(b, Cls) and "__init_subclass__" in b.ns:
                self.call(Bound(self.M.unwrap(b.ns["__init_subclass__"]), c), [], ckw)
                break
        for b in bases:
            if isinstance(b, Ext) and b.path in ("typing.NamedTuple",):
                c = self.M.named_tuple_class(self, c, s)
            if isinstance(b, Ext) and b.path == "typing.TypedDict":
                c = bt(dict)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v])
        self.assign_name(s.name, v, fr)

    def c3(self, c):
        def lin_of(b):
            if isinstance(b, Cls):
                return list(b.mro)
            if isinstance(b, BType):
                return [bt(x) for x in b.py.__mro__]
            return [b, bt(object)]

        bases = c.bases or [bt(object)]
        seqs = [lin_of(b) for b in bases] + [list(bases)]
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                # external bases without known order: keep first
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] if h in s else s for s in seqs]

    def s_Match(self, s, fr):
        subj = self.eval(s.subject, fr)
        for c in s.cases:
            b = {}
            if self.match(c.pattern, subj, fr, b):
                for k, v in b.items():
                    self.assign_name(k, v, fr)
                if c.guard is None or self.test(c.guard, fr):
                    return self.exec_block(c.body, fr)
        return None

    def match(self, p, v, fr, b):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, fr, b) for x in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, List)):
                return False
            items = list(v) if isinstance(v, tuple) else list(v.items)
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and all(self.match(x, y, fr, b) for x, y in zip(p.patterns, items))
            i = star[0]
            n = len(p.patterns) - 1
            if len(items) < n:
                return False
            tail = n - i
            if not all(self.match(x, y, fr, b) for x, y in zip(p.patterns[:i], items[:i])):
                return False
            if tail and not all(self.match(x, y, fr, b) for x, y in zip(p.patterns[i + 1:], items[len(items) - tail:])):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = List(items[i: len(items) - tail])
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, fr)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if isinstance(c, BType) and len(p.patterns) == 1:
                    return self.match(p.patterns[0], v, fr, b)
                ma = self.getattr(c, "__match_args__", None)
                if ma is None:
                    raise Unsupported("class pattern")
                for n, x in zip(ma, p.patterns):
                    if not self.match(x, self.getattr(v, n), fr, b):
                        return False
            for n, x in zip(p.kwd_attrs, p.kwd_patterns):
                a = self.getattr(v, n, NO2)
                if a is NO2 or not self.match(x, a, fr, b):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if not self.isinstance_(v, Ext("collections.abc.Mapping")):
                return False
            seen = []
            for ke, x in zip(p.keys, p.patterns):
                k = self.eval(ke, fr)
                if isinstance(v, Dict):
                    e = self.dict_find(v, k)
                    if e is None:
                        return False
                    y = e[1]
                else:
                    y = self.call(self.getattr(v, "get"), [k, _MISSING])
                    if y is _MISSING:
                        return False
                if not self.match(x, y, fr, b):
                    return False
                seen.append(k)
            if p.rest:
                b[p.rest] = Dict([(k, self.getitem(v, k)) for k in list(self.iterate(v)) if not any(self.eq(k, q) for q in seen)])
            return True
        raise Unsupported("match pattern")

    # ------------------------------------------------------------- expressions
    def eval(self, e, fr):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            n = e.id
            if n in fr.vars and not fr.globs and not fr.nonlocals and not n.startswith("__"):
                return fr.vars[n]
            return self.lookup(self.mangle(n, fr), fr)
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("analysis step budget exhausted")
        m = _EXPR.get(t)
        if m is None:
            raise Unsupported("expression %s" % t.__name__)
        return m(self, e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(self.mangle(e.id, fr), fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return List(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        s = SetV()
        for x in self.elts(e.elts, fr):
            self.M.set_add(self, s, x)
        return s

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = Dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                for a in self.iterate(self.call(self.getattr(src, "keys"), [])):
                    self.dict_set(d, a, self.getitem(src, a))
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, _short(x))
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v, _short(e.operand))
        if isinstance(v, (int, float, bool)):
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)
        if isinstance(v, Lin):
            if isinstance(e.op, ast.USub):
                return lscale(v, -1)
            if isinstance(e.op, ast.UAdd):
                return v
        if isinstance(v, Instance):
            n = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
            m = self.find_class_attr(v.cls, n)
            if m is not NO:
                return self.call(self.bind(m, v), [])
        raise Unsupported("unary operator on %r" % (v,))

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop_name(self, op, a, b):
        return self.M.binop(self, op, a, b)

    def binop(self, op, a, b):
        return self.M.binop(self, type(op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        r = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            r = self.compare(type(op).__name__, left, right, _short(e))
            if not self.truth(r):
                return r
            left = right
        return r

    def compare(self, op, a, b, label=""):
        if op == "Is" or op == "IsNot":
            r = self.is_(a, b)
            return r if op == "Is" else not r
        if op == "Eq":
            return self.rich_eq(a, b, label)
        if op == "NotEq":
            if isinstance(a, Instance):
                m = self.find_class_attr(a.cls, "__ne__")
                if m is not NO:
                    r = self.call(self.bind(m, a), [b])
                    if r is not NOTIMPL:
                        return r
            return not self.truth(self.rich_eq(a, b, label))
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not r
        return self.M.order(self, op, a, b, label)

    def rich_eq(self, a, b, label=""):
        if isinstance(a, Instance) or isinstance(b, Instance):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Instance):
                    m = self.find_class_attr(x.cls, "__eq__")
                    if m is not NO and m is not None:
                        r = self.call(self.bind(m, x), [y])
                        if r is not NOTIMPL:
                            return r
            return a is b
        return self.eq(a, b, label)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Term) and a.kind == "any" and (b is None or isinstance(b, bool)):
            return self.eq(a, b)
        if isinstance(b, Term) and b.kind == "any" and (a is None or isinstance(a, bool)):
            return self.eq(b, a)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (Term, Lin)) and isinstance(b, bool) and kind_of(a) == "bool":
            return self.truth(a) == b
        if isinstance(b, (Term, Lin)) and isinstance(a, bool) and kind_of(b) == "bool":
            return self.truth(b) == a
        if isinstance(a, (Ext, BType)) and a == b:
            return True
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) or a is Ellipsis or b is Ellipsis:
            return False
        if type(a) is type(b) and isinstance(a, int) and -5 <= a <= 256:
            return a == b
        if isinstance(a, (bytes, str, int, Term, Lin, tuple)) and isinstance(b, (bytes, str, int, Term, Lin, tuple)):
            if self.eq3(a, b) is False:
                return False
            raise Unsupported("identity of immutable values")
        return False

    def contains(self, c, x):
        if isinstance(c, Instance):
            m = self.find_class_attr(c.cls, "__contains__")
            if m is not NO:
                return self.truth(self.call(self.bind(m, c), [x]))
            m = self.find_class_attr(c.cls, "__iter__")
            if m is NO and self.find_class_attr(c.cls, "__getitem__") is NO:
                self.throw(TypeError, "argument of type is not iterable")
            return any(y is x or self.truth(self.rich_eq(y, x)) for y in self.iterate(c))
        if isinstance(c, Dict):
            if c.observer:
                c.observer.before(self, "contains", c, x, None)
            return self.dict_find(c, x) is not None
        if isinstance(c, View):
            if c.which == "keys":
                return self.contains(c.d, x) if isinstance(c.d, Instance) else self.dict_find(c.d, x) is not None
            return any(self.eq(y, x) for y in self.iterate(c))
        if isinstance(c, (tuple, List, SetV, IterV, range)):
            if isinstance(c, range) and isinstance(x, int):
                return x in c
            for y in self.iterate(c):
                if y is x or self.truth(self.rich_eq(x, y, "in")):
                    return True
            return False
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes, int)):
            return self.conc(lambda: x in c)
        if isinstance(c, Cls) and c.is_enum:
            return isinstance(x, EnumMember) and x.cls is c or not isinstance(x, EnumMember) and any(self.eq(m.value, x) for m in c.enums)
        return self.M.contains(self, c, x)

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                for a in self.iterate(d):
                    kw[a] = self.getitem(d, a)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if isinstance(f, Builtin) and f.name in ("super", "locals", "vars", "globals", "dir"):
            return self.special(f.name, args, fr)
        if self.stack:
            q, m, _ = self.stack[-1]
            self.stack[-1] = (q, m, e.lineno)
        return self.call(f, args, kw)

    def special(self, name, args, fr):
        if name == "super":
            if args:
                return SuperV(args[0], args[1])
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported("super() outside method")
            a = f.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(f.func.cls, f.vars[first])
        if name == "vars" and args:
            return self.getattr(args[0], "__dict__")
        if name == "vars" or name == "dir" and not args:
            d = Dict([(k, v) for k, v in fr.vars.items() if not k.startswith(" ")])
            return d if name == "vars" else List(sorted(x for x, _ in d.pairs()))
        if name == "locals":
            return Dict(list(fr.vars.items()))
        if name == "globals":
            return Dict(list(fr.module.ns.items()))
        raise Unsupported(name)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: self.eval(x, fr) if x is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.eval(s, fr)

    e_Slice = lambda self, e, fr: self.eval_index(e, fr)

    def index(self, k):
        """value used as a sequence index"""
        if isinstance(k, Instance):
            m = self.find_class_attr(k.cls, "__index__")
            return self.call(self.bind(m, k), []) if m is not NO else k
        if isinstance(k, slice):
            if any(isinstance(x, (Instance, EnumMember)) for x in (k.start, k.stop, k.step)):
                return slice(self.index(k.start), self.index(k.stop), self.index(k.step))
        if isinstance(k, EnumMember) and k.cls.is_enum == "mixed":
            return k.value
        return k

    def getitem(self, o, k):
        if isinstance(o, Dict):
            return self.dict_get(o, k)
        if isinstance(o, Instance):
            m = self.find_class_attr(o.cls, "__getitem__")
            if m is NO:
                self.throw(TypeError, "'%s' object is not subscriptable" % o.cls.name)
            return self.call(self.bind(m, o), [k])
        return self.M.getitem(self, o, self.index(k))

    def setitem(self, o, k, v):
        if isinstance(o, Dict):
            return self.dict_set(o, k, v)
        if isinstance(o, Instance):
            m = self.find_class_attr(o.cls, "__setitem__")
            if m is NO:
                self.throw(TypeError, "object does not support item assignment")
            return self.call(self.bind(m, o), [k, v])
        return self.M.setitem(self, o, self.index(k), v)

    def delitem(self, o, k):
        if isinstance(o, Dict):
            return self.dict_del(o, k)
        if isinstance(o, Instance):
            m = self.find_class_attr(o.cls, "__delitem__")
            if m is NO:
                self.throw(TypeError, "object does not support item deletion")
            return self.call(self.bind(m, o), [k])
        k = self.index(k)
        if isinstance(o, BArr):
            return self.M.barr_del(self, o, k)
        if isinstance(o, List) and isinstance(k, slice):
            k = self.M.conc_slice(self, k)
        if isinstance(o, List) and isinstance(k, Lin):
            lo, hi = self.bounds(k)
            if lo is not None and hi is not None and hi - lo < 64:
                for c in range(lo, hi + 1):
                    if self.eq(k, c, "index"):
                        k = c
                        break
        if isinstance(o, List) and isinstance(k, (int, slice)):
            def dele():
                del o.items[k]
            return self.conc(dele)
        if o is None or isinstance(o, (tuple, str, bytes, int, float)) or isinstance(o, Term) and o.kind in ("bytes", "str", "int"):
            self.throw(TypeError, "'%s' object doesn't support item deletion" % self.type_name(o))
        raise Unsupported("del item of %r" % (o,))

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.test(e.test, fr) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while f.func == "comp":
            f = f.parent
        self.assign_name(e.target.id, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, fr)
                spec = self.eval(x.format_spec, fr) if x.format_spec is not None else ""
                if x.conversion in (ord("r"), ord("s"), ord("a")):
                    v = self.M.to_repr(self, v) if x.conversion != ord("s") else self.M.to_str(self, v)
                    if spec != "":
                        v = self.M.format_value(self, v, spec)
                elif spec == "":
                    v = self.M.to_str(self, v)
                else:
                    v = self.M.format_value(self, v, spec)
                parts.append(v)
        return self.M.cat(self, parts, kind="str")

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def comp_iter(self, gens, fr, emit):
        g = gens[0]
        for x in self.iterate(self.eval(g.iter, fr)):
            self.assign(g.target, x, fr)
            ok = True
            for c in g.ifs:
                if not self.test(c, fr):
                    ok = False
                    break
            if not ok:
                continue
            if len(gens) > 1:
                self.comp_iter(gens[1:], fr, emit)
            else:
                emit()

    def comp_frame(self, fr):
        f = Frame(fr, fr.module)
        f.func = "comp"
        # class scope variables are visible only to the outermost iterable; be lenient
        return _CompFrame(fr)

    def e_ListComp(self, e, fr):
        f = self.comp_frame(fr)
        out = []
        self.comp_iter(e.generators, f, lambda: out.append(self.eval(e.elt, f)))
        return List(out)

    def e_SetComp(self, e, fr):
        f = self.comp_frame(fr)
        s = SetV()
        self.comp_iter(e.generators, f, lambda: self.M.set_add(self, s, self.eval(e.elt, f)))
        return s

    def e_DictComp(self, e, fr):
        f = self.comp_frame(fr)
        d = Dict()

        def emit():
            k = self.eval(e.key, f)
            self.dict_set(d, k, self.eval(e.value, f))

        self.comp_iter(e.generators, f, emit)
        return d

    def e_GeneratorExp(self, e, fr):
        f = self.comp_frame(fr)
        first = self.eval(e.generators[0].iter, fr)

        def run(gens, src=None):
            g = gens[0]
            for x in self.iterate(src if src is not None else self.eval(g.iter, f)):
                self.assign(g.target, x, f)
                if not all(self.test(c, f) for c in g.ifs):
                    continue
                if len(gens) > 1:
                    yield from run(gens[1:])
                else:
                    yield self.eval(e.elt, f)

        return IterV(run(e.generators, first))

    def gen_of(self, fr):
        while fr.func == "comp":
            fr = fr.parent
        return fr.vars[" gen"]

    def e_Yield(self, e, fr):
        return self.gen_of(fr).yield_(self.eval(e.value, fr) if e.value is not None else None)

    def e_YieldFrom(self, e, fr):
        g = self.gen_of(fr)
        v = self.eval(e.value, fr)
        if isinstance(v, GenV):
            how, val = "send", None
            while True:
                try:
                    x = v.resume(how, val)
                except StopIteration as st:
                    return st.value
                try:
                    how, val = "send", g.yield_(x)
                except PyRaise as ex:
                    if self.exc_match(ex.exc, bt(GeneratorExit)):
                        v.close()
                        raise
                    how, val = "throw", ex.exc
        for x in self.iterate(v):
            g.yield_(x)
        return None

    # ------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, List):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
            return
        if isinstance(v, (tuple, range)):
            yield from v
            return
        if isinstance(v, (str, bytes)):
            yield from v
            return
        if isinstance(v, SetV):
            yield from list(v.items)
            return
        if isinstance(v, (Dict, View)):
            d = v if isinstance(v, Dict) else v.d
            which = "keys" if isinstance(v, Dict) else v.which
            if isinstance(d, Instance):
                for k in self.iterate(d):
                    yield k if which == "keys" else (self.getitem(d, k) if which == "values" else (k, self.getitem(d, k)))
                return
            n = len(d.d)
            if d.opaque:
                d.opaque.iterate(self, d)
                n = len(d.d)
            keys = list(d.d.keys())
            for h in keys:
                if len(d.d) != n:
                    self.throw(RuntimeError, "dictionary changed size during iteration")
                if h not in d.d:
                    continue
                k, x = d.d[h]
                yield k if which == "keys" else (x if which == "values" else (k, x))
            if len(d.d) != n:
                self.throw(RuntimeError, "dictionary changed size during iteration")
            return
        if isinstance(v, IterV):
            while True:
                try:
                    x = next(v.it)
                except StopIteration:
                    return
                yield x
        if isinstance(v, Instance):
            m = self.find_class_attr(v.cls, "__iter__")
            if m is not NO:
                it = self.call(self.bind(m, v), [])
                if not isinstance(it, Instance):
                    yield from self.iterate(it)
                    return
                n = 0
                while True:
                    nx = self.find_class_attr(it.cls, "__next__")
                    try:
                        x = self.call(self.bind(nx, it), [])
                    except PyRaise as e:
                        if self.exc_match(e.exc, bt(StopIteration)):
                            return
                        raise
                    n += 1
                    if n > 2000:
                        raise Unsupported("iterator bound")
                    yield x
            m = self.find_class_attr(v.cls, "__getitem__")
            if m is not NO:
                i = 0
                while i < 2000:
                    try:
                        x = self.call(self.bind(m, v), [i])
                    except PyRaise as e:
                        if self.exc_match(e.exc, bt(IndexError)):
                            return
                        raise
                    yield x
                    i += 1
            self.throw(TypeError, "'%s' object is not iterable" % v.cls.name)
        if isinstance(v, Cls) and v.is_enum:
            yield from list(v.enums)
            return
        if isinstance(v, BArr):
            yield from self.iterate(v.val)
            return
        yield from self.M.iterate(self, v)

    # ------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        t = type(f)
        if t is Bound:
            args = [f.self, *args]
            f = f.fn
            t = type(f)
        if t is Func:
            return self.call_func(f, list(args), kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kw)
        if isinstance(f, Builtin):
            if args:
                return f.fn(self, list(args), kw)
            try:
                return f.fn(self, [], kw)
            except IndexError:
                if kw:
                    raise
                # the transfer function looked for an argument
                self.throw(TypeError, "%s() takes at least 1 argument (0 given)" % f.name)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, BType):
            return self.M.call_btype(self, f, list(args), kw)
        if isinstance(f, Ext):
            return self.M.call_ext(self, f.path, list(args), kw)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kw)
        if isinstance(f, Instance):
            m = self.find_class_attr(f.cls, "__call__")
            if m is NO:
                self.throw(TypeError, "'%s' object is not callable" % f.cls.name)
            return self.call(self.bind(m, f), args, kw)
        if isinstance(f, Opaque):
            return self.M.call_opaque(self, f, list(args), kw)
        if isinstance(f, Term) or isinstance(f, ClassM):
            raise Unsupported("call of %r" % (f,))
        self.throw(TypeError, "'%s' object is not callable" % self.type_name(f))

    def instantiate(self, c, args, kw):
        h = self.hooks.get(("new", c.name))
        if h is not None:
            return h(self, c, args, kw)
        if c.is_enum:
            for v in c.enums:
                if args[0] is v or self.eq(v.value, args[0]):
                    return v
            ms = self.find_class_attr(c, "_missing_")
            if ms is not NO:
                r = self.call(Bound(self.M.unwrap(ms), c), [args[0]])
                if r is not None:
                    return r
            self.throw(ValueError, "not a valid enum value")
        # abstract methods
        ab = self.abstract_methods(c)
        if ab:
            self.throw(TypeError, "Can't instantiate abstract class %s" % c.name)
        nw = self.find_class_attr(c, "__new__")
        if nw is not NO and (isinstance(nw, (Func, StaticM)) or isinstance(nw, Builtin) and nw.name == "namedtuple"):
            o = self.call(nw.fn if isinstance(nw, StaticM) else nw, [c] + args, kw)
            if not (isinstance(o, Instance) and self.subclass(o.cls, c)):
                return o
        else:
            base = [b for b in c.mro if isinstance(b, BType) and b.py not in (object,) and not issubclass(b.py, BaseException)]
            if base:
                raise Unsupported("subclass of builtin %s" % base[0].name)
            o = Instance(c)
        init = self.find_class_attr(c, "__init__")
        if self.is_exc(c):
            if self.handling:
                o.attrs["__context__"] = self.handling[-1]
            o.attrs["args"] = tuple(args)
            o.attrs["__where__"] = self.where()
            if isinstance(init, Func):
                self.call(Bound(init, o), args, kw)
            return o
        if isinstance(init, (Func, Builtin)):
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            self.throw(TypeError, "%s() takes no arguments" % c.name)
        return o

    def abstract_methods(self, c):
        has_abc = c.abc or any(isinstance(b, Ext) and b.path.startswith("abc.") for b in c.mro) or any(
            isinstance(b, Ext) and "abc" in b.path for b in c.mro
        )
        if not has_abc:
            return []
        seen = {}
        for b in c.mro:
            if isinstance(b, Cls):
                for k, v in b.ns.items():
                    if k not in seen:
                        seen[k] = v
                if "__eq__" in b.ns and "__hash__" not in b.ns:
                    seen.setdefault("__hash__", None)
        out = []
        for k, v in seen.items():
            f = v
            if isinstance(f, Prop):
                f = next((x for x in (f.get, f.set, f.dele) if isinstance(x, Func) and x.attrs.get("__isabstractmethod__")), f.get)
            if isinstance(f, (StaticM, ClassM)):
                f = f.fn
            if isinstance(f, Func) and f.attrs.get("__isabstractmethod__"):
                out.append(k)
        for b in c.mro:
            if isinstance(b, Ext) and b.path.endswith("MutableMapping"):
                for k in ("__getitem__", "__setitem__", "__delitem__", "__iter__", "__len__"):
                    if k not in seen:
                        out.append(k)
        return out

    def call_func(self, f, args, kw):
        h = self.hooks.get(("call", f.qual))
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NO:
                return r
        if len(self.stack) > 950:
            # CPython gives up at 1000 frames
            self.throw(RecursionError, "maximum recursion depth exceeded")
        node = f.node
        loc, nl, gl, gen = scope_info(node)
        fr = Frame(f.env, f.module, f, loc)
        fr.nonlocals, fr.globs = nl, gl
        a = node.args
        pos = a.posonlyargs + a.args
        npos = len(pos)
        if len(args) > npos and not a.vararg:
            self.throw(TypeError, "%s() takes %d positional arguments but %d were given" % (f.name, npos, len(args)))
        vars = fr.vars
        for p, v in zip(pos, args):
            vars[p.arg] = v
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[npos:])
        extra = {}
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in vars:
                    self.throw(TypeError, "%s() got multiple values for argument '%s'" % (f.name, k))
                vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw(TypeError, "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg:
            vars[a.kwarg.arg] = Dict(list(extra.items()))
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars:
                j = i - (npos - nd)
                if j < 0:
                    self.throw(TypeError, "%s() missing required positional argument: '%s'" % (f.name, p.arg))
                vars[p.arg] = f.defaults[j]
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg not in vars:
                if d is NO:
                    self.throw(TypeError, "%s() missing keyword argument '%s'" % (f.name, p.arg))
                vars[p.arg] = d
        if f.module.path[0] != "<":
            self.funcs.add((f.module.path, f.qual))
        self.stack.append((f.qual, f.module.path, node.lineno))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if gen:
                frame = self.stack[-1]

                def body():
                    self.stack.append(frame)
                    try:
                        r = self.exec_block(node.body, fr)
                    except PyRaise as e:
                        if self.exc_match(e.exc, bt(StopIteration)):
                            self.throw(RuntimeError, "generator raised StopIteration")
                        raise
                    self.stack.pop()
                    return r[1] if r is not None else None

                g = vars[" gen"] = GenV(self, body)
                return g
            r = self.exec_block(node.body, fr)
            return r[1] if r is not None else None
        finally:
            self.stack.pop()


NO2 = object()


class _AttrDict:
    """writes through __dict__"""

    def __init__(self, obj):
        self.obj = obj

    def before(self, I, op, d, k, v):
        pass

    def after(self, I, op, d, k, v):
        if self.obj.observer:
            self.obj.observer.setattr(I, self.obj, k, v)
        if op == "set":
            self.obj.attrs[k] = v
        else:
            self.obj.attrs.pop(k, None)


_MISSING = Builtin("missing", None)

_STMT = {getattr(ast, n[2:]): f for n, f in vars(Interp).items() if n.startswith("s_") and hasattr(ast, n[2:])}
_EXPR = {getattr(ast, n[2:]): f for n, f in vars(Interp).items() if n.startswith("e_") and hasattr(ast, n[2:])}


class _CompFrame(Frame):
    """Comprehension scope: own targets, everything else from the parent."""

    def __init__(self, parent):
        Frame.__init__(self, parent, parent.module)
        self.func = "comp"
        if parent.is_class:
            self.vars.update({})


def _short(e):
    s = _short_cache.get(e)
    if s is not None:
        return s
    try:
        s = ast.unparse(e)
    except Exception:
        s = type(e).__name__
    s = _short_cache[e] = s if len(s) < 80 else s[:77] + "..."
    return s


_short_cache = {}
_super_cache = {}
_mro_cache = {}
_PLAIN = {bytes, str, int, bool, tuple, type(None), float}
_KINDS = {"bytes": bytes, "str": str, "int": int, "bool": bool, "float": float}


class Outcome:
    """Result of one partition."""

    __slots__ = ("kind", "value", "I", "exc", "why")

    def __init__(self, kind, value=None, I=None, exc=None, why=None):
        self.kind, self.value, self.I, self.exc, self.why = kind, value, I, exc, why


def explore(program, body, limit=400, setup=None):
    """Enumerate all partitions of body(I).  Yields Outcome per partition."""
    prefix = []
    n = 0
    while True:
        I = Interp(program, prefix)
        if setup:
            setup(I)
        try:
            try:
                v = body(I)
            finally:
                for g in I.gens:
                    g.kill()
            yield Outcome("ok", v, I)
        except Infeasible:
            pass
        except PyRaise as e:
            yield Outcome("raise", None, I, exc=e.exc)
        except Unsupported as e:
            yield Outcome("unknown", None, I, why=str(e))
        except RecursionError:
            yield Outcome("unknown", None, I, why="recursion limit of the analyser")
        n += 1
        del prefix[I.pos:]
        while prefix and prefix[-1][0] + 1 >= prefix[-1][1]:
            prefix.pop()
        if not prefix:
            return
        prefix[-1][0] += 1
        if n >= limit:
            yield Outcome("unknown", None, I, why="partition limit %d" % limit)
            return
