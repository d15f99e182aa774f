"""Running scenarios, collecting verdicts, writing reports and evidence."""
import gc
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)

from values import *
from engine import Program, Interp, PyRaise, Infeasible, explore
import engine

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Failure(Exception):
    """A definite violation on the current partition."""

    def __init__(self, rule, msg, where=None):
        self.rule, self.msg, self.where = rule, msg, where


class Anchor(Exception):
    """A public entry point the property is about no longer exists."""


class Res:
    __slots__ = ("kind", "value", "exc")

    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        return ("returned %s" % render(self.value)) if self.ok else "raised " + excs(self.exc)


def excs(e):
    name = e.cls.name if isinstance(e.cls, (Cls, BType)) else getattr(e.cls, "path", "?")
    return "%s at %s" % (name, e.attrs.get("__where__", "?"))


def exc_name(e):
    return e.cls.name if isinstance(e.cls, (Cls, BType)) else getattr(e.cls, "path", "?").split(".")[-1]


def exc_is(I, e, *names):
    """is exception e an instance of one of the builtin types named"""
    for c in I.mro(e.cls):
        if getattr(c, "name", None) in names:
            return True
    return False


class Ctx:
    """What a property body works with: an abstract machine plus obligations."""

    def __init__(self, I):
        self.I = I
        self.obligations = 0

    def api(self, module, name, *attrs):
        I = self.I
        I.import_module(module.split(".")[0])
        m = I.import_module(module)
        if m is None:
            raise Anchor("module %s" % module)
        if name not in m.ns:
            raise Anchor("%s.%s" % (module, name))
        v = m.ns[name]
        return v

    def call(self, f, *a, **k):
        try:
            return Res("ok", self.I.call(f, list(a), k))
        except PyRaise as e:
            return Res("raise", exc=e.exc)

    def m(self, obj, name, *a, **k):
        """call method"""
        try:
            f = self.I.getattr(obj, name)
        except PyRaise as e:
            if exc_is(self.I, e.exc, "AttributeError"):
                raise Anchor("%s has no attribute %s" % (self.I.type_name(obj), name))
            return Res("raise", exc=e.exc)
        return self.call(f, *a, **k)

    def attr(self, obj, name):
        try:
            return Res("ok", self.I.getattr(obj, name))
        except PyRaise as e:
            return Res("raise", exc=e.exc)

    def op(self, name, a, b):
        """a comparison, as the operator does it"""
        try:
            return Res("ok", self.I.compare(name, a, b, name))
        except PyRaise as e:
            return Res("raise", exc=e.exc)

    def eq(self, a, b):
        return self.op("Eq", a, b)

    def hash(self, a):
        return self.call(self.I.builtins["hash"], a)

    def each(self, obj, what, cap=None):
        """the items of an iterable, which has to be iterable to the end"""
        self.obligations += 1
        out = []
        try:
            for x in self.I.iterate(obj):
                out.append(x)
                if cap is not None and len(out) >= cap:
                    break
        except PyRaise as e:
            if exc_is(self.I, e.exc, "MemoryError"):
                raise Unsupported("resource")
            raise Failure("unexpected exception", "iterating %s raised %s" % (what, excs(e.exc)), e.exc.attrs.get("__where__"))
        return out

    def must(self, r, what):
        """result of an operation that has to succeed"""
        self.obligations += 1
        if not r.ok:
            if exc_is(self.I, r.exc, "MemoryError"):
                raise Unsupported("resource")
            raise Failure("unexpected exception", "%s raised %s" % (what, excs(r.exc)), r.exc.attrs.get("__where__"))
        return r.value

    def raises(self, r, what, *names):
        self.obligations += 1
        if r.ok:
            raise Failure("missing rejection", "%s returned %s instead of raising" % (what, render(r.value)))
        if names and not exc_is(self.I, r.exc, *names):
            raise Failure("wrong exception", "%s raised %s, expected %s" % (what, excs(r.exc), "/".join(names)), r.exc.attrs.get("__where__"))

    def equal(self, got, want, what):
        self.obligations += 1
        r = self.I.eq3(got, want)
        if r is None:
            if isinstance(got, Instance) or isinstance(want, Instance):
                r = self.I.eq(got, want)
            else:
                # split on facts about free unknowns only, so that each side exists
                self.I.exact = True
                try:
                    r = self.I.eq(got, want, "==")
                finally:
                    self.I.exact = False
        if not r:
            raise Failure("wrong result", "%s is %s, must be %s" % (what, render(got), render(want)))

    def true(self, cond, what, rule="wrong result"):
        self.obligations += 1
        if not cond:
            raise Failure(rule, what)

    def boolean(self, r, want, what):
        """r: Res whose truth value must be want"""
        v = self.must(r, what)
        b = self.decided_truth(v, what)
        if b != want:
            raise Failure("wrong result", "%s returned %s, must be %s" % (what, render(v), want))

    def secure(self, obj, want, what):
        """the secure flag, on the classes that show one"""
        r = self.attr(obj, "secure")
        if not r.ok and exc_is(self.I, r.exc, "AttributeError"):
            return
        self.boolean(r, want, what)

    def decided_truth(self, v, what):
        n = len(self.I.labels)
        b = self.I.truth(v, what)
        if len(self.I.labels) != n:
            raise Unsupported("truth value of %s depends on unknown input" % what)
        return b


_state = {}


def _roomy():
    """A function whose frame is so large that the interpreter reserves one big piece of stack
    for it and everything it calls (CPython otherwise maps and unmaps small pieces all the time)."""
    def roomy(f, x):
        return f(x)

    roomy.__code__ = roomy.__code__.replace(co_stacksize=400000)
    return roomy


def _worker(i):
    r = _state.get("roomy")
    if r is None:
        r = _state["roomy"] = _roomy()
    return r(_work, i)


def _work(i):
    P, scen, limit = _state["P"], _state["scen"], _state["limit"]
    name, fn, args = scen[i]
    out = {"i": i, "ok": 0, "unknown": [], "fail": [], "obl": 0, "part": 0, "steps": 0, "anchor": None}
    vis, funcs = set(), set()
    holder = {}

    def body(I):
        c = holder["c"] = Ctx(I)
        try:
            fn(c, *args)
        except Failure as f:
            return f
        except Anchor as a:
            return a
        return None

    t0 = time.time()
    try:
        for o in explore(P, body, limit=limit):
            I = o.I
            out["part"] += 1
            out["steps"] += I.steps
            vis |= I.visited
            funcs |= I.funcs
            if "c" in holder:
                out["obl"] += holder["c"].obligations
            if o.kind == "ok":
                if o.value is None:
                    out["ok"] += 1
                elif isinstance(o.value, Anchor):
                    out["anchor"] = str(o.value)
                    break
                else:
                    f = o.value
                    out["fail"].append({"rule": f.rule, "msg": f.msg, "where": f.where or "", "path": list(I.labels)})
            elif o.kind == "raise":
                out["unknown"].append("uncaught in harness: " + excs(o.exc))
            else:
                out["unknown"].append(o.why)
            if len(out["fail"]) >= 3:
                break
            if time.time() - t0 > _state["budget"]:
                out["unknown"].append("time limit of one scenario")
                break
    except Exception:
        out["unknown"].append("analyser error: " + traceback.format_exc()[-1500:])
    out["vis"], out["funcs"] = vis, funcs
    out["t"] = time.time() - t0
    return out


def run(prop, scen, tier, seed, rule, level="other", limit=None, deadline=None, assumptions=(), min_ok=None, extra=None, static=None):
    """scen: list of (name, function, args).  Returns process exit status."""
    t0 = time.time()
    deadline = deadline or (400 if tier == "quick" else 800)
    try:
        P = Program(REPO_SRC)
    except (SyntaxError, OSError) as e:
        print("ANALYSIS-BROKEN property=%s cannot parse the package: %s" % (prop, e))
        return 2
    _state.update(P=P, scen=scen, limit=limit or (400 if tier == "quick" else 2000), budget=60 if tier == "quick" else 200)
    n = min(8, os.cpu_count() or 1)
    vis, funcs, fails, unknown = set(), set(), [], []
    tot = dict(ok=0, obl=0, part=0, steps=0)
    done = decided = 0
    anchor = None
    names = []
    if static:
        # syntactic/dataflow obligations computed once
        for r in static(P):
            tot["obl"] += r.get("obligations", 0)
            tot["ok"] += r.get("obligations", 0)
            if r.get("fail"):
                fails.append({"scenario": r["name"], "rule": r["rule"], "msg": r["fail"], "where": r.get("where", ""), "path": []})
    if scen:
        ctx = multiprocessing.get_context("fork")
        gc.collect()
        gc.freeze()
        gc.set_threshold(50000, 20, 50)
        with ctx.Pool(n) as pool:
            # in a mixed order, so that a run cut short by its deadline has seen every kind
            order = list(range(len(scen)))
            random.Random(1).shuffle(order)
            it = pool.imap_unordered(_worker, order, chunksize=1)
            for _ in range(len(scen)):
                try:
                    o = it.next(timeout=max(1, deadline - (time.time() - t0)))
                except multiprocessing.TimeoutError:
                    break
                done += 1
                vis |= o["vis"]
                funcs |= o["funcs"]
                for k in tot:
                    tot[k] += o[k]
                if o["anchor"]:
                    anchor = o["anchor"]
                    break
                nm = scen[o["i"]][0]
                if o["unknown"]:
                    unknown.append((nm, o["unknown"][0]))
                if o["ok"]:
                    decided += 1
                    if len(names) < 6:
                        names.append(nm)
                for f in o["fail"]:
                    f["scenario"] = nm
                    fails.append(f)
                if len(fails) > 40:
                    break
            pool.terminate()
    if anchor:
        print("ANALYSIS-BROKEN property=%s public entry point missing: %s" % (prop, anchor))
        return 2
    known = load_known(prop)
    reported, kf = [], {}
    for f in fails:
        key = f["rule"] + " | " + f["scenario"].split(" [")[0] + " | " + f["msg"]
        hit = next((k for k in known if k in key), None)
        if hit:
            kf[hit] = f
        else:
            reported.append(f)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "explanation": rule,
            "scenarios": len(scen),
            "scenarios_analysed": done,
            "scenarios_with_decided_partitions": decided,
            "partitions": tot["part"],
            "partitions_proved": tot["ok"],
            "obligations": tot["obl"],
            "abstract_statements": tot["steps"],
            "functions_analysed": sorted(funcs),
            "source_lines_reached": len(vis),
            "inconclusive": len(unknown),
            "inconclusive_reasons": sorted({u for _, u in unknown})[:20],
            "samples": names or ["none"],
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s: %d/%d scenarios, %d partitions (%d proved, %d inconclusive scenarios), %d obligations, %d functions, %.1fs"
          % (prop, done, len(scen), tot["part"], tot["ok"], len(unknown), tot["obl"], len(funcs), time.time() - t0))
    for nm, u in unknown[:5]:
        print("INCONCLUSIVE: %s: %s" % (nm, u))
    if reported:
        # shortest path first
        reported.sort(key=lambda f: (len(f["path"]), len(f["scenario"])))
        path = os.path.join(HERE, "evidence", prop + ".violation.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "violations": reported[:20]}, f, indent=1)
        f = reported[0]
        print("  rule: %s" % f["rule"])
        print("  scenario: %s" % f["scenario"])
        print("  finding: %s" % f["msg"])
        if f["where"]:
            print("  at: %s" % f["where"])
        for l in f["path"][-12:]:
            print("  path: %s" % l)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not decided and not (static and not scen):
        print("ANALYSIS-BROKEN property=%s nothing could be decided" % prop)
        return 2
    return 0


def load_known(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            line = line.strip()
            if line.startswith("property=%s " % prop):
                out.append(line.split(" ", 1)[1])
    except OSError:
        pass
    return out


USER_SRC = '''
class Val:
    """a user-defined value with its own codec"""
    def __init__(self, x):
        self.x = x
    def encode_rlp(self):
        return self.x
    @staticmethod
    def decode_rlp(data):
        return Val(data)

class NoEncode:
    def decode_rlp(self, data):
        return data

class NoDecode:
    def encode_rlp(self):
        return b"x"

class Plain:
    pass

class Raises:
    def encode_rlp(self):
        raise ValueError("cannot be encoded")
    @staticmethod
    def decode_rlp(data):
        return None

class EncodesStr:
    def encode_rlp(self):
        return "text"
    @staticmethod
    def decode_rlp(data):
        return None

class EncodesNone:
    def encode_rlp(self):
        return None
    @staticmethod
    def decode_rlp(data):
        return None

class NoAttrs:
    __slots__ = ()

class Store:
    """a storage with the documented interface of an EMPT and nothing else; keeps only bytes"""
    def __init__(self, d):
        self.d = d
        self.strict = False
    def check(self, key):
        if not isinstance(key, bytes):
            raise TypeError("keys are bytes")
    def __getitem__(self, key):
        self.check(key)
        return self.d[key]
    def __setitem__(self, key, value):
        self.check(key)
        if self.strict and not isinstance(value, bytes):
            raise TypeError("values are bytes")
        self.d[key] = value
    def __delitem__(self, key):
        self.check(key)
        del self.d[key]
    def __contains__(self, key):
        self.check(key)
        return key in self.d
    def __len__(self):
        return len(self.d)
    def keys(self):
        return list(self.d.keys())

class ItemStore:
    """item access only"""
    def __init__(self, d):
        self.d = d
    def __getitem__(self, key):
        if not isinstance(key, bytes):
            raise TypeError("keys are bytes")
        return self.d[key]
    def __setitem__(self, key, value):
        if not isinstance(key, bytes) or not isinstance(value, bytes):
            raise TypeError("keys and values are bytes")
        self.d[key] = value
'''


def user_class(c, name):
    """a class of the caller's program"""
    import ast

    I = c.I
    m = I.cfg.get("user")
    if m is None:
        m = ModuleV("user", "<caller>", False)
        m.ns["__name__"] = "user"
        fr = engine.Frame(None, m)
        fr.vars = m.ns
        global _user_ast
        try:
            t = _user_ast
        except NameError:
            t = _user_ast = ast.parse(USER_SRC)
        I.exec_block(t.body, fr)
        I.cfg["user"] = m
    return m.ns[name]
