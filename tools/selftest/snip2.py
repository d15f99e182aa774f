S=[]
def s(x): S.append(x)
s('''
from itertools import *
import itertools
def run():
    r=[list(pairwise([1,2,3])), [(k,list(g)) for k,g in groupby("aabbc")], list(compress("abc",[1,0,1])), list(filterfalse(lambda x:x%2,range(5))), list(islice(cycle("ab"),5)), [list(t) for t in tee([1,2])], list(combinations("abc",2)), list(permutations("abc",2)), list(product("ab",[1,2])), list(product([0,1],repeat=2)), list(accumulate([1,2,3])), list(accumulate([1,2,3],lambda a,b:a*b,initial=2)), list(chain("ab","c")), list(chain.from_iterable(["ab","c"])), list(zip_longest("ab","c",fillvalue=0)), list(takewhile(lambda x:x<3,[1,2,3,1])), list(dropwhile(lambda x:x<3,[1,2,3,1])), list(starmap(pow,[(2,3)])), list(islice(count(3,2),3)), list(repeat(1,2)), list(combinations_with_replacement("ab",2)), list(islice("abcdef",1,5,2))]
    it=iter([1,2,3,4,5]); r.append((list(islice(it,2)),list(it)))
    it=iter([1,2,3,4]); r.append((list(takewhile(lambda x:x<2,it)),list(it)))
    out=[]
    def g():
        for i in range(3): out.append(i); yield i
    next(chain(g(),g())); r.append(out)
    return r
''')
s('''
from collections import deque, OrderedDict, defaultdict, Counter, ChainMap, namedtuple
def run():
    d=deque([1,2,3],maxlen=3); d.append(4); d.appendleft(0); r=[list(d), len(d), d[0], d.popleft(), d.pop(), list(d)]; d.extend([7,8]); d.rotate(1); r.append(list(d)); r.append(bool(deque())); r.append(3 in d)
    q=deque(); q.append(1); q.extendleft([2,3]); r.append(list(reversed(q))); 
    while q: q.popleft()
    try: q.popleft()
    except IndexError: r.append("IE")
    dd=defaultdict(list); dd["a"].append(1); r.append(dict(dd)); r.append("b" in dd); dd["b"]; r.append("b" in dd); r.append(dd.get("c"))
    c=Counter("abca"); r.append(c["a"]); r.append(c["zz"]); r.append(c.most_common(1)); c.update("b"); r.append(dict(c)); r.append(sum(c.values()))
    o=OrderedDict(a=1,b=2); o.move_to_end("a"); r.append(list(o)); r.append(o.popitem(last=False)); r.append(o=={"a":1}); 
    m=ChainMap({"a":1},{"a":2,"b":3}); r.append((m["a"],m["b"],"z" in m))
    P=namedtuple("P","x y",defaults=[5]); p=P(1); r.append((p.x,p.y,p==(1,5),p._replace(x=9),tuple(p),P._fields,p._asdict(),repr(p),isinstance(p,tuple),p[0],len(p))); a,b=p; r.append(a+b)
    class Q(namedtuple("Q","k v")):
        __slots__=()
        def s(self): return self.k+self.v
    r.append(Q(1,2).s()); r.append(Q._make([3,4]).v); r.append({p:1}[(1,5)])
    dd=defaultdict(int); dd["x"]+=1; r.append(dd["x"]); r.append(sorted(Counter([1,1,2]).items())); r.append((Counter("a")+Counter("ab"))["a"])
    return r
''')
s('''
from contextlib import contextmanager, suppress, closing, ExitStack, nullcontext
def run():
    r=[]
    @contextmanager
    def cm(x):
        r.append("in")
        try: yield x
        except ValueError as e: r.append("caught "+str(e))
        finally: r.append("out")
    with cm(1) as v: r.append(v)
    with cm(2): raise ValueError("q")
    try:
        with cm(2): raise KeyError("q")
    except KeyError: r.append("KE")
    with suppress(KeyError,IndexError): {}["x"]
    with suppress(KeyError): r.append("fine")
    try:
        with suppress(KeyError): raise TypeError
    except TypeError: r.append("TE")
    class C:
        def close(self): r.append("closed")
    with closing(C()): pass
    with ExitStack() as st:
        st.enter_context(cm(3)); st.callback(r.append,"cb")
    with nullcontext(5) as x: r.append(x)
    class X:
        def __enter__(self): r.append("e"); return self
        def __exit__(self,t,v,tb): r.append((t.__name__ if t else None, str(v))); return True
    with X() as a, X() as b: raise ValueError("z")
    def f():
        with X(): return 7
    r.append(f())
    for i in range(2):
        with X(): continue
    return r
''')
s('''
from dataclasses import dataclass, field, replace, asdict, astuple, fields
@dataclass
class A:
    x:int
    y:list=field(default_factory=list)
    z:str="q"
    def __post_init__(self): self.w=self.x+1
@dataclass(frozen=True,order=True)
class B:
    a:int
    b:int=2
@dataclass
class C(A):
    k:int=field(default=5,compare=False)
def run():
    a=A(1); b=A(1); r=[a==b, a.w, repr(a), a.y is b.y, replace(a,x=5).w, asdict(a), astuple(a), [f.name for f in fields(A)], B(1)<B(2), sorted([B(2),B(1)])[0].a, hash(B(1))==hash(B(1)), {B(1):2}[B(1)], C(1,k=9)==C(1), C(1).k, A.z]
    try: B(1).a=4
    except AttributeError: r.append("frozen")
    try: A()
    except TypeError: r.append("TE")
    try: hash(a)
    except TypeError: r.append("unhash")
    m=B(3,4)
    match m:
        case B(x,b=y): r.append((x,y))
    return r
''')
s('''
from pathlib import Path, PurePath
import os, posixpath
def run():
    p=Path("a")/"b.txt"; return [str(p), p.name, p.suffix, p.stem, str(p.parent), os.fspath(p), os.path.basename("x/y"), os.path.join("a","b"), os.path.splitext("a.b"), str(p.with_suffix(".md")), p==Path("a/b.txt"), p.parts]
''')
s('''
import operator, heapq, bisect, functools
from operator import itemgetter, attrgetter, methodcaller
from functools import partial, reduce, partialmethod, cmp_to_key
class K:
    def f(self,a,b=0): return (a,b)
    g=partialmethod(f,5)
def run():
    r=[itemgetter(1)([1,2]), itemgetter(0,1)("ab"), attrgetter("real")(3), methodcaller("upper")("a"), operator.xor(1,3), operator.concat([1],[2]), partial(pow,2)(3), reduce(lambda a,b:a+b,[1,2,3],10), K().g(b=7), sorted([3,1,2],key=cmp_to_key(lambda a,b:b-a)), operator.mul(2,3), operator.truth([]), operator.lt(1,2), operator.index(4), operator.neg(3)]
    h=[]
    for x in (3,1,2): heapq.heappush(h,x)
    r.append([heapq.heappop(h) for _ in range(3)]); r.append(heapq.nlargest(2,[1,3,2])); r.append(heapq.nsmallest(1,[4,2])); l=[1,3]; bisect.insort(l,2); r.append(l); r.append(bisect.bisect_right([1,2,2],2))
    p=partial(K().f,1,b=2); r.append((p(),p.args,p.keywords))
    return r
''')
s('''
import io, weakref, types, copy, abc, enum, typing
class N:
    def __init__(s): s.v=1
class St(str, enum.Enum):
    A="a"
    B="b"
class Fl(enum.IntFlag):
    R=1
    W=2
class E2(enum.Enum):
    X=enum.auto()
    Y=enum.auto()
    Z=1
    @property
    def up(self): return self.name.upper()
    @classmethod
    def d(cls): return cls.Y
def run():
    n=N(); w=weakref.ref(n); r=[w() is n, St.A=="a", St("b") is St.B, St.A.value, "x"+St.A, E2.Z is E2.X, [e.name for e in E2], E2.X.up, E2.d().value, E2["Y"] is E2.Y, list(E2.__members__), Fl.R==1, St.A in {"a":1}]
    try: E2(99)
    except ValueError: r.append("VE")
    wd=weakref.WeakValueDictionary(); wd["k"]=n; r.append(wd["k"] is n); c=copy.copy(n); c.v=2; r.append(n.v); d=copy.deepcopy({"a":[1]}); r.append(d)
    b=io.BytesIO(b"abc"); r.append((b.read(1),b.read(),b.read())); 
    with io.BytesIO() as q: q.write(b"1"); r.append(q.getvalue())
    r.append(type(n) is N); r.append(isinstance(n,(int,N))); r.append(type(n).__name__); r.append(types.SimpleNamespace(x=1).x)
    return r
''')
s('''
class V:
    def __init__(self,*a): self.a=list(a)
    def __len__(self): return len(self.a)
    def __getitem__(self,i): return self.a[i]
    def __setitem__(self,i,v): self.a[i]=v
    def __delitem__(self,i): del self.a[i]
    def __contains__(self,x): return x in self.a
    def __iter__(self): yield from self.a
    def __bool__(self): return True
    def __eq__(self,o): return isinstance(o,V) and self.a==o.a
    def __ne__(self,o): return not self==o
    def __bytes__(self): return bytes(self.a)
    def __neg__(self): return V(*[-x for x in self.a])
    def __mul__(self,k): return V(*[x*k for x in self.a])
    __rmul__=__mul__
    def __enter__(self): return self
    def __exit__(self,*a): return False
    def __format__(self,s): return "V"+s
    def __int__(self): return 42
    def __reversed__(self): return iter(self.a[::-1])
    def __matmul__(self,o): return sum(x*y for x,y in zip(self,o))
def run():
    v=V(1,2,3); v[0]=9; del v[1]; r=[list(v), len(v), 9 in v, v==V(9,3), v!=V(1), bytes(v), (-v).a, (v*2).a, (2*v).a, f"{v:x}", int(v), list(reversed(v)), v@V(1,1), [*v], v[0:1], max(v), sorted(v), bool(V()), sum(v), dict(enumerate(v)), tuple(v), list(zip(v,v))]
    a,b=v; r.append(a+b)
    r.append(V.__len__(v)); r.append(v.__len__()); r.append(v.__eq__(v)); r.append(object.__eq__(v,v)); r.append(object.__eq__(v,1) is NotImplemented); r.append((1).__add__(2)); r.append("a".__eq__("a")); r.append([1].__len__()); r.append((5).__eq__(5)); r.append(bytes.__eq__(b"a",b"a")); r.append({1:2}.__contains__(1)); r.append("abc".__getitem__(1)); r.append(b"ab".__len__())
    try: hash(v)
    except TypeError: r.append("unhash")
    try: v<v
    except TypeError: r.append("nolt")
    return r
''')
s('''
import re, json, string, textwrap, math, zlib, codecs
from string import Template
def run():
    r=[re.split(",","a,b"), [m.group(0) for m in re.finditer("[a-z]","a1b")], re.match(r"(?P<x>\\d+)-(\\d+)","12-3").groupdict(), re.compile("[0-9a-f]*").fullmatch("0af") is not None, json.dumps({"a":[1,None,True]}), json.loads("[1,2]"), string.digits, math.pi>3, math.log(8,2), zlib.crc32(b"a"), codecs.encode("abc","rot13"), Template("$a").substitute(a=1), textwrap.dedent("  a"), math.inf>1, re.sub(r"(a)(b)",r"\\2\\1","ab"), re.escape("a.b")]
    try: re.compile("(")
    except re.error: r.append("re")
    try: json.loads("{")
    except json.JSONDecodeError: r.append("jd")
    try: json.loads("{")
    except ValueError: r.append("jv")
    return r
''')
s('''
from typing import *
import collections.abc as ca
from collections.abc import MutableMapping, Mapping, Iterable
class M(MutableMapping):
    def __init__(self,*a,**k): self.d=dict(*a,**k)
    def __getitem__(self,k): return self.d[k]
    def __setitem__(self,k,v): self.d[k]=v
    def __delitem__(self,k): del self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
def run():
    m=M(a=1,b=2); m.update(c=3); m.update({"d":4}); m.update([("e",5)]); r=[m.pop("a"), m.pop("zz",0), m.get("b"), m.get("q"), "b" in m, list(m.keys()), list(m.values()), list(m.items()), m.setdefault("n",9), len(m), m=={"b":2}, m==M(b=2,c=3,d=4,e=5,n=9), dict(m), {**m}, m.popitem(), isinstance(m,Mapping), isinstance({},Mapping), isinstance([],Iterable), isinstance(m,ca.Iterable), "b" in m.keys(), 2 in m.values(), ("b",2) in m.items(), m.keys()=={"b","c","d","e","n"}, len(m.items()), m.keys() & {"b"}, bool(m)]
    m.clear(); r.append(len(m)); r.append(m!={})
    try: m.popitem()
    except KeyError: r.append("KE")
    try: m.pop("x")
    except KeyError: r.append("KE")
    return r
''')
