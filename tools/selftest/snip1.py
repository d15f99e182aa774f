S=[]
def s(x): S.append(x)
s('''
def run():
    a=[1,2,3]; a[1:2]=[7,8]; del a[0]; a+= [5]; b=a[::-1]; a.insert(1,9); a.sort(); return a,b,a.index(9),a.count(5)
''')
s('''
def run():
    out=[]
    for i in range(5):
        if i==3: break
        for j in (1,2):
            if j==2: continue
            out.append((i,j))
    else:
        out.append("else")
    n=0
    while n<3:
        n+=1
    else:
        out.append("welse")
    return out
''')
s('''
def run():
    def g(n):
        try:
            for i in range(n):
                x = yield i
                if x: yield x*10
        finally:
            out.append("closed")
    out=[]
    it=g(3); out.append(next(it)); out.append(it.send(5)); out.append(next(it)); it.close()
    return out
''')
s('''
def run():
    def a():
        r = yield from b()
        yield r
    def b():
        yield 1
        yield 2
        return 3
    return list(a())
''')
s('''
class A:
    def __init__(self,x): self._x=x
    @property
    def x(self): return self._x
    @x.setter
    def x(self,v): self._x=v+1
    @x.deleter
    def x(self): self._x=None
    def __repr__(self): return "A(%r)"%(self._x,)
    def __lt__(self,o): return self._x<o._x
    def __eq__(self,o): return self._x==o._x
    def __hash__(self): return hash(self._x)
    def __add__(self,o): return A(self._x+o._x)
    def __radd__(self,o): return A(self._x+o)
    def __iadd__(self,o): self._x+=100; return self
    def __call__(self,*a,**k): return (self._x,a,sorted(k.items()))
    def __getattr__(self,n):
        if n.startswith("z"): return n
        raise AttributeError(n)
    def __bool__(self): return self._x>0
    def __len__(self): return 4
    def __contains__(self,q): return q==self._x
    def __getitem__(self,k): return k
    def __index__(self): return self._x
def run():
    a=A(1); a.x=4; r=[a.x, repr(a), a<A(9), a==A(5), a!=A(5), a+a, 3+a, a(1,b=2), a.zed, bool(A(0)), len(a), 5 in a, a[1:2], a["k"], [0,1,2,3,4,5,6][a]]
    a+=1
    r.append(a.x); del a.x; r.append(a._x)
    r.append(sorted([A(3),A(1),A(2)])); r.append(max(A(3),A(7))); r.append(hasattr(a,"q")); r.append(getattr(a,"q",8))
    r.append(str(A(2))); r.append(f"{A(2)!r:>8}|{3.14159:.2f}|{255:#x}|{5:08b}|{'a':<4}|{'b':^5}|{12345:,}")
    return [repr(x) for x in r]
''')
s('''
from functools import *
from operator import *
def run():
    r=[reduce(add,[1,2,3],0), reduce(lambda a,b:a*b,[1,2,3,4]), partial(int,base=2)("101"), list(map(itemgetter(1),[(1,2),(3,4)])),
       sorted([3,1,2],key=neg), sorted("bca",key=cmp_to_key(lambda a,b:(a>b)-(a<b))), list(map(attrgetter("real"),[1,2])), methodcaller("upper")("a")]
    return r
''')
s('''
from itertools import *
def run():
    return [list(chain([1],[2])), list(islice(count(3),2,8,2)), list(takewhile(lambda x:x<3,[1,2,3,1])), list(zip_longest([1,2],[3],fillvalue=0)),
     list(accumulate([1,2,3])), list(product("ab",repeat=2)), list(starmap(pow,[(2,3)])), list(pairwise([1,2,3])), [(k,list(g)) for k,g in groupby("aabbb")],
     list(combinations([1,2,3],2)), list(permutations([1,2,3],2)), list(compress("abc",[1,0,1])), list(filterfalse(lambda x:x%2,[1,2,3])), list(islice(cycle("ab"),5)),
     [list(x) for x in tee([1,2])], list(chain.from_iterable([[1],[2,3]])), list(repeat(1,3)), list(dropwhile(lambda x:x<2,[1,2,1])), list(combinations_with_replacement("ab",2)), list(batched("abcde",2))]
''')
s('''
from collections import *
def run():
    P=namedtuple("P","a b"); p=P(1,b=2); d=defaultdict(list); d["x"].append(1); c=Counter("aab"); q=deque([1,2,3],maxlen=3); q.appendleft(0); q.rotate(1)
    o=OrderedDict([(1,2),(3,4)]); o.move_to_end(1); cm=ChainMap({1:2},{3:4})
    x,y=p
    return [p.a,p[1],x,y,tuple(p._replace(a=5)),p==(1,2),repr(p),p._asdict(),dict(d),c["a"],c["zz"],c.most_common(1),list(q),list(o.items()),cm[3],len(cm),P._fields, q.popleft()]
''')
s('''
from dataclasses import dataclass, field, replace, astuple, asdict
@dataclass
class D:
    a:int
    b:list=field(default_factory=list)
    c:int=3
    def __post_init__(self): self.d=self.a+1
@dataclass(frozen=True, order=True)
class F:
    x:int
    y:int=0
def run():
    d=D(1); d.b.append(2); r=[d==D(1,[2]), D(1).b, d.d, repr(d), F(1)<F(2), hash(F(1))==hash(F(1)), replace(F(1),y=5), astuple(F(1,2)), asdict(d)]
    try: F(1).x=2
    except AttributeError: r.append("frozen")
    return [repr(x) for x in r]
''')
s('''
from contextlib import *
def run():
    out=[]
    @contextmanager
    def cm(x):
        out.append("in")
        try: yield x
        except ValueError as e: out.append("caught")
        finally: out.append("out")
    with cm(3) as v: out.append(v)
    with cm(4): raise ValueError
    with suppress(KeyError): {}[1]
    with nullcontext(5) as n: out.append(n)
    with ExitStack() as st:
        st.callback(out.append,"cb"); out.append(st.enter_context(cm(9)))
    class C:
        def __enter__(self): return self
        def __exit__(self,t,v,tb): out.append(t.__name__ if t else None); return True
    with C(), C() as c: raise KeyError("x")
    class X:
        def close(self): out.append("close")
    with closing(X()): pass
    return out
''')
s('''
def run():
    out=[]
    def f(x):
        try:
            if x==0: return "ret"
            if x==1: raise ValueError("v")
            if x==2: raise KeyError("k")
            out.append("ok")
        except ValueError as e:
            out.append(str(e)); raise RuntimeError("r") from e
        except (KeyError, IndexError) as e:
            out.append(repr(e)); return e.args
        else:
            out.append("else"); return 9
        finally:
            out.append("fin")
    for i in range(4):
        try: out.append(f(i))
        except RuntimeError as e: out.append((str(e), repr(e.__cause__)))
    try:
        try: 1/0
        except ZeroDivisionError: raise TypeError("a","b")
    except TypeError as e: out.append((e.args, type(e.__context__).__name__))
    return out
''')
s('''
def run():
    def f(a,/,b,c=3,*d,e,f=6,**g): return (a,b,c,d,e,f,g)
    r=[f(1,2,e=5), f(1,2,3,4,5,e=6,h=7), f(*[1,2],**{"e":5,"c":9})]
    for bad in (lambda:f(1), lambda:f(1,2), lambda:f(a=1,b=2,e=3), lambda:f(1,2,e=1,b=3), lambda:f()):
        try: bad(); r.append("no")
        except TypeError: r.append("TE")
    def h(x,acc=[]): acc.append(x); return acc
    h(1); r.append(h(2))
    k=lambda *a,z=1:(a,z)
    r.append(k(1,2)); 
    def outer():
        n=0
        def inc():
            nonlocal n
            n+=1
            return n
        return inc
    i=outer(); i(); r.append(i())
    fs=[lambda: j for j in range(3)]; r.append([f() for f in fs])
    fs=[lambda j=j: j for j in range(3)]; r.append([f() for f in fs])
    return r
''')
s('''
def run():
    b=b"\\x01\\xffabc"; r=[b.hex(), bytes.fromhex("0aff"), b[1], b[1:3], b+b"z", b*2, b.startswith(b"\\x01"), b.find(b"a"), b.split(b"\\xff"), b"-".join([b"a",b"b"]), int.from_bytes(b,"big"), (258).to_bytes(2,"big"), (258).to_bytes(4,"little"),
      list(b), bytes([1,2]), bytes(3), bytearray(b)[0], bytes(reversed(b)), b.replace(b"a",b"ZZ"), b"abc".upper(), b" x ".strip(), b"ab".ljust(4,b"\\0"), b"a"<b"b", max(b), sum(b), b"abc".rjust(5,b"0"), b"a,b".partition(b","), b"a\\n".rstrip(), b"abc".index(b"c"), b"aXb".lower(), memoryview(b)[1:3].tobytes(), b"ab".isalpha(), b"%d-%s" % (5,b"x"), b"abcabc".rfind(b"b"), b"abc".removeprefix(b"a"), b"a b".split(), b"x".zfill(3), hash(b"a")==hash(b"a"), b.count(b"a"), b.endswith((b"c",b"d")), b"\\x00\\x00a".lstrip(b"\\0"), int(b"12"), int("ff",16), bytes("é","utf8"), "é".encode(), b"\\xc3\\xa9".decode(), "a".encode("ascii")]
    return r
''')
s('''
def run():
    x=bytearray(b"abc"); y=x; x+=b"d"; x.append(101); x.extend([1]); x[0]=122; x[1:2]=b"QQ"; del x[-1]; z=x.copy(); z.reverse(); p=x.pop(); x.insert(0,65)
    return [bytes(x), y is x, bytes(z), p, x==b"", x.hex(), len(x), b"Q" in x, 65 in x, bytes(x[1:]), isinstance(x[1:],bytearray), bytes(memoryview(x)), x.find(b"Q"), x.clear(), bytes(x)]
''')
s('''
def run():
    s="Hello World"; return [s.lower(), s.split(), s.replace("o","0"), s[::-1], s.find("W"), "x" in s, s.title(), s.swapcase(), s.center(15,"*"), "a{}b{x}c{}".format(1,3,x=2), "%s %d %05.1f %x %r"%("a",3,2.5,255,"q"), "a-b-c".rsplit("-",1), s.startswith(("He","x")), "abc".isalnum(), "12".isdigit(), " a ".strip(), "a,b".partition(","), "\\n".join(["x","y"]), "ab\\ncd".splitlines(), ord("a"), chr(98), s.count("l"), "x".join("abc"), "abc".translate({97:"z"}), "abc".translate(str.maketrans("ab","xy")), s.index("W"), s.rfind("o"), "a".ljust(3)+"|", "7".zfill(3), "abc".removesuffix("c"), s.encode().hex(), "tEst".capitalize(), "ß".casefold(), "a\\tb".expandtabs(4), "{:>5}|{:<5}|{:^5}".format(1,2,3), f"{3!s}", f"{'x'*3}", f"{{}}", f"{1+1=}"]
''')
s('''
def run():
    d={"a":1,**{"b":2}}; d["c"]=3; d.update(x=5); d.update([("y",6)]); e=d.copy(); e.pop("a"); r=[list(d.items()), d.get("q"), d.get("q",7), d.setdefault("z",[]), list(e), e.pop("nope",0), "a" in d, d|{"a":9}, {v:k for k,v in {"m":1}.items()}, dict(zip("ab",[1,2])), dict.fromkeys("ab",0), len(d), list(reversed(d)), d=={"a":1}, list(d.values())[0], d.popitem(), dict(a=1), list(d.keys()), d.keys()&{"a","zz"}, {1:2}.items()=={1:2}.items()]
    d|={"k":1}; del d["k"]; d.clear(); r.append(d)
    try: d["x"]
    except KeyError as k: r.append(k.args)
    m={}; 
    for i,w in enumerate("abcab"): m.setdefault(w,[]).append(i)
    r.append(m)
    return r
''')
s('''
def run():
    a={1,2,3}; b={2,3,4}; c=a|b; c.add(9); c.discard(100); c.remove(9); f=frozenset([1]); return [sorted(a&b), sorted(a-b), sorted(a^b), sorted(c), a<=c, a.issubset(c), 1 in f, len(set("aab")), sorted({x%2 for x in range(5)}), a.isdisjoint({7}), sorted(a.union([8],[9])), sorted(a.intersection(b)), sorted(a.difference(b)), {1,2}=={2,1}, hash(f)==hash(frozenset([1])), a.copy()==a, sorted(set.union({1},{2})), a.pop() in (1,2,3)]
''')
s('''
def run():
    a,*b,c=[1,2,3,4]; (x,y),z=(1,2),3; first,*rest="abc"; r=[a,b,c,x,y,z,first,rest]
    q=[0]*3; q[0],q[1]=1,2; i=0; i,q[i]=2,9; r+= [q,i]
    if (n:=len(q))>2: r.append(n)
    r.append([y for x in range(5) if (y:=x*2)>4])
    r.append([*range(3),*"ab"]); r.append((*[1],2)); r.append({**{"a":1}}); r.append(1 if 0 else 2); r.append(1<2<3); r.append(1<2>3); r.append(not 1 or 2 and 3); r.append(None is not None)
    r.append(5//2); r.append(-5//2); r.append(-5%3); r.append(2**10); r.append(7&3|8^1); r.append(1<<4>>2); r.append(~5); r.append(divmod(7,2)); r.append(round(2.567,1)); r.append(abs(-3)); r.append(7/2); r.append(10**-1); r.append(0b101+0x1f+0o7)
    return r
''')
s('''
def run():
    r=[]
    def m(v):
        match v:
            case 0|1: return "01"
            case int(x) if x>100: return ("big",x)
            case [a,b]: return ("pair",a,b)
            case [a,*rest]: return ("list",a,rest)
            case {"k":v2,**kw}: return ("map",v2,kw)
            case str() as s: return ("str",s)
            case bytes(): return "bytes"
            case None: return "none"
            case _: return "other"
    for v in (0,1,200,[1,2],[1,2,3],{"k":1,"z":2},"x",b"q",None,3.5,(1,),[]): r.append(m(v))
    return r
''')
s('''
class Base:
    count=0
    def __init_subclass__(cls,**k): super().__init_subclass__(**k); cls.tag=cls.__name__.lower()
    def __new__(cls,*a,**k):
        o=super().__new__(cls); o.made=True; return o
    def __init__(self,a=1): self.a=a; type(self).count+=1
    def who(self): return "base"
    @classmethod
    def make(cls,*a): return cls(*a)
    @staticmethod
    def st(x): return x*2
class Mid(Base):
    def who(self): return "mid>"+super().who()
class Other(Base):
    def who(self): return "other>"+super().who()
class Leaf(Mid,Other):
    __slots__=("q",)
    def __init__(self,*a): super().__init__(*a); self.__priv=4
    def who(self): return "leaf>"+super(Leaf,self).who()
    def priv(self): return self.__priv
def run():
    l=Leaf.make(7); 
    return [l.who(), l.a, l.made, Leaf.tag, Leaf.count, Base.count, Leaf.st(4), l.priv(), [c.__name__ for c in Leaf.__mro__[:4]], isinstance(l,Other), issubclass(Leaf,Base), type(l).__name__, l.__class__ is Leaf, hasattr(l,"_Leaf__priv"), l._Leaf__priv, Base.who(l), getattr(l,"who")(), callable(l.who), l.who.__name__, Leaf.__name__, Leaf.__bases__[0] is Mid, vars(Base(3)), Leaf.__qualname__, Leaf.__module__ == Base.__module__]
''')
s('''
from enum import Enum, IntEnum, auto, Flag, IntFlag
class C(Enum):
    A=1
    B=2
    def lab(self): return self.name+str(self.value)
class I(IntEnum):
    X=auto()
    Y=auto()
def run():
    return [C.A.lab(), C(2).name, C["A"].value, C.A is C.A, C.A==C.B, [c.name for c in C], I.X<I.Y, I.Y+1, isinstance(I.X,int), len(C), C.A in C, repr(C.A), str(C.A), hash(C.A)==hash(C.A), {C.A:1}[C.A]]
''')
s('''
import struct, math, base64, binascii
def run():
    return [struct.pack(">H",258), struct.unpack(">I",b"\\0\\0\\1\\2"), struct.pack(">BH",1,2), struct.calcsize("<Q"), math.ceil(2.1), math.floor(2.9), math.log2(8), math.gcd(4,6), base64.b64encode(b"abc"), base64.b64decode(b"YWJj"), binascii.hexlify(b"a"), binascii.unhexlify(b"61"), base64.b16encode(b"a"), math.sqrt(16), math.isqrt(17), struct.unpack_from(">H",b"abcd",1)]
''')
s('''
import re, string, bisect, heapq, types, io, warnings, logging, threading, copy, time, weakref, abc, typing
log=logging.getLogger(__name__)
def run():
    r=[bool(re.match(r"a+b","aab")), re.sub("[0-9]","#","a1"), re.findall(r"\\d+","1 22"), re.fullmatch("[0-9a-f]+","zz") is None, re.compile("x").search("axb").start(), string.ascii_lowercase[:3], bisect.bisect_left([1,3,5],3), bisect.bisect([1,3],2)]
    h=[3,1,2]; heapq.heapify(h); r.append(heapq.heappop(h)); ns=types.SimpleNamespace(a=1); ns.b=2; r.append(ns.a+ns.b)
    bio=io.BytesIO(); bio.write(b"ab"); bio.write(b"c"); r.append(bio.getvalue()); bio.seek(0); r.append(bio.read(2)); sio=io.StringIO(); sio.write("x"); r.append(sio.getvalue())
    log.debug("x %s",1); log.info("y")
    lk=threading.Lock()
    with lk: r.append("locked")
    rl=threading.RLock()
    with rl:
        with rl: r.append("rl")
    c=copy.copy([1,[2]]); d=copy.deepcopy(c); d[1].append(3); r.append((c,d)); mp=types.MappingProxyType({1:2}); r.append(mp[1])
    return r
''')
s('''
from functools import lru_cache, cached_property, wraps, singledispatch, total_ordering, cache
import functools
@lru_cache(maxsize=None)
def fib(n): return n if n<2 else fib(n-1)+fib(n-2)
class K:
    n=0
    @cached_property
    def v(self): K.n+=1; return K.n
    @functools.lru_cache
    def m(self,x): K.n+=10; return K.n
def deco(f):
    @wraps(f)
    def w(*a,**k): return ("w",f(*a,**k))
    return w
def dp(n):
    def d(f):
        def w(*a): return (n,f(*a))
        return w
    return d
@dp(2)
@deco
def q(x): "doc"; return x
@singledispatch
def sd(x): return "obj"
@sd.register
def _(x:int): return "int"
@sd.register(str)
def _(x): return "str"
@total_ordering
class T:
    def __init__(s,x): s.x=x
    def __eq__(s,o): return s.x==o.x
    def __lt__(s,o): return s.x<o.x
def run():
    k=K(); r=[fib(10), k.v, k.v, k.m(1), k.m(1), q(5), sd(1), sd("a"), sd(None), T(1)>=T(1), T(2)>T(1), T(1)<=T(2), fib.__wrapped__(1)]
    fib.cache_clear(); k.__dict__.pop("v"); r.append(k.v); return r
''')
s('''
def run():
    r=[any(x>2 for x in [1,2,3]), all([]), sum(x for x in (1,2)), min([3,1],default=0), max([],default=5), list(zip([1,2],"ab")), list(enumerate("ab",1)), list(map(str,[1,2])), list(filter(None,[0,1,2])), list(reversed([1,2])), sorted([(2,"a"),(1,"b")],reverse=True), list(range(10,0,-3)), len(range(5)), 3 in range(5), range(5)[2], isinstance(True,int), type(1) is int, callable(len), id(r0:=[])==id(r0), next(iter([4])), next(iter([]),None), bool([]), int("7"), float("1.5"), str(3), repr("a"), tuple([1]), list("ab"), hex(255), bin(5), oct(8), pow(2,5,7), slice(1,3).start, [1,2,3][slice(0,2)], ascii("é"), format(5,"03d"), sum([[1],[2]],[]), max("b","a",key=ord), list(zip(*[(1,2),(3,4)])), isinstance(1,(str,int)), list(map(lambda a,b:a+b,[1,2],[3,4])), [*map(int,"12")], min((2,"x"),(1,"y")), sorted({"b":1,"a":2}), all(map(bool,[1,0])), issubclass(bool,int), hash("a")==hash("a"), iter([1]).__next__(), print("x") is None, zip.__name__, vars().__class__ is dict]
    return r
''')
s('''
def run():
    it=iter([1,2,3,4]); r=[list(zip(it,it))]
    class It:
        def __init__(s,n): s.n=n
        def __iter__(s): return s
        def __next__(s):
            if s.n==0: raise StopIteration
            s.n-=1; return s.n
    r.append(list(It(3))); r.append([x for x in It(2)]); r.append(sum(It(4))); r.append(2 in It(4))
    class Sq:
        def __getitem__(s,i):
            if i>2: raise IndexError
            return i*i
        def __len__(s): return 3
    r.append(list(Sq())); r.append(list(reversed(Sq()))); 
    k=iter(lambda c=[0]: (c.__setitem__(0,c[0]+1),c[0])[1],3); r.append(list(k))
    def gen():
        while True:
            try: v = yield
            except GeneratorExit: return
    g=gen(); next(g); g.close()
    e=(i for i in range(2)); r.append((next(e),next(e),next(e,"end")))
    d=[(k,v) for k,v in {"a":1}.items() for _ in range(2) if v]; r.append(d); r.append([[j for j in range(i)] for i in range(3)])
    return r
''')
s('''
from typing import NamedTuple, Optional, Protocol, TypedDict, Generic, TypeVar, ClassVar, Final
from abc import ABC, abstractmethod
from __future__ import annotations
T=TypeVar("T")
''' if 0 else '''
from typing import NamedTuple, Optional, Protocol, TypedDict, Generic, TypeVar, ClassVar, Final, Iterator, Callable
from abc import ABC, abstractmethod
T=TypeVar("T")
class N(NamedTuple):
    a:int
    b:str="x"
    def both(self): return (self.a,self.b)
class TD(TypedDict):
    k:int
class P(Protocol):
    def m(self)->int: ...
class G(Generic[T]):
    X:ClassVar[int]=3
    def __init__(self,v:T): self.v=v
class AB(ABC):
    @abstractmethod
    def f(self): ...
    @property
    @abstractmethod
    def p(self): ...
class Im(AB):
    def f(self): return 1
    @property
    def p(self): return 2
F:Final=5
def run():
    r=[N(1).both(), N(1)==(1,"x"), TD(k=1), G[int](4).v, G.X, Im().f(), Im().p, F]
    try: AB(); r.append("no")
    except TypeError: r.append("abstract")
    return r
''')
s('''
class M:
    def __init__(self,x=0): self.x=x
class Desc:
    def __set_name__(self,o,n): self.n=n
    def __get__(self,o,t=None): return self if o is None else o.__dict__.get(self.n,"unset")
    def __set__(self,o,v): o.__dict__[self.n]=v*2
class H:
    d=Desc()
    def __setattr__(self,n,v): object.__setattr__(self,n,v)
    def __getattribute__(self,n): return object.__getattribute__(self,n)
def run():
    h=H(); r=[M(3).x, h.d]; h.d=4; r.append(h.d); h.z=1; r.append(h.z); setattr(h,"y",5); r.append(h.__dict__["y"]); delattr(h,"y"); r.append(hasattr(h,"y"))
    X=type("X",(H,),{"k":9}); r.append(X().k); r.append(X.__name__)
    return r
''')
s('''
def run():
    glob=[]
    def f(n):
        if n<=0: return 0
        return n+f(n-1)
    r=[f(50)]
    ops={"+":lambda a,b:a+b,"-":lambda a,b:a-b}; r.append(ops["+"](1,2))
    assert r, "msg"
    try: assert not r, "msg"
    except AssertionError as e: r.append(str(e))
    try: int("x")
    except ValueError: r.append("VE")
    try: [][0]
    except IndexError: r.append("IE")
    try: None.x
    except AttributeError: r.append("AE")
    try: b"".decode("ascii"); b"\\xff".decode()
    except UnicodeDecodeError: r.append("UDE")
    try: "a"+1
    except TypeError: r.append("TE")
    try: undefined
    except NameError: r.append("NE")
    try: next(iter([]))
    except StopIteration: r.append("SI")
    try: a,b=[1]
    except ValueError: r.append("VE2")
    try: {}[[]]
    except TypeError: r.append("unhash")
    try: (1,2)[5]
    except LookupError: r.append("LE")
    try: bytes([256])
    except ValueError: r.append("B256")
    try: raise Exception("a",1)
    except Exception as e: r.append((e.args,str(e)))
    class E(ValueError):
        def __init__(self,m,c): super().__init__(m); self.c=c
    try: raise E("m",4)
    except ValueError as e: r.append((str(e),e.c,type(e) is E))
    try:
        try: raise KeyError(1)
        finally: r.append("f")
    except KeyError: r.append("KE")
    for i in range(2):
        try: continue
        finally: r.append(i)
    def g():
        try: return 1
        finally: return 2
    r.append(g())
    return r
''')
