"""keyword forms, idioms of refactored code"""
S=[
'''
def run():
    out=[]
    out.append(sum([1,2],start=3)); out.append(list(enumerate("ab",start=1))); out.append(sorted([3,1,2],key=lambda x:-x,reverse=True))
    out.append("a,b,c".split(sep=",",maxsplit=1)); out.append(int("ff",base=16)); out.append((5).to_bytes(length=2,byteorder="big"))
    out.append(int.from_bytes(b"\\1\\2",byteorder="little")); out.append("x".encode(encoding="utf-8")); out.append(b"x".decode(encoding="ascii",errors="strict"))
    out.append(max([1,5],default=0)); out.append(min([],default=7)); out.append(max("a","bbb",key=len)); out.append(bytes(bytearray(b"ab")))
    out.append(dict(zip(["a","b"],[1,2],strict=True))); out.append("{a}-{b!r}".format(a=1,b="x")); out.append(b"ab".hex(":")); out.append(b"abcd".hex(sep="-",bytes_per_sep=2))
    out.append(round(2.5)); out.append(divmod(7,2)); out.append(pow(2,10,1000)); out.append("ab".ljust(4,"-")); out.append("%s %d %r %x"%("a",1,"b",255))
    out.append(f"{255:#x} {3:>4} {'a'!r:>5} {1.5:.2f}"); out.append(str(object=5)); out.append(bytes(source=b"q") if False else b"q")
    return out
''',
'''
from collections import ChainMap, deque, Counter, OrderedDict, defaultdict
def run():
    c=ChainMap({"a":1},{"b":2,"a":3}); d=deque(maxlen=2); [d.append(i) for i in range(4)]
    o=OrderedDict(a=1,b=2); o.move_to_end("a"); dd=defaultdict(list); dd["x"].append(1)
    return [c["a"],c["b"],sorted(c.keys()),list(d),list(o),dict(dd),Counter("aab")["a"],Counter("aab").most_common(1),list(o.popitem(last=False))]
''',
'''
import contextlib
class Guard:
    def __init__(self): self.log=[]
    def __enter__(self): self.log.append("in"); return self
    def __exit__(self,t,v,tb): self.log.append(t.__name__ if t else None); return t is KeyError
@contextlib.contextmanager
def cm(log):
    log.append(1)
    try: yield "v"
    except ValueError: log.append("ve")
    finally: log.append(2)
def run():
    g=Guard(); out=[]
    with g: {}["x"]
    with g as h, cm(out) as v: out.append(v)
    try:
        with g: raise ValueError
    except ValueError: out.append("out")
    with cm(out): raise ValueError("a")
    with contextlib.ExitStack() as st:
        st.callback(out.append,9); st.enter_context(cm(out)); out.append(st.pop_all is not None)
    return out,g.log
''',
'''
def gen():
    x = yield 1
    while x is not None:
        x = yield x*2
    return "end"
def outer():
    r = yield from gen()
    yield r
def run():
    g=outer(); a=[next(g),g.send(5),g.send(None)]
    try: next(g)
    except StopIteration as e: a.append(e.value)
    h=gen(); next(h); h.close()
    try: next(h)
    except StopIteration: a.append("closed")
    k=gen(); next(k)
    try: k.throw(KeyError("z"))
    except KeyError as e: a.append(e.args)
    return a
''',
'''
from functools import singledispatch, singledispatchmethod, total_ordering, cached_property, lru_cache
@singledispatch
def f(x): return "o"
@f.register
def _(x:int): return "i"
@f.register(bytes)
def _(x): return "b"
@total_ordering
class T:
    def __init__(self,v): self.v=v
    def __eq__(self,o): return self.v==o.v
    def __lt__(self,o): return self.v<o.v
    @cached_property
    def w(self): return [self.v]
    @singledispatchmethod
    def m(self,x): return "d"
    @m.register
    def _(self,x:str): return "s"+x
@lru_cache(maxsize=None)
def fib(n): return n if n<2 else fib(n-1)+fib(n-2)
def run():
    t=T(1)
    return [f(1),f(b""),f("x"),T(1)<=T(2),T(3)>T(2),t.w is t.w,t.m(1),t.m("q"),fib(10)]
''',
'''
from enum import Enum, IntEnum, IntFlag, Flag, auto
class K(Enum):
    A=auto(); B=auto()
    @classmethod
    def of(cls,x): return cls.A if x else cls.B
    @property
    def low(self): return self.name.lower()
class Fl(IntFlag):
    ODD=0x10; LEAF=0x20
class I2(IntEnum):
    L=0; R=1
def run():
    return [K.of(1).low,K["B"].value,K(1).name,[k.name for k in K],int(Fl.ODD|Fl.LEAF),bool(0x30 & Fl.ODD),(0x10&Fl.LEAF)==0,I2.R+1,I2(0) is I2.L,len(K),K.A in K]
''',
'''
from typing import NamedTuple, Optional, Protocol, Callable, ClassVar
from dataclasses import dataclass, field, replace, asdict, astuple
class Step(NamedTuple):
    side: str
    value: bytes = b""
    @property
    def left(self): return self.side=="left"
@dataclass(frozen=True, order=True)
class R:
    key: bytes
    data: bytes = b""
    N: ClassVar[int]=3
    def __post_init__(self):
        if not isinstance(self.key,bytes): raise TypeError("key")
@dataclass
class M:
    xs: list = field(default_factory=list)
    n: int = 0
def run():
    s=Step("left",b"a"); a,b=s
    r=R(b"k"); out=[s.left,a,b,s._asdict(),r==R(b"k"),r<R(b"l"),replace(r,data=b"z").data,asdict(r),astuple(r),hash(r)==hash(R(b"k")),repr(r),R.N]
    try: r.key=b"x"
    except Exception as e: out.append(type(e).__name__)
    try: R(5)
    except TypeError as e: out.append(str(e))
    m=M(); m.xs.append(1); out.append(M().xs); out.append(repr(m)); out.append(s._replace(side="right"))
    return [tuple(x) if isinstance(x,Step) else x for x in out]
''',
'''
def run():
    out=[]
    match {"left":"ab","x":1}:
        case {"left":v, **rest}: out.append((v,rest))
    for p in ([1,2,3],[],[4],(b"a","b"),"str",5,None,True,{"k":1},[1,[2,3]]):
        match p:
            case []: out.append("empty")
            case [x] : out.append(("one",x))
            case [int(a),[b,c]]: out.append((a,b,c))
            case [1,*r]: out.append(r)
            case (bytes() as k, str(v)): out.append((k,v))
            case str() | bytes(): out.append("s")
            case True: out.append("T")
            case int(n) if n>3: out.append(n)
            case None: out.append("N")
            case {"k":z}: out.append(z)
            case _: out.append("?")
    return out
''',
'''
def run():
    out=[]
    a,*b,c=range(5); out.append((a,b,c)); (d,e),f=(1,2),3; out.append(d+e+f)
    x=y=[]; x.append(1); out.append(y)
    def g(*args,k=1,**kw): return args,k,kw
    out.append(g(1,*[2,3],k=4,**{"z":5}))
    def h(a,/,b,*,c): return a,b,c
    out.append(h(1,b=2,c=3))
    out.append([i for i in range(10) if i%2 if i>3]); out.append({k:v for k,v in zip("ab",range(2))}); out.append({i%3 for i in range(5)})
    out.append(any(i>3 for i in range(5))); out.append([[j for j in range(i)] for i in range(3)])
    out.append((lambda *a,**k:(a,k))(1,b=2)); n=0
    while True:
        n+=1
        if n==3: continue
        if n>5: break
    else: out.append("no")
    for i in range(3): pass
    else: out.append("else")
    out.append(n)
    def cnt():
        c=0
        def inc():
            nonlocal c; c+=1; return c
        return inc
    i=cnt(); i(); out.append(i())
    out.append(1<2<3>2); out.append(None or 0 or "z"); out.append((0 and 1, 1 and 2)); out.append([*range(3),*"ab"]); out.append({**{"a":1},"b":2})
    s=slice(1,None,2); out.append([1,2,3,4][s]); l=[1,2,3,4,5]; l[1:3]=[9]; del l[0]; out.append(l); l[::2]=[0,0]; out.append(l)
    out.append(b"abc"[::-1]); out.append(b"abc"[1]); out.append(b"abc".find(b"c")); out.append(b"a"in b"abc")
    return out
''',
'''
class A:
    def __init__(self): self.log=[]
    def __getattr__(self,n):
        if n.startswith("x_"): return lambda *a: (n,a)
        raise AttributeError(n)
    def __setattr__(self,n,v): object.__setattr__(self,n,v)
    def __len__(self): return 3
    def __bool__(self): return True
    def __getitem__(self,i):
        if i>=3: raise IndexError
        return i*2
    def __contains__(self,x): return x==5
    def __call__(self,*a): return a
    def __iadd__(self,o): self.log.append(o); return self
    def __radd__(self,o): return ("r",o)
    def __eq__(self,o): return NotImplemented
    def __format__(self,s): return "F"+s
class B(A):
    __slots__=()
    @staticmethod
    def s(x): return x
    @classmethod
    def c(cls): return cls.__name__
    def __len__(self): return super().__len__()+1
def run():
    a=B(); a+=4
    return [a.x_q(1),len(a),list(iter(a)),5 in a,a(1),a.log,3+a,a==a,a!=B(),f"{a:z}",B.s(1),a.c(),hasattr(a,"nope"),getattr(a,"nope",7),isinstance(a,A),issubclass(B,A),type(a).__name__,B.__mro__[1].__name__, list(reversed([1,2])), list(map(lambda x,y:x+y,[1,2],[3,4])), list(filter(None,[0,1,2]))]
''',
'''
import itertools, operator
def run():
    out=[list(itertools.accumulate([1,2,3])),list(itertools.accumulate([1,2,3],operator.mul,initial=2)),[list(g) for k,g in itertools.groupby([1,1,2])],list(itertools.pairwise("abc")),list(itertools.product([0,1],repeat=2)),list(itertools.combinations(range(3),2)),
     list(itertools.compress("abc",[1,0,1])),list(itertools.zip_longest([1],[2,3],fillvalue=0)),list(itertools.islice(itertools.count(5,2),1,3)),list(itertools.filterfalse(lambda x:x%2,range(4)))]
    a,b=itertools.tee([1,2]); out.append((list(a),list(b))); out.append(next(iter([]),"d")); out.append(list(itertools.chain([1],[2]))); out.append(list(itertools.repeat(1,2))); out.append(list(itertools.starmap(pow,[(2,3)])))
    if hasattr(itertools,"batched"): out.append(list(itertools.batched(b"abc",2)))
    return out
''',
'''
class E1(KeyError): pass
class E2(E1):
    def __init__(self,m,code=3): super().__init__(m); self.code=code
def f(n):
    try:
        if n==0: raise E2("x")
        if n==1: raise ValueError("v") from KeyError("c")
        if n==2: return "ret"
        if n==3: 1/0
        if n==4: [][1]
        if n==5: {}["q"]
        if n==6: int("z")
        if n==7: None.x
        if n==8: "a"+1
        if n==9: assert False,"msg"
        if n==10: bytes.fromhex("zz")
        if n==11: b"\\xff".decode()
        if n==12: raise E1
    except E2 as e: return ("E2",e.code,str(e))
    except (ValueError,IndexError) as e: return (type(e).__name__,type(e.__cause__).__name__ if e.__cause__ else None)
    except KeyError as e: return ("K",e.args)
    except Exception as e: return type(e).__name__
    else: return "else"
    finally:
        if n==20: return "fin"
def run(): return [f(i) for i in list(range(13))+[20,21]]
''',
'''
class P:
    def __init__(self): self._v=1
    @property
    def v(self): return self._v
    @v.setter
    def v(self,x): self._v=x
    @v.deleter
    def v(self): self._v=None
    w=property(lambda s:s._v+1)
class D:
    def __set_name__(self,o,n): self.n=n
    def __get__(self,i,o): return self if i is None else i.__dict__.get(self.n,"def")
    def __set__(self,i,v): i.__dict__[self.n]=v
class Q: d=D()
class Meth:
    def __init__(self,f): self.f=f
    def __get__(self,i,o): return lambda *a:self.f(i,*a)
class U:
    @Meth
    def m(self,x): return x+1
def deco(n):
    def w(f):
        def g(*a,**k): return [f(*a,**k)]*n
        return g
    return w
@deco(2)
def ff(x): return x
def run():
    p=P(); p.v=5; a=[p.v,p.w]; del p.v; a.append(p.v); q=Q(); a.append(q.d); q.d=3; a.append(q.d); a.append(U().m(1)); a.append(ff(2)); a.append(vars(p)); a.append(p.__class__ is P)
    setattr(p,"z",1); a.append(p.z); delattr(p,"z"); a.append(hasattr(p,"z")); a.append(callable(p)); a.append(P.v.fget(p))
    return a
''',
'''
import struct, math, string, re, textwrap, base64, binascii, hashlib
def run():
    return [struct.pack(">H",5),struct.unpack(">HB",b"\\0\\1\\2"),math.ceil(7/2),math.log2(8),math.prod([2,3]),string.hexdigits,re.match(r"^0x([0-9a-f]+)$","0xff").group(1),bool(re.fullmatch("a+","aab")),base64.b64encode(b"ab"),base64.b16decode("FF"),binascii.hexlify(b"a"),(10).bit_length(),bin(5),hex(255),oct(8),ord("a"),chr(98),format(10,"02x"),"%02x"%10,"{:02x}".format(10),"ab".zfill(4),abs(-1),(7).__floordiv__(2),True+1]
''',
]
