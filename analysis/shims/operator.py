def neg(a): return -a
def pos(a): return +a
def invert(a): return ~a
inv = invert
def truediv(a, b): return a / b
def floordiv(a, b): return a // b
def mod(a, b): return a % b
def pow(a, b): return a ** b
def lshift(a, b): return a << b
def rshift(a, b): return a >> b
def concat(a, b): return a + b
def truth(a): return bool(a)
def is_not(a, b): return a is not b
def index(a): return a.__index__() if not isinstance(a, int) else a
def abs(a): return a if a >= 0 else -a
def indexOf(a, b): return list(a).index(b)
def countOf(a, b): return sum(1 for x in a if x is b or x == b)
def delitem(a, b): del a[b]
def call(f, /, *a, **k): return f(*a, **k)
def length_hint(a, default=0): return len(a)


def setitem(a, b, c):
    a[b] = c


def iadd(a, b):
    a += b
    return a


def ior(a, b):
    a |= b
    return a
