def cmp_to_key(f):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return f(self.obj, other.obj) < 0

        def __gt__(self, other):
            return f(self.obj, other.obj) > 0

        def __eq__(self, other):
            return f(self.obj, other.obj) == 0

        def __le__(self, other):
            return f(self.obj, other.obj) <= 0

        def __ge__(self, other):
            return f(self.obj, other.obj) >= 0

    return K


def total_ordering(cls):
    has = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if _own(cls, n)]
    if not has:
        raise ValueError("must define at least one ordering operation: < > <= >=")
    if "__lt__" in has:
        base = lambda a, b: a.__lt__(b)
        rules = {"__gt__": lambda s, o: _n(s.__lt__(o), lambda r: not r and s != o),
                 "__le__": lambda s, o: _n(s.__lt__(o), lambda r: r or s == o),
                 "__ge__": lambda s, o: _n(s.__lt__(o), lambda r: not r)}
    elif "__le__" in has:
        rules = {"__ge__": lambda s, o: _n(s.__le__(o), lambda r: not r or s == o),
                 "__lt__": lambda s, o: _n(s.__le__(o), lambda r: r and s != o),
                 "__gt__": lambda s, o: _n(s.__le__(o), lambda r: not r)}
    elif "__gt__" in has:
        rules = {"__lt__": lambda s, o: _n(s.__gt__(o), lambda r: not (r or s == o)),
                 "__ge__": lambda s, o: _n(s.__gt__(o), lambda r: r or s == o),
                 "__le__": lambda s, o: _n(s.__gt__(o), lambda r: not r)}
    else:
        rules = {"__le__": lambda s, o: _n(s.__ge__(o), lambda r: not r or s == o),
                 "__gt__": lambda s, o: _n(s.__ge__(o), lambda r: r and s != o),
                 "__lt__": lambda s, o: _n(s.__ge__(o), lambda r: not r)}
    for name in rules:
        if name not in has:
            setattr(cls, name, rules[name])
    return cls


def _own(cls, name):
    for c in cls.__mro__:
        if c is not object and name in vars(c):
            return True
    return False


def _n(r, f):
    if r is NotImplemented:
        return r
    return f(r)


def singledispatch(func):
    table = []

    def dispatch(cls):
        best = None
        for t, f in table:
            if issubclass(cls, t) and (best is None or issubclass(t, best[0])):
                best = (t, f)
        return func if best is None else best[1]

    def register(cls, f=None):
        if f is None:
            if isinstance(cls, type):
                return lambda g: register(cls, g)
            f = cls
            for a, t in f.__annotations__.items():
                if a != "return":
                    cls = t
                    break
        table.append((cls, f))
        return f

    def wrapper(*args, **kw):
        return dispatch(type(args[0]))(*args, **kw)

    wrapper.register = register
    wrapper.dispatch = dispatch
    wrapper.__wrapped__ = func
    wrapper.__name__ = func.__name__
    return wrapper


def wraps(wrapped, assigned=(), updated=()):
    def deco(f):
        return update_wrapper(f, wrapped)

    return deco


def update_wrapper(f, wrapped, assigned=(), updated=()):
    for n in ("__module__", "__name__", "__qualname__", "__doc__"):
        try:
            setattr(f, n, getattr(wrapped, n))
        except AttributeError:
            pass
    f.__wrapped__ = wrapped
    return f


class partialmethod:
    def __init__(self, func, *args, **kw):
        self.func, self.args, self.kw = func, args, kw

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return lambda *a, **k: self.func(obj, *self.args, *a, **{**self.kw, **k})


class singledispatchmethod:
    def __init__(self, func):
        self.dispatcher = singledispatch(func)
        self.func = func

    def register(self, cls, method=None):
        return self.dispatcher.register(cls, method)

    def __get__(self, obj, cls=None):
        def method(*args, **kw):
            f = self.dispatcher.dispatch(type(args[0]))
            if hasattr(f, "__get__") and not callable(f):
                return f.__get__(obj, cls)(*args, **kw)
            return f(obj, *args, **kw)

        return method
