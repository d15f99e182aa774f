class deque:
    def __init__(self, iterable=(), maxlen=None):
        self._d = list(iterable)
        self.maxlen = maxlen
        self._fit(True)

    def _fit(self, right):
        if self.maxlen is not None:
            while len(self._d) > self.maxlen:
                self._d.pop(0 if right else -1)

    def append(self, x):
        self._d.append(x)
        self._fit(True)

    def appendleft(self, x):
        self._d.insert(0, x)
        self._fit(False)

    def pop(self):
        if not self._d:
            raise IndexError("pop from an empty deque")
        return self._d.pop()

    def popleft(self):
        if not self._d:
            raise IndexError("pop from an empty deque")
        return self._d.pop(0)

    def extend(self, it):
        for x in list(it):
            self.append(x)

    def extendleft(self, it):
        for x in list(it):
            self.appendleft(x)

    def rotate(self, n=1):
        if self._d:
            n = n % len(self._d)
            if n:
                self._d[:] = self._d[-n:] + self._d[:-n]

    def clear(self):
        self._d.clear()

    def copy(self):
        return deque(self._d, self.maxlen)

    def count(self, x):
        return self._d.count(x)

    def index(self, x):
        return self._d.index(x)

    def insert(self, i, x):
        self._d.insert(i, x)

    def remove(self, x):
        self._d.remove(x)

    def reverse(self):
        self._d.reverse()

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def __reversed__(self):
        return reversed(self._d)

    def __contains__(self, x):
        return x in self._d

    def __getitem__(self, i):
        return self._d[i]

    def __setitem__(self, i, v):
        self._d[i] = v

    def __delitem__(self, i):
        del self._d[i]

    def __eq__(self, o):
        if not isinstance(o, deque):
            return NotImplemented
        return self._d == o._d

    def __add__(self, o):
        return deque(self._d + list(o), self.maxlen)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __bool__(self):
        return len(self._d) > 0


class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __contains__(self, k):
        return any(k in m for m in self.maps)

    def __setitem__(self, k, v):
        self.maps[0][k] = v

    def __delitem__(self, k):
        del self.maps[0][k]

    def __iter__(self):
        d = {}
        for m in reversed(self.maps):
            d.update(dict.fromkeys(m))
        return iter(d)

    def __len__(self):
        return len(list(iter(self)))

    def keys(self):
        return {k: self[k] for k in self}.keys()

    def values(self):
        return {k: self[k] for k in self}.values()

    def items(self):
        return {k: self[k] for k in self}.items()

    def new_child(self, m=None):
        return ChainMap({} if m is None else m, *self.maps)

    @property
    def parents(self):
        return ChainMap(*self.maps[1:])

    def pop(self, k, *a):
        return self.maps[0].pop(k, *a)


class UserDict:
    def __init__(self, d=None, **kw):
        self.data = {}
        if d is not None:
            self.update(d)
        if kw:
            self.update(kw)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        if hasattr(type(self), "__missing__"):
            return type(self).__missing__(self, k)
        raise KeyError(k)

    def __setitem__(self, k, v):
        self.data[k] = v

    def __delitem__(self, k):
        del self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, k):
        return k in self.data

    def copy(self):
        return type(self)(self.data)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        return {k: self[k] for k in self}.keys()

    def values(self):
        return {k: self[k] for k in self}.values()

    def items(self):
        return {k: self[k] for k in self}.items()

    def pop(self, k, *a):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if a:
            return a[0]
        raise KeyError(k)

    def popitem(self):
        for k in self:
            v = self[k]
            del self[k]
            return k, v
        raise KeyError

    def clear(self):
        for k in list(self):
            del self[k]

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def setdefault(self, k, default=None):
        if k in self:
            return self[k]
        self[k] = default
        return default

    def __eq__(self, o):
        return dict(self.items()) == (dict(o.items()) if hasattr(o, "items") else o)
