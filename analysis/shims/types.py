class SimpleNamespace:
    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])

    def __eq__(self, o):
        if not isinstance(o, SimpleNamespace):
            return NotImplemented
        return vars(self) == vars(o)


class MappingProxyType:
    def __init__(self, mapping):
        self._MappingProxyType__m = mapping

    def __getitem__(self, k):
        return self._MappingProxyType__m[k]

    def __contains__(self, k):
        return k in self._MappingProxyType__m

    def __len__(self):
        return len(self._MappingProxyType__m)

    def __iter__(self):
        return iter(self._MappingProxyType__m)

    def get(self, k, default=None):
        return self._MappingProxyType__m.get(k, default)

    def keys(self):
        return self._MappingProxyType__m.keys()

    def values(self):
        return self._MappingProxyType__m.values()

    def items(self):
        return self._MappingProxyType__m.items()

    def copy(self):
        return self._MappingProxyType__m.copy()

    def __eq__(self, o):
        if isinstance(o, MappingProxyType):
            o = o._MappingProxyType__m
        return self._MappingProxyType__m == o

    def __or__(self, o):
        return self._MappingProxyType__m | o


def MethodType(f, obj):
    return lambda *a, **k: f(obj, *a, **k)
