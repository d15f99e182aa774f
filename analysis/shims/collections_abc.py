class Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True

    def __eq__(self, other):
        if not _is_mapping(other):
            return NotImplemented
        return dict(self.items()) == dict(other.items())


class MutableMapping(Mapping):
    _mark = object()

    def pop(self, key, default=_mark):
        try:
            value = self[key]
        except KeyError:
            if default is MutableMapping._mark:
                raise
            return default
        else:
            del self[key]
            return value

    def popitem(self):
        try:
            key = next(iter(self))
        except StopIteration:
            raise KeyError from None
        value = self[key]
        del self[key]
        return key, value

    def clear(self):
        try:
            while True:
                self.popitem()
        except KeyError:
            pass

    def update(self, other=(), /, **kwds):
        if hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class Sequence:
    def __iter__(self):
        i = 0
        try:
            while True:
                v = self[i]
                yield v
                i += 1
        except IndexError:
            return

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]

    def index(self, value, start=0, stop=None):
        i = start
        for v in list(self)[start:stop]:
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum(1 for v in self if v is value or v == value)


class MutableSequence(Sequence):
    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass

    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]

    def extend(self, values):
        for v in list(values):
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class Iterator:
    def __iter__(self):
        return self


class Set:
    def __le__(self, other):
        return len(self) <= len(other) and all(x in other for x in self)

    def __ge__(self, other):
        return len(self) >= len(other) and all(x in self for x in other)

    def __eq__(self, other):
        return len(self) == len(other) and self.__le__(other)

    def isdisjoint(self, other):
        return not any(x in self for x in other)


class MutableSet(Set):
    def remove(self, value):
        if value not in self:
            raise KeyError(value)
        self.discard(value)

    def clear(self):
        for x in list(self):
            self.discard(x)


class Generator(Iterator):
    def __next__(self):
        return self.send(None)


def _is_mapping(o):
    return isinstance(o, dict) or hasattr(o, "keys") and hasattr(o, "items") and hasattr(o, "__getitem__")
