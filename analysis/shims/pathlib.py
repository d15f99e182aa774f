import os
import posixpath


class PurePath:
    def __init__(self, *parts):
        parts = [os.fspath(p) for p in parts]
        self._p = posixpath.join(*parts) if parts else "."

    def __truediv__(self, o):
        return type(self)(self._p, o)

    def __rtruediv__(self, o):
        return type(self)(o, self._p)

    def joinpath(self, *o):
        return type(self)(self._p, *o)

    def __fspath__(self):
        return self._p

    def __str__(self):
        return self._p

    as_posix = __str__

    def __eq__(self, o):
        return isinstance(o, PurePath) and self._p == o._p

    def __hash__(self):
        return hash(self._p)

    @property
    def name(self):
        return posixpath.basename(self._p)

    @property
    def parent(self):
        return type(self)(posixpath.dirname(self._p) or ".")

    @property
    def suffix(self):
        return posixpath.splitext(self._p)[1]

    @property
    def stem(self):
        return posixpath.splitext(posixpath.basename(self._p))[0]

    def with_suffix(self, s):
        return type(self)(posixpath.splitext(self._p)[0] + s)

    @property
    def parts(self):
        return tuple((["/"] if self._p.startswith("/") else []) + [x for x in self._p.split("/") if x not in ("", ".")])

    def is_absolute(self):
        return self._p.startswith("/")


class Path(PurePath):
    @classmethod
    def cwd(cls):
        return cls(os.getcwd())

    def exists(self):
        return os.path.exists(self._p)

    def is_file(self):
        return os.path.isfile(self._p)

    def is_dir(self):
        return os.path.isdir(self._p)

    def open(self, mode="r", *a, **k):
        return open(self._p, mode, *a, **k)

    def read_text(self, *a, **k):
        with open(self._p, "r") as f:
            return f.read()

    def read_bytes(self):
        with open(self._p, "rb") as f:
            return f.read()

    def write_text(self, data, *a, **k):
        with open(self._p, "w") as f:
            return f.write(data)

    def write_bytes(self, data):
        with open(self._p, "wb") as f:
            return f.write(data)

    def unlink(self, missing_ok=False):
        os.remove(self._p)


PosixPath = Path
PurePosixPath = PurePath
