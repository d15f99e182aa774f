class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class ContextDecorator:
    def __call__(self, f):
        def inner(*a, **k):
            with self._recreate_cm():
                return f(*a, **k)

        return inner

    def _recreate_cm(self):
        return self


class _Gen(ContextDecorator):
    def __init__(self, f, a, k):
        self.make = (f, a, k)
        self.gen = f(*a, **k)

    def _recreate_cm(self):
        return _Gen(*self.make)

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield") from None

    def __exit__(self, typ, value, tb):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration as e:
            return e is not value
        except BaseException as e:
            if e is not value:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(f):
    def helper(*a, **k):
        return _Gen(f, a, k)

    helper.__name__ = f.__name__
    helper.__wrapped__ = f
    return helper


class closing(AbstractContextManager):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class nullcontext(AbstractContextManager):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result


class redirect_stdout(nullcontext):
    pass


class redirect_stderr(nullcontext):
    pass


class suppress(AbstractContextManager):
    def __init__(self, *classes):
        self.classes = classes

    def __exit__(self, typ, value, tb):
        return typ is not None and isinstance(value, self.classes)


class ExitStack(AbstractContextManager):
    def __init__(self):
        self._todo = []

    def enter_context(self, cm):
        r = cm.__enter__()
        self._todo.append(lambda t, v, tb: cm.__exit__(t, v, tb))
        return r

    def push(self, cm):
        if hasattr(cm, "__exit__"):
            self._todo.append(lambda t, v, tb: cm.__exit__(t, v, tb))
        else:
            self._todo.append(cm)
        return cm

    def callback(self, f, *a, **k):
        def cb(t, v, tb):
            f(*a, **k)
            return False

        self._todo.append(cb)
        return f

    def pop_all(self):
        n = ExitStack()
        n._todo = self._todo
        self._todo = []
        return n

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, tb):
        had = typ is not None
        pending = value
        while self._todo:
            f = self._todo.pop()
            try:
                if f(type(pending) if pending is not None else None, pending, None):
                    pending = None
            except BaseException as e:
                pending = e
        if pending is not None and pending is not value:
            raise pending
        return had and pending is None
