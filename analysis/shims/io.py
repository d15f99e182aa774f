class BytesIO:
    def __init__(self, initial=b""):
        self._b = bytes(initial)
        self._p = 0

    def write(self, data):
        data = bytes(data)
        if self._p == len(self._b):
            self._b = self._b + data
        else:
            self._b = self._b[: self._p] + data + self._b[self._p + len(data):]
        self._p += len(data)
        return len(data)

    def read(self, n=-1):
        if n is None or n < 0:
            r = self._b[self._p:]
        else:
            r = self._b[self._p: self._p + n]
        self._p += len(r)
        return r

    def getvalue(self):
        return self._b

    def getbuffer(self):
        return memoryview(self._b)

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self._p
        elif whence == 2:
            pos += len(self._b)
        self._p = pos
        return pos

    def tell(self):
        return self._p

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class StringIO:
    def __init__(self, initial="", newline=None):
        self._s = initial
        self._p = 0

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError("string argument expected")
        if self._p == len(self._s):
            self._s = self._s + text
        else:
            self._s = self._s[: self._p] + text + self._s[self._p + len(text):]
        self._p += len(text)
        return len(text)

    def read(self, n=-1):
        if n is None or n < 0:
            r = self._s[self._p:]
        else:
            r = self._s[self._p: self._p + n]
        self._p += len(r)
        return r

    def getvalue(self):
        return self._s

    def seek(self, pos, whence=0):
        if whence == 2:
            pos += len(self._s)
        self._p = pos
        return pos

    def tell(self):
        return self._p

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
