"""File handles with explicit buffering over a primitive store; used by both worlds so that the numbering of
mutating operations (crash points) is the same.  The store is an in-memory file system of symbolic text
(symbolic world) or real files under a scratch directory (concrete world)."""


class Handle:
    """text file; unflushed writes live only in this object and are lost when the process dies"""

    def __init__(self, w, path, mode="r", encoding=None, newline=None, errors=None, binary=False):
        self.w, self.name, self.mode, self.closed = w, path, mode, False
        self.encoding = None if binary else encoding or "utf-8"
        self.errors = errors
        self.binary = binary
        self.newline = newline
        if newline not in (None, "", "\n", "\r", "\r\n"):
            raise ValueError("illegal newline value: %s" % (newline,))
        self.buf = []
        self.iterating = False
        st = w.store
        kind = mode.replace("b", "").replace("t", "")
        self.kind = kind[0]
        self.can_read = self.kind == "r" or "+" in kind
        self.can_write = self.kind != "r" or "+" in kind
        if kind not in ("r", "w", "a", "x", "r+", "w+", "a+", "x+"):
            raise ValueError("invalid mode: %r" % mode)
        if st.isdir(path):
            raise IsADirectoryError(21, "Is a directory", path)
        w.fault("open", path)
        if self.kind == "r":
            if not st.exists(path):
                raise FileNotFoundError(2, "No such file or directory", path)
            self.pos = 0
        else:
            if not st.isdir(w.dirname(path)):
                raise FileNotFoundError(2, "No such file or directory", path)
            if self.kind == "x" and st.exists(path):
                raise FileExistsError(17, "File exists", path)
            if self.kind in "wx":
                w.mutate("truncate", path)
                st.truncate(path)
                self.pos = 0
            else:
                if not st.exists(path):
                    w.mutate("create", path)
                    if not st.exists(path):         # another process may have created it meanwhile
                        st.truncate(path)
                self.pos = st.size(path)
        w.open_handles.append(self)
        w.trace(("open", path, mode))

    # -- helpers
    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def flush(self):
        self._chk()
        if not self.buf:
            return
        data = self.w.concat(self.buf)
        self.w.before_flush(self, data)
        self.buf = []
        st = self.w.store
        n = st.length(data, self.encoding)
        if self.kind == "a":
            st.append(self.name, data, self.encoding)
            self.pos = self.pos + n
        else:
            st.write_at(self.name, self.pos, data, self.encoding)
            self.pos = self.pos + n
        self.w.trace(("flush", self.name))

    def write(self, s):
        self._chk()
        if not self.can_write:
            raise self.w.UnsupportedOperation("not writable")
        if self.w.is_str(s) and self.binary:
            raise TypeError("a bytes-like object is required, not 'str'")
        if not self.w.is_str(s) and not self.binary:
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        if self.w.text_len(s):
            self.buf.append(s.replace("\n", self.newline) if self.newline in ("\r", "\r\n") and not self.binary else s)
        self.w.trace(("write", self.name))
        return self.w.text_len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self, n=-1):
        self._rd()
        if n is None or n < 0:
            end = self.w.store.size(self.name)
            data = self.w.store.read_from(self.name, self.pos, self.encoding, self.newline, self.errors)
            self.pos = max(self.pos, end)
            return data
        data = self.w.store.read_from(self.name, self.pos, self.encoding, self.newline, self.errors)
        data = data[:n]
        self.pos = self.w.store.advance(self.name, self.pos, data, self.encoding)
        return data

    def _rd(self):
        self._chk()
        if not self.can_read:
            raise self.w.UnsupportedOperation("not readable")
        self.w.fault("read", self.name)
        self.flush()

    def readline(self, limit=-1):
        self._rd()
        data, self.pos = self.w.store.line_from(self.name, self.pos, self.encoding, self.newline, self.errors)
        return data

    def readlines(self, hint=-1):
        out = []
        while True:
            x = self.readline()
            if not self.w.text_len(x):
                return out
            out.append(x)

    def __iter__(self):
        return self

    def __next__(self):
        self.iterating = True
        x = self.readline()
        if not self.w.text_len(x):
            self.iterating = False
            raise StopIteration
        return x

    def tell(self):
        self._chk()
        if self.iterating and not self.binary:
            raise OSError("telling position disabled by next() call")
        self.flush()
        return self.pos

    def seek(self, off, whence=0):
        self._chk()
        self.flush()
        self.iterating = False
        if whence == 0:
            if off < 0:
                raise ValueError("negative seek position %r" % (off,))
            self.pos = off
        elif self.binary:
            self.pos = max(0, off + (self.pos if whence == 1 else self.w.store.size(self.name)))
        elif whence == 1:
            if off != 0:
                raise self.w.UnsupportedOperation("can't do nonzero cur-relative seeks")
        else:
            if off != 0:
                raise self.w.UnsupportedOperation("can't do nonzero end-relative seeks")
            self.pos = self.w.store.size(self.name)
        self.w.trace(("seek", self.name, off, whence))
        return self.pos

    def truncate(self, size=None):
        self.flush()
        self.w.mutate("truncate", self.name)
        self.w.store.cut(self.name, self.pos if size is None else size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            self.closed = True
            if self in self.w.open_handles:
                self.w.open_handles.remove(self)
            self.w.locks.drop(self)
            self.w.trace(("close", self.name))

    def fileno(self):
        return FD(self)

    def isatty(self): return False
    def readable(self): return self.can_read
    def writable(self): return self.can_write
    def seekable(self): return True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def abandon(self):
        """process death"""
        self.closed = True
        self.buf = []
        self.w.locks.drop(self)


class FD(int):
    def __new__(cls, h):
        r = int.__new__(cls, 1000)
        r.h = h
        return r
