"""The storage seam: file objects whose bytes, read sizes and failures are
decided by the simulator."""
import errno
import io

ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES,
       "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE, "EISDIR": errno.EISDIR,
       "ESTALE": errno.ESTALE, "EDQUOT": errno.EDQUOT}


def oserror(name, path=None):
    import os
    e = ERR[name]
    return OSError(e, os.strerror(e), path)


class RawReader(io.RawIOBase):
    """serves `data`; `cuts` limit single reads; fails with `err` once `at`
    bytes have been served, or ends there (err None)"""

    def __init__(self, data, at=None, err=None, chunk=None, log=None, name=""):
        self.data, self.at, self.err = data, at, err
        self.chunk = chunk
        self.pos = 0
        self.log = log if log is not None else []
        self.name = name

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b)
        if self.chunk:
            n = min(n, self.chunk)
        end = len(self.data)
        if self.at is not None:
            end = min(end, self.at)
        if self.pos >= end:
            if self.at is not None and self.at <= len(self.data):
                if self.err == "interrupt":
                    self.log.append("interrupt during read")
                    raise KeyboardInterrupt()
                if self.err:
                    self.log.append("%s on read" % self.err)
                    raise oserror(self.err, self.name)
                if self.at < len(self.data):
                    self.log.append("cut")
            return 0
        n = min(n, end - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def reader(data, mode="r", **k):
    raw = RawReader(data, **k)
    f = io.BufferedReader(raw, buffer_size=k.get("chunk") or 8192)
    if "b" in mode:
        return f
    return io.TextIOWrapper(f, encoding="utf-8")


class RawWriter(io.RawIOBase):
    """keeps what was durably written in `store`; after `at` bytes writes fail
    with err; `short` limits single writes; close may fail, too"""

    def __init__(self, store, at=None, err="ENOSPC", short=None, log=None, close_err=None,
                 name=""):
        self.store, self.at, self.err, self.short = store, at, err, short
        self.log = log if log is not None else []
        self.close_err = close_err
        self.name = name

    def writable(self):
        return True

    def write(self, b):
        n = len(b)
        if self.short:
            n = min(n, self.short)
            if n < len(b):
                self.log.append("short write")
        if self.at is not None:
            left = self.at - len(self.store)
            if left <= 0:
                if self.err == "interrupt":
                    self.log.append("interrupt during write")
                    self.at = None
                    raise KeyboardInterrupt()
                self.log.append("%s on write" % self.err)
                raise oserror(self.err, self.name)
            n = min(n, left)
        self.store += bytes(b[:n])
        return n

    def close(self):
        if not self.closed:
            super().close()
            if self.close_err:
                self.log.append("%s on close" % self.close_err)
                raise oserror(self.close_err, self.name)


def writer(store, mode="w", buffer=64, **k):
    raw = RawWriter(store, **k)
    f = io.BufferedWriter(raw, buffer_size=buffer)
    if "b" in mode:
        return f
    return io.TextIOWrapper(f, encoding="utf-8")


class Storage:
    """while active, every open() of a path under `root` (a string prefix) goes
    to opener(path, mode, real) wherever it comes from (builtins, io, pathlib)"""

    def __init__(self, root, opener):
        self.root, self.opener = root, opener

    def __enter__(self):
        import builtins
        self.real = builtins.open

        def sim_open(file, mode="r", *a, **k):
            try:
                path = file if isinstance(file, int) else __import__("os").fspath(file)
            except TypeError:
                path = None
            if isinstance(path, str) and path.startswith(self.root):
                f = self.opener(path, mode, lambda: self.real(file, mode, *a, **k))
                if f is not None:
                    return f
            return self.real(file, mode, *a, **k)
        self.b, self.i = builtins.open, io.open
        builtins.open = io.open = sim_open
        return self

    def __exit__(self, *a):
        import builtins
        builtins.open, io.open = self.b, self.i
        return False


class FileWriter(io.RawIOBase):
    """a raw file whose writes go to a real file of the scratch folder, as far
    as the simulator lets them: `at` bytes fit (then `err`, for ever or once),
    `short` limits single writes, closing may fail"""

    def __init__(self, path, mode="w", at=None, err="ENOSPC", once=False, short=None, log=None,
                 close_err=None):
        import os
        flags = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if "a" in mode else os.O_TRUNC)
        if "x" in mode:
            flags |= os.O_EXCL
        self.fd = os.open(path, flags, 0o600)
        self.path, self.at, self.err, self.once = path, at, err, once
        self.short, self.close_err = short, close_err
        self.log = log if log is not None else []
        self.n = 0
        self.name = path

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def write(self, b):
        import os
        n = len(b)
        if self.short and n > self.short:
            n = self.short
            self.log.append("short write")
        if self.at is not None:
            left = self.at - self.n
            if left <= 0:
                if self.once:
                    self.at = None
                if self.err == "interrupt":
                    self.log.append("interrupt during write")
                    self.at = None
                    raise KeyboardInterrupt()
                self.log.append("%s on write" % self.err)
                raise oserror(self.err, self.path)
            n = min(n, left)
        n = os.write(self.fd, bytes(b[:n]))
        self.n += n
        return n

    def close(self):
        import os
        if not self.closed:
            super().close()
            os.close(self.fd)
            if self.close_err:
                self.log.append("%s on close" % self.close_err)
                raise oserror(self.close_err, self.path)


def file_writer(path, mode="w", buffer=64, **k):
    f = io.BufferedWriter(FileWriter(path, mode, **k), buffer_size=buffer)
    if "b" in mode:
        return f
    return io.TextIOWrapper(f, encoding="utf-8")
