"""The directory order seam: os.scandir / os.listdir give the entries of a
folder in the order the simulator decides (os.walk, glob and pathlib all go
through them)."""
import os

REAL_SCANDIR = os.scandir
REAL_LISTDIR = os.listdir


class Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Order:
    """root: folder to which the seam applies; shuffle(path, names) -> names"""

    def __init__(self, root, arrange=None, fail=None):
        self.root = str(root)
        self.arrange = arrange
        self.fail = fail
        self.asked = 0

    def mine(self, path):
        return str(path).startswith(self.root)

    def names(self, path, names):
        names = sorted(names)
        self.asked += 1
        return self.arrange(str(path), names) if self.arrange else names

    def scandir(self, path="."):
        if isinstance(path, (int, bytes)) or not self.mine(path):
            return REAL_SCANDIR(path)
        if self.fail:
            self.fail(str(path))
        with REAL_SCANDIR(path) as it:
            es = {e.name: e for e in it}
        return Scan([es[n] for n in self.names(path, es)])

    def listdir(self, path="."):
        if isinstance(path, (int, bytes)) or not self.mine(path):
            return REAL_LISTDIR(path)
        if self.fail:
            self.fail(str(path))
        return self.names(path, REAL_LISTDIR(path))

    def __enter__(self):
        os.scandir, os.listdir = self.scandir, self.listdir
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = REAL_SCANDIR, REAL_LISTDIR
        return False


def scratch(kind):
    """a scratch folder of this process whose path always looks the same"""
    pid = os.getpid()
    name = ""
    for _ in range(8):
        name += chr(97 + pid % 16)
        pid //= 16
    base = os.environ.get("TMPDIR", "/tmp")
    d = os.path.join(base, "verif-%s-%s" % (kind, name))
    if os.path.exists(d):
        import shutil
        shutil.rmtree(d)
    os.mkdir(d, 0o700)
    return d
