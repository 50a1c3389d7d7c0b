"""In-memory file system whose every primitive operation can be the crash or fault point."""

from __future__ import annotations

import fnmatch
import io
from contextlib import contextmanager
from errno import EEXIST, ENOENT, ENOTEMPTY
from pathlib import Path

from fairseq2.file_system import FileMode, FileSystem


class Crash(BaseException):
    """the process ends here"""


class MemFS(FileSystem):
    """
    ``nodes``: path -> content (file) or None (directory). ``hook(n, op, path)`` is called before the
    n-th primitive mutation and may raise (crash or OSError). Composite operations (directory removal,
    writing a file) consist of several primitives, like on a real disk; a rename is one.
    """

    def __init__(self, local=True):
        self.nodes = {"/": None}
        self.n = 0
        self.hook = None
        self.trace = []
        self.local = local

    # -- primitives
    def _op(self, op, path):
        self.n += 1
        if self.hook is not None:
            self.hook(self.n, op, str(path))
        self.trace.append((op, str(path)))

    @staticmethod
    def _k(path):
        return "/" + str(path).strip("/") if str(path) != "/" else "/"

    def _parent(self, k):
        return k.rsplit("/", 1)[0] or "/"

    def _children(self, k):
        pre = k.rstrip("/") + "/"
        return sorted(p for p in self.nodes if p.startswith(pre) and "/" not in p[len(pre) :])

    def _missing(self, path):
        raise FileNotFoundError(ENOENT, "No such file or directory", str(path))

    # -- interface
    def is_file(self, path):
        k = self._k(path)
        return k in self.nodes and self.nodes[k] is not None

    def is_dir(self, path):
        k = self._k(path)
        return k in self.nodes and self.nodes[k] is None

    def exists(self, path):
        return self._k(path) in self.nodes

    def put(self, path, content):
        """creates/truncates, then fills: two primitives"""
        k = self._k(path)
        if self._parent(k) not in self.nodes:
            self._missing(path)
        self._op("create", path)
        self.nodes[k] = Partial()
        self._op("write", path)
        self.nodes[k] = content

    def get(self, path):
        k = self._k(path)
        if k not in self.nodes or self.nodes[k] is None:
            self._missing(path)
        return self.nodes[k]

    def open(self, path, mode=FileMode.READ):
        raise NotImplementedError()

    def cat(self, path):
        return self.get(path)

    def open_text(self, path, mode=FileMode.READ):
        if mode == FileMode.READ:
            c = self.get(path)
            return io.StringIO("" if isinstance(c, Partial) else c)
        fs = self

        class W(io.StringIO):
            def close(self):
                if not self.closed:
                    fs._op("write", path)
                    fs.nodes[fs._k(path)] = self.getvalue()
                super().close()

        k = self._k(path)
        if self._parent(k) not in self.nodes:
            self._missing(path)
        self._op("create", path)
        self.nodes[k] = Partial()
        return W()

    def move(self, old_path, new_path):
        a, b = self._k(old_path), self._k(new_path)
        if a not in self.nodes:
            self._missing(old_path)
        if self._parent(b) not in self.nodes:
            self._missing(new_path)
        if b in self.nodes:
            if self.nodes[a] is None and (self.nodes[b] is not None or self._children(b)):
                raise OSError(ENOTEMPTY, "Directory not empty", str(new_path))
        self._op("move", f"{old_path} -> {new_path}")
        self.nodes.pop(b, None)
        for p in [p for p in self.nodes if p == a or p.startswith(a + "/")]:
            self.nodes[b + p[len(a) :]] = self.nodes.pop(p)

    def remove(self, path):
        k = self._k(path)
        if k not in self.nodes or self.nodes[k] is None:
            self._missing(path)
        self._op("remove", path)
        del self.nodes[k]

    def make_directory(self, path):
        k = self._k(path)
        todo = []
        while k not in self.nodes:
            todo.append(k)
            k = self._parent(k)
        if self.nodes[k] is not None:
            raise FileExistsError(EEXIST, "File exists", str(path))
        for k in reversed(todo):
            self._op("mkdir", k)
            self.nodes[k] = None

    def remove_directory(self, path):
        k = self._k(path)
        if not self.is_dir(path):
            self._missing(path)
        for c in self._children(k):
            if self.nodes[c] is None:
                self.remove_directory(Path(c))
            else:
                self.remove(Path(c))
        self._op("rmdir", path)
        del self.nodes[k]

    def copy_directory(self, source_path, target_path):
        self.make_directory(target_path)
        for c in self._children(self._k(source_path)):
            t = Path(target_path) / c.rsplit("/", 1)[1]
            if self.nodes[c] is None:
                self.copy_directory(Path(c), t)
            else:
                self.put(t, self.nodes[c])

    def copy_from_local(self, local_path, remote_path):
        raise NotImplementedError()

    def glob(self, path, pattern):
        for c in self._children(self._k(path)):
            if fnmatch.fnmatchcase(c.rsplit("/", 1)[1], pattern):
                yield Path(c)

    def walk_directory(self, path, *, on_error):
        k = self._k(path)
        if k not in self.nodes:
            if on_error is not None:
                on_error(FileNotFoundError(ENOENT, "No such file or directory", str(path)))
            return
        cs = self._children(k)
        yield str(path), [c.rsplit("/", 1)[1] for c in cs if self.nodes[c] is not None]
        for c in cs:
            if self.nodes[c] is None:
                yield from self.walk_directory(Path(c), on_error=on_error)

    @contextmanager
    def tmp_directory(self, base_dir):
        i = 0
        while self.exists(Path(base_dir) / f"tmp{i}"):
            i += 1
        p = Path(base_dir) / f"tmp{i}"
        self.make_directory(p)
        try:
            yield p
        finally:
            if self.exists(p):
                self.remove_directory(p)

    def resolve(self, path):
        return Path(self._k(path))

    @property
    def is_local(self):
        return self.local

    def snapshot(self):
        c = MemFS(self.local)
        c.nodes = dict(self.nodes)
        return c


class Partial:
    """a file that was created but not completely written"""
