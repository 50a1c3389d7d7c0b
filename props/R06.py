"""Asset metadata sources are loaded completely and duplicates are rejected."""
from pathlib import Path

from symx.api import *

from fairseq2.assets import AssetMetadataError, InMemoryAssetMetadataSource, load_in_memory_asset_metadata
from fairseq2.assets.metadata_provider import (
    AssetSourceNotFoundError,
    FileAssetMetadataSource,
    PackageAssetMetadataSource,
    StandardFileAssetMetadataLoader,
    StandardPackageAssetMetadataLoader,
    WellKnownAssetMetadataSource,
    YamlAssetMetadataFileLoader,
)
from fairseq2.utils.yaml import YamlError

OUTSIDE = "the YAML parser itself (entries are what it produces); files that appear or change while a directory is read"
ASSUMPTIONS = ["the file system lists each file of a directory tree once"]

NAMES = {"a": "a@", " a ": "a@", "b": "b@", "b @ x ": "b@x", "b@x": "b@x", "a@y@z": None, "@x": None, " ": None, "": None, None: None, 3: None, "no": None}
BASES = {None: None, "a": "a", " b ": "b", "b@x": "", " ": "", 5: "", "": ""}


def entry(ctx, name, few):
    """an asset entry as written, and what it must become ('' if it is invalid)"""
    out = {}
    n = ctx.choice(name + ".name", {0: list(NAMES), 1: ["a", " a ", "b @ x ", "a@y@z", "no"], 2: ["a", " a ", "b", "b@x"]}[few])
    if n != "no":
        out["name"] = n
    b = ctx.choice(name + ".base", {0: list(BASES), 1: [None, " b ", "b@x"], 2: [None, " b "]}[few])
    if b is not None:
        out["base"] = b
    if few == 2 or ctx.flag(name + ".f?"):
        out["f"] = ctx.int(name + ".f")
    out["g"] = {"list": [ctx.int(name + ".g")]}
    want = None
    if NAMES[n] is not None and BASES[b] != "":
        want = (NAMES[n], {**{k: v for k, v in out.items() if k not in ("name", "base")}, **({"base": BASES[b]} if b is not None else {})})
    return out, want


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    return [copy(v) for v in x] if isinstance(x, list) else x


def verify(ctx, provider, wants, source):
    ctx.check(provider.source == source, "entries", f"source {provider.source}")
    ctx.check(set(provider.asset_names) == {n for n, _, _ in wants}, "entries", f"{set(provider.asset_names)}")
    ctx.check(provider.maybe_get_metadata("zz@") is None, "entries")
    for n, own, where in wants:
        got = provider.maybe_get_metadata(n)
        ctx.check(got.pop("__base_path__", None) == where, "directory of the file", n)
        ctx.check(set(got) == set(own), "entries", f"{n}: {sorted(got)} instead of {sorted(own)}")
        for k in own:
            if k == "g":
                ctx.eq(got["g"]["list"][0], own["g"]["list"][0], "entries", f"{n}.g")
            else:
                ctx.check(got[k] == own[k], "entries", f"{n}.{k}")
        # what a caller does to its copy reaches nobody else
        got["g"]["list"].append(1)
        got["f"] = got["h"] = "leak"
        again = provider.maybe_get_metadata(n)
        ctx.check("h" not in again and len(again["g"]["list"]) == 1 and ("f" in again) == ("f" in own), "copies are independent", n)


class Yaml:
    def __init__(self, files):
        self.files = files

    def load(self, path):
        v = self.files[str(path)]
        if isinstance(v, Exception):
            raise v
        return copy(v)


class Files:
    """a directory tree"""

    def __init__(self, files, dirs):
        self.files, self.dirs = files, dirs

    def resolve(self, path):
        return path

    def is_dir(self, path):
        return str(path) in self.dirs

    def walk_directory(self, path, *, on_error):
        for d in self.dirs:
            if (d + "/").startswith(f"{path}/"):
                yield d, [f.rsplit("/", 1)[1] for f in self.files if f.rsplit("/", 1)[0] == d]


class Lister:
    def __init__(self, files):
        self.files = files

    def list(self, package, source):
        return [Path(f) for f in self.files]


SHAPES = {"one": [["/d/x.yaml", "/d/x.yaml"]], "two": [["/d/x.yaml", "/d/s/y.yml"]], "other": [["/d/x.yaml", "/d/n.txt"]]}


@harness(
    bounds="one entry with every kind of name and base and arbitrary fields, then a second valid one; in memory, in one file, in two files of a directory tree, in a package",
    labels=["entries", "directory of the file", "copies are independent", "invalid rejected", "duplicate rejected", "loaded again"],
    params=lambda tier: [dict(where=w, shape=s) for w in ("memory", "file", "directory", "package") for s in (["one"] if w in ("memory", "file") else list(SHAPES))],
    eager=True,
)
def load(ctx, where, shape):
    two = ctx.flag("two")
    e1, w1 = entry(ctx, "first", int(two))
    e2, w2 = entry(ctx, "second", 2) if two else (None, None)
    order = [e1] if e2 is None else [e1, e2]
    if e2 is not None and ctx.flag("swapped"):
        order.reverse()
    before = copy(order)
    f1, f2 = SHAPES[shape][0]
    files = {f1: [], f2: []} if where != "memory" else {}
    if where != "memory":
        for i, e in enumerate(order):
            files[(f1, f2)[i]].append(e)
        files.setdefault("/d/readme.md", ["not metadata"])
    yaml = YamlAssetMetadataFileLoader(Yaml(files))
    if where == "memory":
        source, make = "mem", lambda: list(InMemoryAssetMetadataSource("mem", order).load())
    elif where == "file":
        source, make = "path:/d/x.yaml", lambda: list(FileAssetMetadataSource(Path("/d/x.yaml"), StandardFileAssetMetadataLoader(Files(files, []), yaml), False).load())
    elif where == "directory":
        source, make = "path:/d", lambda: list(FileAssetMetadataSource(Path("/d"), StandardFileAssetMetadataLoader(Files(files, ["/d", "/d/s"]), yaml), False).load())
    else:
        source, make = "package:p", lambda: list(PackageAssetMetadataSource("p", StandardPackageAssetMetadataLoader(Lister(files), yaml)).load())
    wants = []
    for i, e in enumerate(order):
        file = None if where == "memory" else (f1, f2)[i]
        if file and not file.endswith((".yaml", ".yml")):
            continue
        w = w1 if e is e1 else w2
        if w is None:
            ctx.raises(AssetMetadataError, make, "invalid rejected", repr(e))
            return
        wants.append((*w, Path(file).parent if file else None))
    if len({n for n, _, _ in wants}) < len(wants):
        ctx.raises(AssetMetadataError, make, "duplicate rejected", f"{wants}")
        return
    (provider,) = make()
    verify(ctx, provider, wants, source)
    ctx.check(all(set(a) == set(b) for a, b in zip(order, before)), "loaded again", f"the entries given were changed: {order} instead of {before}")
    (provider,) = make()
    verify(ctx, provider, wants, source)
    ctx.check(True, "loaded again")


@harness(
    bounds="every kind of broken or missing file, file and well-known sources, system and user directory present or not",
    labels=["broken file", "missing source", "well-known sources"],
    params=lambda tier: [{}],
)
def broken(ctx):
    kind = ctx.choice("kind", ["yaml", "not a mapping", "missing", "system error"])
    content = {"yaml": YamlError("x"), "not a mapping": [{"name": "a"}, ["b"]], "missing": FileNotFoundError(2, "x"), "system error": PermissionError(13, "x")}[kind]
    files = {"/u/x.yaml": content, "/s/y.yaml": [{"name": "s"}]}
    loader = StandardFileAssetMetadataLoader(Files(files, ["/s"]), YamlAssetMetadataFileLoader(Yaml(files)))
    make = lambda ok: list(FileAssetMetadataSource(Path("/u/x.yaml"), loader, ok).load())
    if kind == "missing":
        ctx.raises(AssetSourceNotFoundError, lambda: make(False), "missing source")
        ctx.check(make(True) == [], "missing source")
    elif kind == "system error":
        try:
            make(True)
            ctx.fail("broken file", "no error")
        except Exception as ex:
            ctx.check(not isinstance(ex, AssetSourceNotFoundError), "broken file", repr(ex))
    else:
        ctx.raises(AssetMetadataError, lambda: make(True), "broken file")

    class Dirs:
        def maybe_get_system_dir(self):
            return system

        def maybe_get_user_dir(self):
            return user

    system = ctx.choice("system", [None, Path("/s"), Path("/u/x.yaml")])
    user = ctx.choice("user", [None, Path("/s"), Path("/u/x.yaml")])
    try:
        got = [p.source for p in WellKnownAssetMetadataSource(Dirs(), loader).load()]
    except Exception as ex:
        ctx.check(kind != "missing" and Path("/u/x.yaml") in (system, user), "well-known sources", repr(ex))
        return
    ctx.check(got == [f"path:{d}" for d in (system, user) if d == Path("/s")], "well-known sources", f"{got}")
    ctx.check(kind == "missing" or Path("/u/x.yaml") not in (system, user), "well-known sources")
