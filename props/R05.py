"""Asset lookup resolves environments, versions and inheritance predictably."""
from dataclasses import dataclass
from pathlib import Path

from props import _structured
from symx.api import *

from fairseq2.assets import AssetCardError, AssetMetadataError, AssetNotFoundError, CachedAssetMetadataProvider, StandardAssetStore
from fairseq2.assets.card import AssetCard, StandardAssetConfigLoader
from fairseq2.assets.store import AssetEnvironmentDetector
from fairseq2.utils.config import StandardConfigMerger, StandardConfigProcessor
from fairseq2.utils.structured import StandardValueConverter

OUTSIDE = "which directory an inherited relative path refers to; names with several environment marks"
ASSUMPTIONS = ["in the structured conversion, `type(x)` of a symbolic number is the type it stands for"]

CARDS = ("a", "b", "c")
QUERIES = dict(enumerate([("a", "a", None), ("a@", "a", []), (" a @ dev ", "a", ["dev"]), ("a@user", "a", ["user"]), ("b@dev", "b", ["dev"]), ("a@other", "a", ["other"]), ("c", "c", None), ("b", "b", None), ("", "", None), ("@dev", "", None), ("A", "A", None)]))


def entry(ctx, name, fields):
    out = {}
    for f in fields:
        if ctx.flag(f"{name}.{f}?"):
            out[f] = ctx.int(f"{name}.{f}")
    return out


def resolve(data, name, envs, seen=()):
    """names and fields along the inheritance chain, or the error"""
    if name in seen:
        return "error"
    own = data.get(name + "@")
    if own is None:
        return "error" if seen else "unknown"
    own = dict(own)
    for e in envs:
        if f"{name}@{e}" in data:
            own.update(data[f"{name}@{e}"])
            break
    if own.get("base") is None:
        return [(name, own)]
    rest = resolve(data, own["base"], envs, (*seen, name))
    return rest if isinstance(rest, str) else [(name, own), *rest]


@harness(
    bounds="3 asset names in 1..2 sources, every base graph among them (also to a missing one and to itself), environment entries of two of them, two fields defined or not, lookups with and without an environment",
    labels=["right card", "right fields", "base chain", "unknown name", "broken chain", "sources unchanged"],
    params=lambda tier: [dict(envs=e, query=q, n=n) for n in ((2,) if tier == "quick" else (3, 2)) for e in ("both", "one", "none", "base") for q in QUERIES if q in dict(none=(0, 7), both=(0, 2, 3), one=(0, 1, 5, 6, 8, 9, 10), base=(0, 4, 7))[e]] + [dict(envs="none", query=0, n=3)],
    eager=True,
    max_paths=100000,
)
def lookup(ctx, envs, query, n):
    names = CARDS[:n]
    split = query % 2 == 0
    data = {}
    for x in names:
        if x != "a" and n == 2 and not ctx.flag(f"{x} exists"):
            continue
        data[x + "@"] = {} if x == "c" else entry(ctx, x, ("f", "g") if x == "a" and envs == "none" else ("f",))
        data[x + "@"].update({"g": 7} if x == "c" else {})
        base = ctx.choice(f"{x}.base", [None, *names, "zz"])
        if base:
            data[x + "@"]["base"] = base
    tags = {"none": [], "one": ["a@user"], "both": ["a@user", "a@dev"], "base": ["b@dev"]}[envs]
    for t in tags:
        if ctx.flag(f"{t} exists"):
            data[t] = entry(ctx, t, ("f",))
            base = ctx.choice(f"{t}.base", [None, "b"])
            if base:
                data[t]["base"] = base
    before = {k: dict(v) for k, v in data.items()}
    part = {k: v for k, v in data.items() if k.startswith("a@") and k != "a@dev"} if split else data
    providers = [CachedAssetMetadataProvider("one", part)] + ([CachedAssetMetadataProvider("two", {k: v for k, v in data.items() if k not in part})] if split else [])
    default = ctx.choice("default environment", [None, " dev"] if query == 0 else [("", "dev")[query % 2]])
    store = StandardAssetStore(providers, default_env=default)
    ctx.check(set(store.asset_names) == set(data), "right card", "asset_names")
    text, name, active = QUERIES[query]
    if active is None:
        active = ["user"] + (["dev"] if default and default.strip() else [])
    want = resolve(data, name, active)
    if want == "unknown":
        ctx.raises(AssetNotFoundError, lambda: store.retrieve_card(text), "unknown name")
        ctx.check(store.maybe_retrieve_card(text) is None, "unknown name")
        return
    if want == "error":
        ctx.raises(AssetCardError, lambda: store.retrieve_card(text), "broken chain", f"{text!r} in {data}")
        return
    card = store.retrieve_card(text)
    ctx.check(card.name == name, "right card", text)
    for f in ("f", "g"):
        value = next((m[f] for _, m in want if f in m), None)
        ctx.check(card.has_field(f) == (value is not None), "right fields", f"{text}.{f} in {data}")
        got = card.maybe_get_field(f)
        ctx.check((got is None) == (value is None), "right fields", f"{text}.{f}")
        if value is None:
            ctx.raises(AssetCardError, lambda: card.field(f), "right fields")
        else:
            ctx.eq(got.value, value, "right fields", f"{text}.{f} in {data}")
            ctx.eq(card.field(f).as_(int), value, "right fields", f"{text}.{f}")
            ctx.raises(AssetCardError, lambda: got.as_(str), "right fields", "as str")
    at = card
    for x, own in want:
        ctx.check(at is not None and at.name == x and set(at.metadata) - {"__source__"} == set(own), "base chain", f"{x} of {text}: {at}")
        for k, v in own.items():
            ctx.check(at.metadata[k] == v, "base chain", f"{x}.{k} of {text}")
        at = at.base
    ctx.check(at is None, "base chain", f"{text} has a further base {at}")
    ctx.check(data == before, "sources unchanged")


@harness(
    bounds="2 sources of up to 2 assets out of 3 names with arbitrary field values; every searched value",
    labels=["duplicates rejected", "found by field"],
    params=lambda tier: [{}],
)
def find(ctx):
    one = {f"{x}@": {"f": ctx.int(f"1.{x}")} for x in ("a", "b") if ctx.flag(f"1.{x}?")}
    two = {f"{x}": {"f": ctx.int(f"2.{x}")} for x in ("b@", "c@", "a@dev") if ctx.flag(f"2.{x}?")}
    make = lambda: StandardAssetStore([CachedAssetMetadataProvider("one", one), CachedAssetMetadataProvider("two", two)], default_env="dev")
    if set(one) & set(two):
        ctx.raises(AssetMetadataError, make, "duplicates rejected")
        return
    ctx.raises(AssetMetadataError, lambda: StandardAssetStore([CachedAssetMetadataProvider("x", {"": {}})]), "duplicates rejected", "empty name")
    store = make()
    v = ctx.int("value")
    got = sorted(c.name for c in store.find_cards("f", v))
    ctx.check(len(got) == len(set(got)), "found by field")
    for x in CARDS:
        have = next((d[x + "@dev"] for d in (two,) if x + "@dev" in d and (x + "@" in one or x + "@" in two)), None) or one.get(x + "@") or two.get(x + "@")
        ctx.check((x in got) if have is not None and bool(have["f"] == v) else x not in got, "found by field", f"{x}: {got}")
    ctx.check(list(store.find_cards("h", v)) == [], "found by field")


@dataclass
class Config:
    x: int = 1
    y: float = 0.5
    z: str = "z"


@harness(
    bounds="a chain of up to 3 cards, each overriding any of three configuration fields with arbitrary values, adding nothing or unknown fields",
    labels=["configuration", "rejected", "base untouched"],
    params=lambda tier: [dict(n=n) for n in (3, 2, 1)],
    eager=True,
)
def config(ctx, n):
    loader = StandardAssetConfigLoader(StandardValueConverter(), StandardConfigMerger(), StandardConfigProcessor([]))
    card, chain = None, []
    for i in range(n):
        own = {}
        if ctx.flag(f"{i}.x?"):
            own["x"] = ctx.int(f"{i}.x")
        if ctx.flag(f"{i}.z?"):
            own["z"] = f"z{i}"
        how = ctx.choice(f"{i}", ["given", "absent", "other key"] if i < 2 else ["given", "absent", "unknown", "wrong"])
        if how == "unknown":
            own["w"] = 1
        if how == "wrong":
            own["x"] = "text"
        card = AssetCard(f"card{i}", {} if how == "absent" else {"other" if how == "other key" else "cfg": own}, card)
        chain.append({} if how in ("absent", "other key") else own)
    base = Config(x=ctx.int("x"))
    x0 = base.x
    if how in ("unknown", "wrong"):
        ctx.raises(AssetCardError, lambda: loader.load(card, base, "cfg"), "rejected", how)
        return
    got = loader.load(card, base, "cfg")
    want = {}
    for own in chain:
        want.update(own)
    ctx.check(isinstance(got, Config), "configuration")
    ctx.eq(got.x, want.get("x", x0), "configuration", f"x from {chain}")
    ctx.check(got.y == 0.5 and got.z == want.get("z", "z"), "configuration", f"z from {chain}")
    ctx.eq(base.x, x0, "base untouched")
    ctx.check(base.y == 0.5 and base.z == "z", "base untouched")


@harness(
    bounds="up to 3 environment resolvers with or without a result",
    labels=["first environment"],
    params=lambda tier: [{}],
)
def environment(ctx):
    asked, names = [], [ctx.choice(f"{i}", [None, f"e{i}", ""]) for i in range(ctx.choice("n", [0, 1, 2, 3]))]

    def resolver(i):
        def call(r):
            asked.append((i, r))
            return names[i]

        return call

    got = AssetEnvironmentDetector([resolver(i) for i in range(len(names))], "R").detect()
    ctx.check(got == next((x for x in names if x is not None), None), "first environment", f"{got} of {names}")
    ctx.check(all(r == "R" for _, r in asked), "first environment")
