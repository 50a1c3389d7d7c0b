"""Configuration overrides change exactly what they name."""
import argparse
import copy

from symx.api import *

from fairseq2.utils.argparse import ConfigAction
from fairseq2.utils.config import ReplaceEnvDirective, ReplacePathDirective, StandardConfigMerger, StandardConfigProcessor
from pathlib import PurePosixPath

OUTSIDE = "key paths on one command line of which one is a prefix of another or that are both set and deleted (their order is not documented); reading of the YAML file itself"
ASSUMPTIONS = []

KEYS = ("a", "b")
ABSENT = object()


def plain(x):
    """deep copy without sharing"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, list) else x


def same(ctx, a, b, label, detail):
    """equal structures with equal scalars, in the same types"""
    if isinstance(a, dict) or isinstance(b, dict) or isinstance(a, list) or isinstance(b, list):
        ctx.check(type(a) is type(b), label, detail)
        if isinstance(a, dict):
            ctx.check(set(a) == set(b), label, f"{detail}: {sorted(a)} instead of {sorted(b)}")
            for k in a:
                same(ctx, a[k], b[k], label, f"{detail}.{k}")
        else:
            ctx.check(len(a) == len(b), label, detail)
            for x, y in zip(a, b):
                same(ctx, x, y, label, detail)
    elif a is None or b is None or isinstance(a, str) or isinstance(b, str):
        ctx.check(type(a) is type(b) and a == b, label, detail)
    else:
        ctx.eq(a, b, label, detail)


def config(ctx, name, depth):
    out = {}
    for k in KEYS:
        kind = ctx.choice(f"{name}.{k}", ["absent", "scalar", "map"] if depth > 1 else ["absent", "scalar"])
        if kind == "scalar":
            out[k] = ctx.int(f"{name}.{k}=")
        elif kind == "map":
            out[k] = config(ctx, f"{name}.{k}", depth - 1)
    return out


def overrides(ctx, name, depth, directives):
    out = {}
    for k in KEYS:
        kind = ctx.choice(f"{name}.{k}", ["absent", "scalar", "map"] if depth > 1 else ["absent", "scalar"])
        if kind == "scalar":
            out[k] = ctx.int(f"{name}.{k}=")
        elif kind == "map":
            out[k] = overrides(ctx, f"{name}.{k}", depth - 1, directives)
    if directives & 1:
        d = [k for k in (KEYS if depth == 1 else ("a", "c")) if ctx.flag(f"{name}._del_.{k}")]
        if d:
            out["_del_"] = d
    if directives & 2 and ctx.flag(f"{name}._set_"):
        out["_set_"] = {"a": ctx.choice(f"{name}._set_.a", [{"z": 1}, [1, {"y": 2}], None])}
    return out


def expect(ctx, t, s, out, label, path):
    """the outcome of every single key"""
    put, gone = s.get("_set_", {}), s.get("_del_", [])
    for k in {*t, *s, *put, *out} - {"_set_", "_del_"}:
        kept = t[k] if k in t and k not in gone else ABSENT
        got, at = out.get(k, ABSENT), f"{path}.{k}"
        if k in put:
            ctx.check(got is not ABSENT, label, at)
            same(ctx, got, put[k], "set value", at)
        elif k in s and isinstance(s[k], dict):
            ctx.check(isinstance(got, dict), label, at)
            expect(ctx, kept if isinstance(kept, dict) else {}, s[k], got, label, at)
        elif k in s:
            ctx.check(got is not ABSENT, label, at)
            same(ctx, got, s[k], "override value", at)
        elif kept is ABSENT:
            ctx.check(got is ABSENT, "deleted", at)
        else:
            ctx.check(got is not ABSENT, "kept", at)
            same(ctx, got, kept, "kept", at)


def scramble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v)
        x.clear()
        x["scrambled"] = True
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.clear()


@harness(
    bounds="nested mappings of depth 1..2 (thorough: 3) over two keys with arbitrary integers, any subset of keys deleted or set (to mappings, lists, nothing) at every level; two overrides in a row",
    labels=["structure", "kept", "deleted", "override value", "set value", "inputs unchanged", "result is independent", "not a mapping"],
    params=lambda tier: [dict(depth=d, directives=x, again=a, first=f) for d, x, a in ([(2, 0, False), (2, 1, False), (2, 2, False), (1, 3, False), (1, 1, True)] + ([] if tier == "quick" else [(1, 3, True), (2, 3, False), (2, 1, True)])) for f in (("absent", "scalar", "map") if d > 1 else ("",))],
    max_paths=20000,
)
def merge(ctx, depth, directives, again, first):
    m = StandardConfigMerger()
    t = config(ctx, "config", depth) if depth == 1 else {}
    if depth > 1:
        if first == "scalar":
            t["a"] = ctx.int("config.a=")
        elif first == "map":
            t["a"] = config(ctx, "config.a", depth - 1)
        t["b"] = ctx.int("config.b=")
    t["c"] = {"d": [ctx.int("config.c.d=")]}
    s = overrides(ctx, "first", depth, directives)
    t0, s0 = plain(t), plain(s)
    out = m.merge(t, s)
    same(ctx, t, t0, "inputs unchanged", "config")
    same(ctx, s, s0, "inputs unchanged", "overrides")
    expect(ctx, t, s, out, "structure", "")
    if again:
        s2 = overrides(ctx, "second", depth, directives)
        expect(ctx, out, s2, m.merge(out, s2), "structure", "second")
    scramble(out)
    same(ctx, t, t0, "result is independent", "config")
    same(ctx, s, s0, "result is independent", "overrides")
    x = ctx.int("scalar")
    ctx.check(m.merge(t, [x]) == [x], "not a mapping")
    expect(ctx, {}, s, m.merge([1], s), "structure", "from nothing")
    for bad in ({"_del_": "a"}, {"_del_": [1]}, {"_set_": ["a"]}, {"_set_": {1: 2}}, {"b": {"_del_": {}}}):
        ctx.raises(TypeError, lambda: m.merge(t, bad), "not a mapping")


@harness(
    bounds="command lines of up to 3 items, each a set or a deletion of one of 5 key paths with YAML values, in any order",
    labels=["command line", "malformed item", "several options"],
    params=lambda tier: [dict(n=n) for n in ((1, 2, 3) if tier == "quick" else (4, 3, 2, 1))],
)
def command_line(ctx, n):
    paths = ["a", "b.c", "b.d", "e.f.g", "b"]
    values = [("1", 1), ("x", "x"), (" [1, 2]", [1, 2]), ("{k: v}", {"k": "v"}), ("'=='", "=="), ("null", None), ("0.5", 0.5), ("a=b", "a=b")]
    items, used = [], []
    for i in range(n):
        p = ctx.choice(f"path[{i}]", paths)
        kind = ctx.choice(f"kind[{i}]", ["plain", "set", "del"])
        for q, k in used:
            ctx.assume(p == q and k != "del" and kind != "del" or p != q and not (q + ".").startswith(p + ".") and not (p + ".").startswith(q + "."))
        used.append((p, kind))
        text, value = values[ctx.choice(f"value[{i}]", range(len(values))) if i == 0 and n < 3 else (i * 3 + len(p)) % len(values)]
        items.append((p, kind, text, value))
    argv = [("del:" if k == "del" else "set:" if k == "set" else "") + p + ("" if k == "del" else f"={v}") for p, k, v, _ in items]
    parser = argparse.ArgumentParser(exit_on_error=False)
    parser.add_argument("--config", dest="o", action=ConfigAction)
    (got,) = parser.parse_args(["--config", *argv]).o
    base = {"a": 7, "b": {"c": 8, "d": {"x": 9}, "h": 10}, "e": {"f": {"g": 11, "i": 12}}}
    want = copy.deepcopy(base)
    for p, k, _, v in items:
        node = want
        *parents, last = p.split(".")
        for x in parents:
            node = node[x]
        if k == "del":
            node.pop(last, None)
        else:
            node[last] = v
    out = StandardConfigMerger().merge(base, got)
    ctx.check(out == want, "command line", f"{argv}: {out} instead of {want}")
    two = parser.parse_args(["--config", *argv, "--config", "a=5", "z.y=6"]).o
    ctx.check(two == [got, parser.parse_args(["--config", "a=5", "z.y=6"]).o[0]], "several options")
    for bad in ("a", "del:a=1", "a={", "a=[1"):
        ctx.raises(argparse.ArgumentError, lambda: parser.parse_args(["--config", bad]), "malformed item")


class Env:
    def __init__(self, values):
        self.values = values

    def maybe_get(self, name):
        return self.values.get(name)

    def get(self, name):
        return self.values[name]

    def has(self, name):
        return name in self.values


TOKENS = ["${dir}", "${env:V}", "${env:V:d e}", "${env:W_1:}", "x", "$", "${other}"]


@harness(
    bounds="strings of up to 3 pieces out of directives and text, in nested lists and mappings; variables set or not",
    labels=["directives", "other values", "input unchanged"],
    params=lambda tier: [dict(n=n) for n in ((1, 2, 3) if tier == "quick" else (4, 3, 2, 1))],
)
def directives(ctx, n):
    pieces = [ctx.choice(f"piece[{i}]", TOKENS) for i in range(n)]
    env = {}
    if ctx.flag("V is set"):
        env["V"] = ctx.choice("V", ["", "v/w", "${other}"])
    if ctx.flag("W_1 is set"):
        env["W_1"] = "w"
    value = {"${dir}": "/base", "${env:V}": env.get("V", ""), "${env:V:d e}": env.get("V", "d e"), "${env:W_1:}": env.get("W_1", "")}
    text = "".join(pieces)
    want = "".join(value.get(p, p) for p in pieces)
    i = ctx.int("i")
    cfg = {"a": text, "b": [text, {"c": text, "${dir}": i}], "d": None, "e": i, "f": True}
    before = copy.copy(cfg)
    p = StandardConfigProcessor([ReplaceEnvDirective(Env(env))])
    out = p.process(cfg, [ReplacePathDirective(PurePosixPath("/base"))])
    ctx.check(out["a"] == want and out["b"][0] == want and out["b"][1]["c"] == want, "directives", f"{text!r} -> {out['a']!r} instead of {want!r}")
    ctx.check(set(out) == set(cfg) and set(out["b"][1]) == {"c", "${dir}"} and out["d"] is None and out["f"] is True, "other values")
    ctx.eq(out["e"], i, "other values")
    ctx.eq(out["b"][1]["${dir}"], i, "other values")
    ctx.check(cfg == before and cfg["b"][1]["c"] == text, "input unchanged")
    ctx.check(StandardConfigProcessor([]).process(cfg) == cfg, "other values", "without directives")
