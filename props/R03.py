"""Typed configurations round-trip through plain data without loss."""
from collections.abc import Mapping, Sequence, Set
from dataclasses import dataclass, field
from enum import Enum
from pathlib import Path
from typing import Literal, Optional, Union

from props import _structured
from symx.api import *

from fairseq2.utils.structured import StandardValueConverter, StructureError

OUTSIDE = "unions whose alternatives read the same plain data (for example `int | str`, `Path | str`); fields of type `object`; Booleans given for numbers"
ASSUMPTIONS = ["in the module under test, `type(x)` of a symbolic number is the type it stands for"]


class Color(Enum):
    RED = 1
    BLUE = 2
    red = 3


@dataclass
class Inner:
    n: int = 7
    x: float = 0.5


@dataclass
class Other:
    m: str
    n: Optional[int] = None


@dataclass
class Deep:
    inner: Inner
    items: list[Inner]
    opt: Inner | None = None
    names: dict[str, Other] = field(default_factory=dict)
    fresh: int = field(init=False, default=0)

    def __post_init__(self):
        self.fresh = 5


DTYPES = [torch.float32, torch.bfloat16, torch.int64, torch.bool]
DEVICES = [torch.device("cpu"), torch.device("cuda:1"), torch.device("meta")]
TEXT = ["", "a", "None", "1", "1.5", "torch.float32", "caf\u00e9 {x}"]
PATHS = [Path("a/b"), Path("/x y/z%20"), Path(".")]


def real(ctx, name):
    x = ctx.real(name)
    return float(x) if isinstance(x, Fraction) else x


class Spec:
    """a type expression with a source of arbitrary values"""

    def __init__(self, t, make):
        self.t, self.make = t, make


def deep(ctx, name):
    n = ctx.choice(name + ".len", [0, 1, 2])
    return Deep(
        Inner(ctx.int(name + ".inner.n"), real(ctx, name + ".inner.x")),
        [Inner(ctx.int(f"{name}[{i}].n"), real(ctx, f"{name}[{i}].x")) for i in range(n)],
        Inner(ctx.int(name + ".opt.n")) if ctx.flag(name + ".opt") else None,
        {k: Other(k + "!", ctx.int(f"{name}.{k}") if ctx.flag(f"{name}.{k}?") else None) for k in ("p", "q")[:n]},
    )


def spec(ctx, kind, name, depth=0):
    few = (lambda xs: xs) if depth == 0 else (lambda xs: xs[-2:])
    of = lambda t, xs: Spec(t, lambda n: ctx.choice(n, few(list(xs))))
    if kind == "int":
        return Spec(int, ctx.int)
    if kind == "float":
        return Spec(float, lambda n: real(ctx, n))
    if kind == "bool":
        return Spec(bool, ctx.flag)
    if kind == "str":
        return of(str, TEXT)
    if kind == "none":
        return of(type(None), [None])
    if kind == "enum":
        return of(Color, Color)
    if kind == "literal":
        return of(Literal["x", "None", "y"], ["x", "None", "y"])
    if kind == "dtype":
        return of(torch.dtype, DTYPES)
    if kind == "device":
        return of(torch.device, DEVICES)
    if kind == "path":
        return of(Path, PATHS)
    if kind == "inner":
        return Spec(Inner, lambda n: Inner(ctx.int(n + ".n"), real(ctx, n + ".x")))
    if kind == "deep":
        return Spec(Deep, lambda n: deep(ctx, n))
    if kind == "optional":
        s = spec(ctx, ctx.choice(name + ".t", ["int", "str", "enum", "path", "inner", "dtype"]), name, depth + 1)
        return Spec(Optional[s.t] if ctx.flag(name + ".old") else s.t | None, lambda n: None if ctx.flag(n + ".none") else s.make(n))
    if kind == "union":
        if ctx.flag(name + ".numbers"):
            return Spec(bool | int | float, lambda n: ctx.int(n) if ctx.flag(n + ".int") else ctx.flag(n))
        return Spec(Union[Inner, Other], lambda n: Other("o", ctx.int(n + ".n")) if ctx.flag(n + ".other") else Inner(ctx.int(n + ".n"), real(ctx, n + ".x")))
    if kind == "set":
        t, v = ctx.choice(name + ".set", [(int, [3, 4]), (str, ["1", "b"]), (Color, list(Color)), (Path, PATHS)])
        return Spec(ctx.choice(name + ".abc", [set, Set])[t], lambda n: set(v[: ctx.choice(n + ".len", [0, 1, 2])]))
    sub = spec(ctx, ctx.choice(name + ".t", ["int", "str", "enum", "path", "inner"] if depth else ["int", "float", "bool", "str", "enum", "literal", "dtype", "device", "path", "inner", "optional", "union", "list", "dict", "tuple", "set"]), name + ".e", depth + 1)
    lens = [0, 1, 2] if depth == 0 else [0, 1]
    some = lambda n: [sub.make(f"{n}[{i}]") for i in range(ctx.choice(n + ".len", lens))]
    if kind == "list":
        return Spec((ctx.choice(name + ".abc", [list, Sequence]) if depth == 0 else list)[sub.t], some)
    if kind == "tuple":
        if ctx.flag(name + ".het"):
            return Spec(tuple[int, sub.t, str], lambda n: (ctx.int(n + ".0"), sub.make(n + ".1"), "z"))
        return Spec(tuple[sub.t, ...], lambda n: tuple(some(n)))
    i = ctx.choice(name + ".keys", [0, 1]) if kind == "dict" else int(kind[-1])
    kt, keys = [(str, ["k", "1"]), (int, [5, -6]), (Color, list(Color)), (Path, PATHS)][i]
    return Spec((Mapping if depth == 0 and i in (1, 2) else dict)[kt, sub.t], lambda n: dict(zip(keys, some(n))))


def same(ctx, a, b, label, at="value"):
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        ctx.check(isinstance(a, int if isinstance(b, int) else float) and not isinstance(a, bool), label, f"{at}: {a!r} instead of {b!r}")
        ctx.eq(a, b, label, at)
        return
    ctx.check(type(a) is type(b), label, f"{at}: {type(a)} instead of {type(b)}")
    if isinstance(b, dict):
        ctx.check(list(a) == list(b) and [type(k) for k in a] == [type(k) for k in b], label, f"{at}: {list(a)} instead of {list(b)}")
        for k in b:
            same(ctx, a[k], b[k], label, f"{at}[{k!r}]")
    elif isinstance(b, (list, tuple)):
        ctx.check(len(a) == len(b), label, f"{at}: {len(a)} elements instead of {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(ctx, x, y, label, f"{at}[{i}]")
    elif isinstance(b, (Inner, Other, Deep)):
        for k in vars(b):
            same(ctx, getattr(a, k), getattr(b, k), label, f"{at}.{k}")
    else:
        ctx.check(a == b, label, f"{at}: {a!r} instead of {b!r}")


def plain(x):
    if isinstance(x, dict):
        return all(plain(k) and plain(v) for k, v in x.items())
    if isinstance(x, list):
        return all(plain(v) for v in x)
    return x is None or isinstance(x, (bool, int, float)) or type(x) is str


KINDS = ["dict0", "dict1", "dict2", "dict3", "deep", "list", "tuple", "set", "optional", "union", "inner", "int", "float", "bool", "str", "none", "enum", "literal", "dtype", "device", "path"]


@harness(
    bounds="every supported type, nested up to depth 2, containers of up to 2 elements, arbitrary integers and reals, other values from small alphabets",
    labels=["plain data", "round trip", "typed input unchanged"],
    params=lambda tier: [dict(kind=k) for k in KINDS],
)
def round_trip(ctx, kind):
    c = StandardValueConverter()
    s = spec(ctx, kind, "t")
    t, v = s.t, s.make("v")
    p = c.unstructure(v)
    ctx.check(plain(p), "plain data", repr(p))
    same(ctx, c.structure(p, t), v, "round trip")
    # an object that is already typed is taken as it is
    same(ctx, c.structure(v, t), v, "typed input unchanged")
    # again, as a field of a mapping next to other values
    w = c.structure({"a": p, "b": p}, dict[str, t])
    same(ctx, w["b"], v, "round trip", "in a mapping")


# plain data of the wrong type: (type, value)
inf, nan = float("inf"), float("nan")
WRONG = [
    (int, 1.5), (int, -0.25), (int, inf), (int, nan), (int, "x"), (int, "1.5"), (int, None), (int, [1]), (int, {}),
    (float, "x"), (float, None), (float, [1.0]), (float, 10**400),
    (bool, 1), (bool, 0), (bool, "true"), (bool, None), (bool, 1.0),
    (str, 1), (str, None), (str, True), (str, ["a"]), (str, Path("a")),
    (type(None), 0), (type(None), ""), (type(None), False),
    (Color, "GREEN"), (Color, 1), (Color, "1"), (Color, None), (Color, "Red"),
    (Literal["x", "y"], "z"), (Literal["x", "y"], ""), (Literal["x", "y"], 1), (Literal["x", "y"], None),
    (torch.dtype, "float31"), (torch.dtype, "nn"), (torch.dtype, 32), (torch.dtype, None),
    (torch.device, "gpu?"), (torch.device, 1), (torch.device, None),
    (Path, 1), (Path, None), (Path, ["a"]),
    (Inner, {"n": 1, "y": 2}), (Inner, {"n": "x"}), (Inner, {"n": 1.5}), (Inner, []), (Inner, None), (Inner, {1: 2}), (Inner, Other("m")),
    (Other, {}), (Other, {"n": 1}), (Other, {"m": 1}), (Other, {"m": "a", "n": 2.5}),
    (list[int], "12"), (list[str], "ab"), (list[str], ""), (list[int], {1: 2}), (list[int], None), (list[int], 1),
    (Sequence[str], "ab"), (tuple[str, str], "ab"), (tuple[str, ...], "ab"), (set[str], "ab"), (Set[str], "ab"),
    (tuple[int, int], [1]), (tuple[int, int], [1, 2, 3]), (tuple[int, ...], 1), (tuple[int, str], ["a", "b"]),
    (set[int], [1, 1]), (set[int], ["1", 1]), (set[int], 1), (set[int], None),
    (dict[str, int], [1]), (dict[str, int], {1: 1}), (dict[int, int], {"x": 1}), (dict[str, int], None),
    (dict[int, str], {"1": "a", 1: "b"}), (dict[Path, str], {"a": "x", Path("a"): "y"}),
    (Optional[int], "x"), (Optional[int], 1.5), (Union[Inner, Other], {"z": 1}), (Union[int, bool, None], "x"), (int | None, [1]),
]
# plain data in another accepted spelling: (type, value, outcome)
RIGHT = [
    (int, "12", 12), (int, "-3", -3), (int, 2.0, 2), (float, "0.5", 0.5), (float, 3, 3.0), (float, "inf", inf),
    (torch.dtype, "torch.bfloat16", torch.bfloat16), (torch.dtype, "float", torch.float32),
    (list[int], ("1", 2), [1, 2]), (tuple[int, float], ["1", "2"], (1, 2.0)), (set[int], ["1", 2], {1, 2}),
    (int | float, 1.5, 1.5), (Union[int, float], "1.5", 1.5), (Union[Inner, Other], {"m": "x"}, Other("x")),
    (dict[int, float], {"1": "2"}, {1: 2.0}), (Inner, {}, Inner()), (Inner, {"x": "2"}, Inner(7, 2.0)), (Deep, {"inner": {}, "items": [{}], "fresh": 9}, Deep(Inner(), [Inner()])),
]


@harness(
    bounds=f"{len(WRONG)} kinds of wrongly typed data, alone or inside a list, a mapping, a tuple, a union or a dataclass; {len(RIGHT)} other accepted spellings",
    labels=["wrong type rejected", "accepted", "input unchanged"],
    params=lambda tier: [dict(part=i) for i in range(4)],
)
def wrong(ctx, part):
    c = StandardValueConverter()
    if ctx.flag("wrong"):
        t, v = ctx.choice("case", WRONG[part::4])
        where = ctx.choice("where", ["alone", "list", "dict", "tuple", "optional", "union"])
        if where == "list":
            t, v = list[t], [v]
        elif where == "dict":
            t, v = dict[str, t], {"k": v}
        elif where == "tuple":
            t, v = tuple[str, t], ["s", v]
        elif where == "optional":
            ctx.assume(v is not None)
            t = Optional[t]
        elif where == "union":
            ctx.assume(v is not None and not isinstance(v, Other))
            t = Union[t, Other, None]
            if isinstance(v, dict) and set(v) <= {"m", "n"}:
                ctx.assume(False)
        try:
            got = c.structure(v, t)
        except StructureError:
            ctx.check(True, "wrong type rejected")
        else:
            ctx.fail("wrong type rejected", f"{v!r} as {t} yields {got!r}")
    else:
        t, v, want = ctx.choice("case", RIGHT[part::4])
        before = repr(v)
        same(ctx, c.structure(v, t), want, "accepted")
        ctx.check(repr(v) == before, "input unchanged")
        ctx.raises(StructureError, lambda: c.unstructure([object()]), "wrong type rejected")
