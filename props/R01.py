"""Dependency resolution: what is registered is what is returned, once if a singleton; cycles and gaps are errors."""
from collections.abc import Callable, Collection, Iterable, Sequence

from symx.api import *

from fairseq2.error import InvalidOperationError
from fairseq2.runtime.config_registry import ConfigNotFoundError, ConfigRegistrar, get_config
from fairseq2.runtime.dependency import AutoWireError, DependencyContainer, DependencyCycleError, DependencyNotFoundError, DependencyResolver, wire_object
from fairseq2.runtime.lazy import Lazy
from fairseq2.runtime.lookup import Lookup

OUTSIDE = "resolution from several threads; string annotations that cannot be evaluated"
ASSUMPTIONS = []


class Base:
    def __init__(self, node=None, deps=()):
        self.node, self.deps = node, deps


class A(Base):
    pass


class B(Base):
    pass


class C(Base):
    pass


NODES = [(A, None), (B, None), (A, "k"), (C, None)]


class Missing(Exception):
    def __init__(self, node):
        self.node = node


class Cycle(Exception):
    def __init__(self, nodes):
        self.nodes = nodes


class Broken(Exception):
    pass


@harness(
    bounds="3..4 registrations over three types and two keys, each absent, a singleton or not, with up to two dependencies of its own, resolved or optionally resolved; providers that return nothing or fail the first time; three resolutions in a row",
    labels=["resolved object", "missing", "cycle", "singleton", "registration after use", "duplicate registration", "keys"],
    params=lambda tier: [dict(nodes=n, maybe=m, single=s, odd=o) for n, m, s, o in (
        [(3, 0, 5, None), (3, 63, 2, None), (3, 0b010101, 7, "none"), (3, 0b101010, 0, "fails"), (3, 0b110011, 1, "absent"), (3, 0b001100, 4, "absent")]
        + ([] if tier == "quick" else [(4, m, s, o) for m in (0, 0b01010101, 0b11001100) for s in (0, 5, 15) for o in (None, "none", "absent", "fails")]))],
    max_paths=20000,
)
def graph(ctx, nodes, maybe, single, odd):
    c = DependencyContainer()
    dep, log, failed = {}, [], set()

    def deps(i):
        """which other nodes node i asks for, in order (only chosen when it is asked)"""
        if i not in dep:
            n = 2 if i < 2 else 1
            dep[i] = [(ctx.choice(f"dep[{i}][{j}]", [None, *range(nodes)]), bool(maybe >> (2 * i + j) & 1)) for j in range(n)]
        return dep[i]

    def provider(i):
        def f(resolver):
            ctx.check(resolver is c, "resolved object", "the resolver given to a provider")
            got = []
            if odd == "fails" and i == 1 and i not in failed:
                failed.add(i)
                raise Broken()
            for d, opt in deps(i):
                if d is not None:
                    kls, key = NODES[d]
                    got.append(resolver.maybe_resolve(kls, key=key) if opt else resolver.resolve(kls, key=key))
            log.append(i)
            return None if odd == "none" and i == 1 else NODES[i][0](i, got)
        return f

    present = [i for i in range(nodes) if not (odd == "absent" and i == nodes - 1)]
    for i in present:
        kls, key = NODES[i]
        c.register(kls, provider(i), key=key, singleton=bool(single >> i & 1))
    dup = present[single % len(present)]
    ctx.raises(InvalidOperationError, lambda: c.register(NODES[dup][0], provider(dup), key=NODES[dup][1]), "duplicate registration")
    for kls in (A, B, C):
        ctx.check(list(c.iter_keys(kls)) == [NODES[i][1] for i in present if NODES[i][0] is kls], "keys")

    singles, stack, mfailed, count = {}, [], set(), []

    def model(i):
        if i not in present:
            raise Missing(i)
        if i in singles:
            obj = singles[i]
        else:
            if i in stack:
                raise Cycle([i])
            stack.append(i)
            try:
                got = []
                if odd == "fails" and i == 1 and i not in mfailed:
                    mfailed.add(i)
                    raise Broken()
                for d, opt in deps(i):
                    if d is None:
                        continue
                    try:
                        got.append(model(d))
                    except Missing as ex:
                        if not opt or ex.node != d:
                            raise
                        got.append(None)
            except Cycle as ex:
                raise Cycle([i, *ex.nodes]) from None
            finally:
                stack.pop()
            count.append(i)
            obj = None if odd == "none" and i == 1 else ("object", i, got)
            if single >> i & 1:
                singles[i] = obj
        if obj is None:
            raise Missing(i)
        return obj

    seen = {}  # singletons by node

    def same(obj, want, depth=0):
        if want is None or obj is None:
            return obj is None and want is None
        _, i, got = want
        if type(obj) is not NODES[i][0] or obj.node != i or len(obj.deps) != len(got):
            return False
        if single >> i & 1 and seen.setdefault(i, obj) is not obj:
            return False
        return all(same(a, b) for a, b in zip(obj.deps, got))

    for r in range(3):
        i = ctx.choice(f"asked[{r}]", range(nodes)) if r == 1 else 0
        opt = r == 2
        kls, key = NODES[i]
        try:
            want, err = model(i), None
        except (Missing, Cycle, Broken) as ex:
            want, err = None, ex
        if opt and isinstance(err, Missing) and err.node == i:
            want, err = None, None
        try:
            obj, e = (c.maybe_resolve(kls, key=key) if opt else c.resolve(kls, key=key)), None
        except (DependencyNotFoundError, DependencyCycleError, Broken) as ex:
            obj, e = None, ex
        if isinstance(err, Missing):
            ctx.check(isinstance(e, DependencyNotFoundError) and (e.kls, e.key) == NODES[err.node], "missing", f"{e!r} instead of {NODES[err.node]}")
        elif isinstance(err, Cycle):
            ctx.check(isinstance(e, DependencyCycleError) and list(e.cycle) == [NODES[n] for n in err.nodes], "cycle", f"{e!r} instead of {[NODES[n] for n in err.nodes]}")
        else:
            ctx.check(type(e) is type(err), "resolved object", f"{e!r}")
            ctx.check(same(obj, want), "resolved object", f"{i}: {obj} instead of {want}")
        ctx.check(log == count, "singleton", f"created {log} instead of {count}")
        ctx.raises(InvalidOperationError, lambda: c.register(Base, lambda _: Base()), "registration after use")
        ctx.raises(InvalidOperationError, lambda: c.collection.register(Base, lambda _: Base()), "registration after use")
    for l in ("missing", "cycle"):
        ctx.check(True, l)


@harness(
    bounds="up to three registrations per collection over two keys, each plain or singleton, instance or provider or provider of nothing; two iterations",
    labels=["collection", "singleton", "keys"],
    params=lambda tier: [dict(n=n) for n in ((0, 1, 2, 3) if tier == "quick" else (4, 3, 2, 1, 0))],
)
def collections_(ctx, n):
    c = DependencyContainer()
    made, want = [], []
    c.register_instance(A, A("single"))  # does not mix with the collection
    for i in range(n):
        kind = ctx.choice(f"kind[{i}]", ["plain", "singleton", "instance", "nothing", "type"])
        key = ctx.choice(f"key[{i}]", [None, "k"])

        def provide(resolver, i=i, kind=kind):
            made.append(i)
            return None if kind == "nothing" else A(i)

        if kind == "instance":
            c.collection.register_instance(A, A(i), key=key)
        elif kind == "type":
            sub = type(f"A{i}", (A,), {"__init__": lambda self, i=i: Base.__init__(self, i)})
            sub.__init__.__annotations__ = {"i": int}
            c.collection.register_type(A, sub, key=key)
        else:
            c.collection.register(A, provide, key=key, singleton=kind == "singleton")
        want.append((i, kind, key))
    lists = {}
    for key in (None, "k"):
        for again in range(2):
            made.clear()
            got = list(c.collection.resolve(A, key=key))
            exp = [i for i, kind, k in want if k == key and kind != "nothing"]
            ctx.check([x.node for x in got] == exp and all(isinstance(x, A) for x in got), "collection", f"{[x.node for x in got]} instead of {exp}")
            calls = [i for i, kind, k in want if k == key and (kind in ("plain", "nothing") or kind == "singleton" and not again)]
            ctx.check(made == calls, "singleton", f"{made} created instead of {calls}")
            if again:
                for x, y in zip(lists[key], got):
                    kind = want[x.node][1]
                    ctx.check((x is y) == (kind in ("singleton", "instance")), "singleton", kind)
            lists[key] = got
    ctx.check(set(c.collection.iter_keys(A)) == {k for _, _, k in want}, "keys")
    ctx.check(c.resolve(A).node == "single" and list(c.iter_keys(A)) == [None], "collection", "the single registration")


class Wired:
    def __init__(self, a: A, b: B | None, c: C = None, *, n: int = 3, rest: Iterable[A] = (), many: Sequence[A], lazy: Lazy[B], lookup: Lookup[A], factory: Callable[[], A], resolver: DependencyResolver, text: "str" = "x", **other: object) -> None:
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})


DEFAULT = C("default")


class Plain:
    def __init__(self, c: C = DEFAULT, a: A | None = None, n: int = 4):
        self.c, self.a, self.n = c, a, n


@harness(
    bounds="auto-wired constructors with every supported kind of parameter; every subset of registrations and of explicit arguments",
    labels=["wired arguments", "missing", "cannot be wired", "configurations"],
)
def wiring(ctx):
    c = DependencyContainer()
    have = {k: ctx.flag(f"registered {k.__name__}") for k in (A, B, C)}
    objs = {k: k("registered") for k in have}
    for k, on in have.items():
        if on:
            c.register_instance(k, objs[k])
    other = A("k")
    c.register_instance(A, other, key="k")
    col = [A(i) for i in range(2)]
    for x in col:
        c.collection.register_instance(A, x)
    n = ctx.int("n")
    explicit = {}
    if ctx.flag("explicit a"):
        explicit["a"] = A("explicit")
    if ctx.flag("explicit n"):
        explicit["n"] = n
    if not have[A] and "a" not in explicit:
        try:
            wire_object(c, Wired, **explicit)
            ctx.fail("missing", "no error")
        except DependencyNotFoundError as ex:
            ctx.check(ex.kls is A and ex.key is None, "missing")
    else:
        w = wire_object(c, Wired, **explicit)
        ctx.check(w.a is explicit.get("a", objs[A]), "wired arguments", "a")
        ctx.check(w.b is (objs[B] if have[B] else None), "wired arguments", "b")
        ctx.check(w.c is (objs[C] if have[C] else None), "wired arguments", "c")
        ctx.eq(w.n, explicit.get("n", 3), "wired arguments", "n")
        ctx.check(list(w.rest) == col and list(w.many) == col, "wired arguments", "collections")
        ctx.check(w.lookup.maybe_get("k") is other and w.lookup.maybe_get("x") is None and w.lookup.kls is A and set(w.lookup.iter_keys()) == {"k"} | ({None} if have[A] else set()), "wired arguments", "lookup")
        ctx.check(w.resolver is c and w.text == "x" and w.other == {}, "wired arguments", "others")
        for f, k in ((w.lazy.get, B), (w.factory, A)):
            if have[k]:
                ctx.check(f() is objs[k] and f() is objs[k], "wired arguments", "deferred")
            else:
                ctx.raises(DependencyNotFoundError, f, "wired arguments")
    pl = wire_object(c, Plain)
    ctx.check(pl.c is (objs[C] if have[C] else DEFAULT) and pl.a is (objs[A] if have[A] else None) and pl.n == 4, "wired arguments", "defaults")

    class Bad:
        def __init__(self, a):
            pass

    class Bad2:
        def __init__(self, a: A | B):
            pass

    class Bad3:
        def __init__(self, a: A, /):
            pass

    for kls in (Bad, Bad2, Bad3):
        ctx.raises(AutoWireError, lambda: wire_object(c, kls), "cannot be wired")
    # configurations
    d = DependencyContainer()
    reg = ConfigRegistrar(d, Base)
    names = ["x", "y"]
    v = ctx.int("value")
    for name in names:
        if ctx.flag(f"advanced {name}"):
            reg(name, advanced=True)(lambda resolver, name=name: Base(name, (resolver, v)))
        else:
            reg(name)(lambda name=name: Base(name, (d, v)))
    for name in names:
        a, b = get_config(d, Base, name), get_config(d, Base, name)
        ctx.check(a is not b and a.node == b.node == name and a.deps[0] is d, "configurations")
        ctx.eq(a.deps[1], v, "configurations")
    ctx.raises(ConfigNotFoundError, lambda: get_config(d, Base, "z"), "configurations")
    ctx.check(True, "missing")
