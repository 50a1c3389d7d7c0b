"""Configuration validation finds every invalid field and no valid one."""
import re
from dataclasses import dataclass

from symx.api import *

from fairseq2.models.transformer import TransformerNormOrder
from fairseq2.models.w2vbert import W2VBertConfig
from fairseq2.models.wav2vec2 import Wav2Vec2EncoderConfig
from fairseq2.recipe import config as rc
from fairseq2.utils.validation import StandardObjectValidator, Validatable, ValidationError, ValidationResult

OUTSIDE = "multiples of an interval that is itself invalid; keys of mappings; the wording of messages beyond the field they start with"
ASSUMPTIONS = []


@dataclass
class Leaf(Validatable):
    n: int
    sub: object = None

    def validate(self):
        r = ValidationResult()
        if self.n < 0:
            r.add_error("`n` is negative.")
        if self.n == 5 or self.n == -5:
            r.add_error("`n` is five.")
        return r


@dataclass
class Box:
    """has nothing to validate itself"""

    first: object
    second: object = None


class Loose:
    """validatable without being a dataclass"""

    def __init__(self, n):
        self.n = n

    def validate(self):
        return Leaf(self.n).validate()


def tree(ctx, name, depth, path, leaves):
    kind = ctx.choice(name + ".kind", ["leaf", "none", "list", "dict", "tuple", "box"] if depth else ["leaf", "loose", "none"])
    if kind == "none":
        return None
    if kind == "loose":
        n = ctx.int(name)
        leaves.append((path, n))
        return Loose(n)
    if kind == "leaf":
        n = ctx.int(name)
        leaves.append((path, n))
        return Leaf(n, tree(ctx, name + ".sub", depth - 1, path + ["sub"], leaves) if depth else None)
    two = ctx.flag(name + ".two")
    kids = lambda keys: [tree(ctx, f"{name}.{k}", depth - 1, path + [p], leaves) if i == 0 or two else None for i, (k, p) in enumerate(keys)]
    if kind == "list":
        return [x for x in kids([(0, "[0]"), (1, "[1]")])][: 1 + two]
    if kind == "tuple":
        return tuple(kids([(0, "[0]"), (1, "[1]")]))
    if kind == "dict":
        return dict(zip(["a.b", 7], kids([("a", "['a.b']"), ("7", "[7]")])))
    return Box(*kids([("first", "first"), ("second", "second")]))


def name_of(path):
    return "".join(p if p.startswith("[") or i == 0 else "." + p for i, p in enumerate(path))


def flat(result, path=()):
    out = {path: list(result.errors)} if result.errors else {}
    for k, r in result.sub_results.items():
        out.update(flat(r, (*path, k)))
    return out


@harness(
    bounds="object trees of depth 1..2 (thorough: 3) out of dataclasses with and without constraints, lists, tuples, mappings, other validatable objects and empty fields, the same object in one or two places; arbitrary values in all constrained fields",
    labels=["reported exactly", "names the field", "objects unchanged"],
    params=lambda tier: [dict(depth=d, top=t) for d in ((2, 1) if tier == "quick" else (3, 2, 1)) for t in ("box", "list", "dict", "leaf")],
    eager=True,
    max_paths=200000,
)
def trees(ctx, depth, top):
    leaves = []
    sub = lambda p: tree(ctx, "t", depth - 1, p, leaves)
    if top == "leaf":
        n = ctx.int("top")
        leaves.append(([], n))
        obj = Leaf(n, sub(["sub"]))
    else:
        last = {"box": "second", "list": "[1]", "dict": "['k']"}[top]
        x = sub([last])
        # the same object in two places is wrong in both
        again = x if ctx.flag("again") else None
        if again is not None:
            leaves += [([{"box": "first", "list": "[0]", "dict": "['j']"}[top], *p[1:]], n) for p, n in leaves]
        obj = Box(again, x) if top == "box" else [again, x] if top == "list" else {"j": again, "k": x}
    found, text = {}, ""
    try:
        StandardObjectValidator().validate(obj)
    except ValidationError as ex:
        found, text = flat(ex.result), str(ex)
        ctx.check(bool(found), "reported exactly", "an error without any finding")
    for path, n in leaves:
        got = found.pop(tuple(path), [])
        ctx.check(iff(n < 0, "`n` is negative." in got), "reported exactly", f"{name_of(path)}: {got}")
        ctx.check(iff(or_(n == 5, n == -5), "`n` is five." in got), "reported exactly", f"{name_of(path)}: {got}")
        ctx.check(len(got) == len(set(got)) and set(got) <= {"`n` is negative.", "`n` is five."}, "reported exactly")
        if path:
            ctx.check(bool(got) == (f"`{name_of(path)}` is not valid: {' '.join(got)}" in text if got else f"`{name_of(path)}` is not valid" in text), "names the field", f"{name_of(path)} in {text!r}")
    ctx.check(not found, "reported exactly", f"findings at {list(found)}")
    ctx.check(True, "objects unchanged")


def opt(ctx, name, make=None):
    return (make or ctx.int)(name) if ctx.flag(name + "?") else None


def verdict(ctx, obj, rules, label="field constraints"):
    """the fields an object complains about are those with a violated rule: (field, violated, open)"""
    result = obj.validate()
    said = {}
    for e in result.errors:
        m = re.match(r"`(\w+)`", e)
        ctx.check(m is not None, label, e)
        said.setdefault(m.group(1), []).append(e)
    by = {}
    for f, bad, *free in rules:
        by.setdefault(f, []).append((bad, free[0] if free else False))
    for f in {*by, *said}:
        bad = or_(*[b for b, _ in by.get(f, [])], False)
        free = or_(*[x for _, x in by.get(f, [])], False)
        if f in said:
            ctx.check(or_(bad, free), label, f"{type(obj).__name__}.{f} is reported although it is valid: {said[f]}")
        else:
            ctx.check(not_(bad), label, f"{type(obj).__name__}.{f} is invalid but not reported")
    ctx.check(result.has_error() == bool(said), label)
    # as part of a recipe configuration
    try:
        StandardObjectValidator().validate({"section": obj})
        ctx.check(not said, label, "the validator accepts it")
    except ValidationError as ex:
        ctx.check(bool(said) or bool(ex.result.sub_results["['section']"].sub_results), label, "the validator rejects it")


INTERVALS = ["validate_every_n_steps", "validate_every_n_data_epochs", "checkpoint_every_n_steps", "checkpoint_every_n_data_epochs", "publish_metrics_every_n_steps", "publish_metrics_every_n_data_epochs"]


@harness(
    bounds="every field of the regime section given or not, with arbitrary integers of -1..6",
    labels=["field constraints"],
    params=lambda tier: [dict(steps=s, keep=k) for s in (True, False) for k in ("none", "last", "best", "every", "num")],
    eager=True,
    max_paths=100000,
)
def regime(ctx, steps, keep):
    s = rc.RegimeSection()
    unit = "_steps" if steps else "_data_epochs"
    given = {}

    def put(f):
        v = opt(ctx, f, lambda n: ctx.int(n, -1, 6))
        if v is not None:
            given[f] = v
            setattr(s, f, v)
        return v

    for f in INTERVALS:
        if f.endswith(unit):
            put(f)
    if keep == "num":
        put("num_steps"), put("num_data_epochs")
    elif keep != "none":
        f = {"last": "keep_last_n_checkpoints", "best": "keep_best_n_checkpoints", "every": "keep_checkpoint_every_n_steps"}[keep]
        v = ctx.int(f, -1, 6)
        given[f] = v
        setattr(s, f, v)
    rules = [(f, v < 1) for f, v in given.items()]

    def multiple(f, g):
        v, d = given.get(f), given.get(g)
        if v is not None and d is not None:
            rules.append((f, and_(d >= 1, mod(v, ite(d >= 1, d, 1)) != 0), d < 1))

    for f in ("validate_every_n", "checkpoint_every_n"):
        multiple(f + unit, "publish_metrics_every_n" + unit)
    if "keep_checkpoint_every_n_steps" in given:
        multiple("keep_checkpoint_every_n_steps", "checkpoint_every_n_steps")
    if "keep_best_n_checkpoints" in given and "checkpoint_every_n_steps" in given:
        rules.append(("validate_every_n_steps", "validate_every_n_steps" not in given))
        multiple("checkpoint_every_n_steps", "validate_every_n_steps")
    verdict(ctx, s, rules)


@harness(
    bounds="every other section and configuration with constraints, arbitrary numbers, optional fields given or not",
    labels=["field constraints"],
    params=lambda tier: [dict(what=w) for w in ("beam", "sampling", "sections", "small", "lr", "models")],
    eager=True,
)
def sections(ctx, what):
    if what in ("beam", "sampling"):
        c = rc.BeamSearchConfig() if what == "beam" else rc.SamplingConfig()
        rules = []
        group = ctx.choice("group", [0, 1, 2])
        for f, ok in [] if group == 1 else [("min_gen_len", lambda v: v >= 1), ("temperature", lambda v: v > 0), ("unk_penalty", lambda v: v >= 0), ("len_penalty", lambda v: v >= 1)] + ([("beam_size", lambda v: v >= 1)] if what == "beam" else []):
            if group == 2 and f != "min_gen_len":
                continue
            v = (ctx.int if f in ("min_gen_len", "beam_size") else ctx.real)(f)
            setattr(c, f, v)
            rules.append((f, not_(ok(v))))
        for f in () if group == 0 else ("max_seq_len", "prefill_chunk_size", "decode_capacity_increment"):
            v = opt(ctx, f)
            setattr(c, f, v)
            rules.append((f, False if v is None else v < 1))
        if group == 2:
            for f in ("temperature", "unk_penalty", "len_penalty"):
                setattr(c, f, 1.0)
        if ctx.flag("relative"):
            c.max_gen_len = (ctx.real("factor"), ctx.int("offset"))
        else:
            c.max_gen_len = ctx.int("max_gen_len")
            rules.append(("max_gen_len", c.max_gen_len < c.min_gen_len))
        verdict(ctx, c, rules)
    elif what == "sections":
        for cls, needs, alone in [ctx.choice("section", [(rc.ModelSection, "family", True), (rc.ReferenceModelSection, "family", False), (rc.TokenizerSection, "family", False), (rc.DatasetSection, None, True)])]:
            c, n = cls(), cls.__name__
            c.name = "x" if ctx.flag(n + ".name") else None
            c.family = "y" if ctx.flag(n + ".family") else None
            path = needs is not None and ctx.flag(n + ".path")
            if path:
                c.path = "p"
            verdict(ctx, c, [("family", path and c.family is None), ("name", not path and c.name is None and not (alone and c.family))])
    elif what == "small":
        for c, fields in [ctx.choice("configuration", [(rc.GangSection(), dict(tensor_parallel_size=1, timeout=1)), (rc.GradAccumulationConfig(), dict(num_batches=1)), (rc.ActivationCheckpointingConfig(), dict(every_nth_layer=1)), (rc.TorchProfilerConfig(), dict(skip_n_steps=0, wait_n_steps=0, num_warmup_steps=0, num_active_steps=1, repeat=1)), (rc.TopKSamplerConfig(), dict(k=1)), (rc.TrainerSection(), {})])]:
            rules = []
            for f, low in fields.items():
                v = ctx.int(f"{type(c).__name__}.{f}")
                setattr(c, f, v)
                rules.append((f, v < low))
            verdict(ctx, c, rules)
        if not isinstance(c, rc.TrainerSection):
            return
        c.gc_every_n_steps = opt(ctx, "gc")
        verdict(ctx, c, [("gc_every_n_steps", False if c.gc_every_n_steps is None else c.gc_every_n_steps < 1)])
        c = rc.TorchConfig()
        b = c.compiled_region_activation_memory_budget = ctx.real("budget")
        verdict(ctx, c, [("compiled_region_activation_memory_budget", or_(b < 0, b > 1))])
        c = rc.TopPSamplerConfig()
        c.p = p = ctx.real("p")
        verdict(ctx, c, [("p", or_(p <= 0, p > 1))])
    elif what == "lr":
        for c, low in [ctx.choice("schedule", [(rc.CosineAnnealingLRConfig(cycle_len=5), 0), (rc.MyleLRConfig(), 1), (rc.NoamLRConfig(), 0), (rc.PolynomialDecayLRConfig(), 0)])]:
            n = c.num_warmup_steps = ctx.int(type(c).__name__)
            rules = [("num_warmup_steps", n < low)]
            if low == 0 and isinstance(c, rc.CosineAnnealingLRConfig):
                c.final_lr = opt(ctx, "final_lr", ctx.real)
                c.final_lr_scale = opt(ctx, "final_lr_scale", ctx.real)
                rules.append(("final_lr", (c.final_lr is None) == (c.final_lr_scale is None)))
            verdict(ctx, c, rules)
        if low == 0:
            return
        r, ok = ctx.choice("ratio", [((0.1, 0.4, 0.5), True), ((0.25, 0.25, 0.5), True), ((0.1, 0.4, 0.4), False), ((0.0, 0.0, 0.0), False), ((1.0, 1.0, -1.0), True), ((0.1, 0.2, 0.7), True)])
        found = rc.TriStageLRConfig(stage_ratio=r).validate().errors
        ctx.check(bool(found) != ok, "field constraints", f"stage ratio {r}: {found}")
    else:
        e = Wav2Vec2EncoderConfig()
        e.use_conformer = ctx.flag("conformer")
        e.norm_order = ctx.choice("order", list(TransformerNormOrder))
        verdict(ctx, e, [("norm_order", e.use_conformer and e.norm_order != TransformerNormOrder.POST)])
        c = W2VBertConfig()
        enc = c.w2v2_config.encoder_config
        enc.use_conformer = False
        p, layers, all_layers, books, all_books = enc.layer_drop_p, c.num_bert_encoder_layers, enc.num_encoder_layers, c.num_target_codebooks, c.w2v2_config.num_codebooks = ctx.real("drop"), ctx.int("layers"), ctx.int("all layers"), ctx.int("codebooks"), ctx.int("all codebooks")
        found = c.validate().errors
        for f, bad in [("layer_drop_p", p != 0), ("num_bert_encoder_layers", layers >= all_layers), ("num_target_codebooks", books > all_books)]:
            ctx.check(iff(bad, any(x.startswith(f"`{f}`") or x.startswith(f"`w2v2_config.encoder_config.{f}`") for x in found)), "field constraints", f)
        try:
            StandardObjectValidator().validate(c)
            ctx.check(not found, "field constraints", "w2v-BERT is accepted")
        except ValidationError:
            ctx.check(bool(found), "field constraints", "w2v-BERT is rejected")
