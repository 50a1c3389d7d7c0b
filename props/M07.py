"""Checkpoint conversion between formats is lossless and reversible."""
import copy
import re

import warnings

warnings.simplefilter("ignore")
import transformers

from props._models import *
from props._models import _lm_gemma3n, _w2v2_config

from fairseq2.models.utils.checkpoint import ModelCheckpointMismatchError, convert_state_dict, create_reverse_key_map, set_model_state
from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

OUTSIDE = "parameters that the Hugging Face architecture does not have (per-dimension scales and output scales of Gemma3n); the functional comparison covers LLaMA, Qwen and OLMo; the rotary tables themselves (M05)"
ASSUMPTIONS = ["the original checkpoints have the parameter names of the original implementations listed in the check"]


def _llama(tied=False, layers=2, heads=(2, 1), dim=8, inner=None):
    from fairseq2.models.llama.config import LLaMAConfig
    from fairseq2.models.llama.factory import create_llama_model
    from fairseq2.models.llama.interop import _LLaMAHuggingFaceConverter, convert_llama_state_dict

    c = LLaMAConfig(model_dim=dim, max_seq_len=8, vocab_size=VOCAB, num_layers=layers, num_attn_heads=heads[0], num_key_value_heads=heads[1], ffn_inner_dim_scale=1.0, ffn_inner_dim_multiplier=1.0, ffn_inner_dim_multiple_of=4)
    c.ffn_inner_dim = 4 * ((int(8 * dim / 3) + 3) // 4)
    if inner is not None:
        c.ffn_inner_dim, c.ffn_inner_dim_scale, c.ffn_inner_dim_multiplier, c.ffn_inner_dim_multiple_of = inner
    if tied:
        c.tied_embeddings, c.shard_embed_dim = True, False
    return c, create_llama_model, convert_llama_state_dict, _LLaMAHuggingFaceConverter().to_hg_config, _LLaMAHuggingFaceConverter().to_hg_state_dict


def _qwen(tied=False, bias=False, layers=2):
    from fairseq2.models.qwen.config import QwenConfig
    from fairseq2.models.qwen.factory import create_qwen_model
    from fairseq2.models.qwen.interop import _QwenHuggingFaceConverter, convert_qwen_state_dict

    c = QwenConfig(model_dim=4, max_seq_len=8, vocab_size=VOCAB, num_layers=layers, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=3, tied_embeddings=tied, qkv_proj_bias=bias)
    if not bias:
        c.q_norm = c.k_norm = True
        c.head_dim = 2
    return c, create_qwen_model, convert_qwen_state_dict, _QwenHuggingFaceConverter().to_hg_config, _QwenHuggingFaceConverter().to_hg_state_dict


def _olmo(tied=False, three=False, layers=2):
    from fairseq2.models.olmo.config import OLMOConfig
    from fairseq2.models.olmo.factory import create_olmo_model
    from fairseq2.models.olmo.interop import _OLMOHuggingFaceConverter, convert_olmo_state_dict

    c = OLMOConfig(model_dim=4, max_seq_len=8, vocab_size=VOCAB, pad_idx=0, num_layers=layers, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=2, tied_embeddings=tied)
    c.eos_token_id, c.bos_token_id = 1, None
    if three:
        c.sliding_window, c.layer_types = 2, ["sliding_attention", "full_attention"][:layers]
    return c, create_olmo_model, convert_olmo_state_dict, _OLMOHuggingFaceConverter().to_hg_config, _OLMOHuggingFaceConverter().to_hg_state_dict


HG = {
    "llama": lambda **kw: _llama(**kw),
    "llama-mha": lambda **kw: _llama(heads=(2, 2), **kw),
    "llama-narrow": lambda **kw: _llama(inner=(6, 0.5, 1.5, 2), dim=4, **kw),
    "llama-default": lambda **kw: _llama(inner=(16, 2 / 3, 1.3, 4), dim=4, **kw),
    "llama-tied": lambda **kw: _llama(True, **kw),
    "qwen2": lambda **kw: _qwen(bias=True, **kw),
    "qwen3": lambda **kw: _qwen(**kw),
    "qwen3-tied": lambda **kw: _qwen(True, **kw),
    "olmo2": lambda **kw: _olmo(**kw),
    "olmo2-tied": lambda **kw: _olmo(True, **kw),
    "olmo3": lambda **kw: _olmo(three=True, **kw),
}


def _native(ctx, hg_config):
    """The Hugging Face model that `hg_config` describes"""
    native = getattr(transformers, hg_config.kls_name)()
    for key, value in hg_config.data.items():
        ctx.check(hasattr(native, key), "keys of the architecture", f"{hg_config.kls_name} has no attribute {key}")
        setattr(native, key, value)
    native = type(native).from_dict(native.to_dict())  # what loading the saved configuration gives
    native._attn_implementation = "eager"
    with torch._C.DisableTorchFunction(), torch.device("meta"):
        return getattr(transformers, hg_config.arch)(native), native


def _symbolic_state(ctx, shapes, prefix="w"):
    return {k: ctx.tensor(f"{prefix}.{k}", s) for k, s in shapes.items()}


def _shapes(module, buffers=True):
    sd = module.state_dict()
    return {k: tuple(v.shape) for k, v in sd.items()}


def _same(ctx, got, want, label, what):
    ctx.check(set(got) == set(want), label, f"{what}: keys {sorted(set(got) ^ set(want))} are on one side only")
    for k in want:
        ctx.check(tuple(got[k].shape) == tuple(want[k].shape), label, f"{what}: {k} has shape {tuple(got[k].shape)} instead of {tuple(want[k].shape)}")
        ctx.teq(got[k], want[k], label, f"{what}: {k}")


@harness(
    bounds="2 layers, 2 heads (1 or 2 key/value heads), head dimension 2..4, vocabulary of 6, arbitrary weights, tied and untied embeddings",
    labels=["keys of the architecture", "back and forth", "unchanged checkpoints"],
    params=lambda tier: grid(family=sorted(HG)),
    tensor=True,
)
def hugging_face(ctx, family):
    config, create, convert, to_config, to_state = HG[family]()
    model = create(config)
    shapes = _shapes(model)
    state = _symbolic_state(ctx, shapes)
    if config.tied_embeddings:
        state["final_proj.weight"] = state["decoder_frontend.embed.weight"]
    hg_config = to_config(config)
    hg = to_state(dict(state), config)
    want = NATIVE[family] if family in NATIVE else NATIVE.setdefault(family, _shapes(_native(ctx, hg_config)[0]))
    want = {k: s for k, s in want.items() if not (config.tied_embeddings and k == "lm_head.weight")}
    ctx.check({k: tuple(v.shape) for k, v in hg.items()} == want, "keys of the architecture", f"{set(hg) ^ set(want)} {[k for k in want if k in hg and tuple(hg[k].shape) != want[k]]}")
    back = convert(dict(hg), config)
    _same(ctx, back, state, "back and forth", family)
    if config.tied_embeddings:
        ctx.check(back["final_proj.weight"] is back["decoder_frontend.embed.weight"], "back and forth", "tied parameters are one tensor")
    _same(ctx, convert(dict(state), config), state, "unchanged checkpoints", family)


NATIVE = {}


@harness(
    bounds="1 layer (OLMo 3: a sliding layer), 2 heads of 1 key/value head, head dimension 2..4, arbitrary weights and rotary tables; logits of 1 token, attention scores of 2 tokens",
    labels=["the same epsilon", "the same logits", "the same scores", "keys of the architecture"],
    params=lambda tier: grid(family=["llama", "llama-mha", "llama-narrow", "qwen2", "qwen3", "olmo2", "olmo3"]),
    tensor=True,
    let=60,
    timeout_ms=4000,
)
def same_function(ctx, family):
    config, create, convert, to_config, to_state = HG[family](layers=1)
    model = symbolic(ctx, create(config))
    hg_config = to_config(config)
    hg = to_state({k: v for k, v in model.state_dict().items()}, config)
    # the layers of the Hugging Face model with the converted weights
    conf = _native(ctx, hg_config)[1]
    hf = getattr(transformers, hg_config.arch)
    module = __import__(hf.__module__, fromlist=["x"])
    name = hf.__name__.removesuffix("ForCausalLM")
    layer = getattr(module, f"{name}DecoderLayer")(conf, 0)
    norm = getattr(module, f"{name}RMSNorm")(conf.hidden_size, eps=conf.rms_norm_eps)
    head_dim = getattr(conf, "head_dim", None) or conf.hidden_size // conf.num_attention_heads
    with torch.no_grad():
        for n, p in layer.named_parameters():
            p.copy_(hg[f"model.layers.0.{n}"])
        norm.weight.copy_(hg["model.norm.weight"])
    layer.eval()
    # the epsilons agree; the comparison uses one that single precision represents exactly
    mine = {n.split(".")[-1]: m for n, m in model.named_modules() if hasattr(m, "eps")}
    other = [m for m in [*layer.modules(), norm] if hasattr(m, "variance_epsilon")]
    ctx.check({float(m.eps) for m in mine.values()} == {float(m.variance_epsilon) for m in other}, "the same epsilon", f"{family}: {[m.eps for m in mine.values()]} {[m.variance_epsilon for m in other]}")
    for m in model.modules():
        if hasattr(m, "eps"):
            m.eps = 2.0**-6
    for m in other:
        m.variance_epsilon = 2.0**-6
    # the same rotary tables on both sides
    half = head_dim // 2
    cos, sin = ctx.tensor("cos", (2, half)), ctx.tensor("sin", (2, half))
    for m in model.modules():
        if type(m).__name__ == "RotaryEncoder":
            m.freqs = torch.cat([torch.zeros(1, half, 2), torch.stack([cos, sin], -1)])
        elif hasattr(m, "cos_freqs"):
            for attr, v in (("cos_freqs", cos), ("sin_freqs", sin)):
                setattr(m, attr, torch.cat([torch.zeros(1, head_dim), torch.cat([v, v], -1)]))

    def theirs(tokens):
        n = tokens.size(1)
        mask = torch.tensor([[0.0 if j <= i else -math.inf for j in range(n)] for i in range(n)]).reshape(1, 1, n, n)
        pos = (torch.cat([cos, cos], -1)[:n].unsqueeze(0), torch.cat([sin, sin], -1)[:n].unsqueeze(0))
        x = layer(hg["model.embed_tokens.weight"][tokens], attention_mask=mask, position_embeddings=pos, position_ids=torch.arange(n).unsqueeze(0))
        x = x[0] if isinstance(x, tuple) else x
        return torch.nn.functional.linear(norm(x), hg.get("lm_head.weight", hg["model.embed_tokens.weight"]))

    token = torch.tensor([[3]])
    ctx.teq(model(token, BatchLayout.of(token)), theirs(token), "the same logits", family)

    class Seen(Exception):
        pass

    def record(*a, **kw):
        raise Seen(a)

    def scores(q, k):
        k = k.repeat_interleave(q.size(2) // k.size(2), dim=2) if k.size(2) != q.size(2) else k
        return torch.stack([(q[:, i] * k[:, j]).sum(-1) for i in range(2) for j in range(i + 1)])

    tokens = torch.tensor([[1, 4]])
    attn = model.decoder.layers[0].self_attn
    attn.sdpa.forward = record
    try:
        model(tokens, BatchLayout.of(tokens))
    except Seen as ex:
        mine = scores(ex.args[0][0], ex.args[0][2])
    transformers.modeling_utils.ALL_ATTENTION_FUNCTIONS["record"] = record
    layer.self_attn.config._attn_implementation = "record"
    try:
        theirs(tokens)
    except Seen as ex:
        other = scores(ex.args[0][1].transpose(1, 2), ex.args[0][2].transpose(1, 2))
    ctx.teq(mine, other, "the same scores", family)


# ------------------------------------------------------------ original formats
_ATTN = [(r"\.self_attn\.output_proj\.", ".self_attn.out_proj."), (r"\.encoder_decoder_attn\.output_proj\.", ".encoder_attn.out_proj."), (r"\.encoder_decoder_attn", ".encoder_attn")]
_FFN = [(r"\.ffn\.inner_proj\.", ".fc1."), (r"\.ffn\.output_proj\.", ".fc2."), (r"\.ffn_layer_norm\.", ".final_layer_norm.")]
_EMBED = [(r"^(encoder|decoder)_frontend\.embed\.", r"\1.embed_tokens."), (r"^final_proj\.", "decoder.output_projection.")]
_REF = [
    (r"^decoder\.layers\.", "layers."), (r"self_attn\.q_proj", "attention.wq"), (r"self_attn\.k_proj", "attention.wk"), (r"self_attn\.v_proj", "attention.wv"), (r"self_attn\.output_proj", "attention.wo"),
    (r"self_attn_layer_norm", "attention_norm"), (r"ffn\.gate_proj", "feed_forward.w1"), (r"ffn\.output_proj", "feed_forward.w2"), (r"ffn\.inner_proj", "feed_forward.w3"), (r"ffn_layer_norm", "ffn_norm"),
    (r"^decoder\.layer_norm", "norm"), (r"^decoder_frontend\.embed", "tok_embeddings"), (r"^final_proj", "output"),
]
_REF4 = [
    (r"^decoder\.layers\.", "layers."), (r"self_attn\.([qkv])_proj", r"attention.w\1"), (r"self_attn\.output_proj", "attention.wo"), (r"self_attn_layer_norm\.weight", "attention.wqkv.layer_norm_weight"),
    (r"ffn\.shared_expert\.gate_proj", "feed_forward.w_in_shared_FD"), (r"ffn\.shared_expert\.inner_proj", "feed_forward.w_swiglu_FD"), (r"ffn\.shared_expert\.output_proj", "feed_forward.w_out_shared_DF"),
    (r"ffn\.experts\.gate_proj", "feed_forward.experts.moe_w_in_eD_F"), (r"ffn\.experts\.inner_proj", "feed_forward.experts.moe_w_swiglu_eD_F"), (r"ffn\.experts\.output_proj", "feed_forward.experts.moe_w_out_eF_D"),
    (r"ffn\.router$", "feed_forward.router_DE"), (r"ffn\.gate_proj", "feed_forward.w1"), (r"ffn\.output_proj\.weight", "feed_forward.mlp.fc2_weight"), (r"ffn\.inner_proj", "feed_forward.w3"),
    (r"^decoder\.layer_norm", "norm"), (r"^decoder_frontend\.embed", "tok_embeddings"), (r"^final_proj", "output"),
]
_S2T_FRONT = [(r"^encoder_frontend\.feature_extractor\.layers\.([0-9]+)\.conv\.", r"encoder.subsample.conv_layers.\1.")]
_CONFORMER = [
    (r"\.ffn([12])_layer_norm", r".ffn\1.layer_norm"), (r"\.ffn([12])\.inner_proj", r".ffn\1.w_1"), (r"\.ffn([12])\.output_proj", r".ffn\1.w_2"), (r"\.conv_layer_norm\.", ".conv_module.layer_norm."),
    (r"(layers\.[0-9]+)\.conv\.", r"\1.conv_module."), (r"(encoder\.layers\.[0-9]+)\.layer_norm\.", r"\1.final_layer_norm."), (r"(encoder\.layers\.[0-9]+\.self_attn)\.([qkv])_proj", r"\1.linear_\2"),
    (r"(encoder\.layers\.[0-9]+\.self_attn)\.output_proj", r"\1.linear_out"), (r"sdpa\.([uv])_bias", r"pos_bias_\1"), (r"sdpa\.r_proj", "linear_pos"),
]
_W2V2_FRONT = [
    (r"^encoder_frontend\.feature_extractor\.layers\.([0-9]+)\.conv\.", r"feature_extractor.conv_layers.\1.0."), (r"^encoder_frontend\.feature_extractor\.layers\.([0-9]+)\.layer_norm\.", r"feature_extractor.conv_layers.\1.2.1."),
    (r"^encoder_frontend\.feature_extractor\.layers\.0\.group_norm\.", "feature_extractor.conv_layers.0.2."), (r"^encoder_frontend\.post_extract_layer_norm\.", "layer_norm."), (r"^encoder_frontend\.model_dim_proj\.", "post_extract_proj."),
    (r"^encoder_frontend\.pos_encoder\.conv\.", "encoder.pos_conv.0."), (r"^encoder_frontend\.pos_encoder\.layers\.([0-9]+)\.conv\.", r"encoder.pos_conv.\1.0."), (r"^encoder_frontend\.layer_norm\.", "encoder.layer_norm."),
    (r"^masker\.temporal_mask_embed", "mask_emb"), (r"^quantizer\.entries", "quantizer.vars"), (r"^quantizer\.entry_proj\.", "quantizer.weight_proj."), (r"^final_target_proj\.", "project_q."),
]


def _w2v2(pre=False, group=False, stacked=False, fbank=False):
    from fairseq2.models.transformer import TransformerNormOrder
    from fairseq2.models.wav2vec2.config import Wav2Vec2Config
    from fairseq2.models.wav2vec2.factory import create_wav2vec2_model
    from fairseq2.models.wav2vec2.interop import convert_wav2vec2_state_dict

    kw = {}
    if pre:
        kw["norm_order"], kw["layer_norm_features"] = TransformerNormOrder.PRE, False
    if group:
        kw["feature_extractor_layer_norm_convs"] = False
    if stacked:
        kw["pos_encoder_depth"] = 2
    c = Wav2Vec2Config(encoder_config=_w2v2_config(model_dim=4, num_encoder_layers=2, feature_extractor_layer_descs=[(3, 2, 1), (3, 2, 1)], **kw), final_dim=2, quantized_dim=2, num_codebooks=1, num_codebook_entries=2)
    return c, create_wav2vec2_model, convert_wav2vec2_state_dict, _W2V2_FRONT + _ATTN + _FFN, {"encoder.version"}


def _w2v2_asr(pre=False, group=False):
    from fairseq2.models.transformer import TransformerNormOrder
    from fairseq2.models.wav2vec2.asr.config import Wav2Vec2AsrConfig
    from fairseq2.models.wav2vec2.asr.factory import create_wav2vec2_asr_model
    from fairseq2.models.wav2vec2.asr.interop import convert_wav2vec2_asr_state_dict

    kw = {"norm_order": TransformerNormOrder.PRE, "layer_norm_features": False} if pre else {}
    if group:
        kw["feature_extractor_layer_norm_convs"] = False
    c = Wav2Vec2AsrConfig(encoder_config=_w2v2_config(num_encoder_layers=2, **kw), target_vocab_size=5)
    table = [(r"^final_proj\.", "w2v_encoder.proj.")] + [(a, b) for a, b in _W2V2_FRONT + _ATTN + _FFN] + [(r"^(?!w2v_encoder)", "w2v_encoder.w2v_model.")]
    return c, create_wav2vec2_asr_model, convert_wav2vec2_asr_state_dict, table, set()


def _w2vbert():
    from fairseq2.models.transformer import TransformerNormOrder
    from fairseq2.models.w2vbert.config import W2VBertConfig
    from fairseq2.models.w2vbert.factory import create_w2vbert_model
    from fairseq2.models.w2vbert.interop import convert_w2vbert_state_dict
    from fairseq2.models.wav2vec2.config import Wav2Vec2Config

    e = _w2v2_config(use_fbank=True, feature_dim=2, num_fbank_channels=2, fbank_stride=1, model_dim=4, pos_encoder_type="relative", use_conformer=True, depthwise_conv_kernel_size=3, num_encoder_layers=2, layer_norm_features=False)
    c = W2VBertConfig(w2v2_config=Wav2Vec2Config(encoder_config=e, final_dim=2, quantized_dim=2, num_codebooks=1, num_codebook_entries=2), num_bert_encoder_layers=1)
    table = [(r"^w2v2_model\.", ""), (r"^final_bert_proj\.", "mlm_proj.")] + [x for x in _W2V2_FRONT if "encoder_frontend\\.layer_norm" not in x[0]] + _CONFORMER
    return c, create_w2vbert_model, convert_w2vbert_state_dict, table, set()


def _jepa():
    from fairseq2.models.jepa.config import JepaConfig, JepaEncoderConfig
    from fairseq2.models.jepa.factory import create_jepa_model
    from fairseq2.models.jepa.interop import convert_jepa_state_dict

    c = JepaConfig(encoder_config=JepaEncoderConfig(model_dim=4, input_dims=(2, 2), patch_dims=(1, 1), num_input_channels=1, num_encoder_layers=2, num_encoder_attn_heads=1, ffn_inner_dim_ratio=0.5))
    table = [
        (r"^encoder\.layers\.", "module.backbone.blocks."), (r"self_attn\.([qkv])_proj", r"attn.\1_proj"), (r"self_attn\.output_proj", "attn.proj"), (r"self_attn_layer_norm", "norm1"), (r"ffn\.inner_proj", "mlp.fc1"),
        (r"ffn\.output_proj", "mlp.fc2"), (r"ffn_layer_norm", "norm2"), (r"^encoder\.layer_norm", "module.backbone.norm"), (r"^encoder_frontend\.feature_extractor\.conv", "module.backbone.patch_embed.proj"),
    ]
    return c, create_jepa_model, convert_jepa_state_dict, table, {"module.backbone.pos_embed"}


def _seq2seq(name):
    import dataclasses

    from fairseq2.models.nllb.config import NllbConfig
    from fairseq2.models.nllb.interop import convert_nllb_state_dict
    from fairseq2.models.s2t_conformer.interop import convert_s2t_conformer_state_dict
    from fairseq2.models.s2t_transformer.interop import convert_s2t_transformer_state_dict

    extra = {"encoder.version", "decoder.version", "decoder.embed_positions._float_tensor"}
    create = lambda c: SEQ2SEQ[name][0]()
    if name == "nllb":
        return None, create, convert_nllb_state_dict, _EMBED + _ATTN + _FFN, extra | {"encoder.embed_positions._float_tensor"}
    if name == "s2t-transformer":
        return None, create, convert_s2t_transformer_state_dict, _S2T_FRONT + _EMBED + _ATTN + _FFN + [(r"^encoder\.layers", "encoder.transformer_layers")], extra
    dec = [(r"^(decoder\..*)" + a, r"\1" + b) for a, b in _ATTN + _FFN]
    return None, create, convert_s2t_conformer_state_dict, _S2T_FRONT + [(r"^encoder_frontend\.proj\.", "encoder.linear.")] + _EMBED + dec + _CONFORMER + [(r"^encoder\.layers", "encoder.conformer_layers")], extra


def _lm(name):
    from fairseq2.models.llama.interop import convert_llama_state_dict
    from fairseq2.models.llama4.interop import convert_llama4_state_dict
    from fairseq2.models.mistral.interop import convert_mistral_state_dict

    if name in ("llama-reference", "llama-reference-tied"):
        c, create, *_ = _llama(tied=name.endswith("tied"))
        return c, create, convert_llama_state_dict, _REF, {"rope.freqs", "layers.0.attention.inner_attention.rope.freqs"}
    if name == "mistral-reference":
        from fairseq2.models.mistral.config import MistralConfig

        return MistralConfig(), lambda c: LMS["mistral"](), convert_mistral_state_dict, _REF, set()
    from fairseq2.models.llama4.config import Llama4Config, Llama4ExpertsConfig
    from fairseq2.models.llama4.factory import create_llama4_model

    c = Llama4Config(model_dim=4, max_seq_len=8, vocab_size=VOCAB, num_layers=2, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=1, ffn_inner_dim_scale=1.0, ffn_inner_dim_multiple_of=1, experts=Llama4ExpertsConfig(num_experts=2, interleave_moe_layer_step=2))
    return c, create_llama4_model, convert_llama4_state_dict, _REF4, {"rope.freqs", "vision_embeddings.x", "layers.1.feed_forward.experts._extra_state", "layers.1.feed_forward.expert_activation_DE", "layers.1.feed_forward.running_stats_3E"}


ORIGINALS = {
    **{n: (lambda n=n: _seq2seq(n)) for n in ("nllb", "s2t-transformer", "s2t-conformer", "s2t-conformer-relative")},
    **{n: (lambda n=n: _lm(n)) for n in ("llama-reference", "llama-reference-tied", "mistral-reference", "llama4-reference")},
    "wav2vec2": lambda: _w2v2(),
    "wav2vec2-pre": lambda: _w2v2(pre=True),
    "wav2vec2-group": lambda: _w2v2(group=True),
    "wav2vec2-stacked": lambda: _w2v2(stacked=True),
    "wav2vec2-asr": lambda: _w2v2_asr(),
    "wav2vec2-asr-pre": lambda: _w2v2_asr(pre=True, group=True),
    "w2vbert": _w2vbert,
    "jepa": _jepa,
}


def _original(key, table):
    if key.startswith("encoder.layer_norm") and any("encoder_frontend" in a for a, _ in table):
        return key if not any("w2v_encoder" in b for _, b in table) else "w2v_encoder.w2v_model." + key
    for a, b in table:
        key = re.sub(a, b, key)
    return key


def _fuse(original, c, name):
    """the fused query, key and value projections of JEPA and LLaMA 4"""
    out = {}
    for k, v in original.items():
        if name == "jepa" and (m := re.match(r"(.*attn\.)q_proj(\.\w+)", k)):
            out[m[1] + "qkv" + m[2]] = torch.cat([original[m[1] + f"{x}_proj" + m[2]] for x in "qkv"])
        elif name == "llama4-reference" and (m := re.match(r"(.*attention\.)wq(\.weight)", k)):
            out[m[1] + "wqkv" + m[2]] = torch.cat([original[m[1] + f"w{x}" + m[2]] for x in "qkv"])
        elif not (name == "jepa" and re.search(r"attn\.[kv]_proj", k) or name == "llama4-reference" and re.search(r"attention\.w[kv]\.", k)):
            out[k] = v
    return out


@harness(
    bounds="1..2 layers, arbitrary weights; the checkpoint wrapped or not; every family with a converter from its original format, pre- and post-norm, layer-norm and group-norm feature extractors",
    labels=["every parameter arrives", "loads into the model", "unchanged checkpoints"],
    params=lambda tier: grid(family=sorted(ORIGINALS)),
    tensor=True,
)
def originals(ctx, family):
    config, create, convert, table, extra = ORIGINALS[family]()
    model = create(config)
    shapes = _shapes(model)
    state = _symbolic_state(ctx, shapes)
    for k in shapes:
        if k.endswith("num_batches_tracked"):
            state[k] = torch.tensor(3)
    if "quantizer.num_updates" in " ".join(shapes):
        k = next(k for k in shapes if k.endswith("quantizer.num_updates"))
        state[k] = torch.zeros(())
    if family.startswith("nllb") or family.endswith("-tied"):
        for k in ("encoder_frontend.embed.weight", "decoder_frontend.embed.weight"):
            if k in state:
                state[k] = state["final_proj.weight"]
    if family == "llama4-reference":
        # the layer norm before a dense network is stored with the network, before experts on its own
        moe = lambda k: any("experts" in o and o.split(".")[2] == k.split(".")[2] for o in shapes if o.startswith("decoder.layers"))
        original = {}
        for k, v in state.items():
            o = _original(k, table)
            if "ffn_layer_norm" in k:
                o = re.sub(r"ffn_layer_norm\.weight", "feed_forward.norm.weight" if moe(k) else "feed_forward.mlp.layer_norm_weight", o)
            original[o] = v
    else:
        original = {_original(k, table): v for k, v in state.items() if not k.endswith("quantizer.num_updates")}
    ctx.check(len(original) == len(state) - any(k.endswith("quantizer.num_updates") for k in state), "every parameter arrives", f"two parameters share an original name: {family}")
    if family == "nllb":  # (PAD, UNK, BOS, EOS) -> (BOS, PAD, EOS, UNK)
        e = state["final_proj.weight"]
        orig = torch.stack([e[2], e[0], e[3], e[1], *e[4:]])
        for k in list(original):
            if "embed_tokens" in k or "output_projection" in k:
                original[k] = orig.clone()
    if family == "llama-reference-tied":
        original.pop("output.weight")
    original = _fuse(original, config, family)
    for k in extra:
        original[k] = torch.zeros(2)
    if family == "jepa":
        original = {ctx.choice("checkpoint", ["encoder", "target_encoder"]): original}
        if "target_encoder" in original:
            original["encoder"] = {}
    elif family in ("nllb", "s2t-transformer", "wav2vec2", "llama-reference") and ctx.flag("wrapped"):
        original = {"model": original}
    got = convert(original, config)
    _same(ctx, got, state, "every parameter arrives", family)
    set_model_state(model, got.items(), NOOP_PROGRESS_REPORTER)
    _same(ctx, model.state_dict(), state, "loads into the model", family)
    if family != "jepa":
        _same(ctx, convert(dict(state), config), state, "unchanged checkpoints", family)


@harness(
    bounds="a text decoder layer, audio tower layer or both; arbitrary weights",
    labels=["back and forth", "audio weights only with an audio tower"],
    params=lambda tier: grid(audio=[False, True]),
    tensor=True,
)
def gemma3n(ctx, audio):
    from fairseq2.models.gemma3n import interop
    from fairseq2.models.gemma3n.config import Gemma3nAudioConfig

    from types import SimpleNamespace as NS

    keys = [k for k in _lm_gemma3n(2, 0).state_dict() if "correct_output_scale" not in k]
    tower = []
    for part in ("self_attn_layer_norm.weight", "self_attn.q_proj.weight", "self_attn.k_proj.weight", "self_attn.v_proj.weight", "self_attn.sdpa.pos_proj.weight", "self_attn.output_proj.weight", "self_attn_post_norm.weight",
                 "ffn1_layer_norm.weight", "ffn1.inner_proj.weight", "ffn1.output_proj.weight", "ffn1_post_layer_norm.weight", "conv_layer_norm.weight", "conv.pointwise_conv1.weight", "conv.depthwise_conv.weight",
                 "conv.layer_norm.weight", "conv.pointwise_conv2.weight", "ffn2_layer_norm.weight", "ffn2.inner_proj.weight", "ffn2.output_proj.weight", "ffn2_post_layer_norm.weight", "layer_norm.weight"):
        tower += [f"audio_tower.encoder.layers.{i}.{part}" for i in (0, 11)]
    tower += ["audio_tower.subsample.conv_0.weight", "audio_tower.subsample.norm_0.weight", "audio_tower.subsample.conv_1.weight", "audio_tower.subsample.norm_1.weight", "audio_tower.subsample.proj.weight",
              "audio_tower.embedder.embedding.weight", "audio_tower.embedder.hard_embedding_norm.weight", "audio_tower.embedder.soft_embedding_norm.weight", "audio_tower.embedder.embedding_projection.weight"]
    state = {k: ctx.tensor(f"w.{k}", (2, 3, 1) if "pointwise" in k else (3, 1, 2) if "depthwise" in k else (2, 2)) for k in keys + (tower if audio else [])}
    hg = interop._convert_to_hg_state_dict(dict(state))
    ctx.check(len(hg) == len(state) and all(k.startswith(("model.", "lm_head.")) for k in hg), "back and forth", f"{[k for k in hg if not k.startswith(('model.', 'lm_head.'))]}")
    ctx.check(all(v.ndim == 2 for k, v in hg.items() if "linear_start" in k or "linear_end" in k), "back and forth", "pointwise convolutions are linear layers")
    extra = {"model.vision_tower.x.weight": torch.zeros(1), "model.embed_vision.y.weight": torch.zeros(1), "model.embed_audio.embedding_post_projection_norm.weight": torch.zeros(1)}
    back = interop.convert_gemma3n_state_dict({**hg, **extra}, NS(audio_config=Gemma3nAudioConfig() if audio else None))
    _same(ctx, back, state, "back and forth", "gemma3n")
    none = interop.convert_gemma3n_state_dict({**hg, **extra}, NS(audio_config=None))
    ctx.check(set(none) == set(keys), "audio weights only with an audio tower")


@harness(
    bounds="keys of up to 3 layers with 1..3 digit indices, arbitrary values; models of 2 parameters with a shared one, arbitrary subsets, superfluous keys and wrong shapes",
    labels=["first matching pattern", "reversed map", "loads exactly", "mismatches rejected"],
    params=lambda tier: grid(part=["map", "load"]),
    tensor=True,
)
def generic(ctx, part):
    if part == "map":
        key_map = {r"^a\.layers\.([0-9]+)\.x\.": r"b.blocks.\1.y.", r"^a\.layers\.([0-9]+)\.": r"b.other.\1.", r"^head\.": r"out.proj."}
        idx = ctx.choice("index", [0, 9, 10, 101])
        rest = ctx.choice("rest", ["x.weight", "xx.weight", "x.x.bias"])
        v, u, w = ctx.tensor("v", (1,)), ctx.tensor("u", (1,)), ctx.tensor("w", (1,))
        key = f"a.layers.{idx}.{rest}"
        got = convert_state_dict({key: v, "head.w": u, "z.head.w": w}, key_map)
        want = f"b.blocks.{idx}.y.{rest[2:]}" if rest.startswith("x.") else f"b.other.{idx}.{rest}"
        _same(ctx, got, {want: v, "out.proj.w": u, "z.head.w": w}, "first matching pattern", key)
        back = convert_state_dict(got, create_reverse_key_map(key_map))
        _same(ctx, back, {key: v, "head.w": u, "z.head.w": w}, "reversed map", key)
        for label in ("loads exactly", "mismatches rejected"):
            ctx.check(True, label)
        return
    for label in ("first matching pattern", "reversed map"):
        ctx.check(True, label)

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.a = torch.nn.Parameter(torch.zeros(2))
            self.b = torch.nn.Parameter(torch.zeros(1, 2))
            self.c = self.a
            self.register_buffer("d", torch.zeros(1))

    m = M()
    state = {}
    bad = False
    for k, s in (("a", (2,)), ("b", (1, 2)), ("c", (2,)), ("d", (1,))):
        how = ctx.choice(f"state of {k}", ["given", "absent", "wrong shape"] if k in "ab" else ["given", "absent"])
        if how == "given":
            state[k] = ctx.tensor(k, s)
        elif how == "wrong shape":
            state[k] = torch.zeros(3)
            bad = True
    if ctx.flag("superfluous"):
        state["e"] = torch.zeros(1)
        bad = True
    bad = bad or "b" not in state or "d" not in state or ("a" not in state and "c" not in state)
    if bad:
        ctx.raises(ModelCheckpointMismatchError, lambda: set_model_state(m, state.items(), NOOP_PROGRESS_REPORTER), "mismatches rejected")
        return
    set_model_state(m, state.items(), NOOP_PROGRESS_REPORTER)
    want = dict(state)
    want["a"] = want["c"] = state["c"] if "c" in state else state["a"]  # the last one loaded
    _same(ctx, m.state_dict(), want, "loads exactly", f"{sorted(state)}")
