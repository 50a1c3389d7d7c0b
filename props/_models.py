"""Small instances of the model families with symbolic weights, shared by the model properties."""
from symx.api import *

from fairseq2.nn import BatchLayout, IncrementalStateBag

VOCAB = 6


def _lm_llama(scaled=False, tied=False):
    from fairseq2.models.llama.config import LLaMAConfig, LLaMARoPEScaleConfig
    from fairseq2.models.llama.factory import create_llama_model

    c = LLaMAConfig(model_dim=4, max_seq_len=8, vocab_size=VOCAB, num_layers=1, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=2, ffn_inner_dim_scale=1.0, ffn_inner_dim_multiple_of=1)
    if scaled:
        c.use_scaled_rope, c.rope_scale = True, LLaMARoPEScaleConfig(factor=4.0, frequency_factors=(1.0, 4.0), original_context_length=8)
    if tied:
        c.tied_embeddings, c.shard_embed_dim = True, False
    return create_llama_model(c)


def _lm_qwen():
    from fairseq2.models.qwen.config import QwenConfig
    from fairseq2.models.qwen.factory import create_qwen_model

    return create_qwen_model(QwenConfig(model_dim=3, max_seq_len=8, vocab_size=VOCAB, num_layers=1, num_attn_heads=2, num_key_value_heads=1, head_dim=2, q_norm=True, k_norm=True, ffn_inner_dim=2))


def _lm_mistral(window=2, layers=1):
    from fairseq2.models.mistral.config import MistralConfig
    from fairseq2.models.mistral.factory import create_mistral_model

    return create_mistral_model(MistralConfig(model_dim=4, max_seq_len=8, vocab_size=VOCAB, attn_window_len=window, num_layers=layers, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=2))


def _lm_olmo(window=None):
    from fairseq2.models.olmo.config import OLMOConfig
    from fairseq2.models.olmo.factory import create_olmo_model

    c = OLMOConfig(model_dim=4, max_seq_len=8, vocab_size=VOCAB, pad_idx=0, num_layers=1, num_attn_heads=2, num_key_value_heads=1, ffn_inner_dim=2)
    if window:
        c.sliding_window, c.layer_types = window, ["sliding_attention"]
    return create_olmo_model(c)


def _lm_llama4(nope=False):
    from fairseq2.models.llama4.config import Llama4Config, Llama4ExpertsConfig
    from fairseq2.models.llama4.factory import create_llama4_model

    c = Llama4Config(model_dim=2, max_seq_len=8, vocab_size=VOCAB, num_layers=1, num_attn_heads=1, num_key_value_heads=1, ffn_inner_dim=1, ffn_inner_dim_scale=1.0, ffn_inner_dim_multiple_of=1, attention_chunk_size=2, use_qk_norm=True)
    c.experts = Llama4ExpertsConfig(num_experts=2, interleave_moe_layer_step=2)
    if nope:
        c.nope_layer_interval = 1
    return create_llama4_model(c)


LMS = {
    "llama": lambda: _lm_llama(),
    "llama-scaled": lambda: _lm_llama(scaled=True),
    "llama-tied": lambda: _lm_llama(tied=True),
    "qwen": _lm_qwen,
    "mistral": _lm_mistral,
    "olmo": lambda: _lm_olmo(),
    "olmo-window": lambda: _lm_olmo(2),
    "llama4": lambda: _lm_llama4(),
    "llama4-nope": lambda: _lm_llama4(True),
}


def build(ctx, name, table=LMS):
    m = table[name]()
    return symbolic(ctx, m)


def symbolic(ctx, m):
    """Symbolic weights; of weight-normalized convolutions, the normalized weight is the free parameter."""
    from torch.nn.utils import remove_weight_norm

    for c in m.modules():
        if hasattr(c, "weight_v"):
            remove_weight_norm(c)
    ctx.params(m)
    return m.eval()


def _lm_gemma3n(layers=3, shared=0, window=2, altup=2):
    from fairseq2.models.gemma3n.config import Gemma3nConfig
    from fairseq2.models.gemma3n.factory import create_gemma3n_model

    return create_gemma3n_model(
        Gemma3nConfig(model_dim=4, max_seq_len=8, vocab_size=VOCAB, num_layers=layers, num_attn_heads=2, num_key_value_heads=1, head_dim=2, ffn_inner_dim=1, altup_hidden_dim=1, sliding_window=window,
                      num_kv_shared_layers=shared, laurel_rank=1, altup_num_inputs=altup, vocab_size_per_layer_input=VOCAB, hidden_size_per_layer_input=1)
    )


LMS["gemma3n"] = lambda: _lm_gemma3n(2, 0)
LMS["gemma3n-shared"] = lambda: _lm_gemma3n(7, 2)


def _nllb():
    from fairseq2.models.nllb.config import NllbConfig
    from fairseq2.models.nllb.factory import create_nllb_model

    return create_nllb_model(NllbConfig(model_dim=4, max_seq_len=8, vocab_size=VOCAB, pad_idx=0, num_encoder_layers=1, num_decoder_layers=1, num_encoder_attn_heads=1, num_decoder_attn_heads=1, ffn_inner_dim=1, dropout_p=0.0))


def _s2t(conformer=False, relative=False):
    from fairseq2.models.s2t_conformer.config import S2TConformerConfig
    from fairseq2.models.s2t_conformer.factory import S2TConformerFactory
    from fairseq2.models.s2t_transformer.config import S2TTransformerConfig
    from fairseq2.models.s2t_transformer.factory import S2TTransformerFactory
    from fairseq2.models.s2t_transformer.feature_extractor import Conv1dFbankSubsampler

    d = dict(model_dim=4, max_source_seq_len=8, num_fbank_channels=1, max_target_seq_len=8, target_vocab_size=VOCAB, pad_idx=1, num_encoder_layers=1, num_decoder_layers=1, num_encoder_attn_heads=1, num_decoder_attn_heads=1, ffn_inner_dim=1, dropout_p=0.0)
    if conformer:
        m = S2TConformerFactory(S2TConformerConfig(**d, use_relative_pos=relative, depthwise_conv_kernel_size=3))
    else:
        m = S2TTransformerFactory(S2TTransformerConfig(**d))
    # the factories hard-code an inner dimension of 1024
    import fairseq2.models.s2t_conformer.factory as f1
    import fairseq2.models.s2t_transformer.factory as f2

    try:
        for f in (f1, f2):
            f.Conv1dFbankSubsampler = lambda num_channels, inner_dim, feature_dim, kernel_sizes: Conv1dFbankSubsampler(num_channels, 2, feature_dim, kernel_sizes=[3, 3])
        return m.create_model()
    finally:
        for f in (f1, f2):
            f.Conv1dFbankSubsampler = Conv1dFbankSubsampler


# name -> (builder, shape of a source element, width of the source)
SEQ2SEQ = {
    "nllb": (_nllb, None, 3),
    "s2t-transformer": (lambda: _s2t(), (1,), 5),
    "s2t-conformer": (lambda: _s2t(True), (1,), 5),
    "s2t-conformer-relative": (lambda: _s2t(True, True), (1,), 5),
}


def _w2v2_config(**kw):
    from fairseq2.models.transformer import TransformerNormOrder
    from fairseq2.models.wav2vec2.config import Wav2Vec2EncoderConfig

    d = dict(model_dim=3, max_seq_len=8, feature_dim=3, num_encoder_layers=1, num_encoder_attn_heads=1, ffn_inner_dim=1, dropout_p=0.0, attn_dropout_p=0.0, ffn_inner_dropout_p=0.0, layer_drop_p=0.0,
             feature_extractor_layer_descs=[(3, 2, 1)], feature_extractor_layer_norm_convs=True, feature_grad_scale=1.0, pos_conv_kernel_size=3, num_pos_conv_groups=1, norm_order=TransformerNormOrder.POST)
    d.update(kw)
    return Wav2Vec2EncoderConfig(**d)


class _Encoder:
    """The front-end and the encoder of a wav2vec 2.0 style model."""

    def __init__(self, config):
        from torch.nn import Module

        from fairseq2.models.wav2vec2.factory import Wav2Vec2EncoderFactory

        f = Wav2Vec2EncoderFactory(config)

        class M(Module):
            def __init__(self):
                super().__init__()
                self.frontend, self.encoder = f.create_encoder_frontend(), f.create_encoder()

            def forward(self, seqs, layout):
                seqs, layout = self.frontend(seqs, layout)
                return self.encoder(seqs, layout), layout

        self.module = M()


# name -> (builder, feature shape per frame, widths)
SPEECH = {
    "wav2vec2": (lambda: _Encoder(_w2v2_config()).module, (), (2, 4)),
    "wav2vec2-fbank": (lambda: _Encoder(_w2v2_config(use_fbank=True, feature_dim=2, num_fbank_channels=1, fbank_stride=2, sample_fbank_every_k=1)).module, (1,), (2, 4)),
    "wav2vec2-stacked": (lambda: _Encoder(_w2v2_config(pos_encoder_depth=2)).module, (), (2, 4)),
    "wav2vec2-rotary-conformer": (lambda: _Encoder(_w2v2_config(use_fbank=True, feature_dim=2, num_fbank_channels=2, fbank_stride=1, model_dim=4, pos_encoder_type="rotary", use_conformer=True, depthwise_conv_kernel_size=3)).module, (2,), (1, 3)),
    "wav2vec2-relative-conformer": (lambda: _Encoder(_w2v2_config(use_fbank=True, feature_dim=2, num_fbank_channels=2, fbank_stride=1, model_dim=4, pos_encoder_type="relative", use_conformer=True, depthwise_conv_kernel_size=3)).module, (2,), (1, 3)),
}
