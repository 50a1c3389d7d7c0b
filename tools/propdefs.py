"""Source of properties.jsonl. P(id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)])."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": ["src/fairseq2/" + f for f in files],
                "mechanism": [{"name": n, "where": "src/fairseq2/" + w} for n, w in mech],
            },
        }
    )


# ------------------------------------------------------------------ checkpointing
P("C01", "A checkpoint becomes visible only once every part of it is written",
  "Whatever file operation a save is interrupted at, listing the checkpoints afterwards returns only steps whose saved state is complete and loadable, and every checkpoint of another step committed earlier is still intact, as long as the directory is on a local file system. After the interruption the same step can be saved again and then loads with the new state.",
  ["crash_points", "fault_sequences", "configurations"],
  "Every file-system operation of a save as the crash or fault point, one or two data-parallel shards, with or without model-only saves, blocking or not, earlier checkpoints present or not.",
  "The tests save to a real directory without faults; the number of interruption points times configurations is never enumerated.",
  ["checkpoint/manager.py"],
  [("save to a temporary step directory, barrier, rename", "checkpoint/manager.py"), ("listing of committed steps", "checkpoint/manager.py")])
P("C02", "Saved training state is restored exactly, per rank and per step",
  "Every piece of state handed to a checkpoint save (trainer, model, optimizer, data reader) is what loading that step returns, for every rank of a multi-rank run. States of different ranks, steps or kinds never overwrite or substitute each other.",
  ["configurations", "inputs", "histories"],
  "Every rank layout up to 2x2 data x tensor parallel (replicated and sharded data parallelism), any sequence of two saves at arbitrary steps, arbitrary scalar state contents.",
  "Tests save and load one step in a single process; no test runs more than one rank.",
  ["checkpoint/manager.py"],
  [("per-rank file naming and rank filters in save and load", "checkpoint/manager.py")])
P("C03", "Checkpoint retention never deletes what must be kept",
  "With keep-last-N, keep-best-N and keep-every-N policies the steps selected for deletion are exactly those that no policy retains, and the most recent checkpoint is never among them. Scores are compared as numbers with the best kept, ties going to the more recent step.",
  ["inputs", "configurations", "histories"],
  "Up to five checkpoints with arbitrary step numbers and arbitrary scores (or missing scores), any combination of the three policies.",
  "Tests use a couple of fixed score lists; orderings, ties and policy combinations are open-ended.",
  ["checkpoint/manager.py"],
  [("computation of stale steps", "checkpoint/manager.py"), ("score files", "checkpoint/manager.py")])
P("C04", "Sharded checkpoints reload losslessly under a different parallel layout",
  "A model checkpoint written with one tensor-/data-parallel layout and read back under another gives every rank exactly the slice of each full parameter that its shard of the model expects. Every element of every parameter is read exactly once per reader and never truncated, duplicated or permuted.",
  ["configurations", "inputs"],
  "Source and target layouts with tensor sizes 1, 2, 4 and data-parallel shard counts 1..3, even and uneven parameter sizes, arbitrary element values.",
  "Tests cover a few layouts on fixed tensors; combinations of source/target layouts, sharding dimensions and uneven chunk sizes are not enumerated.",
  ["model_checkpoint/native.py", "model_checkpoint/common.py", "sharder.py", "nn/sharded.py"],
  [("native checkpoint reader", "model_checkpoint/native.py"), ("tensor resharding", "model_checkpoint/common.py"), ("shard spec application", "sharder.py")])
P("C05", "Loading a state dict fills every parameter or fails loudly",
  "Loading a checkpoint into a model either overwrites every parameter and persistent buffer with the checkpoint value of that name, or raises an error naming the mismatch. Missing keys, unexpected keys and shape mismatches are never silently ignored.",
  ["inputs", "configurations"],
  "Every subset of missing and extra keys up to the model's size, wrong shapes, shared (tied) parameters, arbitrary values.",
  "Tests load matching checkpoints only; the mismatching subsets are exponential.",
  ["nn/utils/module.py", "models/utils/checkpoint.py"],
  [("checkpoint-to-module loading", "nn/utils/module.py"), ("key conversion", "models/utils/checkpoint.py")])
# ------------------------------------------------------------------ training loop
P("T01", "Training performs exactly the configured steps and triggers every action once",
  "Training runs optimizer steps 1, 2, 3, ... consecutively until the configured maximum number of steps or epochs, end of data or a stop request, and then terminates in the corresponding state. Validation, checkpointing, model publishing and metric reporting each happen at exactly the steps and epochs their settings describe and at most once per step.",
  ["configurations", "schedules", "inputs"],
  "Arbitrary 'after', 'every', maximum step and epoch settings; epoch lengths up to 3 steps; a stop request arriving at any callback; overflowed steps at any position; runs of up to 5 steps.",
  "The tests do not run the training loop; the interleavings of settings, epoch ends and stop requests are unbounded.",
  ["trainer.py"],
  [("state machine of the training loop", "trainer.py"), ("predicates deciding each action", "trainer.py")])
P("T02", "Resuming from a checkpoint continues the interrupted run exactly",
  "A run interrupted after any checkpoint and restarted from it performs the same remaining sequence of batches, optimizer steps, learning rates, validations and checkpoints as the run that was never interrupted. Step and epoch counters, data position, learning-rate and loss-scale state continue from the saved values.",
  ["crash_points", "configurations", "histories"],
  "Every checkpoint of a run of up to 5 steps as the interruption point, arbitrary checkpoint intervals, epoch lengths up to 3, epoch-based and step-based checkpoints.",
  "No test resumes a training run.",
  ["trainer.py"],
  [("trainer state dict", "trainer.py"), ("restore at start", "trainer.py")])
P("T03", "Learning-rate schedules follow their documented curve at every step",
  "At every step the learning rate of each parameter group is the value of the documented warm-up/decay formula for that step and group. The value depends only on the step number, so a scheduler restored from its saved state continues on the same curve.",
  ["inputs", "configurations"],
  "Symbolic step number up to 2e6, symbolic warm-up, total steps and learning rates; listed powers, cycle lengths and stage ratios.",
  "Tests follow a few schedules for a few dozen steps with fixed constants.",
  ["optim/lr_schedulers/cosine_annealing.py", "optim/lr_schedulers/myle.py", "optim/lr_schedulers/noam.py", "optim/lr_schedulers/polynomial_decay.py", "optim/lr_schedulers/tri_stage.py"],
  [("closed-form learning rate", "optim/lr_schedulers/cosine_annealing.py"), ("closed-form learning rate", "optim/lr_schedulers/polynomial_decay.py")])
P("T04", "One optimizer step uses the exact normalized gradient of its whole batch",
  "The gradient applied at a step equals the gradient of the summed loss of all micro-batches on all data-parallel ranks divided by the total number of targets, however the batch is split. A step whose scaled gradients overflow changes neither parameters nor step count, and the loss scale follows the documented back-off and growth rule. Ranks whose gradient norms disagree or are not finite never continue silently with diverged parameters.",
  ["inputs", "configurations", "schedules"],
  "Arbitrary parameter, data and target-count values (a rank may have none); 1..4 micro-batches; 1..2 data-parallel ranks; any overflow pattern over up to 4 steps; any growth window up to 3.",
  "Tests check helper functions on single tensors; no test compares splits of one batch.",
  ["trainer.py", "optim/fp16_loss_scaler.py", "nn/utils/grad.py"],
  [("gradient accumulation and normalization", "trainer.py"), ("loss scaling", "optim/fp16_loss_scaler.py"), ("gradient normalization and clipping", "nn/utils/grad.py")])
P("T05", "Aggregated metrics equal the metrics of all data seen since the last reset",
  "A metric value reported after synchronizing across ranks equals the value computed from the union of all ranks' updates since the last reset. A step that is rolled back or retried leaves no trace in the metrics, and metrics state saved and restored continues exactly.",
  ["inputs", "histories", "configurations"],
  "Arbitrary update values, up to 3 updates on each of 2 ranks, any sequence of begin/commit/rollback/save/restore up to length 5.",
  "Tests run a few fixed updates on one process.",
  ["metrics/bag.py", "metrics/common.py", "metrics/aggregation.py"],
  [("metric bag transactions and sync", "metrics/bag.py"), ("metric update functions", "metrics/common.py")])
P("T06", "Validation, evaluation and generation process every batch exactly once",
  "A validation, evaluation or generation pass feeds each batch of every data reader to its unit exactly once and in order and reports metrics computed from these batches of all ranks only; evaluation and generation run the model in evaluation mode. The score a validation returns is the sum of the configured metric over the units that report it, negated where smaller is better, and a pass that fails or is stopped reports nothing.",
  ["configurations", "inputs", "fault_sequences"],
  "Up to 2 units with 0..3 batches of 0..2 elements each, any rank running out of data first, arbitrary metric values, failures at any batch.",
  "Tests do not run the loops.",
  ["evaluator.py", "validator.py", "generator.py", "early_stopper.py"],
  [("evaluation loop", "evaluator.py"), ("validation loop and score", "validator.py"), ("generation loop", "generator.py")])
P("T07", "Every trainable parameter is optimized by exactly one parameter group",
  "Building an optimizer from group settings assigns every trainable parameter to exactly one group, the first whose name pattern matches it, or to the default group otherwise. Options of a group apply to exactly the parameters of that group.",
  ["inputs", "configurations"],
  "Models with up to 5 parameters, up to 3 groups, every matching relation between patterns and names.",
  "Tests use one fixed model and pattern list.",
  ["recipe/optim.py"],
  [("parameter group construction", "recipe/optim.py")])
# ------------------------------------------------------------------ parallelism
P("P01", "Parallel process groups partition the ranks consistently",
  "For every world size and parallelism sizes that divide it, the groups created along each parallel dimension are disjoint, cover all ranks, have the configured size, and all ranks agree on every group's membership. Any two ranks share at most one position in the mesh, and invalid sizes are rejected.",
  ["configurations"],
  "World size up to 16 and all tensor-parallel sizes, symbolic rank; hybrid sharding with all inter/intra sizes.",
  "Tests build gangs for a handful of sizes without processes.",
  ["gang.py", "recipe/internal/gang.py"],
  [("parallel gang construction", "gang.py"), ("sharded gang construction", "gang.py")])
P("P02", "Tensor-parallel layers compute the same result as their unsharded form",
  "Splitting a linear, embedding, feed-forward or attention layer over tensor-parallel ranks and running it on all ranks gives on every rank the output of the unsharded layer for every input. Gathering the shards of the weights reproduces the original weights.",
  ["inputs", "configurations"],
  "Arbitrary weights and inputs of small shapes, 1, 2 and 4 ranks, every gather/scatter/reduce option of each layer.",
  "Tests need several devices and are skipped; values are fixed samples.",
  ["nn/projection.py", "nn/embedding.py", "ops/tensor_parallel.py", "nn/sharded.py"],
  [("column/row parallel projection", "nn/projection.py"), ("vocabulary/dim-sharded embedding", "nn/embedding.py"), ("collectives", "ops/tensor_parallel.py")])
P("P03", "Tensor-parallel layers propagate exact gradients",
  "Back-propagating through tensor-parallel layers gives every rank the gradient of the unsharded computation: the matching shard for sharded weights and the full gradient for inputs and replicated weights. The collectives used forward and backward match on all ranks.",
  ["inputs", "configurations"],
  "Arbitrary weights, inputs and upstream gradients of small shapes, 1 and 2 ranks, every gather/scatter/reduce option.",
  "No test differentiates through the multi-rank layers.",
  ["ops/tensor_parallel.py", "nn/projection.py", "nn/embedding.py"],
  [("autograd functions of the collectives", "ops/tensor_parallel.py")])
P("P04", "Ambient device, data type, gang and seed scopes nest and always restore",
  "Inside a scope the current default device, data type, gang set or random-number state is the one the scope names, and leaving the scope, normally or through an exception and in any nesting, restores what was current before. Scopes in one thread never affect another.",
  ["histories", "fault_sequences", "schedules"],
  "All nestings up to depth 4 over mixed scope kinds, exceptions at any level, two threads with any interleaving of enter/exit.",
  "Tests enter one or two scopes in straight-line code.",
  ["device.py", "data_type.py", "gang.py", "utils/threading.py"],
  [("device stack", "device.py"), ("dtype stack", "data_type.py"), ("gang stack", "gang.py")])
P("P05", "All ranks of a data-parallel run see the same number of batches",
  "On every data-parallel rank a data reader yields the same number of steps with the configured number of micro-batches, and every rank ends together, when the first or the last rank exhausts its data as the synchronization mode says. No collective is left unmatched and no batch is both dropped and counted.",
  ["configurations", "inputs", "histories"],
  "Up to 3 ranks with up to 4 batches each, 1..3 micro-batches per step, remainder dropped or kept, reset and reuse after the end.",
  "Tests run a single process reader.",
  ["datasets/data_reader.py"],
  [("reader loop and cross-rank end-of-data agreement", "datasets/data_reader.py")])
# ------------------------------------------------------------------ data & batching
P("D01", "A batch layout describes exactly the elements present in the batch",
  "For padded and packed batches alike, the reported sequence lengths, begin indices, position indices and padding mask describe exactly the real elements, with derived minimum and maximum lengths and padded/packed flags consistent with them. Inconsistent shapes, lengths or boundaries are rejected.",
  ["inputs"],
  "Batches up to 3 sequences and widths up to 5 with arbitrary, including invalid, lengths; packed and unpacked.",
  "Tests check few fixed length lists.",
  ["nn/batch_layout.py", "nn/utils/padding.py"],
  [("layout construction", "nn/batch_layout.py"), ("mask from lengths", "nn/utils/padding.py")])
P("D02", "Batch element and target counts and shifted views match the real tokens",
  "The number of elements and targets a batch reports is the number of non-padding, non-masked tokens it contains, and the input/target split of padded sequences shifts each sequence by exactly one position without losing or leaking tokens (a packed batch is shifted as one stream). Counts of the split views agree with the tokens the loss sees.",
  ["inputs", "configurations"],
  "Batches up to 3 sequences of up to 4 tokens with arbitrary lengths, arbitrary target masks, packed and padded.",
  "Tests cover constructor errors and one shift example.",
  ["datasets/batch.py"],
  [("sequence batch counting and regression views", "datasets/batch.py")])
P("D03", "Bucket sizes cover the allowed lengths within the element budget",
  "The bucket list computed for a batching budget covers every sequence length up to the maximum, its lengths strictly increase, and each bucket's batch size times length never exceeds the budget (unless not even one multiple fits, when as many as fit are used) while no larger batch of the required multiple would fit. Unsatisfiable budgets are rejected.",
  ["inputs"],
  "Symbolic budgets and length ranges with maximum length up to 40, multiples 1..8.",
  "One or two literal cases in tests.",
  ["data/data_pipeline.py"],
  [("bucket computation", "data/data_pipeline.py")])
P("D04", "Random span masks respect lengths and the requested proportion",
  "A generated time mask has the same number of masked positions in every row, at least as many as the requested minimum number of spans needs and never more than the requested proportion of the shortest row allows, and never masks padding or a whole row, whatever the random draws. A single row is masked in whole spans, and applying a mask replaces exactly the masked positions.",
  ["inputs", "configurations"],
  "Arbitrary random draws (every outcome of the generator), row lengths, span length and mask probability for up to 3 rows of up to 8 positions.",
  "Tests draw one random seed.",
  ["nn/utils/mask.py", "models/wav2vec2/masker.py"],
  [("row mask computation", "nn/utils/mask.py"), ("masker", "models/wav2vec2/masker.py")])
# ------------------------------------------------------------------ models
P("M01", "Padding never influences the result for real tokens",
  "For every model family, the outputs at real positions do not depend on the contents or the amount of padding. A sequence gives the same outputs alone as in a batch with longer sequences.",
  ["inputs", "configurations"],
  "Arbitrary weights, inputs and padding contents on small instances of each architecture (LLaMA plain/scaled/tied, Qwen, Mistral, OLMO, LLaMA 4, Gemma3n with shared KV layers, NLLB, wav2vec 2.0 variants, S2T transformer/conformer), batches of 2, every length combination up to 3 (speech: the shortest lengths that survive subsampling); 1 layer.",
  "Tests run fixed random inputs through a few layers and compare no paddings.",
  ["models/transformer/multihead_attention.py", "models/transformer/sdpa/naive.py", "models/transformer/sdpa/torch.py", "models/transformer/attention_bias.py", "models/conformer/convolution.py", "models/wav2vec2/frontend.py"],
  [("attention with bias and padding", "models/transformer/sdpa/naive.py"), ("convolution module masking", "models/conformer/convolution.py")])
P("M02", "Packed and padded batches give identical results",
  "Processing sequences packed into one row gives for every token the same output as processing them as separate padded rows. Tokens never see across a sequence boundary.",
  ["inputs", "configurations"],
  "Arbitrary weights and inputs on small instances, 2..3 sequences of lengths 1..3, all attention back ends available on CPU and all position encoders.",
  "Tests cover position encoders with one packed example.",
  ["models/transformer/sdpa/torch.py", "models/transformer/sdpa/naive.py", "models/transformer/attention_bias.py", "nn/position_encoder.py"],
  [("packed attention masks", "models/transformer/attention_bias.py"), ("position indices", "nn/position_encoder.py")])
P("M03", "Causal and windowed attention see exactly the allowed positions",
  "With causal, local-window or chunked attention, an output position depends on exactly the key positions the pattern allows: not on later positions, and on every allowed one. All attention implementations implement the same pattern and the same numbers.",
  ["inputs", "configurations"],
  "Symbolic queries, keys and values with up to 5 positions, every window/chunk size up to 5, unequal query and key lengths, all CPU back ends.",
  "Tests compare one or two sizes numerically.",
  ["models/transformer/attention_bias.py", "models/transformer/sdpa/naive.py", "models/transformer/sdpa/torch.py", "models/transformer/sdpa/soft_capped.py"],
  [("bias construction", "models/transformer/attention_bias.py"), ("scaled dot product", "models/transformer/sdpa/naive.py")])
P("M04", "Incremental decoding equals full decoding",
  "Feeding a prompt and then one token at a time with cached state yields at every position the logits of a single full forward pass. This holds for any split of the sequence into prefill and steps and for every cached layer type.",
  ["inputs", "configurations", "histories"],
  "Arbitrary weights and tokens on small decoder-only and encoder-decoder models, sequences of 3 (thorough: 4), every prefill/step split (one-token steps for the sliding-window cache, as documented), every capacity increment, full and local attention caches.",
  "Tests decode one split of one model, if any.",
  ["nn/incremental_state.py", "models/transformer/multihead_attention.py", "nn/position_encoder.py", "models/transformer/decoder.py"],
  [("key/value cache", "models/transformer/multihead_attention.py"), ("step counter", "nn/incremental_state.py")])
P("M05", "Position encoders depend on the position only, in all input layouts",
  "The encoding added to or rotated into a token depends only on its position within its sequence and is the documented function of it, for padded, packed and incremental inputs. Rotary encodings preserve norms and make attention scores depend on relative positions only; positions beyond the maximum are rejected.",
  ["inputs", "configurations"],
  "Arbitrary inputs and table contents, positions up to 5, packed/padded/plain/incremental, every encoder type; the tables themselves at dimensions 2..8 with tolerance; LLaMA frequency scaling with arbitrary real factors; norms and relative scores with the real tables for all vectors with components in [-1, 1].",
  "Tests compare with stored constants at few positions.",
  ["nn/position_encoder.py", "models/olmo/yarn_rope.py"],
  [("sinusoidal, learned and rotary encoders", "nn/position_encoder.py")])
P("M06", "Sequence losses equal the masked negative log-likelihood of the targets",
  "The loss of a sequence model is the sum or mean over non-padding, non-masked targets of the negative log-probability of the target, plus the documented label-smoothing term. Padding and masked targets contribute neither to loss nor to gradient.",
  ["inputs", "configurations"],
  "Arbitrary logits and targets of 3..4 positions over 3 symbols, padding index, target masks, any label smoothing in (0, 1), every reduction; models with arbitrary weights on 2 sequences of 2 targets; CTC over up to 3 frames; wav2vec 2.0 and w2v-BERT terms with arbitrary weights.",
  "Tests check one numeric example.",
  ["nn/functional/cross_entropy.py", "models/transformer_lm/model.py", "models/transformer/model.py", "models/wav2vec2/asr/model.py", "models/wav2vec2/model.py", "models/w2vbert/model.py"],
  [("cross entropy", "nn/functional/cross_entropy.py"), ("CTC loss", "models/wav2vec2/asr/model.py"), ("self-supervised losses", "models/w2vbert/model.py")])
P("M07", "Checkpoint conversion between formats is lossless and reversible",
  "Converting a model's weights to the Hugging Face (or original) format and back reproduces every parameter exactly, and no parameter is dropped, duplicated or permuted differently in the two directions. The converted key set is exactly the set the target architecture defines.",
  ["inputs", "configurations"],
  "Arbitrary weight values on small instances of each family with a converter (LLaMA, Qwen, Mistral, OLMo, LLaMA 4, NLLB, wav2vec 2.0, S2T, JEPA), tied and untied, grouped heads.",
  "Tests need downloaded checkpoints; permutation and tying combinations are not covered.",
  ["models/llama/interop.py", "models/qwen/interop.py", "models/mistral/interop.py", "models/olmo/interop.py", "models/llama4/interop.py", "models/utils/checkpoint.py"],
  [("state dict conversion", "models/llama/interop.py"), ("key maps", "models/utils/checkpoint.py")])
P("M08", "Normalization, feed-forward and expert layers compute their definition",
  "Layer, RMS and related normalizations, plain and gated feed-forward networks, residual connections and mixtures of experts compute their mathematical definition for every input, including in reduced precision paths that upcast. Expert routing sends each token to exactly its top-scoring experts with the documented weights.",
  ["inputs", "configurations"],
  "Arbitrary weights and inputs of small shapes, every option of each layer.",
  "Tests compare fixed samples with a reference or not at all.",
  ["nn/normalization.py", "models/transformer/ffn.py", "models/transformer/experts.py", "models/llama4/moe.py", "nn/residual.py", "models/olmo/normalization.py"],
  [("normalization layers", "nn/normalization.py"), ("feed-forward networks", "models/transformer/ffn.py"), ("experts", "models/llama4/moe.py")])
P("M09", "Reordering cached state is equivalent to having decoded the reordered batch",
  "After the cache of an incremental decoder is reordered, duplicated or shrunk by an index list, later steps behave exactly as if the rows at these indices had been decoded from the start. Every kind of cached layer follows the reordering.",
  ["inputs", "histories", "configurations"],
  "Arbitrary weights and tokens, batches of 2 rows (thorough: 3), every index list up to length 2 (thorough: 3), reorder before or between steps, static and capped caches.",
  "Tests reorder a single state once.",
  ["models/transformer/multihead_attention.py", "nn/incremental_state.py"],
  [("state reorder", "models/transformer/multihead_attention.py")])
P("M10", "Self-supervised masks and distractors select only valid positions",
  "For every random draw a temporal mask covers only real positions of each row, masks equally many positions in every row, stays inside spans of the configured length and leaves at least one position unmasked. Contrastive distractors come from other masked positions of the same row, and the extracted targets and inputs belong to exactly the masked positions.",
  ["inputs", "schedules"],
  "Every outcome of the random generator (symbolic draws) for 1..2 rows of up to 5 positions of arbitrary lengths, span lengths 1..2, up to 3 spans, up to 3 distractors.",
  "Tests draw a few masks with one seed.",
  ["nn/utils/mask.py", "models/wav2vec2/masker.py", "models/wav2vec2/model.py"],
  [("row masks", "nn/utils/mask.py"), ("masker", "models/wav2vec2/masker.py"), ("distractors", "models/wav2vec2/model.py")])
# ------------------------------------------------------------------ generation
P("G01", "Banned tokens and repeats never appear in generated output",
  "A step processor leaves the probability of every allowed continuation unchanged and makes every continuation that would complete a banned sequence or repeat an n-gram impossible. This holds for every generated prefix.",
  ["inputs"],
  "Arbitrary histories up to 5 tokens over 4 symbols, arbitrary banned sequences up to length 3, n-gram sizes 1..3, batches of 2.",
  "Tests use few fixed histories.",
  ["generation/step_processor.py"],
  [("banned sequence and n-gram processors", "generation/step_processor.py")])
P("G02", "Beam search returns the best hypotheses its search explores, scored correctly",
  "For every prompt of a batch, ragged or not, the returned hypotheses are those of the documented search over that prompt alone: at every step the best 2 x beam-size candidates of all its beams, ended ones moved to the output. Each extends its prompt (or omits it, when not echoed), ends with end-of-sequence, contains no padding, respects the minimum and maximum lengths (counted from the longest prompt of the batch) and carries the sum of its log-probabilities (with temperature, UNK penalty and length penalty as configured; the steps of a prompt with unconstrained probabilities) as its score and each step's log-probability as its step scores; hypotheses are sorted by score. With a beam as wide as the search space the best sequence is returned. At least beam-size tokens must be permitted at each step and scores must not tie.",
  ["inputs", "configurations"],
  "Arbitrary logits per prefix over 3..4 tokens, beams of 1..3, up to 4 generated tokens, ragged prompts, batches of 2, decoder-only and encoder-decoder models.",
  "Tests do not run the generator on adversarial distributions.",
  ["generation/beam_search/generator.py", "generation/beam_search/algo.py"],
  [("beam search loop", "generation/beam_search/generator.py"), ("beam expansion", "generation/beam_search/algo.py")])
P("G03", "Sampling draws only from the permitted tokens and respects the limits",
  "Top-k and top-p sampling draw only tokens inside the k most likely or the smallest set whose probability exceeds p, with weights proportional to their probabilities, for any distribution and draw. The sampling generators offer the sampler the model's distribution with the temperature, the processors, the UNK penalty (never below zero) and the bans of padding and early end-of-sequence applied, for every prompt and generation separately; each generated sequence extends its prompt by the draws, ends with end-of-sequence within the limits, and reports the probabilities of its tokens as step scores and the sum of their logarithms with the configured length penalty as its score, best first; each prompt gets exactly the asked number of generations.",
  ["inputs", "configurations"],
  "Arbitrary distributions over 2..4 tokens, arbitrary draws, k of 1..5, p symbolic, up to 4 generated tokens, ragged prompts, batches of 2, several generations per prompt, decoder-only and encoder-decoder models.",
  "Tests sample with one seed.",
  ["generation/sampling/generator.py", "generation/sampling/sampler.py"],
  [("samplers", "generation/sampling/sampler.py"), ("sampling loop", "generation/sampling/generator.py")])
# ------------------------------------------------------------------ runtime & recipes
P("R01", "Dependency resolution creates singletons once and reports gaps and cycles",
  "Resolving a type, with or without a key, returns what its registered provider made, singletons being made exactly once; a second registration of the same type and key, and any registration after the first resolution, is rejected, and keyed, unkeyed and collection registrations never mix. Collections yield the objects of their registrations in order. A missing dependency raises an error that names it, except where it is itself asked for optionally; a circular one raises an error with the cycle, and a failed resolution leaves the container usable. Auto-wired constructors get explicit arguments first, then registered objects by parameter type, then defaults.",
  ["histories", "configurations"],
  "Every dependency graph over 3..4 registrations with up to 2 dependencies each, singletons, absent, empty and failing providers; three resolutions in a row; collections of up to 3; every subset of registrations for wiring.",
  "Tests cover a few straight-line registrations.",
  ["runtime/dependency.py", "runtime/lookup.py"],
  [("container and resolution", "runtime/dependency.py")])
P("R02", "Configuration overrides change exactly what they name",
  "Merging an override into a configuration yields the override's value where it sets or adds one, removes exactly what it deletes, and keeps everything else; neither input is modified. Command-line key paths that do not conflict are parsed into the same structure in any order, and directives are replaced by the values they name.",
  ["inputs", "histories"],
  "Nested configurations of depth 1..2 (thorough 3) over two keys, all set/add/delete combinations, merges in sequence, command lines of up to 3 items.",
  "Tests check a few literal documents.",
  ["utils/config.py", "utils/argparse.py"],
  [("configuration merger and directives", "utils/config.py")])
P("R03", "Typed configurations round-trip through plain data without loss",
  "Converting a typed object to plain data and back gives an equal object for every supported type (unions as long as their alternatives have different plain data), and converting plain data of the wrong type, such as a fractional number for an integer or a text for a list, raises StructureError instead of producing a wrongly typed, altered or incomplete value. Inputs are not modified.",
  ["inputs", "programs"],
  "Arbitrary values of every supported type (numbers, strings, enums, paths, data types, unions, nested dataclasses, lists, dicts up to size 2).",
  "Tests use fixed examples of each type.",
  ["utils/structured.py"],
  [("structured conversion", "utils/structured.py")])
P("R04", "Configuration validation finds every invalid field and no valid one",
  "Validating a configuration reports exactly the constraints that do not hold, for every nested object, with the path of the offending field; no values of the fields make validation itself fail. A configuration that satisfies all constraints passes.",
  ["inputs"],
  "Arbitrary numeric field values of the recipe configurations, nested objects up to depth 3, lists and dicts up to length 2.",
  "Tests check a few failing objects.",
  ["utils/validation.py", "recipe/config.py"],
  [("object validator", "utils/validation.py"), ("recipe section validators", "recipe/config.py")])
P("R05", "Asset lookup resolves environments, versions and inheritance predictably",
  "Looking up an asset returns the card for the most specific active environment, user definitions before system ones, with fields not defined in a card inherited from its base chain and configuration overrides applied along it. Unknown or empty names raise a not-found error; missing or cyclic bases raise a card error. Lookups do not modify the sources.",
  ["inputs", "configurations"],
  "Every base graph over 2..3 cards, every subset of defined fields and environments up to 2, with arbitrary field values; up to 3 environment resolvers.",
  "Tests look up a handful of fixed cards.",
  ["assets/store.py", "assets/card.py"],
  [("asset retrieval", "assets/store.py"), ("field inheritance", "assets/card.py")])
P("R06", "Asset metadata sources are loaded completely and duplicates are rejected",
  "Loading asset metadata yields every entry of every file of a source with its own fields and the directory of its file, names unique across all files of the source, and errors for duplicate names, entries without valid names, invalid bases and broken files. Loading again gives the same entries, and modifying a loaded entry changes no other.",
  ["inputs", "configurations"],
  "Two entries in one or two files, in memory, a file, a directory tree or a package, with every kind of name and base, valid or not, and arbitrary fields.",
  "Tests read one fixed directory.",
  ["assets/metadata_provider.py"],
  [("metadata loading", "assets/metadata_provider.py")])
P("R07", "An asset download is used only when complete",
  "A downloaded or extracted asset is returned only if the whole download and extraction finished; after an interruption or error at any point the next call resumes or fetches it again and never returns partial or stale data, and calls restricted to local files fail instead of returning partial data. Cached assets are reused without another download unless a refresh is forced.",
  ["crash_points", "fault_sequences"],
  "Every file or network operation of a download as the crash or fault point, files and zip or tar archives, cached before or not, followed by another call of every kind.",
  "Tests download nothing.",
  ["assets/download_manager.py"],
  [("download, extraction and cache directory handling", "assets/download_manager.py")])
P("R08", "Launch environments are interpreted consistently or rejected",
  "Rank, world size, local rank and local world size read from the environment of any supported launcher satisfy 0 <= rank < size or are rejected with an error that names the variable; malformed values are never silently replaced. The cluster whose handler recognises the environment is used (none if already launched), an unknown cluster name is rejected, and the default device is the one of the local rank, out-of-range ranks and malformed device names being rejected.",
  ["inputs", "configurations"],
  "Arbitrary integer values of each variable, missing or malformed; up to 2 cluster handlers; any local rank and device count up to 8.",
  "Tests set a few environment variables.",
  ["world_info.py", "cluster.py", "device.py", "utils/env.py"],
  [("world info parsing", "world_info.py"), ("cluster handlers", "cluster.py")])
P("R09", "URIs and file paths convert without changing what they name",
  "A path converted to a file URI and back names the same file, relative and absolute references are resolved against their base as documented, and malformed URIs are rejected. Scheme and query parts survive parsing and formatting.",
  ["inputs"],
  "Paths of up to 3 components over an alphabet including spaces, percent signs, dots and non-ASCII characters.",
  "Tests parse few literals.",
  ["utils/uri.py", "assets/card.py"],
  [("URI parsing", "utils/uri.py")])
P("R10", "Output directories are determined by the settings that define the run",
  "Two runs get the same output directory tag exactly when their world size and every configuration value are equal; formatting never merges different settings. Illegal path characters never appear in the tag.",
  ["inputs", "configurations"],
  "Arbitrary configuration values of two runs, up to 4 keys, nested, every tag format over the available fields.",
  "Tests check one format string.",
  ["recipe/internal/sweep_tag.py"],
  [("sweep tag generation", "recipe/internal/sweep_tag.py")])
# ------------------------------------------------------------------ beyond reach (native / third party)
P("N01", "Data pipelines yield each example once and resume exactly from saved state",
  "A data pipeline built from the provided operators yields every source example exactly once per epoch in the documented order, and a pipeline restored from its saved state continues with the next example. Parallel and prefetching operators give the same sequence as their serial form.",
  ["schedules", "histories", "configurations"],
  "Every composition of operators, thread interleaving and save point.",
  "Only a few pipelines and save points are tested.",
  ["data/data_pipeline.py"],
  [("native pipeline bindings", "data/data_pipeline.py")])
P("N02", "Tokenizers decode what they encode",
  "Encoding a text and decoding the tokens returns the text up to the tokenizer's documented normalization, with control symbols placed as the mode demands.",
  ["inputs"],
  "Every text.",
  "Only sample sentences are tested.",
  ["data/tokenizers/sentencepiece.py", "data/tokenizers/tiktoken.py", "data/tokenizers/hg.py"],
  [("token encoders/decoders", "data/tokenizers/tokenizer.py")])
P("N03", "Parquet data loading covers each row group exactly once across shards",
  "Loading a parquet dataset split over shards yields every row exactly once in total, whatever the number of shards and row groups, and the same order for the same seed.",
  ["inputs", "configurations"],
  "Every dataset layout and shard count.",
  "Tests use a few generated files.",
  ["data/parquet/fragment_streaming/primitives.py", "data/parquet/fragment_loading/builder.py"],
  [("fragment streaming", "data/parquet/fragment_streaming/primitives.py")])
