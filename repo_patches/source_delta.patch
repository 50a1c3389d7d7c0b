From 44c1ccb2ee257785880aa62392f7606b5e1a3b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 01/53] fix: restart cosine annealing cycles at their first
 step when log() underestimates

---
 src/fairseq2/optim/lr_schedulers/cosine_annealing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index b70444e..42c9d77 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -120,7 +120,15 @@ class CosineAnnealingLR(AbstractLRScheduler):
             mul = self.cycle_mul
 
             # Solve the equation \sum_{i=0}^{n} len(cycle_i) + x = step for n.
-            cycle_nr = int(math.log(1 - curr_step / self.cycle_len * (1 - mul), mul))
+            r = 1 - curr_step / self.cycle_len * (1 - mul)
+
+            cycle_nr = int(math.log(r, mul))
+
+            # `math.log()` might slightly underestimate an integral result, in
+            # which case the first step of a cycle would be mistaken for an
+            # extra step of the previous one.
+            if mul > 1.0 and mul ** (cycle_nr + 1) <= r:
+                cycle_nr += 1
 
             cycle_len = int(mul**cycle_nr * self.cycle_len)
 
-- 
2.43.0


From 44559eadf98ace78a5313e37f25fbb39a2cd7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 02/53] fix: honour stop requests when a maximum number of
 training steps is set

---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 42459c0..baa8840 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -682,7 +682,8 @@ class Trainer(Task):
         if self._max_num_steps is not None:
             if self._step_nr >= self._max_num_steps:
                 return _TrainerState.END_OF_TRAINING
-        elif self._stop_requested:
+
+        if self._stop_requested:
             return _TrainerState.STOP_REQUESTED
 
         self._maybe_save_checkpoint(blocking=False)
-- 
2.43.0


From 88a03b46c905d84270d105d68f29302385323b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 03/53] fix: skip pre-validation when no validator is
 configured

---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index baa8840..40ba2d1 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -466,7 +466,7 @@ class Trainer(Task):
                         self._state = self._stop()
 
     def _pre_validate(self) -> _TrainerState:
-        if self._validate is not None:
+        if self._validator is not NOOP_VALIDATOR:
             self._validate()
 
         return _TrainerState.DATA_LOAD
-- 
2.43.0


From 9b3adf7583f814f1187a900ca23f7dbd683505b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:00 +0000
Subject: [PATCH 04/53] fix: do not count an overflowed step when stopping
 right after it

---
 src/fairseq2/trainer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 40ba2d1..56f6873 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -667,15 +667,19 @@ class Trainer(Task):
             log.info("Overflow detected at step {}, ignoring gradient, decreasing loss scale from {:g} to {:g}.", self._step_nr, result.old_scale, result.new_scale)  # fmt: skip
 
     def _repeat_step(self, progress_task: ProgressTask) -> _TrainerState:
-        if self._stop_requested:
-            return _TrainerState.STOP_REQUESTED
-
-        log.debug("Repeating step {}.", self._step_nr)
+        step_nr = self._step_nr
 
+        # The optimizer has skipped this step, so it does not count even if we
+        # are going to stop.
         self._step_nr -= 1
 
         progress_task.step(-1)
 
+        if self._stop_requested:
+            return _TrainerState.STOP_REQUESTED
+
+        log.debug("Repeating step {}.", step_nr)
+
         return _TrainerState.DATA_LOAD
 
     def _run_post_step(self) -> _TrainerState:
-- 
2.43.0


From f5358cbd3142ef56d188473bd30ea7ecdadce374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 05/53] fix: do not save, publish or validate the same training
 step twice

---
 src/fairseq2/trainer.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 56f6873..309807c 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -333,6 +333,9 @@ class Trainer(Task):
         self._stop_requested = False
         self._num_batches_read = 0
         self._last_lrs = last_lrs
+        self._last_saved_step_nr: int | None = None
+        self._last_published_step_nr: int | None = None
+        self._last_validated_step_nr: int | None = None
         self._checkpoint_save_hooks: dict[int, TrainStepHook] = OrderedDict()
         self._hg_export_hooks: dict[int, TrainStepHook] = OrderedDict()
 
@@ -401,6 +404,8 @@ class Trainer(Task):
 
         self._reset_non_total_metrics()
 
+        self._last_saved_step_nr = self._step_nr
+
         self._gangs.root.barrier()
 
         log.info("Training restored. Resuming from step {}.", step_nr)
@@ -714,13 +719,13 @@ class Trainer(Task):
             self._maybe_save_checkpoint(blocking=False)
 
             self._validate()
-
-            self._maybe_complete_checkpoint_save_operation()
-
-            self._maybe_complete_hg_export_operation()
         else:
             self._maybe_save_checkpoint(blocking=True)
 
+        self._maybe_complete_checkpoint_save_operation()
+
+        self._maybe_complete_hg_export_operation()
+
         return _TrainerState.STOPPED
 
     def _early_stop(self) -> _TrainerState:
@@ -744,6 +749,11 @@ class Trainer(Task):
             self._save_checkpoint(blocking)
 
     def _should_save_checkpoint(self) -> bool:
+        # A step can be visited more than once (e.g. end of step, end of epoch,
+        # stop request), but must not be saved again.
+        if self._last_saved_step_nr == self._step_nr:
+            return False
+
         return self._should_do(
             self._checkpoint_after_n_steps,
             self._checkpoint_every_n_steps,
@@ -758,6 +768,8 @@ class Trainer(Task):
 
         log.info("Preparing checkpoint at step {}.", step_nr)
 
+        self._last_saved_step_nr = step_nr
+
         self._maybe_complete_checkpoint_save_operation()
 
         def on_checkpoint_ready() -> None:
@@ -855,6 +867,9 @@ class Trainer(Task):
             self._publish_metrics()
 
     def _should_publish_metrics(self) -> bool:
+        if self._last_published_step_nr == self._step_nr:
+            return False
+
         return self._should_do(
             self._publish_metrics_after_n_steps,
             self._publish_metrics_every_n_steps,
@@ -865,6 +880,8 @@ class Trainer(Task):
     def _publish_metrics(self) -> None:
         log.debug("Syncing train metrics.")
 
+        self._last_published_step_nr = self._step_nr
+
         gangs = self._gangs
 
         try:
@@ -955,6 +972,9 @@ class Trainer(Task):
         if self._validator is NOOP_VALIDATOR:
             return False
 
+        if self._last_validated_step_nr == self._step_nr:
+            return False
+
         return self._should_do(
             self._validate_after_n_steps,
             self._validate_every_n_steps,
@@ -971,13 +991,15 @@ class Trainer(Task):
         else:
             log.info("Starting validation after step {}.", self._step_nr)
 
+        self._last_validated_step_nr = self._step_nr
+
         self._model.eval()
 
         with self._model_dp_facade.summon_full_parameters():
             score = self._validator.run(self._step_nr)
 
         if score is not None:
-            if self._should_save_checkpoint():
+            if self._last_saved_step_nr == self._step_nr:
                 self._save_score(score)
 
         self._validator.reset()
-- 
2.43.0


From ec2fff225c9e2904b66a0321c52745a95f8b6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 06/53] fix: resume training in the data epoch the data reader
 is at

---
 src/fairseq2/trainer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 309807c..4836851 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -415,7 +415,7 @@ class Trainer(Task):
                 return _TrainerState.STOPPED
 
         if self._max_num_data_epochs is not None:
-            if self._data_epoch_nr >= self._max_num_data_epochs:
+            if self._data_epoch_nr > self._max_num_data_epochs:
                 return _TrainerState.STOPPED
 
         return _TrainerState.DATA_LOAD
@@ -1194,9 +1194,19 @@ class _TrainerProxy(Stateful):
 
         base_wall_time = self._trainer._base_wall_time + wall_time
 
+        data_epoch_nr = self._trainer._data_epoch_nr
+
+        # At the end of an epoch the data reader is already at the beginning of
+        # the next one.
+        if self._trainer._state in (
+            _TrainerState.END_OF_DATA_EPOCH,
+            _TrainerState.END_OF_DATA,
+        ):
+            data_epoch_nr += 1
+
         state_dict: dict[str, object] = {
             "_step_nr": self._trainer._step_nr,
-            "_data_epoch_nr": self._trainer._data_epoch_nr,
+            "_data_epoch_nr": data_epoch_nr,
             "_lr_scheduler": self._trainer._lr_scheduler.state_dict(),
             "_fp16_loss_scaler": self._trainer._fp16_loss_scaler.state_dict(),
             "_rng_bag": self._trainer._rng_bag.state_dict(),
-- 
2.43.0


From eba3d3f4cbb48f63a63a9d905ed3abb3ec7d9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 07/53] fix: report the last learning rate after resuming at
 the end of an epoch

---
 src/fairseq2/trainer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 4836851..de0082d 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -1212,6 +1212,7 @@ class _TrainerProxy(Stateful):
             "_rng_bag": self._trainer._rng_bag.state_dict(),
             "_metric_bag": self._trainer._metric_bag.state_dict(),
             "_base_wall_time": base_wall_time,
+            "_last_lrs": list(self._trainer._last_lrs),
         }
 
         return state_dict
@@ -1255,4 +1256,8 @@ class _TrainerProxy(Stateful):
 
         self._trainer._base_wall_time = get_state("_base_wall_time", float)
 
+        # Not present in older checkpoints.
+        if "_last_lrs" in state_dict:
+            self._trainer._last_lrs = get_state("_last_lrs", list)
+
         StateDictError.raise_if_not_empty(state_dict)
-- 
2.43.0


From 8ae690f77161c909600ed8849d64bdf03ef99654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 08/53] fix: rank checkpoints with a NaN score below all others

---
 src/fairseq2/checkpoint/manager.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index d54491e..80ef1bb 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+import math
 from abc import abstractmethod
 from collections.abc import Callable
 from concurrent.futures import Future
@@ -828,7 +829,16 @@ class StandardCheckpointManager(CheckpointManager):
 
             scores.append((score, step_nr))
 
-        scores.sort(reverse=True)
+        def sort_key(item: tuple[float, int]) -> tuple[bool, float, int]:
+            score, step_nr = item
+
+            # NaN cannot be ordered; treat it as the lowest score.
+            if math.isnan(score):
+                return (False, 0.0, step_nr)
+
+            return (True, score, step_nr)
+
+        scores.sort(key=sort_key, reverse=True)
 
         return scores
 
-- 
2.43.0


From f28837cdf2f22c17f078e0f7a8661e023088a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 09/53] fix: hide a checkpoint before removing it so that no
 partial one remains

---
 src/fairseq2/checkpoint/manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index 80ef1bb..b444141 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -686,6 +686,12 @@ class StandardCheckpointManager(CheckpointManager):
                                 self._file_system.remove_directory(path)
                             else:
                                 self._file_system.remove(path)
+                    elif self._is_local_checkpoint_dir():
+                        # Hide the checkpoint first; an interrupted removal must
+                        # not leave a partial checkpoint behind.
+                        self._file_system.move(step_dir, tmp_step_dir)
+
+                        self._file_system.remove_directory(tmp_step_dir)
                     else:
                         self._file_system.remove_directory(step_dir)
                 except OSError as ex:
-- 
2.43.0


From 82ad4f82cc521acc262c3ecf01ddcfdee1e3642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 10/53] fix: reject state dict keys of absent children of
 shared modules under every name

---
 src/fairseq2/nn/utils/module.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fairseq2/nn/utils/module.py b/src/fairseq2/nn/utils/module.py
index 0bfb4d1..a557990 100644
--- a/src/fairseq2/nn/utils/module.py
+++ b/src/fairseq2/nn/utils/module.py
@@ -456,15 +456,20 @@ def load_state_dict(
 
     unexpected_keys = []
 
-    for name, m in _get_named_modules(module):
-        if m is not None:
-            continue
+    # Visit shared modules under each of their names.
+    for name, m in module.named_modules(remove_duplicate=False):
+        for child_name, child in m._modules.items():
+            if child is not None:
+                continue
 
-        prefix = name + "."
+            if name:
+                prefix = name + "." + child_name + "."
+            else:
+                prefix = child_name + "."
 
-        for key in state_dict.keys():
-            if key.startswith(prefix):
-                unexpected_keys.append(key)
+            for key in state_dict.keys():
+                if key.startswith(prefix):
+                    unexpected_keys.append(key)
 
     if unexpected_keys:
         unexpected_keys.sort()
-- 
2.43.0


From d27216c9d429b3bed45885a2266b045ee03832b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 11/53] fix: normalize gradients also in processes that have no
 targets in a step

---
 src/fairseq2/nn/utils/grad.py | 3 +++
 src/fairseq2/trainer.py       | 9 +++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 465ae67..4faa9fd 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -34,6 +34,9 @@ def normalize_grads(module: Module, gang: Gang, num_targets: int) -> None:
     """
     total_num_targets = all_sum(gang, num_targets)
 
+    # If there are no targets at all, there is nothing to normalize by.
+    total_num_targets.clamp_(min=1)
+
     # Both DDP and FSDP divide gradients by the world size which we also undo.
     scale_grads(module, gang.size / total_num_targets)
 
diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index de0082d..3f92cd0 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -557,7 +557,7 @@ class Trainer(Task):
 
         gangs = self._gangs
 
-        num_targets = 0
+        num_targets: int | None = None
 
         with self._compute_watch:
             with record_function(f"step_{step_nr}_setup"):
@@ -586,7 +586,7 @@ class Trainer(Task):
                         if num_batch_targets is None:
                             loss = loss / num_batches
                         else:
-                            num_targets += num_batch_targets
+                            num_targets = (num_targets or 0) + num_batch_targets
 
                         with record_function(f"step_{step_nr}_{batch_nr}_backward"):
                             self._fp16_loss_scaler.backward(loss)
@@ -600,8 +600,9 @@ class Trainer(Task):
             # This function gathers the total number of logit targets across all
             # processes and divides the gradients by it. This is needed when the
             # batches have varying sizes and we cannot normalize the loss before
-            # the backward pass.
-            if num_targets > 0:
+            # the backward pass. Note that it is a collective operation, so processes
+            # with no targets in this step have to participate too.
+            if num_targets is not None:
                 normalize_grads(self._model, gangs.dp, num_targets)
 
             self._fp16_loss_scaler.unscale_grads_(self._optimizer)
-- 
2.43.0


From b7e14e3df68930df8868f6d8fa7f31517118d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 12/53] fix: report gradient norms that are non-finite in some
 processes only

---
 src/fairseq2/nn/utils/grad.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 4faa9fd..76bfd5b 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -150,13 +150,15 @@ def check_grad_norms(local_norm: Tensor, gang: Gang, step_nr: int) -> None:
 
     gang.all_gather(norms, local_norm)
 
-    if all_finite := norms.isfinite().all():
+    finite = norms.isfinite()
+
+    if finite.all():
         delta = (norms - norms[0]).abs().max() / (norms[0] + 1e-6)
 
         if (delta < 1e-6).all():
             return
     else:
-        if all_finite.logical_not().all():  # Check if all Inf/NaN.
+        if finite.logical_not().all():  # Check if all Inf/NaN.
             return
 
     raise InconsistentGradNormError(step_nr, norms.tolist())
-- 
2.43.0


From f042d4ab298fcb832fd1187218368f9f9a300856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 13/53] fix: detect overflows at very small fp16 loss scales

---
 src/fairseq2/optim/fp16_loss_scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/fp16_loss_scaler.py b/src/fairseq2/optim/fp16_loss_scaler.py
index 50cce15..5f7be66 100644
--- a/src/fairseq2/optim/fp16_loss_scaler.py
+++ b/src/fairseq2/optim/fp16_loss_scaler.py
@@ -215,7 +215,7 @@ class StandardFloat16LossScaler(Float16LossScaler):
 
         new_scale = self._grad_scaler.get_scale()
 
-        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6, abs_tol=1e-5):
+        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6):
             return Float16LossScaleResult(old_scale, new_scale)
 
         if new_scale > old_scale:
-- 
2.43.0


From 025eb37fc4d6947b40fd583997620015ba8d428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 14/53] fix: do not count source elements of a
 sequence-to-sequence batch as targets

---
 src/fairseq2/datasets/batch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fairseq2/datasets/batch.py b/src/fairseq2/datasets/batch.py
index 28618fe..a69e95b 100644
--- a/src/fairseq2/datasets/batch.py
+++ b/src/fairseq2/datasets/batch.py
@@ -505,9 +505,7 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
         self._target_mask = target_mask
 
-        if target_mask is None:
-            self._num_target_elements = self._num_elements
-        else:
+        if target_mask is not None:
             self._num_target_elements = int(target_mask.sum())
 
         self._example = example
-- 
2.43.0


From 6cd060cc5f28a0ed8f18105d172e24bc103c476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 15/53] fix: return an empty mask of the requested shape when
 no span can be masked

---
 src/fairseq2/nn/utils/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/utils/mask.py b/src/fairseq2/nn/utils/mask.py
index 2fd8277..8bce8b6 100644
--- a/src/fairseq2/nn/utils/mask.py
+++ b/src/fairseq2/nn/utils/mask.py
@@ -106,7 +106,7 @@ def compute_row_mask(
     # (N, M x L)
     indices = _compute_mask_spans(row_lens, span_len, max_mask_prob, min_num_spans)
     if indices is None:
-        return row_lens.new_empty((0, 0))
+        return torch.zeros(shape, device=device, dtype=torch.bool)
 
     return _generate_mask(indices, max_row_len).to(device)
 
-- 
2.43.0


From 4a1c23b41e7a26e392b7eabb5c7d9544c9c9c8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 16/53] fix: reject ranks equal to the gang size

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index feda04b..3fbd8d4 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -638,7 +638,7 @@ def _check_ranks(ranks: Sequence[int], gang_size: int) -> None:
         raise ValueError("Ranks in `ranks` must be unique.")
 
     for idx, rank in enumerate(ranks):
-        if rank < 0 or rank > gang_size:
+        if rank < 0 or rank >= gang_size:
             raise ValueError(
                 f"Rank at index {idx} in `ranks` must be greater than or equal to 0 and less than the size of the gang ({gang_size}), but is {rank} instead."
             )
-- 
2.43.0


From 955a6c87d1bf656de0154a266dfd65a2b9bb805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 17/53] fix: require the coordinator to be rank 0 in every
 parallel gang

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 3fbd8d4..798c5e1 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -689,7 +689,7 @@ class Gangs(Closable):
 
     def __post_init__(self) -> None:
         if self.root.rank == 0:
-            if self.dp.rank != 0 or self.tp.rank != 0 and self.pp.rank != 0:
+            if self.dp.rank != 0 or self.tp.rank != 0 or self.pp.rank != 0:
                 raise ValueError(
                     "Coordinator process of the root gang (i.e. `root.rank == 0`) must be rank 0 in all parallel gangs."
                 )
-- 
2.43.0


From e7d6e5c67cb66d34e9bfab3cd3560ec593ac81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 18/53] fix: broadcast from the rank of the gang instead of the
 default process group

---
 src/fairseq2/gang.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 798c5e1..0c90389 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -580,17 +580,24 @@ class ProcessGroupGang(Gang):
     @override
     def broadcast(self, tensor: Tensor, source_rank: int = 0) -> None:
         try:
-            dist.broadcast(tensor, source_rank, group=self._pg)
+            dist.broadcast(tensor, self._get_global_rank(source_rank), group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast")
 
     @override
     def broadcast_objects(self, objects: list[object], source_rank: int = 0) -> None:
         try:
-            dist.broadcast_object_list(objects, source_rank, group=self._pg)
+            dist.broadcast_object_list(
+                objects, self._get_global_rank(source_rank), group=self._pg
+            )
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast_object_list")
 
+    def _get_global_rank(self, rank: int) -> int:
+        # torch.distributed expects the source of a broadcast to be specified as
+        # a rank of the default process group.
+        return dist.get_global_rank(self._pg, rank)
+
     @staticmethod
     def _raise_op_failed(cause: Exception, op: str) -> NoReturn:
         raise GangError(f"`{op}()` collective operation failed.") from cause
-- 
2.43.0


From 8274108dea4790b97ea58c59a4eb3259b98fd24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 19/53] fix: do not count batches without targets in the mean
 nll loss

---
 src/fairseq2/metrics/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/metrics/common.py b/src/fairseq2/metrics/common.py
index da2ade5..8bb0748 100644
--- a/src/fairseq2/metrics/common.py
+++ b/src/fairseq2/metrics/common.py
@@ -29,7 +29,11 @@ def update_nll_loss_metric(
 ) -> None:
     loss = loss.detach()
 
-    n = num_targets or 1
+    n = 1 if num_targets is None else num_targets
+
+    # A batch without any target does not contribute to the mean.
+    if n == 0:
+        return
 
     metric_bag.get("nll_loss", Mean).update(loss / n, weight=n)
 
-- 
2.43.0


From 7193d5cd18755fdafd2233ae658ab476aac51bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 20/53] fix: apply the attention window when there are more
 keys than queries

---
 src/fairseq2/models/transformer/attention_bias.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7150de0..7a78733 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -76,7 +76,7 @@ class CausalAttentionBias(AttentionBias):
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
         if self.attn_window_len is None:
-            attn_window_len = q_len
+            attn_window_len = k_len
         else:
             attn_window_len = self.attn_window_len
 
@@ -190,7 +190,7 @@ class ALiBiAttentionBias(AttentionBias):
             causal_bias = _create_causal_bias_tensor(
                 q_len,
                 k_len,
-                q_len,
+                k_len,
                 from_bottom_right=True,
                 device=device,
                 dtype=dtype,
@@ -224,7 +224,7 @@ def _create_causal_bias_tensor(
 
     bias.tril_(diagonal=d)
 
-    if attn_window_len < q_len:
+    if attn_window_len < k_len:
         bias.triu_(diagonal=d - attn_window_len + 1)
 
     bias.log_()
-- 
2.43.0


From 965860406f092698ba18337a624b93819855cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 21/53] fix: do not skip the attention bias of single-token
 queries that cannot attend to all keys

---
 src/fairseq2/models/transformer/attention_bias.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7a78733..73987d7 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -381,8 +381,18 @@ def maybe_get_attention_bias_tensor(
             return None
 
     if isinstance(bias, CausalAttentionBias) or isinstance(bias, ChunkedAttentionBias):
-        if not q_layout.packed:
-            if q_layout.max_seq_len == 1:
+        full_q = not q_layout.packed and not q_layout.padded
+        full_k = not k_layout.packed and not k_layout.padded
+
+        # The last query position can attend to all keys, unless they span more
+        # than one window or chunk.
+        if full_q and full_k and q_layout.max_seq_len == 1:
+            if isinstance(bias, CausalAttentionBias):
+                max_k_len = bias.attn_window_len
+            else:
+                max_k_len = bias.attn_chunk_size
+
+            if max_k_len is None or k_layout.width <= max_k_len:
                 return None
 
     return _get_attention_bias_tensor(  # type: ignore[no-any-return]
-- 
2.43.0


From 46348c0611fb527b7ef87d75b1a97a81fa0e42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 22/53] fix: return an additive bias from chunked attention
 bias

---
 .../models/transformer/attention_bias.py      | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 73987d7..4faccff 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -121,23 +121,25 @@ class ChunkedAttentionBias(AttentionBias):
     def create_bias_tensor(
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
-        if q_len != k_len:
-            raise ValueError(f"`q_len` and `k_len` must be equal: {q_len} != {k_len}")
+        if q_len > k_len:
+            raise ValueError(
+                f"`q_len` must be less than or equal to `k_len`: {q_len} > {k_len}"
+            )
 
-        # (S, S)
-        block_pos = (
-            torch.arange(q_len, device=device).unsqueeze(0) // self.attn_chunk_size
-        ) - (torch.arange(q_len, device=device).unsqueeze(1) // self.attn_chunk_size)
-        token_pos = torch.arange(q_len, device=device).unsqueeze(0) - torch.arange(
-            q_len, device=device
-        ).unsqueeze(1)
+        # Queries are aligned with the last `q_len` keys.
+        # (S, 1)
+        q_pos = torch.arange(k_len - q_len, k_len, device=device).unsqueeze(1)
 
-        mask: Tensor = (block_pos == 0) & (token_pos <= 0)
+        # (1, S_kv)
+        k_pos = torch.arange(k_len, device=device).unsqueeze(0)
 
-        mask = mask.to(dtype)
+        block_pos = (k_pos // self.attn_chunk_size) - (q_pos // self.attn_chunk_size)
+        token_pos = k_pos - q_pos
 
-        # (S, S)
-        return mask
+        mask: Tensor = (block_pos == 0) & (token_pos <= 0)
+
+        # (S, S_kv)
+        return mask.to(dtype).log_()
 
     def __repr__(self) -> str:
         return f"ChunkedAttentionBias(attn_chunk_size={self.attn_chunk_size})"
-- 
2.43.0


From 7760bb2a3bc7c6771b127aa9465715d6b87cc668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 23/53] fix: do not mask all keys of a padding query

---
 src/fairseq2/models/transformer/attention_bias.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 4faccff..84c846f 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -312,8 +312,13 @@ def _create_block_bias_tensor(
     prev_k_end = 0
 
     for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
-        if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+        if prev_q_end != q_begin:  # pad
+            if prev_k_end != k_begin:
+                tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+            else:
+                # There is no padding to attend to. Avoid fully masked rows since
+                # they result in NaNs.
+                tensor[prev_q_end:q_begin] = 0.0
 
         if q_begin != q_end and k_begin != k_end:
             tensor[q_begin:q_end, k_begin:k_end] = bias.create_bias_tensor(
-- 
2.43.0


From c7c6376731e314a5751db3d0200b5170140ed010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 24/53] fix: support ALiBi with padded and packed batches

---
 src/fairseq2/models/transformer/attention_bias.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 84c846f..f357346 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -314,17 +314,22 @@ def _create_block_bias_tensor(
     for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
         if prev_q_end != q_begin:  # pad
             if prev_k_end != k_begin:
-                tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+                tensor[..., prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
             else:
                 # There is no padding to attend to. Avoid fully masked rows since
                 # they result in NaNs.
-                tensor[prev_q_end:q_begin] = 0.0
+                tensor[..., prev_q_end:q_begin, :] = 0.0
 
         if q_begin != q_end and k_begin != k_end:
-            tensor[q_begin:q_end, k_begin:k_end] = bias.create_bias_tensor(
+            block = bias.create_bias_tensor(
                 q_end - q_begin, k_end - k_begin, device, dtype
             )
 
+            if block.ndim > tensor.ndim:  # has head dim
+                tensor = tensor.repeat(block.size(0), 1, 1)
+
+            tensor[..., q_begin:q_end, k_begin:k_end] = block
+
         prev_q_end = q_end
         prev_k_end = k_end
 
-- 
2.43.0


From 61e48f2de656b11d26063ea057b1b5116f1c5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 25/53] fix: mask padding between the layers of the stacked
 wav2vec 2.0 position encoder

---
 src/fairseq2/models/wav2vec2/position_encoder.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/wav2vec2/position_encoder.py b/src/fairseq2/models/wav2vec2/position_encoder.py
index 6dd6b40..488e082 100644
--- a/src/fairseq2/models/wav2vec2/position_encoder.py
+++ b/src/fairseq2/models/wav2vec2/position_encoder.py
@@ -214,6 +214,8 @@ class Wav2Vec2StackedPositionEncoder(PositionEncoder):
         if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
+        padding_mask: Tensor | None = None
+
         if seqs_layout.padded:
             padding_mask = seqs_layout.position_indices >= 0
 
@@ -225,7 +227,13 @@ class Wav2Vec2StackedPositionEncoder(PositionEncoder):
         encodings = seqs.transpose(1, 2)
 
         # (N, E, S) -> (N, E, S)
-        encodings = self.layers(encodings)
+        for layer in self.layers:
+            encodings = layer(encodings)
+
+            # The outputs of a layer at padded positions are not zero and would
+            # leak into the feature maps of the next layer.
+            if padding_mask is not None:
+                encodings = encodings.masked_fill(~padding_mask.unsqueeze(1), 0.0)
 
         # (N, E, S) -> (N, S, E)
         encodings = encodings.transpose(1, 2)
-- 
2.43.0


From 8e9f5558907ce54e971947d775b7748746d31abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 26/53] fix: accept padded batches in the fbank subsampler and
 reject packed ones

---
 src/fairseq2/models/s2t_transformer/feature_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/models/s2t_transformer/feature_extractor.py b/src/fairseq2/models/s2t_transformer/feature_extractor.py
index 02c2ae9..87a025e 100644
--- a/src/fairseq2/models/s2t_transformer/feature_extractor.py
+++ b/src/fairseq2/models/s2t_transformer/feature_extractor.py
@@ -98,7 +98,7 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
             :math:`N` is the batch size, :math:`S` is the number of frames, and
             :math:`C` is the number of channels.
         """
-        if seqs_layout.padded:
+        if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
         # Apply the convolution along the temporal dimension (i.e. along the
-- 
2.43.0


From d2324d8412ee574c6b290023af2ffe50e16a909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 27/53] fix: mask padded frames between the layers of the fbank
 subsampler

---
 .../s2t_transformer/feature_extractor.py      | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/fairseq2/models/s2t_transformer/feature_extractor.py b/src/fairseq2/models/s2t_transformer/feature_extractor.py
index 87a025e..2f551d3 100644
--- a/src/fairseq2/models/s2t_transformer/feature_extractor.py
+++ b/src/fairseq2/models/s2t_transformer/feature_extractor.py
@@ -10,6 +10,7 @@ import math
 from collections.abc import Sequence
 from typing import Final, final
 
+import torch
 from torch import Tensor
 from torch.nn import GLU, Conv1d, Sequential
 from typing_extensions import override
@@ -101,33 +102,44 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
         if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
+        seq_lens: list[int] | None = None
+
+        if seqs_layout.padded:
+            seq_lens = list(seqs_layout.seq_lens)
+
         # Apply the convolution along the temporal dimension (i.e. along the
         # sequence).
         # (N, S, C) -> (N, C, S)
         seqs = seqs.transpose(1, 2)
 
         # (N, C, S) -> (N, F, S_out)
-        seqs = self.layers(seqs)
+        for layer in self.layers:
+            if seq_lens is not None:
+                # We have to ensure that the padded elements are correctly set
+                # to zero; otherwise, noise will leak into the feature maps.
+                seqs = self._mask_padding(seqs, seq_lens)
+
+                # Since the layer contracts the temporal dimension, we should
+                # re-compute the sequence lengths.
+                seq_lens = self._contract_seq_lens(seq_lens)
+
+            seqs = layer(seqs)
 
         # (N, F, S_out) -> (N, S_out, F)
         seqs = seqs.transpose(1, 2)
 
-        if seqs_layout.padded:
-            # Since we contracted the temporal dimension, we should re-compute
-            # the sequence lengths.
-            seq_lens = self._contract_seq_lens(seqs_layout.seq_lens)
-        else:
-            seq_lens = None
-
         seqs_layout = BatchLayout.of(seqs, seq_lens)
 
         return seqs, seqs_layout
 
-    def _contract_seq_lens(self, seq_lens: Sequence[int]) -> list[int]:
-        seq_lens = list(seq_lens)
+    @staticmethod
+    def _mask_padding(seqs: Tensor, seq_lens: Sequence[int]) -> Tensor:
+        indices = torch.arange(seqs.size(2), device=seqs.device)
 
-        for _ in range(len(self.layers)):
-            for i in range(len(seq_lens)):
-                seq_lens[i] = math.floor(((seq_lens[i] - 1) / self.STRIDE) + 1.0)
+        padding_mask = indices >= torch.tensor(seq_lens, device=seqs.device)[:, None]
 
-        return seq_lens
+        # (N, S) -> (N, 1, S)
+        return seqs.masked_fill(padding_mask.unsqueeze(1), 0.0)
+
+    def _contract_seq_lens(self, seq_lens: Sequence[int]) -> list[int]:
+        return [math.floor(((s - 1) / self.STRIDE) + 1.0) for s in seq_lens]
-- 
2.43.0


From 8c1a80320b28b875e41b4aa156218a583ea6a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 28/53] fix: use the length of the shared keys in incremental
 decoding

---
 src/fairseq2/models/transformer/multihead_attention.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 07b6f66..6327f5e 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -413,6 +413,11 @@ class StandardMultiheadAttention(MultiheadAttention):
         if pre_computed_kv is not None:
             # KV sharing: use pre-computed K/V from source layer
             k, v = pre_computed_kv
+
+            # During incremental decoding, the keys and values of the source
+            # layer also contain the past steps.
+            if not self.training and state_bag is not None and seqs is keys:
+                keys_layout = BatchLayout.of(k)
         elif self.training or state_bag is None:
             # Full forward pass (training or no incremental state)
             # k: (N, S_kv, M) -> (N, S_kv, H_kv, K_h)
-- 
2.43.0


From 6d0a9c678126f7bbd3b8025362d2fe5256e3b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 29/53] fix: reorder the static attention state also when the
 batch size does not change

---
 src/fairseq2/models/transformer/multihead_attention.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 6327f5e..132db6b 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -957,9 +957,8 @@ class StaticAttentionState(AttentionState):
 
     @override
     def reorder(self, new_order: Tensor) -> None:
-        if new_order.size(0) != self._k.size(0):
-            self._k = self._k.index_select(0, new_order)
-            self._v = self._v.index_select(0, new_order)
+        self._k = self._k.index_select(0, new_order)
+        self._v = self._v.index_select(0, new_order)
 
     @override
     def size_bytes(self) -> int:
-- 
2.43.0


From 92bbc8d0797aa512ae436fa81bccdb6334312250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 30/53] fix: do not divide by zero in the sinusoidal table of
 2-dimensional encodings

---
 src/fairseq2/nn/position_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/position_encoder.py b/src/fairseq2/nn/position_encoder.py
index 9ea280c..c3e8ae2 100644
--- a/src/fairseq2/nn/position_encoder.py
+++ b/src/fairseq2/nn/position_encoder.py
@@ -201,7 +201,7 @@ def _fill_sin_freq_table(
     indices = torch.arange(num_sin, device=steps.device, dtype=steps.dtype)
 
     # This is identical to tensor2tensor's implementation.
-    freqs = torch.exp(indices * -math.log(10000.0) / (num_sin - correction))
+    freqs = torch.exp(indices * -math.log(10000.0) / max(num_sin - correction, 1))
 
     # (S) x (E) -> (S, E)
     torch.outer(steps, freqs, out=l_half)
-- 
2.43.0


From d07f02b126dc15a6878c29975efc521276a3392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 31/53] fix: compute the w2v-BERT loss over codebook entries

---
 src/fairseq2/models/w2vbert/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/w2vbert/model.py b/src/fairseq2/models/w2vbert/model.py
index 1f06fd8..f3cc84d 100644
--- a/src/fairseq2/models/w2vbert/model.py
+++ b/src/fairseq2/models/w2vbert/model.py
@@ -155,8 +155,11 @@ class W2VBertModel(Module):
         w2v2_diversity_weight: float = 0.1,
         w2v2_features_penalty_weight: float = 10.0,
     ) -> W2VBertLoss:
+        # (N x S_msk, V, G) -> (N x S_msk, G, V)
+        bert_logits = output.bert_logits.transpose(1, 2)
+
         bert_loss = cross_entropy(
-            output.bert_logits,
+            bert_logits,
             output.bert_targets,
             pad_idx=None,
             reduction="sum",
-- 
2.43.0


From 065fed4137d20939d95ade9520204f22551e136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 32/53] fix: use only the target codebooks as w2v-BERT targets

---
 src/fairseq2/models/w2vbert/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/models/w2vbert/model.py b/src/fairseq2/models/w2vbert/model.py
index f3cc84d..b72fa7d 100644
--- a/src/fairseq2/models/w2vbert/model.py
+++ b/src/fairseq2/models/w2vbert/model.py
@@ -141,7 +141,7 @@ class W2VBertModel(Module):
 
         indices = cb.argmax(dim=-1).view(-1, num_codebooks)
 
-        indices = indices[..., :num_codebooks]
+        indices = indices[..., : self.num_target_codebooks]
 
         return indices.detach()
 
-- 
2.43.0


From 9cca013c62982e68950cd9902e22e0caa2f7a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 33/53] fix: export LLaMA and Qwen configurations that Hugging
 Face reads as the same model

The base frequency of the rotary encoding moved into the scaling parameters
in transformers v5, the size of the feed-forward network of LLaMA ignored
ffn_inner_dim and its scale, and Qwen 3 configurations lacked head_dim.
---
 src/fairseq2/models/llama/interop.py | 17 ++++++++++++-----
 src/fairseq2/models/qwen/interop.py  | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index b47048f..9aa28cc 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -129,14 +129,22 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
     def to_hg_config(self, config: object) -> HuggingFaceConfig:
         config = cast_config_type(config, LLaMAConfig)
 
-        multiplier = config.ffn_inner_dim_multiplier
-
         multiple_of = config.ffn_inner_dim_multiple_of
 
-        intermediate_size = multiple_of * ((int(multiplier * int(8 * config.model_dim / 3)) + multiple_of - 1) // multiple_of)  # fmt: skip
+        intermediate_size = int(config.ffn_inner_dim * config.ffn_inner_dim_multiplier)
+
+        if config.ffn_inner_dim_scale != 1.0:
+            intermediate_size = int(intermediate_size * config.ffn_inner_dim_scale)
+
+        intermediate_size = multiple_of * ((intermediate_size + multiple_of - 1) // multiple_of)  # fmt: skip
+
+        # The base frequency is a part of the scaling parameters as of
+        # transformers v5.
+        rope_scale: dict[str, object]
 
         if config.use_scaled_rope:
             rope_scale = {
+                "rope_theta": config.rope_theta,
                 "factor": config.rope_scale.factor,
                 "low_freq_factor": config.rope_scale.frequency_factors[0],
                 "high_freq_factor": config.rope_scale.frequency_factors[1],
@@ -144,7 +152,7 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
                 "rope_type": "llama3",
             }
         else:
-            rope_scale = None
+            rope_scale = {"rope_theta": config.rope_theta, "rope_type": "default"}
 
         if config.vocab_size == 32_000:  # LLaMA 1 and 2
             bos_idx = 1
@@ -165,7 +173,6 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
             "num_key_value_heads": config.num_key_value_heads,
             "rms_norm_eps": 1e-5,
             "rope_scaling": rope_scale,
-            "rope_theta": config.rope_theta,
             "tie_word_embeddings": config.tied_embeddings,
             "vocab_size": config.vocab_size,
             "head_dim": config.model_dim // config.num_attn_heads,
diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index 98da6d6..55a29c3 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -62,7 +62,13 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
             "num_attention_heads": config.num_attn_heads,
             "num_key_value_heads": config.num_key_value_heads,
             "intermediate_size": config.ffn_inner_dim,
-            "rope_theta": config.rope_theta,
+            # The base frequency is a part of the scaling parameters as of
+            # transformers v5.
+            "rope_scaling": {
+                "rope_theta": config.rope_theta,
+                "rope_type": "default",
+            },
+            "layer_types": ["full_attention"] * config.num_layers,
         }
 
         if config.qkv_proj_bias:
@@ -70,6 +76,11 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
                 data, kls_name="Qwen2Config", arch="Qwen2ForCausalLM"
             )
         else:
+            if config.head_dim is not None:
+                data["head_dim"] = config.head_dim
+            else:
+                data["head_dim"] = config.model_dim // config.num_attn_heads
+
             return HuggingFaceConfig(
                 data, kls_name="Qwen3Config", arch="Qwen3ForCausalLM"
             )
-- 
2.43.0


From 03a0496a1ef19e0749fd1a3064781fd83decc91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 34/53] fix: convert fairseq wav2vec 2.0 checkpoints

fairseq calls the mask embedding mask_emb, and its position encoder has a
single convolution unless it is stacked.
---
 src/fairseq2/models/wav2vec2/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/wav2vec2/interop.py b/src/fairseq2/models/wav2vec2/interop.py
index 7dd9ebc..0ed17f9 100644
--- a/src/fairseq2/models/wav2vec2/interop.py
+++ b/src/fairseq2/models/wav2vec2/interop.py
@@ -25,7 +25,7 @@ def convert_wav2vec2_state_dict(
     except KeyError:
         pass
 
-    if "mask_emb.weight" in state_dict:  # fairseq
+    if "mask_emb" in state_dict:  # fairseq
         if config.encoder_config.norm_order == TransformerNormOrder.POST:
             # fmt: off
             state_dict["encoder_frontend.layer_norm.weight"] = state_dict["encoder.layer_norm.weight"]
@@ -45,6 +45,7 @@ def convert_wav2vec2_state_dict(
             r"^encoder\.layers\.([0-9]+)\.final_layer_norm\.":    r"encoder.layers.\1.ffn_layer_norm.",
             r"^encoder\.embed_tokens\.":                          r"encoder_frontend.embed.",
             r"^encoder\.pos_conv\.([0-4])\.0.":                   r"encoder_frontend.pos_encoder.layers.\1.conv.",
+            r"^encoder\.pos_conv\.0\.":                          r"encoder_frontend.pos_encoder.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.0\.":    r"encoder_frontend.feature_extractor.layers.\1.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.2\.1\.": r"encoder_frontend.feature_extractor.layers.\1.layer_norm.",
             r"^feature_extractor\.conv_layers\.0\.2\.":           r"encoder_frontend.feature_extractor.layers.0.group_norm.",
-- 
2.43.0


From 2572c8abab1386ab149226306bf8ee78e1e52102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 35/53] fix: apply the bias of RMSNorm when the native rms_norm
 is used

---
 src/fairseq2/nn/normalization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/normalization.py b/src/fairseq2/nn/normalization.py
index 2c3c3b3..8367081 100644
--- a/src/fairseq2/nn/normalization.py
+++ b/src/fairseq2/nn/normalization.py
@@ -233,7 +233,12 @@ class RMSNorm(LayerNorm):
     @override
     def forward(self, x: Tensor) -> Tensor:
         if _has_rms_norm:
-            return rms_norm(x, self.normalized_shape, self.weight, self.eps)
+            x = rms_norm(x, self.normalized_shape, self.weight, self.eps)
+
+            if self.bias is not None:
+                x = x + self.bias
+
+            return x
 
         # For numerical stability normalize in single precision.
         x = self._normalize(x.float()).type_as(x)
-- 
2.43.0


From 10f8e8f6f340fe119e7e5b424267ae7c4a43e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 36/53] fix: initialize the module of ScaledResidualConnect

---
 src/fairseq2/nn/residual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fairseq2/nn/residual.py b/src/fairseq2/nn/residual.py
index b73785f..cc70376 100644
--- a/src/fairseq2/nn/residual.py
+++ b/src/fairseq2/nn/residual.py
@@ -58,6 +58,8 @@ class ScaledResidualConnect(ResidualConnect):
         """
         :param scale: The scale factor.
         """
+        super().__init__()
+
         self.scale = scale
 
     @override
-- 
2.43.0


From 12e30bdd9bb4e2fac1b0c5cd102b0c4ae17e871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 37/53] fix: pair the right halves of DauphinFeedForwardNetwork
 under tensor parallelism

---
 src/fairseq2/models/transformer/ffn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/ffn.py b/src/fairseq2/models/transformer/ffn.py
index 960adac..40f6999 100644
--- a/src/fairseq2/models/transformer/ffn.py
+++ b/src/fairseq2/models/transformer/ffn.py
@@ -173,11 +173,13 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
         """
         super().__init__()
 
+        # The gate is the product of the two halves of the full output, which are
+        # not the halves of a shard.
         self.inner_proj = ColumnShardedLinear(
             model_dim,
             inner_dim * 2,
             bias,
-            gather_output=False,
+            gather_output=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
@@ -202,7 +204,7 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
             inner_dim,
             model_dim,
             bias,
-            scatter_input=False,
+            scatter_input=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
-- 
2.43.0


From 5baa6596792e22ccd4af370cd19e5c9a25dbe977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 38/53] fix: do not reduce shared gradients in place in
 reduce_on_backward

---
 src/fairseq2/ops/tensor_parallel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/ops/tensor_parallel.py b/src/fairseq2/ops/tensor_parallel.py
index 21264cd..e7e2fe9 100644
--- a/src/fairseq2/ops/tensor_parallel.py
+++ b/src/fairseq2/ops/tensor_parallel.py
@@ -102,9 +102,12 @@ class _ReduceOnBackwardFunction(Function):
 
     @staticmethod
     def backward(ctx: Any, grad_output: Tensor) -> tuple[Tensor, None]:
-        ctx.gang.all_reduce(grad_output, ReduceOperation.SUM)
+        # `grad_output` might be shared with other functions.
+        grad_input = grad_output.clone()
 
-        return grad_output, None
+        ctx.gang.all_reduce(grad_input, ReduceOperation.SUM)
+
+        return grad_input, None
 
 
 def _do_scatter(x: Tensor, gang: Gang, dim: int) -> Tensor:
-- 
2.43.0


From cdd2986acca5903ac440683e6772719498f2e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 39/53] fix: consider the candidates of all beams in
 StandardBeamSearchAlgorithm

The best 2 x beam size candidates were capped at the vocabulary size instead of the number of candidates.
---
 src/fairseq2/generation/beam_search/algo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/beam_search/algo.py b/src/fairseq2/generation/beam_search/algo.py
index 31f407c..3d7c070 100644
--- a/src/fairseq2/generation/beam_search/algo.py
+++ b/src/fairseq2/generation/beam_search/algo.py
@@ -102,6 +102,8 @@ class StandardBeamSearchAlgorithm(BeamSearchAlgorithm):
         lprobs = lprobs.view(-1)
 
         # (2 x B)
-        top_scores, top_indices = torch.topk(lprobs, k=min(2 * beam_size, vocab_size))
+        top_scores, top_indices = torch.topk(
+            lprobs, k=min(2 * beam_size, lprobs.numel())
+        )
 
         return BeamStep(top_indices // vocab_size, top_indices % vocab_size, top_scores)
-- 
2.43.0


From f2e182645cddebf2598a388a9a92031315afbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 40/53] fix: score prompt steps of ragged batches with
 unconstrained probabilities in beam search

---
 .../generation/beam_search/generator.py       | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 70cb709..685ecc1 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -602,6 +602,13 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         if lprobs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # The steps of the prompt sequences are scored with the probabilities of
+        # the model since they are not subject to the generation constraints.
+        if self._step_nr < self._max_prompt_len:
+            prompt_lprobs = lprobs.clone()
+        else:
+            prompt_lprobs = lprobs
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -631,11 +638,15 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         beam_next_step_list: list[BeamStep] = []
 
         # We split the batch by `beam_sizes` and treat each beam separately.
-        for beam_idx, (beam_lprobs, beam_step_scores) in enumerate(
-            zip(lprobs.split(self._beam_sizes), self._step_scores.split(self._beam_sizes))  # fmt: skip
+        for beam_idx, (beam_lprobs, beam_prompt_lprobs, beam_step_scores) in enumerate(
+            zip(lprobs.split(self._beam_sizes), prompt_lprobs.split(self._beam_sizes), self._step_scores.split(self._beam_sizes))  # fmt: skip
         ):
             beam_next_step = self._search_beam(
-                beam_idx, batch_offset, beam_lprobs, beam_step_scores
+                beam_idx,
+                batch_offset,
+                beam_lprobs,
+                beam_prompt_lprobs,
+                beam_step_scores,
             )
 
             # Bump the beam batch offset to the next beam.
@@ -683,7 +694,12 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         return True
 
     def _search_beam(
-        self, beam_idx: int, batch_offset: int, lprobs: Tensor, step_scores: Tensor
+        self,
+        beam_idx: int,
+        batch_offset: int,
+        lprobs: Tensor,
+        prompt_lprobs: Tensor,
+        step_scores: Tensor,
     ) -> BeamStep | None:
         # Ignore the generated indices for the prompt sequences.
         if self._step_nr < self._max_prompt_len:
@@ -703,7 +719,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
                 # reach the end of the prompt.
                 vocab_idx = self._seqs[batch_offset, self._step_nr : self._step_nr + 1]
 
-                score = step_scores[0, self._step_nr - 1] + lprobs[0, vocab_idx]
+                score = (
+                    step_scores[0, self._step_nr - 1] + prompt_lprobs[0, vocab_idx]
+                )
 
                 return BeamStep(seq_idx, vocab_idx, score)
         else:
-- 
2.43.0


From 298d482a69c2ff04644158d7e408527c737f0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 41/53] fix: make the first step score of a beam search
 hypothesis without prompt non-cumulative

---
 src/fairseq2/generation/beam_search/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 685ecc1..184bb90 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -801,6 +801,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Convert from cumulative to per-step scores.
         step_scores[1:] = step_scores[1:] - step_scores[:-1]
 
+        if start_step > 0:
+            step_scores[0] -= self._step_scores[seq_idx, start_step - 1]
+
         if self._normalize_scores:
             # Since the first step's score is always 0, do not include it in
             # the normalization.
-- 
2.43.0


From 8e77105462c0a273a0df8f1d7f12d0a8e62fa810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 42/53] fix: score prompt steps of ragged batches with
 unconstrained probabilities in sampling

---
 src/fairseq2/generation/sampling/generator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 754fbf7..c1e5ea1 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -613,6 +613,13 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
         if probs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # The steps of the prompt sequences are scored with the probabilities of
+        # the model since they are not subject to the generation constraints.
+        if self._step_nr < self._max_prompt_len and self._step_scores is not None:
+            prompt_probs = probs.clone()
+        else:
+            prompt_probs = None
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -667,6 +674,15 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             # (N, 1)
             scores = torch.gather(probs, dim=-1, index=vocab_indices[:, None])
 
+            if prompt_probs is not None and self._prompt_mask is not None:
+                mask = self._prompt_mask[:, self._step_nr]
+
+                prompt_scores = torch.gather(
+                    prompt_probs, dim=-1, index=vocab_indices[:, None]
+                )
+
+                scores[mask] = prompt_scores[mask]
+
             # Record the scores of the current step.
             self._step_scores[:, self._step_nr] = scores.squeeze(1)
 
-- 
2.43.0


From 14821fcf8ecc42ae01c17d990e80b559c9e7ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 43/53] fix: do not let the UNK penalty make probabilities
 negative in sampling

---
 src/fairseq2/generation/sampling/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index c1e5ea1..c1da592 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -636,6 +636,9 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             if self._unk_idx is not None:
                 probs[:, self._unk_idx] -= self._unk_penalty
 
+                # A penalized probability must not be negative.
+                probs[:, self._unk_idx].clamp_(min=0)
+
             # Never allow PAD.
             if self._pad_idx is not None:
                 probs[:, self._pad_idx] = 0
-- 
2.43.0


From 980ab77efe0d46ff2141d482bc6f266dcc53d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:47 +0000
Subject: [PATCH 44/53] fix: fan out source sequences in seq2seq sampling
 without prefill

---
 src/fairseq2/generation/sampling/generator.py | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index c1da592..6175e30 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -901,6 +901,28 @@ class _SamplingSeq2SeqGeneratorOp(_AbstractSamplingSequenceGeneratorOp):
         self._source_seqs = source_seqs
         self._source_seqs_layout = source_seqs_layout
 
+    @override
+    def _prepare_state(self) -> None:
+        super()._prepare_state()
+
+        # If there is nothing to prefill, the source sequences have not been
+        # encoded yet and, like the state, have to be fanned out.
+        if self._num_gens > 1 and self._min_prompt_len == 1:
+            source_seq_lens = [
+                seq_len
+                for seq_len in self._source_seqs_layout.seq_lens
+                for _ in range(self._num_gens)
+            ]
+
+            # (P, S, *) -> (P x G, S, *)
+            self._source_seqs = repeat_interleave(
+                self._source_seqs, dim=0, repeat=self._num_gens
+            )
+
+            self._source_seqs_layout = BatchLayout.of(
+                self._source_seqs, source_seq_lens
+            )
+
     @override
     def _decode(self, seqs: Tensor) -> Tensor:
         # We never pad during incremental decoding.
-- 
2.43.0


From 07acf4a6273aec910ced0063c5989bf8c283111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 45/53] fix: reject floats that are not integers when
 structuring int

---
 src/fairseq2/utils/structured.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 95bf7f9..6bbf22f 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -144,10 +144,16 @@ class StandardValueConverter(ValueConverter):
             return obj
 
         try:
-            return kls(obj)
-        except (TypeError, ValueError) as ex:
+            value = kls(obj)
+        except (TypeError, ValueError, OverflowError) as ex:
             raise StructureError(f"`obj` cannot be parsed as `{kls}`.") from ex
 
+        # `int()` silently truncates floating-point numbers.
+        if isinstance(obj, float) and value != obj:
+            raise StructureError(f"`obj` cannot be represented as `{kls}`.")
+
+        return value
+
     def _structure_identity(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> object:
-- 
2.43.0


From f02eff78ddf93119102738eb3a2028c9cea45459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 46/53] fix: do not structure a string as a collection of its
 characters

---
 src/fairseq2/utils/structured.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 6bbf22f..f46bf36 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -331,7 +331,8 @@ class StandardValueConverter(ValueConverter):
     def _structure_list(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> list[object]:
-        if isinstance(obj, Sequence):
+        # A string is not meant as a sequence of its characters.
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
@@ -401,7 +402,8 @@ class StandardValueConverter(ValueConverter):
                     "One of the set elements cannot be structured."
                 ) from ex
 
-        if isinstance(obj, Sequence):
+        # A string is not meant as a sequence of its characters.
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
@@ -435,7 +437,8 @@ class StandardValueConverter(ValueConverter):
     def _structure_tuple(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> tuple[object, ...]:
-        if isinstance(obj, Sequence):
+        # A string is not meant as a sequence of its characters.
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
             num_args = len(type_args)
 
             if num_args == 0:
-- 
2.43.0


From e8d9e56f078458dd00e591da23275749e3c4d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 47/53] fix: reject mappings whose keys become equal when
 structured

---
 src/fairseq2/utils/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index f46bf36..08debef 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -259,6 +259,9 @@ class StandardValueConverter(ValueConverter):
                         f"Value of the {k} key cannot be structured."
                     ) from ex
 
+                if k in output:
+                    raise StructureError(f"{k} key occurs more than once.")
+
                 output[k] = v
 
             return output
-- 
2.43.0


From 28218e4fd42d7bd9de0fac4c2421a81167abcd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 48/53] fix: report zero checkpoint and validation intervals
 instead of dividing by them

---
 src/fairseq2/recipe/config.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/fairseq2/recipe/config.py b/src/fairseq2/recipe/config.py
index 0d1a485..36ee64e 100644
--- a/src/fairseq2/recipe/config.py
+++ b/src/fairseq2/recipe/config.py
@@ -438,7 +438,10 @@ class RegimeSection(Validatable):
                     "`validate_every_n_steps` must be greater than or equal to 1."
                 )
 
-            if self.publish_metrics_every_n_steps is not None:
+            if (
+                self.publish_metrics_every_n_steps is not None
+                and self.publish_metrics_every_n_steps > 0
+            ):
                 not_multiple = (
                     self.validate_every_n_steps % self.publish_metrics_every_n_steps
                     != 0
@@ -454,7 +457,10 @@ class RegimeSection(Validatable):
                     "`validate_every_n_data_epochs` must be greater than or equal to 1."
                 )
 
-            if self.publish_metrics_every_n_data_epochs is not None:
+            if (
+                self.publish_metrics_every_n_data_epochs is not None
+                and self.publish_metrics_every_n_data_epochs > 0
+            ):
                 not_multiple = (
                     self.validate_every_n_data_epochs
                     % self.publish_metrics_every_n_data_epochs
@@ -471,7 +477,10 @@ class RegimeSection(Validatable):
                     "`checkpoint_every_n_steps` must be greater than or equal to 1."
                 )
 
-            if self.publish_metrics_every_n_steps is not None:
+            if (
+                self.publish_metrics_every_n_steps is not None
+                and self.publish_metrics_every_n_steps > 0
+            ):
                 not_multiple = (
                     self.checkpoint_every_n_steps % self.publish_metrics_every_n_steps
                     != 0
@@ -487,7 +496,10 @@ class RegimeSection(Validatable):
                     "`checkpoint_every_n_data_epochs` must be greater than or equal to 1."
                 )
 
-            if self.publish_metrics_every_n_data_epochs is not None:
+            if (
+                self.publish_metrics_every_n_data_epochs is not None
+                and self.publish_metrics_every_n_data_epochs > 0
+            ):
                 not_multiple = (
                     self.checkpoint_every_n_data_epochs
                     % self.publish_metrics_every_n_data_epochs
@@ -515,7 +527,10 @@ class RegimeSection(Validatable):
                     result.add_error(
                         "`validate_every_n_steps` must be specified when `keep_best_n_checkpoints` and `checkpoint_every_n_steps` are specified."
                     )
-                elif self.checkpoint_every_n_steps % self.validate_every_n_steps != 0:
+                elif (
+                    self.validate_every_n_steps > 0
+                    and self.checkpoint_every_n_steps % self.validate_every_n_steps != 0
+                ):
                     result.add_error(
                         f"`checkpoint_every_n_steps` must be a multiple of `validate_every_n_steps` ({self.validate_every_n_steps}), but is {self.checkpoint_every_n_steps} instead."
                     )
@@ -526,7 +541,10 @@ class RegimeSection(Validatable):
                     "`keep_checkpoint_every_n_steps` must be greater than or equal to 1."
                 )
 
-            if self.checkpoint_every_n_steps is not None:
+            if (
+                self.checkpoint_every_n_steps is not None
+                and self.checkpoint_every_n_steps > 0
+            ):
                 not_multiple = (
                     self.keep_checkpoint_every_n_steps % self.checkpoint_every_n_steps
                     != 0
-- 
2.43.0


From a3ccde0b0e25068510465cc59b6854f0e15bf2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 49/53] fix: raise an error for asset cards with cyclic bases

---
 src/fairseq2/assets/store.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index d861107..583d596 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -116,8 +116,17 @@ class StandardAssetStore(AssetStore):
         return self._do_retrieve_card(name, name, envs)
 
     def _do_retrieve_card(
-        self, name: str, leaf_name: str, envs: list[str]
+        self,
+        name: str,
+        leaf_name: str,
+        envs: list[str],
+        derived_names: tuple[str, ...] = (),
     ) -> AssetCard | None:
+        if name in derived_names:
+            msg = f"{leaf_name} asset card has a circular base asset chain at {name}."
+
+            raise AssetCardError(leaf_name, msg)
+
         metadata = self._maybe_get_metadata(f"{name}@")
         if metadata is None:
             if name != leaf_name:
@@ -139,7 +148,9 @@ class StandardAssetStore(AssetStore):
         if not isinstance(base_name, str):
             base_card = None
         else:
-            base_card = self._do_retrieve_card(base_name, leaf_name, envs)
+            base_card = self._do_retrieve_card(
+                base_name, leaf_name, envs, (*derived_names, name)
+            )
 
         return AssetCard(name, metadata, base_card)
 
-- 
2.43.0


From cf69bcf9d15fa31f22c70727062e6be936411764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 50/53] fix: do not modify in-memory asset metadata and keep
 the sanitized base name

---
 src/fairseq2/assets/metadata_provider.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/assets/metadata_provider.py b/src/fairseq2/assets/metadata_provider.py
index c4e46c5..f5dca38 100644
--- a/src/fairseq2/assets/metadata_provider.py
+++ b/src/fairseq2/assets/metadata_provider.py
@@ -242,6 +242,9 @@ def load_in_memory_asset_metadata(
     metadata = {}
 
     for idx, asset_metadata in enumerate(entries):
+        # Do not modify the entries of the caller; they might be loaded again.
+        asset_metadata = dict(asset_metadata)
+
         name = asset_metadata.pop("name", None)
         if not name:
             msg = f"Asset at index {idx} in `metadata` must have a name."
@@ -277,6 +280,8 @@ def load_in_memory_asset_metadata(
 
                 raise AssetMetadataError(source, msg)
 
+            asset_metadata["base"] = base_name
+
         metadata[name] = asset_metadata
 
     return CachedAssetMetadataProvider(source, metadata)
-- 
2.43.0


From 3459a1445801ccb4c87381dbb5093cc6b2b9cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 51/53] fix: do not reuse stale or partial asset downloads

---
 src/fairseq2/assets/download_manager.py | 28 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 1cfd12b..55b4903 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -537,7 +537,7 @@ class _AssetDownloadOperation:
 
                 self._download_asset()
 
-                self._ensure_asset_extracted()
+            self._ensure_asset_extracted()
 
             path = self._retrieve_asset_path()
         except OSError as ex:
@@ -550,20 +550,25 @@ class _AssetDownloadOperation:
     def _clean_cached_asset(self) -> None:
         asset_dir = self._asset_dir
 
-        try:
-            self._file_system.remove_directory(asset_dir)
-        except FileNotFoundError:
-            pass
-
         download_dir = asset_dir.with_suffix(".download")
 
-        try:
-            self._file_system.remove_directory(download_dir)
-        except FileNotFoundError:
-            pass
+        self._remove_tmp_download_dir()
 
+        # Move the directories out of the way before removing them, so that a
+        # partially removed directory never looks like a cached asset.
         tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+        for path in (asset_dir, download_dir):
+            try:
+                self._file_system.move(path, tmp_download_dir)
+            except FileNotFoundError:
+                continue
+
+            self._remove_tmp_download_dir()
+
+    def _remove_tmp_download_dir(self) -> None:
+        tmp_download_dir = self._asset_dir.with_suffix(".download.tmp")
+
         try:
             self._file_system.remove_directory(tmp_download_dir)
         except FileNotFoundError:
@@ -585,6 +590,9 @@ class _AssetDownloadOperation:
         with ExitStack() as exit_stack:
             tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+            # An earlier, interrupted download might have left it behind.
+            self._remove_tmp_download_dir()
+
             self._file_system.make_directory(tmp_download_dir)
 
             def remove_tmp_dir() -> None:
-- 
2.43.0


From f183cb2dbbf88e5c0688c8d9438be53ea71cc4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 52/53] fix: extract compressed tar archives

---
 src/fairseq2/assets/download_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 55b4903..9f76208 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -12,7 +12,7 @@ from collections.abc import Generator, Sequence, Set
 from contextlib import ExitStack, contextmanager
 from hashlib import sha1
 from pathlib import Path
-from tarfile import TarFile, is_tarfile
+from tarfile import TarError, TarFile, is_tarfile
 from tempfile import NamedTemporaryFile
 from typing import Final, final
 from urllib.error import HTTPError, URLError
@@ -751,9 +751,9 @@ class _AssetDownloadOperation:
 
                 with task:
                     try:
-                        with TarFile(download_file) as tar_fp:
+                        with TarFile.open(download_file) as tar_fp:
                             tar_fp.extractall(path=asset_dir)
-                    except (KeyError, OSError, EOFError) as ex:
+                    except (KeyError, OSError, EOFError, TarError) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-- 
2.43.0


From 10582a79a5a3b7fe005ef8ce63f5b74c94a04596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 53/53] fix: unquote file URIs when converting them to paths

---
 src/fairseq2/utils/uri.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/uri.py b/src/fairseq2/utils/uri.py
index 685e333..6fa4386 100644
--- a/src/fairseq2/utils/uri.py
+++ b/src/fairseq2/utils/uri.py
@@ -6,9 +6,10 @@
 
 from __future__ import annotations
 
+import os
 from pathlib import Path
 from typing import final
-from urllib.parse import ParseResult, urlparse, urlunparse
+from urllib.parse import ParseResult, unquote_to_bytes, urlparse, urlunparse
 
 from fairseq2.error import InternalError, NotSupportedError
 
@@ -81,7 +82,8 @@ class Uri:
 
         s = str(self)
 
-        return Path(s[7:])
+        # `Path.as_uri()` percent-encodes special characters.
+        return Path(os.fsdecode(unquote_to_bytes(s[7:])))
 
     def __str__(self) -> str:
         return urlunparse(self._result)
-- 
2.43.0

