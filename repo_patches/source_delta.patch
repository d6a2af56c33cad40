From 1d3a2b7f5adf3b459a0006b43ffa68a4be0e55d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 01/55] fix: resume an evolution search on all ranks and run
 all remaining epochs

---
 .../engine/runner/evolution_search_loop.py    | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 644385e..1f6195e 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -103,6 +103,7 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         self.crossover_prob = crossover_prob
         self.max_keep_ckpts = max_keep_ckpts
         self.resume_from = resume_from
+        self._epoch_start = 0
         self.fp16 = False
 
         if init_candidates is None:
@@ -144,7 +145,7 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         if self.resume_from:
             self._resume()
 
-        while self._epoch < self._max_epochs:
+        while self._epoch < self._epoch_start + self._max_epochs:
             self.run_epoch()
             self._save_searcher_ckpt()
 
@@ -297,16 +298,24 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
         return candidate
 
     def _resume(self):
-        """Resume searching."""
+        """Resume searching.
+
+        Only rank 0 reads the checkpoint, every rank gets its content.
+        """
+        resume_state = [None]
         if self.runner.rank == 0:
-            searcher_resume = fileio.load(self.resume_from)
-            for k in searcher_resume.keys():
-                setattr(self, k, searcher_resume[k])
-            epoch_start = int(searcher_resume['_epoch'])
-            self._max_epochs = self._max_epochs - epoch_start
-            self.runner.logger.info('#' * 100)
-            self.runner.logger.info(f'Resume from epoch: {epoch_start}')
-            self.runner.logger.info('#' * 100)
+            resume_state[0] = fileio.load(self.resume_from)
+        broadcast_object_list(resume_state)
+        searcher_resume = resume_state[0]
+
+        for k in searcher_resume.keys():
+            setattr(self, k, searcher_resume[k])
+        # `_max_epochs` becomes the number of epochs that are left to run.
+        self._epoch_start = int(searcher_resume['_epoch'])
+        self._max_epochs = self._max_epochs - self._epoch_start
+        self.runner.logger.info('#' * 100)
+        self.runner.logger.info(f'Resume from epoch: {self._epoch_start}')
+        self.runner.logger.info('#' * 100)
 
     def _save_best_fix_subnet(self):
         """Save best subnet in searched top-k candidates."""
-- 
2.43.0


From 27d6cf39f5fde93947b703fec2a579b6fb3dd411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 02/55] fix: resume a greedy width search at the first
 unfinished target

---
 .../engine/runner/autoslim_greedy_search_loop.py   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..e5ca0fb 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+import os
 import os.path as osp
 import warnings
 from typing import Any, Dict, List, Optional, Tuple, Union
@@ -95,8 +96,10 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
+        for i, target in enumerate(self.target_flops):
+            # A resumed search goes on with the first target that has no
+            # subnet yet.
+            if i < len(self.searched_subnet):
                 continue
 
             if self.current_flops <= target:
@@ -188,8 +191,11 @@ class AutoSlimGreedySearchLoop(TestLoop):
                 'searched_subnet_flops'
         ]:
             save_for_resume[k] = getattr(self, k)
-        fileio.dump(save_for_resume,
-                    osp.join(self.runner.work_dir, 'latest.pkl'))
+        # `latest.pkl` is the only searcher checkpoint, so it is replaced only
+        # once its successor is complete.
+        ckpt_path = osp.join(self.runner.work_dir, 'latest.pkl')
+        fileio.dump(save_for_resume, ckpt_path + '.tmp', file_format='pkl')
+        os.replace(ckpt_path + '.tmp', ckpt_path)
         self.runner.logger.info(
             f'{len(self.searched_subnet)} subnets have been searched, '
             f'FLOPs are {self.searched_subnet_flops}')
-- 
2.43.0


From fc936dd2f47753c560b8ba23e548800c75c0cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 03/55] fix: load subnets exported in ratio mode

---
 .../mutables/mutable_channel/sequential_mutable_channel.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..2ede4ff 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -63,6 +63,9 @@ class SquentialMutableChannel(SimpleMutableChannel):
         """Fix chosen."""
         if chosen is ...:
             chosen = self.current_choice
+        elif not self.is_num_mode:
+            # `dump_chosen` always describes a choice by its channel number.
+            chosen = self._num2ratio(chosen)
         assert self.is_fixed is False
         self.current_choice = chosen
         self.is_fixed = True
-- 
2.43.0


From 9fcb4190f46ceaad09b1c2d5634879c01aa50af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 04/55] fix: restore wrapped functions in reverse order and
 wrap methods as found on entering

---
 .../task_modules/delivery/delivery_manager.py     | 15 +++++++++++----
 .../delivery/method_outputs_delivery.py           | 12 ++++++++++--
 .../recorder/method_outputs_recorder.py           | 14 +++++++++-----
 .../task_modules/recorder/recorder_manager.py     | 15 +++++++++++----
 4 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..8b5b568 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+from contextlib import ExitStack
 from typing import Dict, Optional
 
 from mmrazor.registry import TASK_UTILS
@@ -103,11 +104,17 @@ class DistillDeliveryManager:
             delivery.override_data = override
 
     def __enter__(self) -> None:
-        """Enter the context manager."""
-        for delivery in self.deliveries.values():
-            delivery.__enter__()
+        """Enter the context manager.
+
+        If one fails to start, those already started are stopped again.
+        """
+        with ExitStack() as stack:
+            for delivery in self.deliveries.values():
+                stack.enter_context(delivery)
+            stack.pop_all()
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         """Exit the context manager."""
-        for delivery in self.deliveries.values():
+        # The last one started is the first one to restore what it wrapped.
+        for delivery in reversed(list(self.deliveries.values())):
             delivery.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..3b3027b 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -125,7 +125,10 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
-        wrapped_method = self.deliver_wrapper(self.origin_method)
+        # The method may have been wrapped since this delivery was built.
+        origin_method = getattr(self.imported_cls, self.method_name)
+        self.replaced_attr = vars(self.imported_cls).get(self.method_name)
+        wrapped_method = self.deliver_wrapper(origin_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
@@ -133,7 +136,12 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Reset the origin method.
         """
-        setattr(self.imported_cls, self.method_name, self.origin_method)
+        if self.replaced_attr is None:
+            delattr(self.imported_cls, self.method_name)
+        else:
+            setattr(self.imported_cls, self.method_name, self.replaced_attr)
+        # self.replaced_attr may not be picklable.
+        del self.replaced_attr
 
     def deliver_wrapper(self, origin_method: Callable) -> Callable:
         """Wrap the specific method to make the intermediate results of the
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..86dc818 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -148,7 +148,9 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
-        origin_method = self.origin_method
+        # The method may have been wrapped since this recorder was built.
+        origin_method = getattr(imported_cls, self.method_name)
+        self.replaced_attr = vars(imported_cls).get(self.method_name)
         # add record wrapper to origin method.
         record_method = self.method_record_wrapper(origin_method,
                                                    self.data_buffer)
@@ -160,8 +162,10 @@ class MethodOutputsRecorder(BaseRecorder):
         """Exit the context manager."""
         super().__exit__(exc_type, exc_value, traceback)
 
-        imported_cls = self.imported_class
-        origin_method = self.origin_method
-
         # restore the origin method
-        setattr(imported_cls, self.method_name, origin_method)
+        if self.replaced_attr is None:
+            delattr(self.imported_class, self.method_name)
+        else:
+            setattr(self.imported_class, self.method_name, self.replaced_attr)
+        # self.replaced_attr may not be picklable.
+        del self.replaced_attr
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..b16648f 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+from contextlib import ExitStack
 from typing import Dict, Optional
 
 from torch import nn
@@ -106,11 +107,17 @@ class RecorderManager:
             recorder.initialize(model)
 
     def __enter__(self):
-        """Enter the context manager."""
-        for recorder in self.recorders.values():
-            recorder.__enter__()
+        """Enter the context manager.
+
+        If one fails to start, those already started are stopped again.
+        """
+        with ExitStack() as stack:
+            for recorder in self.recorders.values():
+                stack.enter_context(recorder)
+            stack.pop_all()
 
     def __exit__(self, exc_type, exc_value, traceback):
         """Exit the context manager."""
-        for recorder in self.recorders.values():
+        # The last one started is the first one to restore what it wrapped.
+        for recorder in reversed(list(self.recorders.values())):
             recorder.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From d17bb022b704312c5b39d6acf43b00b6f65cd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 05/55] fix: start every distillation batch with empty delivery
 queues

---
 mmrazor/models/distillers/configurable_distiller.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/models/distillers/configurable_distiller.py b/mmrazor/models/distillers/configurable_distiller.py
index e6c5c26..29fc20b 100644
--- a/mmrazor/models/distillers/configurable_distiller.py
+++ b/mmrazor/models/distillers/configurable_distiller.py
@@ -127,6 +127,11 @@ class ConfigurableDistiller(BaseDistiller):
 
     def set_deliveries_override(self, override: bool) -> None:
         """Set the `override_data` of all deliveries."""
+        if not override:
+            # A new batch starts. What a failed step has left in the queues
+            # belongs to another batch.
+            for delivery in self.deliveries.deliveries.values():
+                delivery.data_queue.clear()
         self.deliveries.override_data = override
 
     def prepare_from_student(self, model: BaseModel) -> None:
-- 
2.43.0


From 12b60d6ff706e9296ad358100fb9d73a8aba53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:45 +0000
Subject: [PATCH 06/55] fix: keep the gradients of the generator's loss out of
 the student

---
 .../configurable/datafree_distillation.py     | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1aff807..a9e4475 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -166,11 +166,28 @@ class DataFreeDistillation(BaseAlgorithm):
             loss_generator = self.generator_distiller.compute_distill_losses()
 
         generator_loss, generator_loss_vars = self.parse_losses(loss_generator)
-        optimizer.update_params(generator_loss)
+        self.update_generator(generator_loss, optimizer)
         log_vars = dict(add_prefix(generator_loss_vars, 'generator'))
 
         return generator_loss, log_vars
 
+    def update_generator(self, generator_loss: torch.Tensor,
+                         optimizer: OPTIMIZERS) -> None:
+        """Update the generator, and leave the gradients of the student, which
+        the loss of the generator may depend on, as they are.
+
+        Args:
+            generator_loss (torch.Tensor): The loss of the generator.
+            optimizer (OPTIMIZERS): The optimizer to update generator.
+        """
+        student_params = list(self.student.parameters())
+        student_grads = [param.grad for param in student_params]
+        for param in student_params:
+            param.grad = None
+        optimizer.update_params(generator_loss)
+        for param, grad in zip(student_params, student_grads):
+            param.grad = grad
+
 
 @MODELS.register_module()
 class DAFLDataFreeDistillation(DataFreeDistillation):
@@ -223,7 +240,7 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
         distill_loss, distill_log_vars = self.parse_losses(loss_distill)
         log_vars.update(add_prefix(distill_log_vars, 'distill'))
 
-        optim_wrapper['generator'].update_params(generator_loss)
+        self.update_generator(generator_loss, optim_wrapper['generator'])
         optim_wrapper['architecture'].update_params(distill_loss)
 
         return log_vars
-- 
2.43.0


From d865427b3f6182d7772de3be27fdaa0468b966fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 07/55] fix: fill gaps of a mutable channel container with the
 gap's own size

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From 2432a54a5b0196a0c3a75ab9d233472ed2463bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 08/55] fix: do not sort or extend the caller's candidate
 choices

---
 .../mutables/mutable_channel/oneshot_mutable_channel.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..ce197bf 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,10 +23,10 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
-        self.candidate_choices = candidate_choices
-        if candidate_choices == []:
-            candidate_choices.append(num_channels if self.is_num_mode else 1.0)
+        self.candidate_choices = sorted(candidate_choices)
+        if self.candidate_choices == []:
+            self.candidate_choices.append(
+                num_channels if self.is_num_mode else 1.0)
 
     @property
     def current_choice(self) -> Union[int, float]:
-- 
2.43.0


From 7de8e88e1bb4cec873725a42dd52d3944e2bbbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 09/55] fix: do not share the mask given as the choice of a
 channel mutable

---
 .../models/mutables/mutable_channel/simple_mutable_channel.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/simple_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/simple_mutable_channel.py
index 9e85f81..7c3bdc0 100644
--- a/mmrazor/models/mutables/mutable_channel/simple_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/simple_mutable_channel.py
@@ -35,7 +35,7 @@ class SimpleMutableChannel(BaseMutableChannel):
     @current_choice.setter
     def current_choice(self, choice: torch.Tensor):
         """Set current choice."""
-        self.mask = choice.to(self.mask.device).float()
+        self.mask = choice.to(self.mask.device).float().clone()
 
     @property
     def current_mask(self) -> torch.Tensor:
-- 
2.43.0


From e8740cd46af7d5159b4270938ad75ca7e4365b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 10/55] fix: group the source of several derived mutables once

---
 mmrazor/models/mutators/group_mixin.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..45d4bf3 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -160,7 +160,7 @@ class GroupMixin():
                     grouped_mutable_names.append(item)
 
             # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            prefix = group_mutables[-1].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
@@ -186,10 +186,15 @@ class GroupMixin():
                             grouped_mutable_names.append(mutable_name)
                     current_group_nums += 1
 
+        def is_grouped(mutable):
+            # a mutable can also be the source of several derived mutables
+            return any(mutable is m for group in search_groups.values()
+                       for m in group)
+
         # check whether all the mutable objects are in the search_groups
         for name, module in supernet.named_modules():
             if self.is_supported_mutable(module):
-                if name in grouped_mutable_names:
+                if name in grouped_mutable_names or is_grouped(module):
                     continue
                 else:
                     prefix = module.mutable_prefix
@@ -199,7 +204,8 @@ class GroupMixin():
             elif hasattr(module, 'source_mutables'):
                 for each_mutable in module.source_mutables:
                     if self.is_supported_mutable(each_mutable):
-                        if name in grouped_mutable_names:
+                        if name in grouped_mutable_names or \
+                                is_grouped(each_mutable):
                             continue
                         else:
                             prefix = each_mutable.mutable_prefix
-- 
2.43.0


From 718a427a4c4fe2f9b49dcfcdd2913be14a9017b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 11/55] fix: read back the channel number a ratio was made from
 (units)

---
 .../mutable_channel/units/sequential_mutable_channel_unit.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..170d07e 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -149,7 +149,8 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # `n * (k / n)` may be slightly less than `k`
+            return max(1, int(self.num_channels * choice + 1e-6))
 
     def _make_divisible_info(self, choice, new_choice):
         logger = MMLogger.get_current_instance()
-- 
2.43.0


From 807141712ce024f97b1e7558b67ee828dc3c5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 12/55] fix: derived mutables follow mutable ratios and ratio
 mode sources

---
 mmrazor/models/mutables/derived_mutable.py    | 67 ++++++++++++-------
 .../sequential_mutable_channel.py             | 15 +++--
 2 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..0a4f628 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -42,34 +42,50 @@ class MutableChannelProtocol(MutableProtocol):  # pragma: no cover
         """Current mask."""
 
 
-def _expand_choice_fn(mutable: MutableProtocol,
-                      expand_ratio: Union[int, float]) -> Callable:
+def _current_num(mutable: MutableProtocol) -> Any:
+    """Helper function to get the current choice of a mutable, as a number of
+    channels if the choice is a ratio of channels."""
+    if getattr(mutable, 'choice_mode', 'number') == 'ratio':
+        return mutable.current_mask.sum().item()  # type: ignore
+    return mutable.current_choice
+
+
+def _current_ratio(ratio: Union[int, float, BaseMutable]) -> Any:
+    """Helper function to get the current value of a ratio, which can be a
+    mutable."""
+    return ratio.current_choice if isinstance(ratio, BaseMutable) else ratio
+
+
+def _expand_choice_fn(
+        mutable: MutableProtocol,
+        expand_ratio: Union[int, float, BaseMutable]) -> Callable:
     """Helper function to build `choice_fn` for expand derived mutable."""
 
     def fn():
-        return int(mutable.current_choice * expand_ratio)
+        return int(_current_num(mutable) * _current_ratio(expand_ratio))
 
     return fn
 
 
 def _expand_mask_fn(
-        mutable: MutableProtocol,
-        expand_ratio: Union[int, float]) -> Callable:  # pragma: no cover
+    mutable: MutableProtocol, expand_ratio: Union[int, float, BaseMutable]
+) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for expand derived mutable."""
     if not hasattr(mutable, 'current_mask'):
         raise ValueError('mutable must have attribute `currnet_mask`')
 
     def fn():
         mask = mutable.current_mask
-        if isinstance(expand_ratio, int):
-            expand_num_channels = mask.size(0) * expand_ratio
-            expand_choice = mutable.current_choice * expand_ratio
-        elif isinstance(expand_ratio, float):
+        if isinstance(expand_ratio, (int, float)):
             expand_num_channels = int(mask.size(0) * expand_ratio)
-            expand_choice = int(mutable.current_choice * expand_ratio)
+        elif isinstance(expand_ratio, BaseMutable):
+            expand_num_channels = int(
+                mask.size(0) * max(expand_ratio.choices))  # type: ignore
         else:
             raise NotImplementedError(
                 f'Not support type of expand_ratio: {type(expand_ratio)}')
+        expand_choice = int(
+            _current_num(mutable) * _current_ratio(expand_ratio))
         expand_mask = torch.zeros(expand_num_channels).bool()
         expand_mask[:expand_choice] = True
 
@@ -86,18 +102,19 @@ def _divide_and_divise(x: int, ratio: int, divisor: int = 8) -> int:
 
 
 def _divide_choice_fn(mutable: MutableProtocol,
-                      ratio: int,
+                      ratio: Union[int, BaseMutable],
                       divisor: int = 8) -> Callable:
     """Helper function to build `choice_fn` for divide derived mutable."""
 
     def fn():
-        return _divide_and_divise(mutable.current_choice, ratio, divisor)
+        return _divide_and_divise(
+            _current_num(mutable), int(_current_ratio(ratio)), divisor)
 
     return fn
 
 
 def _divide_mask_fn(mutable: MutableProtocol,
-                    ratio: int,
+                    ratio: Union[int, BaseMutable],
                     divisor: int = 8) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for divide derived mutable."""
     if not hasattr(mutable, 'current_mask'):
@@ -105,9 +122,12 @@ def _divide_mask_fn(mutable: MutableProtocol,
 
     def fn():
         mask = mutable.current_mask
-        divide_num_channels = _divide_and_divise(mask.size(0), ratio, divisor)
-        divide_choice = _divide_and_divise(mutable.current_choice, ratio,
-                                           divisor)
+        min_ratio = min(ratio.choices) if isinstance(  # type: ignore
+            ratio, BaseMutable) else ratio
+        divide_num_channels = _divide_and_divise(
+            mask.size(0), int(min_ratio), divisor)
+        divide_choice = _divide_and_divise(
+            _current_num(mutable), int(_current_ratio(ratio)), divisor)
         divide_mask = torch.zeros(divide_num_channels).bool()
         divide_mask[:divide_choice] = True
 
@@ -120,7 +140,7 @@ def _concat_choice_fn(mutables: Iterable[MutableChannelProtocol]) -> Callable:
     """Helper function to build `choice_fn` for concat derived mutable."""
 
     def fn():
-        return sum((m.current_choice for m in mutables))
+        return sum((_current_num(m) for m in mutables))
 
     return fn
 
@@ -151,8 +171,7 @@ class DerivedMethodMixin:
         elif isinstance(expand_ratio, float):
             choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
         elif isinstance(expand_ratio, BaseMutable):
-            current_ratio = expand_ratio.current_choice
-            choice_fn = _expand_choice_fn(self, expand_ratio=current_ratio)
+            choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(expand_ratio)}')
@@ -164,7 +183,7 @@ class DerivedMethodMixin:
             elif isinstance(expand_ratio, float):
                 mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
             elif isinstance(expand_ratio, BaseMutable):
-                mask_fn = _expand_mask_fn(self, expand_ratio=current_ratio)
+                mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
             else:
                 raise NotImplementedError(
                     f'Not support type of ratio: {type(expand_ratio)}')
@@ -183,10 +202,12 @@ class DerivedMethodMixin:
             current_ratio = ratio
         elif isinstance(ratio, float):
             current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         elif isinstance(ratio, BaseMutable):
-            current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
+            current_ratio = ratio
+            choice_fn = _divide_choice_fn(
+                self, ratio=current_ratio, divisor=divisor)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index 2ede4ff..e88537a 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -4,7 +4,7 @@ from typing import Callable, Union
 import torch
 
 from mmrazor.registry import MODELS
-from ..derived_mutable import DerivedMutable
+from ..derived_mutable import DerivedMutable, _current_num
 from .simple_mutable_channel import SimpleMutableChannel
 
 # TODO discuss later
@@ -83,7 +83,8 @@ class SquentialMutableChannel(SimpleMutableChannel):
                              mutable2: OneShotMutableValue) -> Callable:
 
             def fn():
-                return int(mutable1.current_choice * mutable2.current_choice)
+                return int(
+                    _current_num(mutable1) * mutable2.current_choice)
 
             return fn
 
@@ -96,8 +97,8 @@ class SquentialMutableChannel(SimpleMutableChannel):
                 current_expand_ratio = mutable2.current_choice
                 expand_num_channels = int(mask.size(0) * max_expand_ratio)
 
-                expand_choice = int(mutable1.current_choice *
-                                    current_expand_ratio)
+                expand_choice = int(
+                    _current_num(mutable1) * current_expand_ratio)
                 expand_mask = torch.zeros(expand_num_channels).bool()
                 expand_mask[:expand_choice] = True
 
@@ -123,8 +124,7 @@ class SquentialMutableChannel(SimpleMutableChannel):
 
         from ..mutable_value import OneShotMutableValue
         if isinstance(other, OneShotMutableValue):
-            ratio = other.current_choice
-            return self.derive_divide_mutable(ratio)
+            return self.derive_divide_mutable(other)
 
         raise TypeError(f'Unsupported type {type(other)} for div!')
 
@@ -140,4 +140,5 @@ class SquentialMutableChannel(SimpleMutableChannel):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # `n * (k / n)` may be slightly less than `k`
+            return max(1, int(self.num_channels * choice + 1e-6))
-- 
2.43.0


From 89eb554ecde255a427cc5c7f679bd79b310636a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:53 +0000
Subject: [PATCH 13/55] fix: keep the configured choice when a one-shot channel
 unit is prepared

---
 .../mutable_channel/units/one_shot_mutable_channel_unit.py    | 4 +++-
 .../mutables/mutable_channel/units/slimmable_channel_unit.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
index 220d49b..48e1675 100644
--- a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
@@ -66,7 +66,9 @@ class OneShotMutableChannelUnit(SequentialMutableChannelUnit):
         """Prepare for pruning."""
         if not self.unit_predefined:
             super().prepare_for_pruning(model)
-        self.current_choice = self.max_choice
+        # a unit from a config may have a choice already
+        if self.current_choice not in self.candidate_choices:
+            self.current_choice = self.max_choice
 
     # ~
 
diff --git a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
index a51dce8..65d8c90 100644
--- a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
@@ -56,4 +56,6 @@ class SlimmableChannelUnit(OneShotMutableChannelUnit):
             if isinstance(channel.module, dynamic_ops.SwitchableBatchNorm2d) \
                     and len(channel.module.candidate_bn) == 0:
                 channel.module.init_candidates(candidates)
-        self.current_choice = self.max_choice
+        # a unit from a config may have a choice already
+        if self.current_choice not in self.candidate_choices:
+            self.current_choice = self.max_choice
-- 
2.43.0


From 09a377efa4f7cdc05c6989097f2070088f381339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:53 +0000
Subject: [PATCH 14/55] fix: load and slice every part of an exported subnet

Nested dynamic ops stayed dynamic, converted ops forgot eval mode, prefixes
were stripped as character sets, sources of derived mutables were loaded under
the name of the derived one, and weights were lost in mutator mode.
---
 mmrazor/structures/subnet/fix_subnet.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..de1334b 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -17,7 +17,13 @@ def _dynamic_to_static(model: nn.Module) -> None:
     def traverse_children(module: nn.Module) -> None:
         for name, mutable in module.items():
             if isinstance(mutable, DynamicMixin):
-                module[name] = mutable.to_static_op()
+                dynamic_modules = list(mutable.modules())
+                mutable = mutable.to_static_op()
+                # the static op is in the same mode as the dynamic op
+                for m in mutable.modules():
+                    if m not in dynamic_modules:
+                        m.training = dynamic_modules[0].training
+                module[name] = mutable
             if hasattr(mutable, '_modules'):
                 traverse_children(mutable._modules)
 
@@ -78,7 +84,8 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             chosen = subnet_dict.get(alias, None)
         else:
             if prefix:
-                mutable_name = name.lstrip(prefix)
+                mutable_name = name[len(prefix):] if name.startswith(
+                    prefix) else name
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
@@ -96,6 +103,7 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
         if not module.is_fixed:
             module.fix_chosen(chosen.chosen)
 
+    modules = set(model.modules())
     for name, module in model.named_modules():
         # The format of `chosen`` is different for each type of mutable.
         # In the corresponding mutable, it will check whether the `chosen`
@@ -106,7 +114,9 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
         if isinstance(module, BaseMutable):
             if isinstance(module, DerivedMutable):
                 for source_mutable in module.source_mutables:
-                    load_fix_module(source_mutable)
+                    # the other sources have a name of their own
+                    if source_mutable not in modules:
+                        load_fix_module(source_mutable)
             else:
                 load_fix_module(module)
 
@@ -118,7 +128,10 @@ def _load_fix_subnet_by_mutator(model: nn.Module, mutator_cfg: Dict) -> None:
                          f'{mutator_cfg}')
     mutator = MODELS.build(mutator_cfg)
     mutator.parse_cfg['from_cfg'] = True
+    # the dynamic ops made by the mutator do not have the weights of the model
+    state_dict = model.state_dict()
     mutator.prepare_from_supernet(model)
+    model.load_state_dict(state_dict, strict=False)
 
 
 def export_fix_subnet(
-- 
2.43.0


From 3bc41c004c6e4a82f378ca0c1a5ce370eb9b2ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 15/55] fix: restart every loader of an alternating search loop

The iter-based loop restarted into a misspelt attribute, so it went on
with the exhausted iterators; the epoch-based loop never told the sampler
of the second loader its epoch.
---
 mmrazor/engine/runner/darts_loop.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..3850d10 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -54,6 +54,10 @@ class DartsEpochBasedTrainLoop(EpochBasedTrainLoop):
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
+        # `DistSamplerSeedHook` only knows `dataloader`
+        if hasattr(self.mutator_dataloader.sampler, 'set_epoch'):
+            self.mutator_dataloader.sampler.set_epoch(self._epoch)
+
         for idx, data_batch in enumerate(EpochMultiLoader(self.multi_loaders)):
             self.run_iter(idx, data_batch)
 
@@ -171,7 +175,7 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From 4da513f4b1ce79cb88dd1b914e1494de22ff2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 16/55] fix: train each greedily sampled subnet once, in train
 mode

The popped candidate was never removed from the top-k queue, so the pool
was validated once and its best subnet trained for ever; validating the
pool left the model in eval mode; the probability schedules ignored
init_prob or max_prob or ran backwards.
---
 mmrazor/engine/runner/subnet_sampler_loop.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..58a737c 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -201,6 +201,16 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
         self.runner.call_hook('after_train_epoch')
         self.runner.call_hook('after_train')
 
+    def run_iter(self, data_batch: Sequence[dict]) -> None:
+        """Iterate one mini-batch with the next of the `top_k_candidates`.
+
+        Args:
+            data_batch (Sequence[dict]): Batch of data from dataloader.
+        """
+        super().run_iter(data_batch)
+        if len(self.top_k_candidates) > 0:
+            self.top_k_candidates.pop(0)
+
     def sample_subnet(self) -> SupportRandomSubnet:
         """Sample a subnet from top_k candidates one by one, then to train the
         surpernet with the subnet.
@@ -227,6 +237,8 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             self.candidates.extend(sampled_candidates)
 
             self.update_candidates_scores()
+            # the candidates are validated in the middle of a training iter
+            self.runner.model.train()
 
             self.candidates.sort_by(key_indicator='score', reverse=True)
             self.candidates = Candidates(
@@ -258,12 +270,13 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             schedule_cur_steps = cur_iter - self.schedule_start_iter
             if self.prob_schedule == 'linear':
                 tmp = self.max_prob - self.init_prob
-                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps
+                self.cur_prob = tmp / schedule_all_steps * \
+                    schedule_cur_steps + self.init_prob
             elif self.prob_schedule == 'consine':
-                tmp_1 = (1 - self.init_prob) * 0.5
+                tmp_1 = (self.max_prob - self.init_prob) * 0.5
                 tmp_2 = math.pi * schedule_cur_steps
                 tmp_3 = schedule_all_steps
-                self.cur_prob = tmp_1 * (1 + math.cos(tmp_2 / tmp_3)) \
+                self.cur_prob = tmp_1 * (1 - math.cos(tmp_2 / tmp_3)) \
                     + self.init_prob
             else:
                 raise ValueError('`prob_schedule` is eroor, it should be \
-- 
2.43.0


From 25cf812d1f872cef0b959d0988f31ace24136d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 17/55] fix: calibrate batch norms on exactly the requested
 samples

Batches are dicts, of which the number of keys was compared with the
remaining samples and a slice was taken; ranks with batches of different
size ended with different statistics; statistics of layers with arbitrary
masks, of 1d layers and of switchable layers went to the wrong place or
failed; hooks and meters stayed behind when a forward pass failed.
---
 .../engine/runner/utils/calibrate_bn_mixin.py | 178 +++++++++++-------
 1 file changed, 108 insertions(+), 70 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..f7373c7 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+import math
 from typing import Any
 
 import torch
@@ -8,6 +9,10 @@ from torch import Tensor
 from torch.nn.modules.batchnorm import _BatchNorm
 from torch.utils.data import DataLoader
 
+from mmrazor.models.architectures.dynamic_ops import SwitchableBatchNorm2d
+from mmrazor.models.architectures.dynamic_ops.mixins import \
+    DynamicBatchNormMixin
+
 
 class AverageMeter:
     """Computes and stores the average and current value."""
@@ -22,13 +27,15 @@ class AverageMeter:
 
     def update(self, val: Any, batch_size: int = 1) -> None:
         if dist.is_initialized() and dist.is_available():
+            # the batches of the ranks may differ in size
+            val = val * batch_size
             dist.all_reduce(val, dist.ReduceOp.SUM, async_op=False)
             batch_size_tensor = torch.tensor([batch_size], device=val.device)
             dist.all_reduce(
                 batch_size_tensor, dist.ReduceOp.SUM, async_op=False)
             total_batch_size = batch_size_tensor.item()
 
-            val /= (total_batch_size / batch_size)
+            val /= total_batch_size
             batch_size = total_batch_size
 
         self.sum += val * batch_size
@@ -36,6 +43,21 @@ class AverageMeter:
         self.avg = self.sum / self.count
 
 
+def _batch_size(data_batch: Any) -> int:
+    """The number of samples in a batch."""
+    if isinstance(data_batch, dict):
+        return _batch_size(data_batch['inputs'] if 'inputs' in
+                           data_batch else next(iter(data_batch.values())))
+    return len(data_batch)
+
+
+def _head_of_batch(data_batch: Any, num: int) -> Any:
+    """The first ``num`` samples of a batch."""
+    if isinstance(data_batch, dict):
+        return {k: _head_of_batch(v, num) for k, v in data_batch.items()}
+    return data_batch[:num]
+
+
 class CalibrateBNMixin:
     runner: Runner
     fp16: bool = False
@@ -50,9 +72,16 @@ class CalibrateBNMixin:
             mean_average_meter: AverageMeter = bn_module.__mean_average_meter__
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
+            if isinstance(bn_module, SwitchableBatchNorm2d) and \
+                    bn_module.activated_channel_num() != \
+                    bn_module.num_features:
+                # one of its candidates has normalized the input
+                return
+
             real_input = input[0]
-            mean = real_input.mean((0, 2, 3))
-            var = real_input.var((0, 2, 3), unbiased=True)
+            dims = [d for d in range(real_input.dim()) if d != 1]
+            mean = real_input.mean(dims)
+            var = real_input.var(dims, unbiased=True)
 
             mean_average_meter.update(mean, real_input.size(0))
             var_average_meter.update(var, real_input.size(0))
@@ -60,7 +89,7 @@ class CalibrateBNMixin:
         hook_handles = []
 
         for name, module in self.runner.model.named_modules():
-            if isinstance(module, _BatchNorm):
+            if isinstance(module, _BatchNorm) and module.track_running_stats:
                 self.runner.logger.debug(
                     'register `record_input_statistics_hook` to module: '
                     f'{name}')
@@ -70,72 +99,81 @@ class CalibrateBNMixin:
                     record_input_statistics_hook)
                 hook_handles.append(handle)
 
-        self.runner.model.train()
-        self.runner.logger.info('Start calibrating batch norm statistics')
-        self.runner.logger.info(
-            f'Total sample number for calibration: {calibrate_sample_num}')
-        remaining = calibrate_sample_num
-        for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
-            if isinstance(data_batch, torch.Tensor):
-                data_batch_nums = len(data_batch)
-            else:
-                data_batch_nums = len(data_batch['inputs'])
-            if dist.is_initialized() and dist.is_available():
-                data_batch_tensor = torch.tensor(
-                    [data_batch_nums], device=self.runner.model.device)
-                dist.all_reduce(
-                    data_batch_tensor, dist.ReduceOp.SUM, async_op=False)
-                data_batch_nums = data_batch_tensor.item()
-            remaining -= data_batch_nums
-
-            self.runner.logger.debug(
-                f'Remaining samples for calibration: {remaining}')
-            with autocast(enabled=self.fp16):
-                self.runner.model.test_step(data_batch)
-
-            if remaining <= 0:
-                break
-
-        for name, module in self.runner.model.named_modules():
-            if isinstance(module, _BatchNorm):
-                mean_average_meter = module.__mean_average_meter__
-                var_average_meter = module.__var_average_meter__
-                if mean_average_meter.count == 0 or \
-                        var_average_meter.count == 0:
-                    assert mean_average_meter.count == 0 and \
-                        var_average_meter.count == 0
-                    self.runner.logger.debug(
-                        f'layer {name} is not chosen, ignored')
-                    continue
-
-                calibrated_bn_mean = mean_average_meter.avg
-                calibrated_bn_var = var_average_meter.avg
-
-                feature_dim = calibrated_bn_mean.size(0)
+        try:
+            self.runner.model.train()
+            self.runner.logger.info('Start calibrating batch norm statistics')
+            self.runner.logger.info(
+                f'Total sample number for calibration: {calibrate_sample_num}')
+            remaining = calibrate_sample_num
+            for data_batch in dataloader:
+                # the share of each rank in what remains
+                share = remaining
+                if dist.is_initialized() and dist.is_available():
+                    share = math.ceil(remaining / dist.get_world_size())
+                data_batch_nums = _batch_size(data_batch)
+                if data_batch_nums > share:
+                    data_batch = _head_of_batch(data_batch, share)
+                    data_batch_nums = share
+                if dist.is_initialized() and dist.is_available():
+                    data_batch_tensor = torch.tensor(
+                        [data_batch_nums], device=self.runner.model.device)
+                    dist.all_reduce(
+                        data_batch_tensor, dist.ReduceOp.SUM, async_op=False)
+                    data_batch_nums = data_batch_tensor.item()
+                remaining -= data_batch_nums
 
                 self.runner.logger.debug(
-                    f'layer: {name}, '
-                    f'current feature dimension: {feature_dim}, '
-                    'number of samples for calibration: '
-                    f'{mean_average_meter.count}, '
-                    'l2 norm of calibrated running mean: '
-                    f'{calibrated_bn_mean.norm()}, '
-                    'l2 norm of calibrated running var: '
-                    f'{calibrated_bn_var.norm()}, '
-                    'l2 norm of original running mean: '
-                    f'{module.running_mean[:feature_dim].norm()}, '
-                    'l2 norm of original running var: '
-                    f'{module.running_var[:feature_dim].norm()}, ')
-
-                module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
-                module.running_var[:feature_dim].copy_(calibrated_bn_var)
-
-                del module.__mean_average_meter__
-                del module.__var_average_meter__
-
-        self.runner.logger.debug('Remove all hooks for calibration')
+                    f'Remaining samples for calibration: {remaining}')
+                with autocast(enabled=self.fp16):
+                    self.runner.model.test_step(data_batch)
+
+                if remaining <= 0:
+                    break
+
+            for name, module in self.runner.model.named_modules():
+                if hasattr(module, '__mean_average_meter__'):
+                    mean_average_meter = module.__mean_average_meter__
+                    var_average_meter = module.__var_average_meter__
+                    if mean_average_meter.count == 0 or \
+                            var_average_meter.count == 0:
+                        assert mean_average_meter.count == 0 and \
+                            var_average_meter.count == 0
+                        self.runner.logger.debug(
+                            f'layer {name} is not chosen, ignored')
+                        continue
+
+                    calibrated_bn_mean = mean_average_meter.avg
+                    calibrated_bn_var = var_average_meter.avg
+
+                    feature_dim = calibrated_bn_mean.size(0)
+                    if isinstance(module, DynamicBatchNormMixin):
+                        mask = module._get_num_features_mask()
+                    else:
+                        mask = torch.ones_like(
+                            module.running_mean, dtype=torch.bool)
+
+                    self.runner.logger.debug(
+                        f'layer: {name}, '
+                        f'current feature dimension: {feature_dim}, '
+                        'number of samples for calibration: '
+                        f'{mean_average_meter.count}, '
+                        'l2 norm of calibrated running mean: '
+                        f'{calibrated_bn_mean.norm()}, '
+                        'l2 norm of calibrated running var: '
+                        f'{calibrated_bn_var.norm()}, '
+                        'l2 norm of original running mean: '
+                        f'{module.running_mean[mask].norm()}, '
+                        'l2 norm of original running var: '
+                        f'{module.running_var[mask].norm()}, ')
+
+                    module.running_mean.masked_scatter_(mask, calibrated_bn_mean)
+                    module.running_var.masked_scatter_(mask, calibrated_bn_var)
+        finally:
+            self.runner.logger.debug('Remove all hooks for calibration')
+            for handle in hook_handles:
+                handle.remove()
+            for module in self.runner.model.modules():
+                if hasattr(module, '__mean_average_meter__'):
+                    del module.__mean_average_meter__
+                    del module.__var_average_meter__
         self.runner.logger.info('Calibrate batch norm statistics done')
-        for handle in hook_handles:
-            handle.remove()
-- 
2.43.0


From b1b0b191f2e709e21acae4ec9b46b63cc7dad7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:59 +0000
Subject: [PATCH 18/55] fix: resume iterative pruning on its original schedule

---
 mmrazor/models/algorithms/pruning/dcff.py     |  5 +++--
 .../algorithms/pruning/ite_prune_algorithm.py | 20 +++++++++++++++++--
 .../units/sequential_mutable_channel_unit.py  |  8 ++++++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dcff.py b/mmrazor/models/algorithms/pruning/dcff.py
index e89da50..8409c1c 100644
--- a/mmrazor/models/algorithms/pruning/dcff.py
+++ b/mmrazor/models/algorithms/pruning/dcff.py
@@ -89,8 +89,9 @@ class DCFF(ItePruneAlgorithm):
 
         In DCFF, prune_times is set by step_freq and self._max_iters.
         """
+        supernet = self._get_supernet_choices()
         if self.target_pruning_ratio is None:
-            target_pruning_ratio = self.mutator.current_choices
+            target_pruning_ratio = supernet
         else:
             target_pruning_ratio = self.set_target_pruning_ratio(
                 self.target_pruning_ratio, self.mutator.mutable_units)
@@ -113,7 +114,7 @@ class DCFF(ItePruneAlgorithm):
         # message_hub['max_epoch'] unaccessible when init
         prune_config_manager = ItePruneConfigManager(
             target_pruning_ratio,
-            self.mutator.current_choices,
+            supernet,
             self.step_freq,
             prune_times=self.prune_times,
             linear_schedule=self.linear_schedule)
diff --git a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
index 937aaa1..d41ff4c 100644
--- a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
+++ b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
@@ -160,13 +160,29 @@ class ItePruneAlgorithm(BaseAlgorithm):
         for value in config.values():
             assert isinstance(value, int) or isinstance(value, float)
 
+    def _get_supernet_choices(self) -> Dict[str, Union[int, float]]:
+        """Get the choices the pruning schedule starts from.
+
+        A resumed model is already pruned, so that they are kept in the
+        message hub, which is saved in checkpoints.
+        """
+        current_choices = self.mutator.current_choices
+        message_hub = MessageHub.get_current_instance()
+        if self._iter > 0 and 'prune_supernet' in message_hub.runtime_info:
+            supernet = message_hub.get_info('prune_supernet')
+            if supernet.keys() == current_choices.keys():
+                return supernet
+        message_hub.update_info('prune_supernet', current_choices)
+        return current_choices
+
     def _init_prune_config_manager(self):
         """init prune_config_manager and check step_freq & prune_times.
 
         message_hub['max_epoch/iter'] unaccessible when initiation.
         """
+        supernet = self._get_supernet_choices()
         if self.target_pruning_ratio is None:
-            target_pruning_ratio = self.mutator.current_choices
+            target_pruning_ratio = supernet
         else:
             target_pruning_ratio = self.set_target_pruning_ratio(
                 self.target_pruning_ratio, self.mutator.mutable_units)
@@ -179,7 +195,7 @@ class ItePruneAlgorithm(BaseAlgorithm):
         # message_hub['max_epoch'] unaccessible when init
         prune_config_manager = ItePruneConfigManager(
             target_pruning_ratio,
-            self.mutator.current_choices,
+            supernet,
             self.step_freq,
             prune_times=self.prune_times,
             linear_schedule=self.linear_schedule)
diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index 170d07e..620213b 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -134,8 +134,12 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
     def _make_divisible(self, choice_int: int):
         """Make the choice divisible."""
         from mmrazor.models.utils import make_divisible
-        return make_divisible(choice_int, self.divisor, self.min_value,
-                              self.min_ratio)
+        if choice_int == self.num_channels:
+            # a unit that is not pruned keeps all its channels
+            return choice_int
+        choice = make_divisible(choice_int, self.divisor, self.min_value,
+                                self.min_ratio)
+        return min(choice, self.num_channels)
 
     def _num2ratio(self, choice: Union[int, float]) -> float:
         """Convert the a number choice to a ratio choice."""
-- 
2.43.0


From 38eb19a42177e00292716e59b4848012b9ea013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 19/55] fix: drop the Fisher records of a failed train step

---
 mmrazor/implementations/pruning/group_fisher/algorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/implementations/pruning/group_fisher/algorithm.py b/mmrazor/implementations/pruning/group_fisher/algorithm.py
index a90b406..72ba1ac 100644
--- a/mmrazor/implementations/pruning/group_fisher/algorithm.py
+++ b/mmrazor/implementations/pruning/group_fisher/algorithm.py
@@ -62,6 +62,8 @@ class GroupFisherAlgorithm(BaseAlgorithm):
 
     def _train_step(self, data: Union[dict, tuple, list], optim_wrapper):
         """Train step function for GroupFisherAlgorithm and GroupFisherDDP."""
+        # a train step that failed may have left its records
+        self.mutator.reset_recorded_info()
         self.mutator.start_record_info()
         res = super().train_step(data, optim_wrapper)
         self.mutator.end_record_info()
-- 
2.43.0


From a51ca69fe2a74e5e2657891f4bc94ada0e6eeb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 20/55] fix: take the Fisher information of a unit from its own
 channels

---
 .../pruning/group_fisher/unit.py               | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 1c9128b..df994e1 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -154,8 +154,11 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         """Accumulate the unit's fisher info of this batch."""
         with torch.no_grad():
             fisher: torch.Tensor = 0
-            for module in self.input_related_dynamic_ops:
-                fisher = fisher + self._fisher_of_a_module(module)
+            for channel in self.input_related:
+                if isinstance(channel.module, GroupFisherMixin):
+                    module_fisher = self._fisher_of_a_module(channel.module)
+                    fisher = fisher + module_fisher[:, channel.start:channel.
+                                                    end]
             return (fisher**2).sum(0)  # shape: [C]
 
     @torch.no_grad()
@@ -166,7 +169,8 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
             module (GroupFisherConv2d): A `GroupFisherConv2d` module.
 
         Return:
-            torch.Tensor: Whose shape is [B C]
+            torch.Tensor: Whose shape is [B C], where C is the number of
+                all input channels of the module.
         """
         assert len(module.recorded_input) > 0 and \
             len(module.recorded_input) == len(module.recorded_grad)
@@ -179,11 +183,11 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
             assert len(fisher.shape) == 2  # B C
             fisher_sum = fisher_sum + fisher
         assert isinstance(fisher_sum, torch.Tensor)
-        # expand to full num_channel
+        # expand to all input channels of the module
         batch_size = fisher_sum.shape[0]
-        mask = self.mutable_channel.current_mask.unsqueeze(0).expand(
-            [batch_size, self.num_channels])
-        zeros = fisher_sum.new_zeros([batch_size, self.num_channels])
+        mask = module.mutable_attrs['in_channels'].current_mask
+        zeros = fisher_sum.new_zeros([batch_size, len(mask)])
+        mask = mask.unsqueeze(0).expand_as(zeros)
         fisher_sum = zeros.masked_scatter_(mask, fisher_sum)
         return fisher_sum
 
-- 
2.43.0


From 3f1ccf74607504f8b2ac8de5e3a8093d4cfc9fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 21/55] fix: synchronize the gradients of distributed Fisher
 pruning

---
 .../pruning/group_fisher/algorithm.py         | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/algorithm.py b/mmrazor/implementations/pruning/group_fisher/algorithm.py
index 72ba1ac..7bfe586 100644
--- a/mmrazor/implementations/pruning/group_fisher/algorithm.py
+++ b/mmrazor/implementations/pruning/group_fisher/algorithm.py
@@ -1,5 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import Dict, Optional, Union
+from typing import Callable, Dict, Optional, Union
 
 import torch
 import torch.distributed as dist
@@ -58,14 +58,19 @@ class GroupFisherAlgorithm(BaseAlgorithm):
 
     def train_step(self, data: Union[dict, tuple, list],
                    optim_wrapper) -> Dict[str, torch.Tensor]:
-        return self._train_step(data, optim_wrapper)
+        return self._train_step(super().train_step, data, optim_wrapper)
 
-    def _train_step(self, data: Union[dict, tuple, list], optim_wrapper):
-        """Train step function for GroupFisherAlgorithm and GroupFisherDDP."""
+    def _train_step(self, train_step: Callable,
+                    data: Union[dict, tuple, list], optim_wrapper):
+        """Train step function for GroupFisherAlgorithm and GroupFisherDDP.
+
+        ``train_step`` is the train step of the model or of its wrapper, which
+        synchronizes the gradients.
+        """
         # a train step that failed may have left its records
         self.mutator.reset_recorded_info()
         self.mutator.start_record_info()
-        res = super().train_step(data, optim_wrapper)
+        res = train_step(data, optim_wrapper)
         self.mutator.end_record_info()
 
         self.mutator.update_imp()
@@ -84,5 +89,5 @@ class GroupFisherDDP(MMDistributedDataParallel):
 
     def train_step(self, data: Union[dict, tuple, list],
                    optim_wrapper) -> Dict[str, torch.Tensor]:
-        algorithm = self.module
-        return GroupFisherAlgorithm._train_step(algorithm, data, optim_wrapper)
+        algorithm: GroupFisherAlgorithm = self.module
+        return algorithm._train_step(super().train_step, data, optim_wrapper)
-- 
2.43.0


From 21399e1cc94a1d78eefe624be94342d4cb396232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 22/55] fix: prune the least important channel whatever its
 importance

---
 mmrazor/implementations/pruning/group_fisher/mutator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/mutator.py b/mmrazor/implementations/pruning/group_fisher/mutator.py
index d9e521a..b7b7ff3 100644
--- a/mmrazor/implementations/pruning/group_fisher/mutator.py
+++ b/mmrazor/implementations/pruning/group_fisher/mutator.py
@@ -56,7 +56,7 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
     def try_prune(self) -> None:
         """Prune the channel with the minimum fisher unless it is the last
         channel of the current layer."""
-        min_imp = 1e5
+        min_imp = float('inf')
         min_unit = self.mutable_units[0]
         for unit in self.mutable_units:
             if unit.mutable_channel.activated_channels > 1:
-- 
2.43.0


From 7d45f1c1d07702bce5549912df2f156cfeaaca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 23/55] fix: keep threshold checkpoints of the first model,
 also when resumed

---
 .../pruning/group_fisher/hook.py              | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/hook.py b/mmrazor/implementations/pruning/group_fisher/hook.py
index 524503d..aa92b37 100644
--- a/mmrazor/implementations/pruning/group_fisher/hook.py
+++ b/mmrazor/implementations/pruning/group_fisher/hook.py
@@ -139,6 +139,17 @@ class ResourceInfoHook(Hook):
 
         self.origin_delta = original_resource[self.resource_type]
 
+    def before_train(self, runner) -> None:
+        """Do not save the checkpoints again that were saved before."""
+        key = f'{self.resource_type}_saved_thr'
+        saved = runner.message_hub.runtime_info.get(key, [])
+        if runner.iter > 0:
+            self.save_ckpt_thr = [
+                thr for thr in self.save_ckpt_thr if thr not in saved
+            ]
+        else:
+            runner.message_hub.update_info(key, [])
+
     # save checkpoint
 
     def after_train_iter(self,
@@ -152,9 +163,11 @@ class ResourceInfoHook(Hook):
             model = get_model_from_runner(runner)
             current_delta = self._evaluate(model)[self.resource_type]
             percent = current_delta / self.origin_delta
-            if percent < self.save_ckpt_thr[0]:
-                self._save_checkpoint(model, runner.work_dir,
-                                      self.save_ckpt_thr.pop(0))
+            while len(self.save_ckpt_thr) > 0 and \
+                    percent < self.save_ckpt_thr[0]:
+                thr = self.save_ckpt_thr.pop(0)
+                self._save_checkpoint(model, runner.work_dir, thr)
+                self._record_saved(runner, thr)
         if self.early_stop and len(self.save_ckpt_thr) == 0:
             exit()
 
@@ -187,6 +200,12 @@ class ResourceInfoHook(Hook):
                 model.train()
             return res
 
+    def _record_saved(self, runner, thr):
+        """Record a threshold in the message hub, which is resumed."""
+        key = f'{self.resource_type}_saved_thr'
+        saved = runner.message_hub.runtime_info.get(key, [])
+        runner.message_hub.update_info(key, saved + [thr])
+
     @master_only
     def _save_checkpoint(self, model, path, delta_percent):
         """Save the checkpoint  of a model."""
-- 
2.43.0


From 54df6ce6672d79052a5a5a05071135bc58dc79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 24/55] fix: ranks with images of different sizes prune the
 same channel

---
 mmrazor/implementations/pruning/group_fisher/unit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index df994e1..25a2dc8 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -143,10 +143,11 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
 
         batch_fisher_sum = self.current_batch_fisher
         assert isinstance(batch_fisher_sum, torch.Tensor)
-        if dist.is_initialized():
-            dist.all_reduce(batch_fisher_sum)
+        # the normalizer depends on the size of the images of this rank
         batch_fisher_sum = self._get_normalized_fisher_info(
             batch_fisher_sum, self.delta_type)
+        if dist.is_initialized():
+            dist.all_reduce(batch_fisher_sum)
         self.normalized_fisher_info = self.normalized_fisher_info + batch_fisher_sum  # noqa
 
     @property
-- 
2.43.0


From 9bc668555619dd12c69fede199c2bbf146cffe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 25/55] fix: build quantized models with the torch 2 keyword of
 _fuse_fx

---
 mmrazor/models/quantizers/academic_quantizer.py | 2 +-
 mmrazor/models/quantizers/native_quantizer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/academic_quantizer.py b/mmrazor/models/quantizers/academic_quantizer.py
index 0dbe6dc..12ffca7 100644
--- a/mmrazor/models/quantizers/academic_quantizer.py
+++ b/mmrazor/models/quantizers/academic_quantizer.py
@@ -109,7 +109,7 @@ class AcademicQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,
             is_qat=True,
             fuse_custom_config=fuse_custom_config)
         prepared = prepare(
diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 7b6f2f9..67942da 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -236,7 +236,7 @@ class TorchNativeQuantizer(BaseQuantizer):
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
-            graph_module=graph_module,
+            graph_module,
             is_qat=True,
             backend_config=self.backend_config)
         prepared = prepare(
-- 
2.43.0


From 50ae9e04dce4b6a1720a55ce948e3e2900e01087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 26/55] fix: do not estimate learned scales again when training
 is resumed

---
 mmrazor/engine/runner/quantization_loops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 58d91cf..9ef09a0 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -185,6 +185,9 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
+        # The scales of a resumed training are learned already.
+        self.is_first_batch = self.is_first_batch and self._iter == 0
+
         for idx, data_batch in enumerate(self.dataloader):
             if self.is_first_batch:
                 # lsq observer init
-- 
2.43.0


From b685cee65c4b4d0be01fdff6a6f271bf086607e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 27/55] fix: return the metrics of the quantized model from
 validation

---
 mmrazor/engine/runner/quantization_loops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 9ef09a0..02b47e8 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -275,17 +275,17 @@ class QATValLoop(ValLoop):
 
         # compute metrics
         metrics = self.evaluator.evaluate(len(self.dataloader.dataset))
-        qat_metrics = dict()
+        ori_metrics = dict()
         for key, value in metrics.items():
             qat_key = 'qat.' + key
             ori_key = 'original.' + key
-            qat_metrics[ori_key] = value
+            ori_metrics[ori_key] = value
             self.runner.message_hub.log_scalars.pop(f'val/{qat_key}', None)
 
-        self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
+        self.runner.call_hook('after_val_epoch', metrics=ori_metrics)
 
         self.runner.call_hook('after_val')
-        return qat_metrics
+        return {**qat_metrics, **ori_metrics}
 
     @torch.no_grad()
     def run_iter(self, idx, data_batch: Sequence[dict], model):
-- 
2.43.0


From c2ce2ce4b27abe60ff42007b97fe9669cdb589d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 28/55] fix: forget the dummy input in histogram observers

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index ce6d926..e855dc4 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -16,13 +16,15 @@ from mmrazor.structures.quantization import QConfigHandler
 from ..base import BaseAlgorithm, BaseModel
 
 try:
-    from torch.ao.quantization import (FakeQuantizeBase, MinMaxObserver,
+    from torch.ao.quantization import (FakeQuantizeBase, HistogramObserver,
+                                       MinMaxObserver,
                                        PerChannelMinMaxObserver,
                                        disable_observer)
 except ImportError:
     from mmrazor.utils import get_placeholder
 
     FakeQuantizeBase = get_placeholder('torch>=1.13')
+    HistogramObserver = get_placeholder('torch>=1.13')
     MinMaxObserver = get_placeholder('torch>=1.13')
     PerChannelMinMaxObserver = get_placeholder('torch>=1.13')
     disable_observer = get_placeholder('torch>=1.13')
@@ -100,6 +102,10 @@ class MMArchitectureQuant(BaseAlgorithm):
         for module in model.modules():
             if isinstance(module, (MinMaxObserver, PerChannelMinMaxObserver)):
                 module.reset_min_max_vals()
+            elif isinstance(module, HistogramObserver):
+                module.histogram.zero_()
+                module.min_val.fill_(float('inf'))
+                module.max_val.fill_(float('-inf'))
             elif isinstance(module, FakeQuantizeBase):
                 module.scale.data = torch.ones_like(module.scale)
                 module.zero_point.data = torch.zeros_like(module.zero_point)
-- 
2.43.0


From e014cf7a88acfff4e97e90a2c8482d58508f31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 29/55] fix: layers used twice keep sharing their weights when
 quantized

---
 mmrazor/models/task_modules/tracer/fx/custom_tracer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index 68d5f08..c5e1e25 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -1,6 +1,7 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import functools
 from copy import deepcopy
+from itertools import chain
 from types import FunctionType
 from typing import Any, Callable, Dict, List, Optional, Tuple, Type, Union
 
@@ -154,8 +155,9 @@ def _prepare_module_dict(model: torch.nn.Module, fx_graph):
 
 
 def duplicate_reused_nodes(graph: Graph, modules: Dict[str, Any] = {}):
-    """Deepcopy the shared modules (e.g. shared detection head in RetinaNet) to
-    make sure modules can be fused correctly.
+    """Copy the shared modules (e.g. shared detection head in RetinaNet) to
+    make sure modules can be fused correctly. The copies keep sharing the
+    parameters and buffers.
 
     Modified from https://github.com/ModelTC/MQBench/blob/main/mqbench/prepare_by_platform.py  # noqa: E501
     """
@@ -173,7 +175,9 @@ def duplicate_reused_nodes(graph: Graph, modules: Dict[str, Any] = {}):
             for idx, node in enumerate(target_dict[key]):
                 if idx == 0:
                     continue
-                module = deepcopy(modules[node.target])
+                module = modules[node.target]
+                tensors = chain(module.parameters(), module.buffers())
+                module = deepcopy(module, {id(t): t for t in tensors})
                 node.target += _dup_prefix + str(idx)
                 dup_modules[node.target] = module
     graph.lint()
-- 
2.43.0


From bac12ce566a1eb79e77694d7b615e925f6b1d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 30/55] fix: quantizing a model leaves its train or eval mode

---
 mmrazor/models/quantizers/native_quantizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 67942da..808b58a 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -233,6 +233,7 @@ class TorchNativeQuantizer(BaseQuantizer):
 
         # set the training modes of all modules to True to `_fuse_fx` correctly
         # todo: check freezebn
+        training_modes = {m: m.training for m in model.modules()}
         self.sync_module_training_mode(graph_module, mode=True)
 
         graph_module = _fuse_fx(
@@ -248,6 +249,10 @@ class TorchNativeQuantizer(BaseQuantizer):
             backend_config=self.backend_config)
         prepared = self.del_redundant_fakequant(prepared)
 
+        # the modules of the given model are in the graph as well
+        for module, mode in training_modes.items():
+            module.training = mode
+
         return prepared
 
     def post_process_for_deploy(self,
-- 
2.43.0


From c4bb63f5a424d752d1c972f7f2b224ccbac6e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 31/55] fix: deploy quantized weights with the scales of the
 training

---
 mmrazor/models/quantizers/native_quantizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 808b58a..bfa4a55 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -318,10 +318,15 @@ class TorchNativeQuantizer(BaseQuantizer):
                         # because weight fakequants and observers are replaced
                         # with base fakequants and base observers, some
                         # initialized args need to be update by running
-                        # weight_fake_quant.
-                        enable_observer(new_child)
+                        # weight_fake_quant, and the scales of the training
+                        # have to be kept.
+                        enable_observer(new_child.weight_fake_quant)
                         new_child.weight_fake_quant(new_child.weight)
-                        disable_observer(new_child)
+                        disable_observer(new_child.weight_fake_quant)
+                        new_child.weight_fake_quant.scale.copy_(
+                            weight_fakequant.scale)
+                        new_child.weight_fake_quant.zero_point.copy_(
+                            weight_fakequant.zero_point)
                     else:
                         new_child = float_child.to(device)
                     setattr(module, name, new_child)
-- 
2.43.0


From 88d74c6f922ea0bbf31c62a545ee0d361bce1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 32/55] fix: deploy a learned scale as the forward pass clamps
 it

---
 mmrazor/structures/quantization/qconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/quantization/qconfig.py b/mmrazor/structures/quantization/qconfig.py
index ab682be..394ad2f 100644
--- a/mmrazor/structures/quantization/qconfig.py
+++ b/mmrazor/structures/quantization/qconfig.py
@@ -184,7 +184,9 @@ class QConfigHandler():
         if update_qparams:
             device = fake_quant_org.scale.device
             fake_quant_ins = fake_quant_wrapper().to(device)
-            fake_quant_ins.scale.copy_(fake_quant_org.scale)
+            # a learned scale is clamped by every forward pass
+            eps = torch.finfo(torch.float32).eps
+            fake_quant_ins.scale.copy_(fake_quant_org.scale.clamp(min=eps))
             fake_quant_ins.zero_point.copy_(fake_quant_org.zero_point)
             obs = fake_quant_ins.activation_post_process
             obs_org = fake_quant_org.activation_post_process
-- 
2.43.0


From 92cf999b36a4963fabd7d50cec95aee96c8bcbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 33/55] fix: validation of several subnets is one epoch for the
 hooks

Slimmable and distillation validation called before_val_epoch for every
pass but after_val_epoch once, so that EMAHook swapped the weights back
before the second pass and left the averaged weights in the model.
---
 mmrazor/engine/runner/distill_val_loop.py   | 1 -
 mmrazor/engine/runner/slimmable_val_loop.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/distill_val_loop.py b/mmrazor/engine/runner/distill_val_loop.py
index 0a86bbf..de794ef 100644
--- a/mmrazor/engine/runner/distill_val_loop.py
+++ b/mmrazor/engine/runner/distill_val_loop.py
@@ -53,7 +53,6 @@ class SingleTeacherDistillValLoop(ValLoop):
         # compute student metrics
         metrics = self.evaluator.evaluate(len(self.dataloader.dataset))
 
-        self.runner.call_hook('before_val_epoch')
         for idx, data_batch in enumerate(self.dataloader):
             self.run_iter_teacher(idx, data_batch)
         # compute teacher metrics
diff --git a/mmrazor/engine/runner/slimmable_val_loop.py b/mmrazor/engine/runner/slimmable_val_loop.py
index d3f5e2a..2b0db88 100644
--- a/mmrazor/engine/runner/slimmable_val_loop.py
+++ b/mmrazor/engine/runner/slimmable_val_loop.py
@@ -41,10 +41,10 @@ class SlimmableValLoop(ValLoop):
     def run(self):
         """Launch validation."""
         self.runner.call_hook('before_val')
+        self.runner.call_hook('before_val_epoch')
 
         all_metrics = dict()
         for subnet_idx, subnet in enumerate(self._model.mutator.subnets):
-            self.runner.call_hook('before_val_epoch')
             self.runner.model.eval()
             self._model.mutator.set_choices(subnet)
             for idx, data_batch in enumerate(self.dataloader):
-- 
2.43.0


From 16e42762b3fd587077063632f7fc28027469ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 34/55] fix: validation of several subnets returns its metrics

ValLoop.run returns the metrics, which Runner.val hands to its caller.
---
 mmrazor/engine/runner/distill_val_loop.py   | 6 ++++--
 mmrazor/engine/runner/slimmable_val_loop.py | 3 ++-
 mmrazor/engine/runner/subnet_val_loop.py    | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/distill_val_loop.py b/mmrazor/engine/runner/distill_val_loop.py
index de794ef..f4bedfb 100644
--- a/mmrazor/engine/runner/distill_val_loop.py
+++ b/mmrazor/engine/runner/distill_val_loop.py
@@ -43,7 +43,7 @@ class SingleTeacherDistillValLoop(ValLoop):
             self.teacher = self.runner.model.teacher
             self.teacher.data_preprocessor = data_preprocessor
 
-    def run(self):
+    def run(self) -> Dict:
         """Launch validation."""
         self.runner.call_hook('before_val')
         self.runner.call_hook('before_val_epoch')
@@ -63,6 +63,7 @@ class SingleTeacherDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=metrics)
         self.runner.call_hook('after_val')
+        return metrics
 
     @torch.no_grad()
     def run_iter_teacher(self, idx, data_batch: Sequence[dict]):
@@ -107,7 +108,7 @@ class SelfDistillValLoop(ValLoop):
                  fp16: bool = False) -> None:
         super().__init__(runner, dataloader, evaluator, fp16)
 
-    def run(self):
+    def run(self) -> Dict:
         """Launch validation."""
         self.runner.call_hook('before_val')
         self.runner.call_hook('before_val_epoch')
@@ -124,3 +125,4 @@ class SelfDistillValLoop(ValLoop):
 
         self.runner.call_hook('after_val_epoch', metrics=student_metrics)
         self.runner.call_hook('after_val')
+        return student_metrics
diff --git a/mmrazor/engine/runner/slimmable_val_loop.py b/mmrazor/engine/runner/slimmable_val_loop.py
index 2b0db88..f11aa28 100644
--- a/mmrazor/engine/runner/slimmable_val_loop.py
+++ b/mmrazor/engine/runner/slimmable_val_loop.py
@@ -38,7 +38,7 @@ class SlimmableValLoop(ValLoop):
         # just for convenience
         self._model = model
 
-    def run(self):
+    def run(self) -> Dict:
         """Launch validation."""
         self.runner.call_hook('before_val')
         self.runner.call_hook('before_val_epoch')
@@ -56,3 +56,4 @@ class SlimmableValLoop(ValLoop):
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
 
         self.runner.call_hook('after_val')
+        return all_metrics
diff --git a/mmrazor/engine/runner/subnet_val_loop.py b/mmrazor/engine/runner/subnet_val_loop.py
index d61e274..99d57f9 100644
--- a/mmrazor/engine/runner/subnet_val_loop.py
+++ b/mmrazor/engine/runner/subnet_val_loop.py
@@ -52,7 +52,7 @@ class SubnetValLoop(ValLoop, CalibrateBNMixin):
         self.calibrate_sample_num = calibrate_sample_num
         self.estimator = TASK_UTILS.build(estimator_cfg)
 
-    def run(self):
+    def run(self) -> Dict:
         """Launch validation."""
         self.runner.call_hook('before_val')
         self.runner.call_hook('before_val_epoch')
@@ -80,6 +80,7 @@ class SubnetValLoop(ValLoop, CalibrateBNMixin):
 
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
         self.runner.call_hook('after_val')
+        return all_metrics
 
     def _evaluate_once(self) -> Dict:
         """Evaluate a subnet once with BN re-calibration."""
-- 
2.43.0


From 27efe8799aafa1a33ca8f9dcaef1f9c94ad4cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 35/55] fix: a layer whose compression fails keeps its weights

float() returns the float32 weight itself, so that SparseGPT and GPTQ
changed it, and the hessian, before they could fail.
---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 5 +++--
 mmrazor/implementations/quantization/gptq/gptq.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 0f11b17..966f3cf 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -141,9 +141,10 @@ class SparseGptMixIn(ModuleProtocol):
             # Converted from https://github.com/ist-daslab/sparsegpt
 
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            # The weight and the hessian are only replaced on success.
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
 
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 84cfd3a..f22092f 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -219,12 +219,13 @@ class GPTQMixIn(ModuleProtocol):
         """The implementation for GPTQ."""
         with torch_setting(dtype=torch.float):
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            # The weight and the hessian are only replaced on success.
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
             if not quantizer.ready():
                 quantizer.find_params(W, weight=True)
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
             W[:, dead] = 0
-- 
2.43.0


From 660936106a5f775e99ec49c35988631130afb7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 36/55] fix: GPTQ quantizes on the CPU

---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index f22092f..8883fb0 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -291,7 +291,8 @@ class GPTQMixIn(ModuleProtocol):
 
                 W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:])
 
-            torch.cuda.synchronize()
+            if W.device.type == 'cuda':
+                torch.cuda.synchronize()
             error = torch.sum(Losses).item()
 
             groupsize = groupsize if groupsize != -1 else self.columns
-- 
2.43.0


From cbebb12aaf579365b7d71b096ba456993a02f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 37/55] fix: the hessian of a dilated convolution uses its own
 inputs

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 5 ++++-
 mmrazor/implementations/quantization/gptq/ops.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 966f3cf..a32c29e 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -274,6 +274,9 @@ class SparseGptConv2d(DynamicConv2d, SparseGptMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index b8c1394..5853f94 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -561,6 +561,9 @@ class GPTQConv2d(DynamicConv2d, GPTQMixIn):
         """Format input shape."""
         # input B C H W
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=self.padding,
             stride=self.stride)  # B C D
         return input.transpose(-1, -2)
-- 
2.43.0


From a816915a3152b7780ed17f32a8b8f254fe7bf71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 38/55] fix: compressing a layer used under two names keeps it
 one layer

---
 mmrazor/implementations/pruning/sparse_gpt/utils.py    | 10 +++++++---
 .../implementations/quantization/gptq/compressor.py    |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/utils.py b/mmrazor/implementations/pruning/sparse_gpt/utils.py
index df82784..7308351 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/utils.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/utils.py
@@ -51,10 +51,14 @@ def replace_with_dynamic_ops(model: nn.Module,
 
         setattr(model, names[-1], module)
 
-    for name, module in model.named_modules():
+    # A module used under several names is still one module afterwards.
+    new_modules: Dict[nn.Module, nn.Module] = {}
+    for name, module in model.named_modules(remove_duplicate=False):
         if type(module) in dynamicop_map:
-            new_module = dynamicop_map[type(module)].convert_from(module)
-            replace_op(model, name, new_module)
+            if module not in new_modules:
+                new_modules[module] = dynamicop_map[type(
+                    module)].convert_from(module)
+            replace_op(model, name, new_modules[module])
 
 
 def register_efficient_forward_hook(module: nn.Module,
diff --git a/mmrazor/implementations/quantization/gptq/compressor.py b/mmrazor/implementations/quantization/gptq/compressor.py
index 4a5aadd..376f928 100644
--- a/mmrazor/implementations/quantization/gptq/compressor.py
+++ b/mmrazor/implementations/quantization/gptq/compressor.py
@@ -23,9 +23,13 @@ def replace_with_dynamic_ops(model: nn.Module,
 
         setattr(model, names[-1], module)
 
-    for name, module in model.named_modules():
+    # A module used under several names is still one module afterwards.
+    new_modules: Dict[nn.Module, nn.Module] = {}
+    for name, module in model.named_modules(remove_duplicate=False):
         if type(module) in dynamicop_map and name not in skipped_layers:
-            if isinstance(module, nn.Linear):
+            if module in new_modules:
+                new_module = new_modules[module]
+            elif isinstance(module, nn.Linear):
                 if a_qconfig:
                     a_fakequant = Quantizer()
                     a_fakequant.configure(**a_qconfig)
@@ -34,6 +38,7 @@ def replace_with_dynamic_ops(model: nn.Module,
                     module, **kwargs)
             else:
                 new_module = dynamicop_map[type(module)].convert_from(module)
+            new_modules[module] = new_module
             replace_op(model, name, new_module)
 
 
-- 
2.43.0


From b5d69bfb9f73503ce4421dc461dd30e5338a8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 39/55] fix: the hessian is the mean over samples however they
 are batched

Samples of a linear layer with two dimensional inputs counted as one per
batch, ranks with smaller batches counted as much as rank 0, and a new
hessian went on with the sample count of the last one. The scale matters
for the damping of layers with dead inputs.
---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 10 +++++++---
 mmrazor/implementations/quantization/gptq/gptq.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index a32c29e..5ccbb2e 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -45,8 +45,8 @@ class SparseGptMixIn(ModuleProtocol):
 
     def format_input(self, input: torch.Tensor):
         """Return input with shape (B N C)"""
-        if len(input.shape) == 2:  # N C
-            input = input.unsqueeze(0)  # 1 N C
+        if len(input.shape) == 2:  # B C
+            input = input.unsqueeze(1)  # B 1 C
         return input
 
     # compute hessian
@@ -97,7 +97,10 @@ class SparseGptMixIn(ModuleProtocol):
 
         if dist.is_initialized():
             dist.all_reduce(H)
-            B *= dist.get_world_size()
+            # the batches of the ranks may differ in size
+            batch = torch.tensor(B, device=H.device)
+            dist.all_reduce(batch)
+            B = batch.item()
         H_save = (H_save * self.hessian_batch + H) / (self.hessian_batch + B)
         self.hessian = H_save
         self.hessian_batch = self.hessian_batch + B
@@ -120,6 +123,7 @@ class SparseGptMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 8883fb0..de00a97 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -67,8 +67,8 @@ class GPTQMixIn(ModuleProtocol):
 
     def format_input(self, input: torch.Tensor):
         """Return input with shape (B N C)"""
-        if len(input.shape) == 2:  # N C
-            input = input.unsqueeze(0)  # 1 N C
+        if len(input.shape) == 2:  # B C
+            input = input.unsqueeze(1)  # B 1 C
         return input
 
     # compute hessian
@@ -119,7 +119,10 @@ class GPTQMixIn(ModuleProtocol):
 
         if dist.is_initialized():
             dist.all_reduce(H)
-            B *= dist.get_world_size()
+            # the batches of the ranks may differ in size
+            batch = torch.tensor(B, device=H.device)
+            dist.all_reduce(batch)
+            B = batch.item()
         H_save = (H_save * self.hessian_batch + H) / (self.hessian_batch + B)
         self.hessian = H_save
         self.hessian_batch = self.hessian_batch + B
@@ -142,6 +145,7 @@ class GPTQMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
-- 
2.43.0


From 42c3eb793435cb851cf9059b84f7975ee59ac4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 40/55] fix: GPTQ does not pack layers it can only pack in part

qweight and qzeros hold multiples of 32 channels; the other channels of
a layer were dropped silently.
---
 mmrazor/implementations/quantization/gptq/ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index 5853f94..fac55d3 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -467,6 +467,9 @@ class TritonGPTQLinear(nn.Module, GPTQMixIn):
     @classmethod
     def convert_from(cls, module: nn.Linear, bits, groupsize):
         """Convert to cls from torch's module."""
+        if module.in_features % 32 != 0 or module.out_features % 32 != 0:
+            # The weight can not be packed completely.
+            return GPTQLinear.convert_from(module)
         new_module = cls(
             bits,
             groupsize,
-- 
2.43.0


From decc655d30c5d95dc30eb78bd9de67fe6b673ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:13 +0000
Subject: [PATCH 41/55] fix: packed zero points of 0 leave the other channels
 alone

A zero point of 0 was stored as -1, which set all bits of the word it
shares with other channels, and was read back as 2**bits.
---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 mmrazor/implementations/quantization/gptq/ops.py  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index de00a97..07311d0 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -195,7 +195,8 @@ class GPTQMixIn(ModuleProtocol):
         qweight = qweight.astype(np.int32)
         self.qweight = torch.from_numpy(qweight).to(self.weight.device)
 
-        zeros -= 1
+        # the kernel adds 1 to what is stored, modulo 2**bits
+        zeros = (zeros - 1).to(torch.int) & self.maxq
         zeros = zeros.cpu().numpy().astype(np.uint32)
         qzeros = np.zeros((zeros.shape[0], zeros.shape[1] // 32 * self.bits),
                           dtype=np.uint32)
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index fac55d3..5810731 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -167,7 +167,7 @@ try:
                 g_idx[:, None] * stride_zeros)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_K)
@@ -327,7 +327,7 @@ try:
             zeros = tl.load(zeros_ptrs)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_N)
-- 
2.43.0


From e138a77035cb4b02a65a48f7474dfe602daaca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 42/55] fix: DARTS levels use gradients of their own batch
 only, unrolled step is second order

---
 mmrazor/models/algorithms/nas/darts.py | 130 ++++++++++++++++++-------
 1 file changed, 96 insertions(+), 34 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..534d868 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -1,6 +1,7 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
 import os
+from contextlib import contextmanager
 from typing import Dict, List, Optional, Union
 
 import torch
@@ -17,6 +18,41 @@ from ..base import BaseAlgorithm
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
+@contextmanager
+def set_grads_aside(module: nn.Module):
+    """Keep the gradients of a module out of the backward passes inside."""
+    grads = pop_grads(module)
+    try:
+        yield
+    finally:
+        for param, grad in zip(module.parameters(), grads):
+            param.grad = grad
+
+
+@contextmanager
+def restore_params_on_error(module: nn.Module):
+    """Leave the parameters of a module as they were when a step fails."""
+    backup = [param.detach().clone() for param in module.parameters()]
+    try:
+        yield
+    except BaseException:
+        with torch.no_grad():
+            for param, value in zip(module.parameters(), backup):
+                param.copy_(value)
+        raise
+
+
+def pop_grads(module: nn.Module) -> List[Optional[torch.Tensor]]:
+    """Take the gradients of a module and clear them."""
+    grads = [
+        None if param.grad is None else param.grad.clone()
+        for param in module.parameters()
+    ]
+    for param in module.parameters():
+        param.grad = None
+    return grads
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -118,8 +154,10 @@ class Darts(BaseAlgorithm):
             if self.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with set_grads_aside(self.architecture), \
+                            restore_params_on_error(self.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -133,7 +171,8 @@ class Darts(BaseAlgorithm):
                         mode='loss')
                 mutator_losses, mutator_log_vars = self.parse_losses(
                     mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
+                with set_grads_aside(self.architecture):
+                    optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -145,7 +184,8 @@ class Darts(BaseAlgorithm):
                     supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_losses, supernet_log_vars = self.parse_losses(
                 supernet_loss)
-            optim_wrapper['architecture'].update_params(supernet_losses)
+            with set_grads_aside(self.mutator):
+                optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -185,8 +225,8 @@ class Darts(BaseAlgorithm):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [param.grad for param in self.architecture.parameters()]
-        d_arch = [param.grad for param in self.mutator.parameters()]
+        d_model = pop_grads(self.architecture)
+        d_arch = pop_grads(self.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -196,6 +236,9 @@ class Darts(BaseAlgorithm):
 
         with torch.no_grad():
             for param, d, h in zip(w_arch, d_arch, hessian):
+                if d is None or h is None:
+                    param.grad = d
+                    continue
                 # gradient = dalpha - lr * hessian
                 param.grad = d - lr * h
 
@@ -215,12 +258,16 @@ class Darts(BaseAlgorithm):
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [param.grad for param in self.architecture.parameters()]
+        gradients = pop_grads(self.architecture)
+        pop_grads(self.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                if g is None:
+                    continue
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -240,7 +287,7 @@ class Darts(BaseAlgorithm):
             eps = 0.01 / ||dw||
         """
         self._restore_weights(backup_params)
-        norm = torch.cat([w.view(-1) for w in dw]).norm()
+        norm = torch.cat([w.reshape(-1) for w in dw if w is not None]).norm()
         eps = 0.01 / norm
         if norm < 1E-8:
             print(
@@ -252,7 +299,8 @@ class Darts(BaseAlgorithm):
             # w+ = w + eps*dw`, w- = w - eps*dw`
             with torch.no_grad():
                 for p, d in zip(self.architecture.parameters(), dw):
-                    p += e * d
+                    if d is not None:
+                        p += e * d
 
             pseudo_data = self.data_preprocessor(supernet_data, True)
             supernet_batch_inputs = pseudo_data['inputs']
@@ -262,13 +310,15 @@ class Darts(BaseAlgorithm):
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.mutator.parameters()]
-            dalphas.append(dalpha)
+            pop_grads(self.architecture)
+            dalphas.append(pop_grads(self.mutator))
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
         dalpha_pos, dalpha_neg = dalphas
-        hessian = [(p - n) / (2. * eps)
-                   for p, n in zip(dalpha_pos, dalpha_neg)]
+        hessian = [
+            None if p is None or n is None else (p - n) / (2. * eps)
+            for p, n in zip(dalpha_pos, dalpha_neg)
+        ]
         return hessian
 
 
@@ -357,8 +407,11 @@ class DartsDDP(MMDistributedDataParallel):
             if self.module.unroll:
                 with optim_wrapper['mutator'].optim_context(self):
                     optim_wrapper['mutator'].zero_grad()
-                    mutator_log_vars = self._unrolled_backward(
-                        mutator_data, supernet_data, optim_wrapper)
+                    with set_grads_aside(self.module.architecture), \
+                            restore_params_on_error(
+                                self.module.architecture):
+                        mutator_log_vars = self._unrolled_backward(
+                            mutator_data, supernet_data, optim_wrapper)
                 optim_wrapper['mutator'].step()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
@@ -374,7 +427,8 @@ class DartsDDP(MMDistributedDataParallel):
 
                     mutator_losses, mutator_log_vars = self.module.parse_losses(  # noqa: E501
                         mutator_loss)
-                    optim_wrapper['mutator'].update_params(mutator_losses)
+                    with set_grads_aside(self.module.architecture):
+                        optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -389,7 +443,9 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_losses, supernet_log_vars = self.module.parse_losses(
                     supernet_loss)
 
-                optim_wrapper['architecture'].update_params(supernet_losses)
+                with set_grads_aside(self.module.mutator):
+                    optim_wrapper['architecture'].update_params(
+                        supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -432,10 +488,8 @@ class DartsDDP(MMDistributedDataParallel):
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
         optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
-        d_arch = [param.grad for param in self.module.mutator.parameters()]
+        d_model = pop_grads(self.module.architecture)
+        d_arch = pop_grads(self.module.mutator)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -445,6 +499,9 @@ class DartsDDP(MMDistributedDataParallel):
 
         with torch.no_grad():
             for param, da, he in zip(w_arch, d_arch, hessian):
+                if da is None or he is None:
+                    param.grad = da
+                    continue
                 # gradient = dalpha - lr * hessian
                 param.grad = da - lr * he
 
@@ -464,14 +521,16 @@ class DartsDDP(MMDistributedDataParallel):
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
         optim_wrapper.backward(supernet_loss)
-        gradients = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
+        gradients = pop_grads(self.module.architecture)
+        pop_grads(self.module.mutator)
 
         with torch.no_grad():
             for w, g in zip(self.module.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                if g is None:
+                    continue
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -491,7 +550,7 @@ class DartsDDP(MMDistributedDataParallel):
             eps = 0.01 / ||dw||
         """
         self._restore_weights(backup_params)
-        norm = torch.cat([w.view(-1) for w in dw]).norm()
+        norm = torch.cat([w.reshape(-1) for w in dw if w is not None]).norm()
         eps = 0.01 / norm
         if norm < 1E-8:
             print(
@@ -503,7 +562,8 @@ class DartsDDP(MMDistributedDataParallel):
             # w+ = w + eps*dw`, w- = w - eps*dw`
             with torch.no_grad():
                 for p, d in zip(self.module.architecture.parameters(), dw):
-                    p += e * d
+                    if d is not None:
+                        p += e * d
 
             pseudo_data = self.module.data_preprocessor(supernet_data, True)
             supernet_batch_inputs = pseudo_data['inputs']
@@ -513,11 +573,13 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
             optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.module.mutator.parameters()]
-            dalphas.append(dalpha)
+            pop_grads(self.module.architecture)
+            dalphas.append(pop_grads(self.module.mutator))
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
         dalpha_pos, dalpha_neg = dalphas
-        hessian = [(p - n) / (2. * eps)
-                   for p, n in zip(dalpha_pos, dalpha_neg)]
+        hessian = [
+            None if p is None or n is None else (p - n) / (2. * eps)
+            for p, n in zip(dalpha_pos, dalpha_neg)
+        ]
         return hessian
-- 
2.43.0


From ad8808cce4b9ff1eaed897ed72e84b944045c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 43/55] fix: a one-hot choice is fixed to the option that
 dominates

---
 .../mutable_module/diff_mutable_module.py       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..87b24c3 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -230,6 +230,8 @@ class DiffMutableOP(DiffMutableModule):
 
     def sample_choice(self, arch_param: Tensor) -> str:
         """Sample choice based on arch_parameters."""
+        if self.is_fixed:
+            return self._chosen[0]
         return self.choices[torch.argmax(arch_param).item()]
 
     def dump_chosen(self) -> DumpChosen:
@@ -311,11 +313,10 @@ class OneHotMutableOP(DiffMutableOP):
 
         if not self.is_fixed:
             self.arch_weights = self.sample_weights(arch_param, probs)
-            sorted_param = torch.topk(probs, 2)
-            index = (
-                sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
-            if index:
-                self.fix_chosen(self.choices[index])
+            if len(probs) > 1:
+                values, indices = torch.topk(probs, 2)
+                if values[0] - values[1] >= self.fix_threshold:
+                    self.fix_chosen(self.choices[indices[0]])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
@@ -496,13 +497,13 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        self._unfixed_choices = self.choices
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -526,6 +527,8 @@ class DiffChoiceRoute(DiffMutableModule):
 
     def sample_choice(self, arch_param: Tensor) -> List[str]:
         """sample choice based on `arch_param`."""
+        if self.is_fixed:
+            return self._chosen
         sort_idx = torch.argsort(-arch_param).cpu().numpy().tolist()
         choice_idx = sort_idx[:self.num_chosen]
         choice = [self.choices[i] for i in choice_idx]
-- 
2.43.0


From ae4a40ae4e9c0628fd0b926bcda727ac69a20fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 44/55] fix: DSNAS scales its architecture gradients before the
 step, and fixes also after a resume

---
 mmrazor/models/algorithms/nas/dsnas.py | 71 +++++++++++++++-----------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e5937ba..41fa3d1 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -4,8 +4,8 @@ import os
 from typing import Any, Dict, List, Optional, Union
 
 import torch
-import torch.distributed as dist
 import torch.nn.functional as F
+from mmengine import dist
 from mmengine.dist import get_dist_info
 from mmengine.logging import MessageHub
 from mmengine.model import BaseModel, MMDistributedDataParallel
@@ -130,10 +130,10 @@ class DSNAS(BaseAlgorithm):
             cur_epoch = self.message_hub.get_info('epoch')
             need_update_mutator = self.need_update_mutator(cur_epoch)
 
-            if cur_epoch == self.finetune_epochs and self.is_supernet:
+            if cur_epoch >= self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    dist.broadcast(v.data, src=0)
                 self._fix_archtecture()
                 self.is_supernet = False
 
@@ -154,15 +154,17 @@ class DSNAS(BaseAlgorithm):
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
             # 2. update mutator
-            if need_update_mutator:
+            if need_update_mutator and self._unfixed_mutables():
                 with optim_wrapper['mutator'].optim_context(self):
                     mutator_loss = self.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
@@ -204,6 +206,12 @@ class DSNAS(BaseAlgorithm):
             return True
         return False
 
+    def _unfixed_mutables(self):
+        """Names and modules of the mutables which are still searched."""
+        return [(name, module)
+                for name, module in self.architecture.named_modules()
+                if isinstance(module, BaseMutable) and not module.is_fixed]
+
     def compute_mutator_loss(self) -> Dict[str, torch.Tensor]:
         """Compute mutator loss.
 
@@ -215,19 +223,17 @@ class DSNAS(BaseAlgorithm):
         """
         arch_loss = 0.0
         flops_loss = 0.0
-        for name, module in self.architecture.named_modules():
-            if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
-                probs = F.softmax(self.mutator.arch_params[k], -1)
-                arch_loss += torch.log(
-                    (module.arch_weights * probs).sum(-1)).sum()
-
-                # get the index of op with max arch weights.
-                index = (module.arch_weights == 1).nonzero().item()
-                _module_key = name + '._candidates.' + module.choices[index]
-                flops_loss += probs[index] * \
-                    self.mutable_module_resources[_module_key]['flops']
+        for name, module in self._unfixed_mutables():
+            k = module.mutable_prefix + '_' + \
+                str(self.search_space_name_list.index(name))
+            probs = F.softmax(self.mutator.arch_params[k], -1)
+            arch_loss += torch.log((module.arch_weights * probs).sum(-1)).sum()
+
+            # get the index of op with max arch weights.
+            index = (module.arch_weights == 1).nonzero().item()
+            _module_key = name + '._candidates.' + module.choices[index]
+            flops_loss += probs[index] * \
+                self.mutable_module_resources[_module_key]['flops']
 
         mutator_loss = dict(arch_loss=arch_loss / self.world_size)
 
@@ -246,13 +252,14 @@ class DSNAS(BaseAlgorithm):
 
     def handle_grads(self):
         """Handle grads of arch params & arch weights."""
-        for name, module in self.architecture.named_modules():
-            if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
-                self.mutator.arch_params[k].grad.data.mul_(
-                    module.arch_weights.grad.data.sum())
-                module.arch_weights.grad.zero_()
+        for name, module in self._unfixed_mutables():
+            k = module.mutable_prefix + '_' + \
+                str(self.search_space_name_list.index(name))
+            grad = self.mutator.arch_params[k].grad.data
+            grad.mul_(module.arch_weights.grad.data.sum())
+            # the losses are divided by the world size
+            dist.all_reduce(grad)
+            module.arch_weights.grad.zero_()
 
 
 @MODEL_WRAPPERS.register_module()
@@ -284,11 +291,11 @@ class DSNASDDP(MMDistributedDataParallel):
             need_update_mutator = self.module.need_update_mutator(cur_epoch)
 
             # TODO process the input
-            if cur_epoch == self.module.finetune_epochs and \
+            if cur_epoch >= self.module.finetune_epochs and \
                self.module.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.module.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    dist.broadcast(v.data, src=0)
                 self.module._fix_archtecture()
                 self.module.is_supernet = False
 
@@ -309,15 +316,17 @@ class DSNASDDP(MMDistributedDataParallel):
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
             # 2. update mutator
-            if need_update_mutator:
+            if need_update_mutator and self.module._unfixed_mutables():
                 with optim_wrapper['mutator'].optim_context(self):
                     mutator_loss = self.module.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.module.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
-                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
+                optim_wrapper['mutator'].backward(mutator_losses)
                 # handle the grad of arch params & weights
                 self.module.handle_grads()
+                optim_wrapper['mutator'].step()
+                optim_wrapper['mutator'].zero_grad()
+                log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From 1382cbaf596659e71639fed5f8d7a581da21b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 45/55] fix: update each DMCP level by its own gradients
 towards the configured target

The gradients the architecture losses left on the weights were added to
the next weight step. The log_l1 penalty compared FLOPs with a number of
MFLOPs, inverted_log_l1 was NaN below the target, expected widths were
taken for ratios (so the expected network was estimated and exported
unpruned), the sampling schedule started anew after a resume, and the
distributed wrapper never averaged the gradients of the architecture
parameters.
---
 mmrazor/models/algorithms/nas/darts.py        | 24 +---------
 mmrazor/models/algorithms/pruning/dmcp.py     | 45 ++++++++++++++-----
 .../channel_mutator/dmcp_channel_mutator.py   |  4 +-
 mmrazor/models/utils/__init__.py              |  5 ++-
 mmrazor/models/utils/utils.py                 | 25 ++++++++++-
 5 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index 534d868..934e049 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -11,24 +11,13 @@ from torch import nn
 from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.models.mutators import NasMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, pop_grads, set_grads_aside
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ..base import BaseAlgorithm
 
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
-@contextmanager
-def set_grads_aside(module: nn.Module):
-    """Keep the gradients of a module out of the backward passes inside."""
-    grads = pop_grads(module)
-    try:
-        yield
-    finally:
-        for param, grad in zip(module.parameters(), grads):
-            param.grad = grad
-
-
 @contextmanager
 def restore_params_on_error(module: nn.Module):
     """Leave the parameters of a module as they were when a step fails."""
@@ -42,17 +31,6 @@ def restore_params_on_error(module: nn.Module):
         raise
 
 
-def pop_grads(module: nn.Module) -> List[Optional[torch.Tensor]]:
-    """Take the gradients of a module and clear them."""
-    grads = [
-        None if param.grad is None else param.grad.clone()
-        for param in module.parameters()
-    ]
-    for param in module.parameters():
-        param.grad = None
-    return grads
-
-
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..69582f1 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -12,7 +12,7 @@ from torch import nn
 
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import ChannelMutator, DMCPChannelMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import add_prefix, set_grads_aside
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ...task_modules.estimators import ResourceEstimator
 from ..base import BaseAlgorithm
@@ -79,6 +79,7 @@ class DMCP(BaseAlgorithm):
         self.flops_loss_type = flops_loss_type
         self.flop_loss_weight = flop_loss_weight
         self.cur_sample_prob = 1.0
+        self._last_iter = -1
         self.arch_train = False
 
         self.mutator: ChannelMutator = MODELS.build(mutator_cfg)
@@ -107,9 +108,18 @@ class DMCP(BaseAlgorithm):
             arch_train = self.arch_train
         self.mutator.sample_subnet(mode, arch_train)
 
+    def _catch_up(self) -> None:
+        """Lower ``cur_sample_prob`` as the iterations before a resume did."""
+        missed = self._iter - self._last_iter - 1
+        if missed > 0:
+            self.cur_sample_prob *= 0.9999**(
+                missed * self.strategy.count('scheduled_random'))
+        self._last_iter = self._iter
+
     def train_step(self, data: List[dict],
                    optim_wrapper: OptimWrapper) -> Dict[str, torch.Tensor]:
         """The iteration step during training."""
+        self._catch_up()
         if not self.arch_train and \
                 self._iter > self.arch_start_train:
             self.arch_train = True
@@ -212,9 +222,14 @@ class DMCP(BaseAlgorithm):
                             inputs: torch.Tensor,
                             data_samples: Optional[List[BaseDataElement]],
                             optim_wrapper: OptimWrapper,
-                            mode: str = 'loss') -> Dict:
+                            mode: str = 'loss',
+                            model: Optional[nn.Module] = None) -> Dict:
         """Update the arch parameters in mutator.
 
+        Args:
+            model (nn.Module, optional): The model to forward, which is the
+                distributed wrapper of this model in distributed training.
+
         Returns:
             dict: It should contain 2 keys: ``arch_loss``, ``flops_loss``.
                 ``arch_loss`` is a tensor for back propagation, which can be a
@@ -223,13 +238,16 @@ class DMCP(BaseAlgorithm):
                 logger.
         """
         arch_params_loss = dict()
+        model = self if model is None else model
         self.eval()
         # update arch_loss
         self.set_subnet(mode='max', arch_train=True)
-        with optim_wrapper['mutator'].optim_context(self):
-            arch_loss = self(inputs, data_samples, mode=mode)
+        with optim_wrapper['mutator'].optim_context(model):
+            arch_loss = model(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
-        optim_wrapper['mutator'].update_params(parsed_arch_loss)
+        # the gradients of the weights are not for the next weight step
+        with set_grads_aside(self.architecture):
+            optim_wrapper['mutator'].update_params(parsed_arch_loss)
         arch_params_loss.update(add_prefix(arch_loss, 'arch'))
 
         # update flops_loss
@@ -238,7 +256,8 @@ class DMCP(BaseAlgorithm):
         flops_loss = self._compute_flops_loss(expected_flops).to(
             arch_loss['loss'].device)
         parsed_flops_loss, _ = self.parse_losses({'loss': flops_loss})
-        optim_wrapper['mutator'].update_params(parsed_flops_loss)
+        with set_grads_aside(self.architecture):
+            optim_wrapper['mutator'].update_params(parsed_flops_loss)
         arch_params_loss.update(add_prefix({'loss': flops_loss}, 'flops'))
         self.train()
         return arch_params_loss
@@ -262,17 +281,18 @@ class DMCP(BaseAlgorithm):
         if self.flops_loss_type == 'l2':
             floss = torch.pow(flops_error, 2)
         elif self.flops_loss_type == 'inverted_log_l1':
-            floss = -torch.log(1 / (flops_error + 1e-5))
+            floss = -torch.log(1 / (abs(flops_error) + 1e-5))
         elif self.flops_loss_type == 'log_l1':
             if abs(flops_error) > 200:
                 ratio = 0.1
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            target_flops = self.target_flops * 1e6
+            lower_flops = target_flops * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < target_flops):
                 floss = expected_flops * 0
             else:
                 floss = (
@@ -326,6 +346,7 @@ class DMCPDDP(MMDistributedDataParallel):
     def train_step(self, data: List[dict],
                    optim_wrapper: OptimWrapper) -> Dict[str, torch.Tensor]:
         """The iteration step during training."""
+        self.module._catch_up()
         if not self.module.arch_train and \
                 self.module._iter > self.module.arch_start_train:
             self.module.arch_train = True
@@ -420,6 +441,10 @@ class DMCPDDP(MMDistributedDataParallel):
             with optim_wrapper['mutator'].optim_context(self):
                 optim_wrapper['mutator'].zero_grad()
                 mutator_loss = self.module._update_arch_params(
-                    batch_inputs, data_samples, optim_wrapper, mode='loss')
+                    batch_inputs,
+                    data_samples,
+                    optim_wrapper,
+                    mode='loss',
+                    model=self)
             total_losses.update(mutator_loss)
         return total_losses
diff --git a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
index de7bbc4..159d628 100644
--- a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
@@ -174,5 +174,7 @@ class DMCPChannelMutator(ChannelMutator[DMCPChannelUnit]):
                 # allow optional target_prune_ratio
                 continue
             choice = choices[str(group_id)]
-            module.current_choice = choice
+            # an expected number of channels is a tensor
+            module.current_choice = int(round(choice.item())) \
+                if isinstance(choice, torch.Tensor) else choice
             module.mutable_channel.activated_tensor_channels = choice
diff --git a/mmrazor/models/utils/__init__.py b/mmrazor/models/utils/__init__.py
index e3be949..05ae104 100644
--- a/mmrazor/models/utils/__init__.py
+++ b/mmrazor/models/utils/__init__.py
@@ -4,10 +4,11 @@ from .misc import add_prefix
 from .optim_wrapper import reinitialize_optim_wrapper_count_status
 from .parse_values import parse_values
 from .quantization_util import pop_rewriter_function_record, str2class
-from .utils import get_module_device, set_requires_grad
+from .utils import (get_module_device, pop_grads, set_grads_aside,
+                    set_requires_grad)
 
 __all__ = [
     'make_divisible', 'add_prefix', 'reinitialize_optim_wrapper_count_status',
     'str2class', 'get_module_device', 'set_requires_grad', 'parse_values',
-    'pop_rewriter_function_record'
+    'pop_rewriter_function_record', 'pop_grads', 'set_grads_aside'
 ]
diff --git a/mmrazor/models/utils/utils.py b/mmrazor/models/utils/utils.py
index b2fc496..0f6bc82 100644
--- a/mmrazor/models/utils/utils.py
+++ b/mmrazor/models/utils/utils.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import List, Union
+from contextlib import contextmanager
+from typing import List, Optional, Union
 
 import torch
 import torch.nn as nn
@@ -37,3 +38,25 @@ def set_requires_grad(nets: Union[nn.Module, List[nn.Module]],
         if net is not None:
             for param in net.parameters():
                 param.requires_grad = requires_grad
+
+
+def pop_grads(module: nn.Module) -> List[Optional[torch.Tensor]]:
+    """Take the gradients of a module and clear them."""
+    grads = [
+        None if param.grad is None else param.grad.clone()
+        for param in module.parameters()
+    ]
+    for param in module.parameters():
+        param.grad = None
+    return grads
+
+
+@contextmanager
+def set_grads_aside(module: nn.Module):
+    """Keep the gradients of a module out of the backward passes inside."""
+    grads = pop_grads(module)
+    try:
+        yield
+    finally:
+        for param, grad in zip(module.parameters(), grads):
+            param.grad = grad
-- 
2.43.0


From b4391f4eaaa87762266f66138a06f29035543d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 46/55] fix: let the DMCP subnet hook finish

Exporting the expected network deep-copied tensors of a computation and
always failed, sampling never ended for a target out of reach, and all
ranks wrote the same files. Records of a forward pass stay with the
recorder when a model is copied.
---
 mmrazor/engine/hooks/dmcp_subnet_hook.py      | 56 ++++++++++++++-----
 .../task_modules/recorder/base_recorder.py    | 10 ++++
 2 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/mmrazor/engine/hooks/dmcp_subnet_hook.py b/mmrazor/engine/hooks/dmcp_subnet_hook.py
index 5c3186f..4bf8540 100644
--- a/mmrazor/engine/hooks/dmcp_subnet_hook.py
+++ b/mmrazor/engine/hooks/dmcp_subnet_hook.py
@@ -2,6 +2,7 @@
 import json
 import os
 
+from mmengine.dist import master_only
 from mmengine.hooks import Hook
 from mmengine.registry import HOOKS
 
@@ -17,27 +18,56 @@ class DMCPSubnetHook(Hook):
             the last of which is the sub-network sampled in ``expected``
             mode and the others are sampled in ``direct`` mode.
             Defaults to 10.
+        max_sample_times (int): The most samples to draw for one of them.
+            Defaults to 1000.
     """
 
     priority = 'VERY_LOW'
 
-    def __init__(self, subnet_sample_num: int = 10, **kwargs) -> None:
+    def __init__(self,
+                 subnet_sample_num: int = 10,
+                 max_sample_times: int = 1000,
+                 **kwargs) -> None:
         self.subnet_sample_num = subnet_sample_num
+        self.max_sample_times = max_sample_times
 
     def _save_subnet(self, model, runner, save_path):
         """Save the sampled sub-network config."""
-        fix_subnet, _ = export_fix_subnet(
-            model,
-            export_subnet_mode='mutator',
-            slice_weight=True,
-        )
+        fix_subnet, _ = export_fix_subnet(model, export_subnet_mode='mutator')
         fix_subnet = json.dumps(fix_subnet, indent=4, separators=(',', ':'))
-        with open(save_path, 'w') as file:
+        # never leave a half-written file under the final name
+        with open(save_path + '.tmp', 'w') as file:
             file.write(fix_subnet)
+        os.replace(save_path + '.tmp', save_path)
 
         runner.logger.info('export finished and '
                            f'{save_path} saved in {runner.work_dir}.')
 
+    def _sample_subnet(self, model, runner, target_flops):
+        """Sample a sub-network within 5% of the target FLOPs, or the closest
+        of ``max_sample_times`` if there is none."""
+        closest = None
+        for _ in range(self.max_sample_times):
+            model.set_subnet(mode='direct', arch_train=False)
+            cur_flops = model.calc_current_flops()
+            if target_flops * 0.95 <= cur_flops <= target_flops * 1.05:
+                return cur_flops
+            error = abs(cur_flops - target_flops)
+            if closest is None or error < closest[0]:
+                choices = {
+                    str(i): unit.current_choice
+                    for i, unit in enumerate(model.mutator.units)
+                }
+                closest = (error, cur_flops, choices)
+
+        _, cur_flops, choices = closest
+        model.mutator.set_choices(choices)
+        runner.logger.warning(
+            f'No arch within 5% of {target_flops / 1e6} MFLOPs in '
+            f'{self.max_sample_times} samples, the closest one is saved.')
+        return cur_flops
+
+    @master_only
     def after_run(self, runner):
         """Save the sampled subnet under target FLOPs.
 
@@ -55,18 +85,14 @@ class DMCPSubnetHook(Hook):
             os.makedirs(root_dir)
 
         for i in range(num_sample + 1):
-            cur_flops = target_flops * 10
-            while cur_flops > target_flops * 1.05 or \
-                    cur_flops < target_flops * 0.95:
-                model.set_subnet(mode='direct', arch_train=False)
-                cur_flops = model.calc_current_flops()
-
             if i == num_sample:
                 model.set_subnet(mode='expected', arch_train=False)
+                cur_flops = model.calc_current_flops()
                 save_path = os.path.join(root_dir, 'excepted_ch.json')
-                runner.logger.info(
-                    f'Excepted sample(ES) arch with FlOP(MB):{cur_flops}')
+                runner.logger.info('Excepted sample(ES) arch with FlOP(MB):'
+                                   f'{float(cur_flops)/1e6}')
             else:
+                cur_flops = self._sample_subnet(model, runner, target_flops)
                 save_path = os.path.join(root_dir,
                                          'subnet_{}.json'.format(i + 1))
                 runner.logger.info(
diff --git a/mmrazor/models/task_modules/recorder/base_recorder.py b/mmrazor/models/task_modules/recorder/base_recorder.py
index b34c691..b0cdbc0 100644
--- a/mmrazor/models/task_modules/recorder/base_recorder.py
+++ b/mmrazor/models/task_modules/recorder/base_recorder.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+import copy
 from abc import ABCMeta, abstractmethod
 from typing import Any, List, Optional
 
@@ -102,6 +103,15 @@ class BaseRecorder(metaclass=ABCMeta):
 
         self._data_buffer = list()
 
+    def __deepcopy__(self, memo):
+        """Records are part of a computation and stay with the original."""
+        copied = self.__class__.__new__(self.__class__)
+        memo[id(self)] = copied
+        for key, value in self.__dict__.items():
+            copied.__dict__[key] = list() if key == '_data_buffer' \
+                else copy.deepcopy(value, memo)
+        return copied
+
     def __enter__(self):
         """Enter the context manager."""
 
-- 
2.43.0


From 85889c5a801da791b392cfacbc2320796d61d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 47/55] fix: count the groups of a pruned depthwise conv

---
 .../estimators/counters/op_counters/conv_layer_counter.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..62b1bd0 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -93,6 +93,9 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            # a depthwise conv has as many groups as channels are left
+            groups = input.size(1)
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
-- 
2.43.0


From 38b1fef8e947384fef906830379fcfb48a93de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 48/55] fix: average the gradients of quantization parameters
 over ranks

The distributed wrapper rebuilt the quantized models after the reducer
had registered their parameters, so learned scales were updated with
local gradients. Tracing with a tracer that is not the last one built
failed.
---
 .../algorithms/quantization/mm_architecture.py     | 14 ++++++++------
 .../models/task_modules/tracer/fx/custom_tracer.py |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index e855dc4..933f24b 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -407,13 +407,15 @@ class MMArchitectureQuantDDP(MMDistributedDataParallel):
         if device_ids is None:
             if os.environ.get('LOCAL_RANK') is not None:
                 device_ids = [int(os.environ['LOCAL_RANK'])]
-        super().__init__(device_ids=device_ids, **kwargs)
         # After moving all model parameters and buffers to the GPU
-        # (`model.cuda()`), the buffers in model are different.
-        self.module.qmodels = self.module._build_qmodels(
-            self.module.architecture)
-        self.module.sync_qparams('tensor')
-        self.module.reset_observer_and_fakequant_statistics(self)
+        # (`model.cuda()`), the buffers in model are different. The qmodels
+        # are rebuilt before wrapping, as the gradients of parameters created
+        # later would not be averaged over the ranks.
+        module = kwargs['module']
+        module.qmodels = module._build_qmodels(module.architecture)
+        module.sync_qparams('tensor')
+        module.reset_observer_and_fakequant_statistics(module)
+        super().__init__(device_ids=device_ids, **kwargs)
 
     def calibrate_step(self, data: Union[Dict, Tuple, List]):
         """PTQ method need calibrate by cali data."""
diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index c5e1e25..9bcf951 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -342,6 +342,8 @@ class CustomTracer(QuantizationTracer):
         Returns:
             A ``Graph`` representing the semantics of the passed-in ``root``.
         """
+        # Another tracer may have been built since.
+        UntracedMethodRegistry.tracer = self  # type: ignore
         if isinstance(root, torch.nn.Module):
             self.root = root
             fn = type(root).forward
-- 
2.43.0


From eba16cf5f6bc6776caf0ef2392dc1b16b3185b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 49/55] fix: average accumulated gradients of parameters the
 last pass does not use

The wrappers that accumulate several sub-networks skipped the reduction
in all passes but the last; DDP then leaves the accumulated gradients of
parameters unused in the last pass unaveraged and the ranks diverge.
---
 mmrazor/models/algorithms/nas/autoslim.py      |  4 ++--
 mmrazor/models/algorithms/nas/bignas.py        |  4 ++--
 mmrazor/models/algorithms/nas/dsnas.py         |  4 ++--
 mmrazor/models/algorithms/pruning/dmcp.py      |  5 +++--
 .../algorithms/pruning/slimmable_network.py    |  4 ++--
 mmrazor/models/utils/__init__.py               |  7 ++++---
 mmrazor/models/utils/utils.py                  | 18 ++++++++++++++++++
 7 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/autoslim.py b/mmrazor/models/algorithms/nas/autoslim.py
index dc8d54c..bb65833 100644
--- a/mmrazor/models/algorithms/nas/autoslim.py
+++ b/mmrazor/models/algorithms/nas/autoslim.py
@@ -12,7 +12,7 @@ from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import ChannelMutator
-from mmrazor.models.utils import (add_prefix,
+from mmrazor.models.utils import (SyncPartlyUsedMixin, add_prefix,
                                   reinitialize_optim_wrapper_count_status)
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ..base import BaseAlgorithm
@@ -176,7 +176,7 @@ class AutoSlim(BaseAlgorithm):
 
 
 @MODEL_WRAPPERS.register_module()
-class AutoSlimDDP(MMDistributedDataParallel):
+class AutoSlimDDP(SyncPartlyUsedMixin, MMDistributedDataParallel):
     """DDPwapper for autoslim."""
 
     def __init__(self,
diff --git a/mmrazor/models/algorithms/nas/bignas.py b/mmrazor/models/algorithms/nas/bignas.py
index bd3ec4e..f1b23ce 100644
--- a/mmrazor/models/algorithms/nas/bignas.py
+++ b/mmrazor/models/algorithms/nas/bignas.py
@@ -12,7 +12,7 @@ from mmrazor.models.architectures.ops.mobilenet_series import MBBlock
 from mmrazor.models.architectures.utils import set_dropout
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import NasMutator
-from mmrazor.models.utils import (add_prefix,
+from mmrazor.models.utils import (SyncPartlyUsedMixin, add_prefix,
                                   reinitialize_optim_wrapper_count_status)
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ..base import BaseAlgorithm
@@ -180,7 +180,7 @@ class BigNAS(BaseAlgorithm):
 
 
 @MODEL_WRAPPERS.register_module()
-class BigNASDDP(MMDistributedDataParallel):
+class BigNASDDP(SyncPartlyUsedMixin, MMDistributedDataParallel):
 
     def __init__(self,
                  *,
diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 41fa3d1..5c016bb 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -15,7 +15,7 @@ from torch.nn.modules.batchnorm import _BatchNorm
 
 from mmrazor.models.mutables import BaseMutable
 from mmrazor.models.mutators import NasMutator
-from mmrazor.models.utils import add_prefix
+from mmrazor.models.utils import SyncPartlyUsedMixin, add_prefix
 from mmrazor.registry import MODEL_WRAPPERS, MODELS, TASK_UTILS
 from mmrazor.structures import export_fix_subnet, load_fix_subnet
 from ..base import BaseAlgorithm
@@ -263,7 +263,7 @@ class DSNAS(BaseAlgorithm):
 
 
 @MODEL_WRAPPERS.register_module()
-class DSNASDDP(MMDistributedDataParallel):
+class DSNASDDP(SyncPartlyUsedMixin, MMDistributedDataParallel):
 
     def __init__(self,
                  *,
diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 69582f1..12644ba 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -12,7 +12,8 @@ from torch import nn
 
 from mmrazor.models.distillers import ConfigurableDistiller
 from mmrazor.models.mutators import ChannelMutator, DMCPChannelMutator
-from mmrazor.models.utils import add_prefix, set_grads_aside
+from mmrazor.models.utils import (SyncPartlyUsedMixin, add_prefix,
+                                  set_grads_aside)
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from ...task_modules.estimators import ResourceEstimator
 from ..base import BaseAlgorithm
@@ -331,7 +332,7 @@ class DMCP(BaseAlgorithm):
 
 
 @MODEL_WRAPPERS.register_module()
-class DMCPDDP(MMDistributedDataParallel):
+class DMCPDDP(SyncPartlyUsedMixin, MMDistributedDataParallel):
     """DDP for DMCP and rewrite train_step of MMDDP."""
 
     def __init__(self,
diff --git a/mmrazor/models/algorithms/pruning/slimmable_network.py b/mmrazor/models/algorithms/pruning/slimmable_network.py
index f57c223..18b13ea 100644
--- a/mmrazor/models/algorithms/pruning/slimmable_network.py
+++ b/mmrazor/models/algorithms/pruning/slimmable_network.py
@@ -11,7 +11,7 @@ from torch import nn
 
 from mmrazor.models.mutables import BaseMutable
 from mmrazor.models.mutators import SlimmableChannelMutator
-from mmrazor.models.utils import (add_prefix,
+from mmrazor.models.utils import (SyncPartlyUsedMixin, add_prefix,
                                   reinitialize_optim_wrapper_count_status)
 from mmrazor.registry import MODEL_WRAPPERS, MODELS
 from mmrazor.structures.subnet.fix_subnet import _dynamic_to_static
@@ -141,7 +141,7 @@ class SlimmableNetwork(BaseAlgorithm):
 
 
 @MODEL_WRAPPERS.register_module()
-class SlimmableNetworkDDP(MMDistributedDataParallel):
+class SlimmableNetworkDDP(SyncPartlyUsedMixin, MMDistributedDataParallel):
     """DDP wrapper for Slimmable Neural Network."""
 
     def __init__(self,
diff --git a/mmrazor/models/utils/__init__.py b/mmrazor/models/utils/__init__.py
index 05ae104..27aa283 100644
--- a/mmrazor/models/utils/__init__.py
+++ b/mmrazor/models/utils/__init__.py
@@ -4,11 +4,12 @@ from .misc import add_prefix
 from .optim_wrapper import reinitialize_optim_wrapper_count_status
 from .parse_values import parse_values
 from .quantization_util import pop_rewriter_function_record, str2class
-from .utils import (get_module_device, pop_grads, set_grads_aside,
-                    set_requires_grad)
+from .utils import (SyncPartlyUsedMixin, get_module_device, pop_grads,
+                    set_grads_aside, set_requires_grad)
 
 __all__ = [
     'make_divisible', 'add_prefix', 'reinitialize_optim_wrapper_count_status',
     'str2class', 'get_module_device', 'set_requires_grad', 'parse_values',
-    'pop_rewriter_function_record', 'pop_grads', 'set_grads_aside'
+    'pop_rewriter_function_record', 'pop_grads', 'set_grads_aside',
+    'SyncPartlyUsedMixin'
 ]
diff --git a/mmrazor/models/utils/utils.py b/mmrazor/models/utils/utils.py
index 0f6bc82..178c74b 100644
--- a/mmrazor/models/utils/utils.py
+++ b/mmrazor/models/utils/utils.py
@@ -60,3 +60,21 @@ def set_grads_aside(module: nn.Module):
     finally:
         for param, grad in zip(module.parameters(), grads):
             param.grad = grad
+
+
+class SyncPartlyUsedMixin:
+    """Mixin for distributed wrappers that accumulate the gradients of several
+    sub-networks.
+
+    DDP does not average the accumulated gradient of a parameter which no rank
+    uses in the last, synchronizing, pass. With such parameters every pass has
+    to be synchronized.
+    """
+
+    @contextmanager
+    def no_sync(self):
+        if self.find_unused_parameters:
+            yield
+        else:
+            with super().no_sync():
+                yield
-- 
2.43.0


From a4774eb5d902883b3ca5e77bd9586eaff16630ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 50/55] fix: DumpSubnetHook replaces a subnet file atomically,
 keeps the newest max_keep_subnets and draws on all ranks

---
 mmrazor/engine/hooks/dump_subnet_hook.py | 41 +++++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/mmrazor/engine/hooks/dump_subnet_hook.py b/mmrazor/engine/hooks/dump_subnet_hook.py
index 1aaeaba..6a1cdff 100644
--- a/mmrazor/engine/hooks/dump_subnet_hook.py
+++ b/mmrazor/engine/hooks/dump_subnet_hook.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+import os
 import os.path as osp
 from pathlib import Path
 from typing import Optional, Sequence, Union
@@ -105,7 +106,6 @@ class DumpSubnetHook(Hook):
             runner.logger.info(f'Saving subnet at {runner.epoch + 1} epochs')
             self._save_subnet(runner)
 
-    @master_only
     def _save_subnet(self, runner) -> None:
         """Save the current best subnet.
 
@@ -114,6 +114,13 @@ class DumpSubnetHook(Hook):
         """
         model = runner.model.module if runner.distributed else runner.model
 
+        # All ranks draw the subnet, so that their random states stay equal.
+        choices = model.mutator.sample_choices()
+        self._dump_subnet(runner, model, choices)
+
+    @master_only
+    def _dump_subnet(self, runner, model, choices) -> None:
+        """Dump the subnet described by ``choices``."""
         # delete non-leaf tensor to get deepcopy(model).
         # TODO solve the hard case.
         for module in model.architecture.modules():
@@ -122,24 +129,42 @@ class DumpSubnetHook(Hook):
                     delattr(module, 'arch_weights')
 
         copied_model = copy.deepcopy(model)
-        copied_model.mutator.set_choices(copied_model.mutator.sample_choices())
+        copied_model.mutator.set_choices(choices)
 
         subnet_dict = export_fix_subnet(copied_model)[0]
         subnet_dict = convert_fix_subnet(subnet_dict)
 
         if self.by_epoch:
-            subnet_filename = self.args.get(
-                'filename_tmpl',
-                'subnet_epoch_{}.yaml').format(runner.epoch + 1)
+            filename_tmpl = self.args.get('filename_tmpl',
+                                          'subnet_epoch_{}.yaml')
+            step = runner.epoch + 1
         else:
-            subnet_filename = self.args.get(
-                'filename_tmpl', 'subnet_iter_{}.yaml').format(runner.iter + 1)
+            filename_tmpl = self.args.get('filename_tmpl',
+                                          'subnet_iter_{}.yaml')
+            step = runner.iter + 1
+        subnet_filename = filename_tmpl.format(step)
 
         file_client = FileClient.infer_client(self.file_client_args,
                                               self.out_dir)
         filepath = file_client.join_path(self.out_dir, subnet_filename)
 
-        dump(subnet_dict, filepath, file_format='yaml')
+        if file_client.name == 'HardDiskBackend':
+            # A file under its final name is always complete.
+            dump(subnet_dict, f'{filepath}.tmp', file_format='yaml')
+            os.replace(f'{filepath}.tmp', filepath)
+        else:
+            dump(subnet_dict, filepath, file_format='yaml')
+
+        # Only the newest ``max_keep_subnets`` subnets are kept.
+        if self.max_keep_subnets > 0 and self.interval > 0:
+            old_paths = [
+                file_client.join_path(self.out_dir, filename_tmpl.format(old))
+                for old in range(self.interval, step, self.interval)
+            ]
+            old_paths = [path for path in old_paths if file_client.exists(path)]
+            num_old = self.max_keep_subnets - 1
+            for path in old_paths[:max(len(old_paths) - num_old, 0)]:
+                file_client.remove(path)
 
     def after_train_iter(self,
                          runner,
-- 
2.43.0


From cc42ee6e23b39515ded8ae216e9d48eb4079a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 51/55] fix: RazorVisualizationHook records in eval mode,
 restores the modes and keeps its out_dir

---
 mmrazor/engine/hooks/visualization_hook.py | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mmrazor/engine/hooks/visualization_hook.py b/mmrazor/engine/hooks/visualization_hook.py
index a52145b..7a08094 100644
--- a/mmrazor/engine/hooks/visualization_hook.py
+++ b/mmrazor/engine/hooks/visualization_hook.py
@@ -134,11 +134,22 @@ class RazorVisualizationHook(Hook):
             return
         self._visualize(runner, f'epoch_{runner.epoch}')
 
+    def _test_step(self, model, data):
+        """Record a test step, without changing the state of the model."""
+        training = {module: module.training for module in model.modules()}
+        model.eval()
+        try:
+            with torch.no_grad(), self.recorder_manager:
+                model.test_step(data)
+        finally:
+            for module, mode in training.items():
+                module.training = mode
+
     def _visualize(self, runner, stage):
+        out_dir = None
         if self.out_dir is not None:
-            self.out_dir = osp.join(runner.work_dir, runner.timestamp,
-                                    self.out_dir)
-            mkdir_or_exist(self.out_dir)
+            out_dir = osp.join(runner.work_dir, runner.timestamp, self.out_dir)
+            mkdir_or_exist(out_dir)
 
         if self.file_client is None:
             self.file_client = FileClient(**self.file_client_args)
@@ -163,8 +174,7 @@ class RazorVisualizationHook(Hook):
             data_['inputs'] = [data_['inputs']]
             data_['data_samples'] = [data_['data_samples']]
 
-            with torch.no_grad(), self.recorder_manager:
-                runner.model.test_step(data_)
+            self._test_step(runner.model, data_)
 
             if self.is_overlaid:
                 img_bytes = self.file_client.get(img_path)
@@ -188,9 +198,9 @@ class RazorVisualizationHook(Hook):
                         feat[0], overlaid_image, **self.visualization_cfg)
 
                     out_file = None
-                    if self.out_dir is not None:
+                    if out_dir is not None:
                         out_file = f'{stage}_data_idx_{idx}_{name}_{i}.jpg'
-                        out_file = osp.join(self.out_dir, out_file)
+                        out_file = osp.join(out_dir, out_file)
 
                     self._visualizer.add_datasample(
                         f'{stage}_data_idx_{idx}_{name}_{i}',
-- 
2.43.0


From 85693720c5420d8217d1df5df98ea65ba27cb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 52/55] fix: resource estimation restores the model, keeps its
 configuration and can measure latency

---
 .../engine/hooks/estimate_resources_hook.py   |  4 ++
 .../estimators/counters/__init__.py           |  4 +-
 .../counters/flops_params_counter.py          | 35 ++++++++++---
 .../estimators/resource_estimator.py          | 52 ++++++++++---------
 4 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/mmrazor/engine/hooks/estimate_resources_hook.py b/mmrazor/engine/hooks/estimate_resources_hook.py
index 28f381a..f30918d 100644
--- a/mmrazor/engine/hooks/estimate_resources_hook.py
+++ b/mmrazor/engine/hooks/estimate_resources_hook.py
@@ -108,12 +108,16 @@ class EstimateResourcesHook(Hook):
 
         # delete non-leaf tensor to get deepcopy(model).
         # TODO solve the hard case.
+        arch_weights = dict()
         for module in model.architecture.modules():
             if isinstance(module, BaseMutable):
                 if hasattr(module, 'arch_weights'):
+                    arch_weights[module] = module.arch_weights
                     delattr(module, 'arch_weights')
 
         copied_model = copy.deepcopy(model)
+        for module, weights in arch_weights.items():
+            module.arch_weights = weights
         copied_model.mutator.set_choices(copied_model.mutator.sample_choices())
 
         subnet_dict = export_fix_subnet(copied_model)[0]
diff --git a/mmrazor/models/task_modules/estimators/counters/__init__.py b/mmrazor/models/task_modules/estimators/counters/__init__.py
index 721987e..7b89372 100644
--- a/mmrazor/models/task_modules/estimators/counters/__init__.py
+++ b/mmrazor/models/task_modules/estimators/counters/__init__.py
@@ -1,6 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from .flops_params_counter import get_model_flops_params
+from .flops_params_counter import get_model_flops_params, keep_model_state
 from .latency_counter import get_model_latency
 from .op_counters import *  # noqa: F401,F403
 
-__all__ = ['get_model_flops_params', 'get_model_latency']
+__all__ = ['get_model_flops_params', 'get_model_latency', 'keep_model_state']
diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 4a3e44d..d72eecc 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import sys
+from contextlib import contextmanager
 from functools import partial
 from typing import Dict, List
 
@@ -293,14 +294,18 @@ def print_model_with_flops_params(model,
     def del_extra_repr(m):
         """Recover origin extra_repr method."""
         if hasattr(m, 'original_extra_repr'):
-            m.extra_repr = m.original_extra_repr
+            del m.extra_repr
             del m.original_extra_repr
         if hasattr(m, 'accumulate_flops'):
             del m.accumulate_flops
+        if hasattr(m, 'accumulate_params'):
+            del m.accumulate_params
 
     model.apply(add_extra_repr)
-    print(model, file=ost, flush=flush)
-    model.apply(del_extra_repr)
+    try:
+        print(model, file=ost, flush=flush)
+    finally:
+        model.apply(del_extra_repr)
 
 
 def accumulate_sub_module_flops_params(model, units=None):
@@ -334,9 +339,9 @@ def accumulate_sub_module_flops_params(model, units=None):
                 sum += accumulate_flops(m)
             return sum
 
-    for module in model.modules():
-        _flops = accumulate_flops(module)
-        _params = accumulate_params(module)
+    accumulated = [(module, accumulate_flops(module),
+                    accumulate_params(module)) for module in model.modules()]
+    for module, _flops, _params in accumulated:
         module.__flops__ = _flops
         module.__params__ = _params
         if units is not None:
@@ -376,6 +381,24 @@ def add_flops_params_counting_methods(net_main_module):
     return net_main_module
 
 
+@contextmanager
+def keep_model_state(model):
+    """Leave the model as it was after counting its FLOPs and params, also
+    when the forward fails."""
+    training = {module: module.training for module in model.modules()}
+    try:
+        yield
+    finally:
+        stop_flops_params_count(model)
+        for name in ('start_flops_params_count', 'stop_flops_params_count',
+                     'reset_flops_params_count',
+                     'compute_average_flops_params_cost', '__batch_counter__'):
+            if name in model.__dict__:
+                delattr(model, name)
+        for module, mode in training.items():
+            module.training = mode
+
+
 def compute_average_flops_params_cost(self):
     """Compute average FLOPs and Params cost.
 
diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..eb63bf8 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -5,7 +5,8 @@ import torch.nn
 
 from mmrazor.registry import TASK_UTILS
 from .base_estimator import BaseEstimator
-from .counters import get_model_flops_params, get_model_latency
+from .counters import (get_model_flops_params, get_model_latency,
+                       keep_model_state)
 
 
 @TASK_UTILS.register_module()
@@ -117,27 +118,30 @@ class ResourceEstimator(BaseEstimator):
         resource_metrics = dict()
         measure_latency = True if latency_cfg else False
 
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or {})
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
 
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
             self._check_latency_cfg(latency_cfg)
             latency_cfg = self._set_default_resource_params(latency_cfg)
+            # the latency has a single unit
+            units = latency_cfg.pop('units')
+            latency_cfg.setdefault('unit', units.get('latency', 'ms'))
         else:
             latency_cfg = self.latency_cfg
 
-        model.eval()
-        flops, params = get_model_flops_params(model, **flops_params_cfg)
-        if measure_latency:
-            latency = get_model_latency(model, **latency_cfg)
-        else:
-            latency = '0.0 ms' if self.as_strings else 0.0  # type: ignore
+        with keep_model_state(model):
+            model.eval()
+            flops, params = get_model_flops_params(model, **flops_params_cfg)
+            if measure_latency:
+                latency = get_model_latency(model, **latency_cfg)
+            else:
+                latency = '0.0 ms' if self.as_strings else 0.0  # type: ignore
 
         resource_metrics.update({
             'flops': flops,
@@ -162,22 +166,22 @@ class ResourceEstimator(BaseEstimator):
                 params results (string | float format) of each modules in the
                 ``flops_params_cfg['spec_modules']``.
         """
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or {})
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
         flops_params_cfg['seperate_return'] = True
 
         assert len(flops_params_cfg['spec_modules']), (
             'spec_modules can not be empty when calling '
             f'`estimate_separation_modules` of {self.__class__.__name__} ')
 
-        model.eval()
-        spec_modules_resources = get_model_flops_params(
-            model, **flops_params_cfg)
+        with keep_model_state(model):
+            model.eval()
+            spec_modules_resources = get_model_flops_params(
+                model, **flops_params_cfg)
         return spec_modules_resources
 
     def _check_flops_params_cfg(self, flops_params_cfg: dict) -> None:
-- 
2.43.0


From aa21559711c3ac745d3ba7bf06521b5e772e1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 53/55] fix: dynamic attention can be deep copied after a pass
 and exports without qkv bias

---
 .../bricks/dynamic_multi_head_attention.py    | 27 ++++++++++---------
 .../bricks/dynamic_relative_position.py       | 13 +++++----
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 8dcd6de..5f23cb5 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -201,20 +201,21 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
             embed_dims=embed_dims,
             num_heads=num_heads,
             input_dims=None,
+            attn_drop_rate=self.attn_drop.p,
+            proj_drop_rate=self.proj_drop.p,
             relative_position=self.relative_position,
-            max_relative_position=self.max_relative_position)
-
-        static_mha.w_qs.weight = nn.Parameter(q_w.clone())
-        static_mha.w_qs.bias = nn.Parameter(q_b.clone())
-
-        static_mha.w_ks.weight = nn.Parameter(k_w.clone())
-        static_mha.w_ks.bias = nn.Parameter(k_b.clone())
-
-        static_mha.w_vs.weight = nn.Parameter(v_w.clone())
-        static_mha.w_vs.bias = nn.Parameter(v_b.clone())
-
-        static_mha.proj.weight = nn.Parameter(proj_w.clone())
-        static_mha.proj.bias = nn.Parameter(proj_b.clone())
+            max_relative_position=self.max_relative_position,
+            qkv_bias=self.w_qs.bias is not None,
+            qk_scale=self.scale,
+            proj_bias=self.proj.bias is not None)
+
+        for linear, weight, bias in ((static_mha.w_qs, q_w, q_b),
+                                     (static_mha.w_ks, k_w, k_b),
+                                     (static_mha.w_vs, v_w, v_b),
+                                     (static_mha.proj, proj_w, proj_b)):
+            linear.weight = nn.Parameter(weight.clone())
+            if bias is not None:
+                linear.bias = nn.Parameter(bias.clone())
 
         if self.relative_position:
             static_mha.rel_pos_embed_k = self.rel_pos_embed_k.to_static_op()
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..76e9746 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -82,7 +82,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
 
         self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
-            self.current_head_dim)
+            self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
             nn.Parameter(
                 self.embeddings_table_v[:, :self.current_head_dim].clone())
@@ -112,10 +112,9 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
         else:
             self.current_head_dim = self.mutable_head_dims.activated_channels
 
-        self.sample_eb_table_h = self.embeddings_table_h[:, :self.
-                                                         current_head_dim]
-        self.sample_eb_table_v = self.embeddings_table_v[:, :self.
-                                                         current_head_dim]
+        # tensors of a pass kept on the module could not be deep copied
+        sample_eb_table_h = self.embeddings_table_h[:, :self.current_head_dim]
+        sample_eb_table_v = self.embeddings_table_v[:, :self.current_head_dim]
 
         # remove the first cls token distance computation
         length_q = length_q - 1
@@ -148,7 +147,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
         final_mat_h = torch.LongTensor(final_mat_h)
         # get the embeddings with the corresponding distance
 
-        embeddings = self.sample_eb_table_v[final_mat_v] + \
-            self.sample_eb_table_h[final_mat_h]
+        embeddings = sample_eb_table_v[final_mat_v] + \
+            sample_eb_table_h[final_mat_h]
 
         return embeddings
-- 
2.43.0


From 81afed8fdb043491ff6e453fbb3d20ca7d97b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 54/55] fix: the last stage width of AttentiveMobileNetV3 is
 part of the subnet description

---
 .../models/architectures/backbones/searchable_mobilenet_v3.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
index b5fe373..eeab149 100644
--- a/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
+++ b/mmrazor/models/architectures/backbones/searchable_mobilenet_v3.py
@@ -303,6 +303,9 @@ class AttentiveMobileNetV3(BaseBackbone):
                                        self.fine_grained_mode)
                 mid_mutable = mutable_out_channels
 
+        # a last stage of one block has no other module that refers to it
+        self.derived_last_stage_channels = mid_mutable.derive_same_mutable()
+
         self.last_mutable_channels = OneShotMutableChannel(
             alias='backbone.last_channels',
             num_channels=self.out_channels,
-- 
2.43.0


From a66e4191d9c6962e6ee33c9c2b243da7b7c02c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 55/55] fix: a static batch norm keeps the number of batches
 tracked

---
 .../models/architectures/dynamic_ops/mixins/dynamic_mixins.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
index 2a610e5..c656305 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
@@ -276,6 +276,8 @@ class DynamicBatchNormMixin(DynamicChannelMixin):
             static_bn.running_var.copy_(running_var)
             static_bn.running_var = static_bn.running_var.to(
                 running_var.device)
+        if self.num_batches_tracked is not None:
+            static_bn.num_batches_tracked = self.num_batches_tracked.clone()
         if weight is not None:
             static_bn.weight = nn.Parameter(weight)
         if bias is not None:
-- 
2.43.0

