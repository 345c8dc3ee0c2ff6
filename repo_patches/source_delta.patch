From 20e7a9c33fb21b84cc0ca19d84d4298b21c0306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 01/16] fix: refuse information sets with an index equal to n
 or with repeated indices

---
 src/komm/_error_control_block/SystematicBlockCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index bb4a169..5f92d2c 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -68,7 +68,8 @@ class SystematicBlockCode(abc.BlockCode):
         if (
             self.information_set.size != k
             or self.information_set.min() < 0
-            or self.information_set.max() > n
+            or self.information_set.max() >= n
+            or np.unique(self.information_set).size != k
         ):
             raise ValueError("'information_set' must be a 'k'-sublist of 'range(n)'")
 
-- 
2.43.0


From 9f225746620ea30dbfd0920bc8c9e94647591bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 02/16] fix: terminate the coset leader search for codes
 without redundancy

---
 src/komm/_error_control_block/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_error_control_block/base.py b/src/komm/_error_control_block/base.py
index 7b8dcda..f5a58c2 100644
--- a/src/komm/_error_control_block/base.py
+++ b/src/komm/_error_control_block/base.py
@@ -198,6 +198,8 @@ class BlockCode(ABC):
         count = 1
         syndromes = [0]
         leaders = np.zeros((2**m, n), dtype=int)
+        if m == 0:
+            return leaders
         pbar = tqdm(
             total=2**m,
             desc="Generating coset leaders",
@@ -239,6 +241,9 @@ class BlockCode(ABC):
         syndromes = [0]
         weight = 0
         distribution = np.zeros(n + 1, dtype=int)
+        if m == 0:
+            distribution[0] = 1
+            return distribution
         pbar = tqdm(
             total=2**m,
             desc="Computing coset leader weight distribution",
-- 
2.43.0


From 4b923b68e1f5da5916d5350b2536af2b79c0e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 03/16] fix: honour a width of zero in the coefficients of a
 binary polynomial

A cyclic code without redundancy returned one syndrome bit per block.
---
 src/komm/_algebra/BinaryPolynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index c5b30ef..fdcb3af 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -182,7 +182,9 @@ class BinaryPolynomial:
             >>> poly.coefficients(width=8)
             array([0, 1, 0, 1, 1, 0, 0, 0])
         """
-        return int_to_bits(self.value, width=width or max(self.degree + 1, 1))
+        if width is None:
+            width = max(self.degree + 1, 1)
+        return int_to_bits(self.value, width=width)
 
     def exponents(self) -> npt.NDArray[np.integer]:
         r"""
-- 
2.43.0


From 77546c98cd7733f44b98c5cb1bfb7997de6e5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 04/16] fix: realise high-rate convolutional encoders of degree
 zero

---
 .../HighRateConvolutionalCode.py                             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
index 3801b13..1f17906 100644
--- a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
@@ -205,12 +205,13 @@ class HighRateConvolutionalCode(abc.ConvolutionalCode):
         beta = np.fliplr(beta)
         alpha = np.array([self.h_row[-1].coefficients(σ + 1)])
         alpha = np.fliplr(alpha)
-        A_mat = np.vstack([np.eye(σ - 1, σ, k=1, dtype=int), alpha[:, :-1]])
+        A_mat = np.eye(σ, k=1, dtype=int)
+        A_mat[-1:] = alpha[:, :-1]
         B_mat = np.empty((n - 1, σ), dtype=int)
         for j in range(σ):
             B_mat[:, j] = beta[:, j] ^ (alpha[0, j] * beta[:, -1])
         C_mat = np.zeros((σ, n), dtype=int)
-        C_mat[-1, -1] = 1
+        C_mat[-1:, -1] = 1
         D_mat = np.hstack([np.eye(n - 1, dtype=int), beta[:, -1:]])
         return A_mat, B_mat, C_mat, D_mat
 
-- 
2.43.0


From 13a76ba354836dae0dd7d6e27a67036e44926d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 05/16] fix: zero-terminate convolutional encoders without
 memory

---
 .../TerminatedConvolutionalCode.py                     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 086277e..2e3cdcf 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -243,6 +243,8 @@ class ZeroTermination(TerminationStrategy):
         h = self.num_blocks
         μ = self.convolutional_code.memory_order
         σ = self.convolutional_code.degree
+        if μ == 0:
+            return np.zeros((h * self.convolutional_code.num_input_bits, 0), dtype=int)
         A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
         A_pow = [np.eye(σ, dtype=int)]
         for _ in range(1, h + μ):
@@ -269,8 +271,8 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[:, 0][:-μ]
+        h = self.num_blocks
+        x_hat = xs_hat[:, 0][:h]
         return x_hat
 
     def bcjr_initial_final_distributions(
@@ -283,8 +285,8 @@ class ZeroTermination(TerminationStrategy):
     def bcjr_post_process_output(
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
-        μ = self.convolutional_code.memory_order
-        return posteriors[:-μ]
+        h = self.num_blocks
+        return posteriors[:h]
 
 
 class TailBiting(TerminationStrategy):
-- 
2.43.0


From cd4714710614097d3180aac0f950ed3df228bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 06/16] fix: make each invariant factor divide the next

---
 src/komm/_util/matrices.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 3543e94..150338d 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -266,4 +266,15 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
         for j in range(n):
             matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
 
+    # E4: Start over while some entry of row 0 or column 0 is nonzero, or not a multiple of a0
+    for i, j in product(range(k), range(n)):
+        a = BP(matrix[i, j])
+        if (i, j) == (0, 0) or a == 0:
+            continue
+        if i == 0 or j == 0:
+            return invariant_factors(matrix)
+        if a % a0 != 0:
+            matrix[0, :] ^= matrix[i, :]
+            return invariant_factors(matrix)
+
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0


From eb837be9022c79c23bbac9be9dbd3c6afcb5b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 07/16] fix: follow parallel transitions in the Viterbi and
 forward-backward algorithms

---
 .../_finite_state_machine/MealyMachine.py     | 46 ++++++++++++-------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index fb01942..ca18224 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -1,7 +1,7 @@
 from collections.abc import Callable
 from functools import cached_property
 from itertools import product
-from typing import Any, TypedDict
+from typing import Any, NotRequired, TypedDict
 
 import numpy as np
 import numpy.typing as npt
@@ -10,6 +10,7 @@ import numpy.typing as npt
 class MetricMemory(TypedDict):
     paths: npt.NDArray[np.integer]
     metrics: npt.NDArray[np.floating]
+    inputs: NotRequired[npt.NDArray[np.integer]]
 
 
 class MealyMachine:
@@ -211,6 +212,7 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         choices = np.zeros((L, num_states), dtype=int)
+        inputs = np.zeros((L, num_states), dtype=int)
         metrics = np.full((L + 1, num_states), fill_value=np.inf)
         if initial_metrics is None:
             metrics[0, :] = np.zeros(num_states, dtype=float)
@@ -218,20 +220,22 @@ class MealyMachine:
             metrics[0, :] = initial_metrics
         for t, z in enumerate(observed):
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                for x, (s1, y) in enumerate(
+                    zip(self.transitions[s0], self.outputs[s0])
+                ):
                     candidate_metrics = metrics[t, s0] + metric_function(y, z)
                     if candidate_metrics < metrics[t + 1, s1]:
                         metrics[t + 1, s1] = candidate_metrics
                         choices[t, s1] = s0
+                        inputs[t, s1] = x
 
         # Backtrack
         input_hat = np.empty((L, num_states), dtype=int)
         for final_state in range(num_states):
             s1 = final_state
             for t in reversed(range(L)):
-                s0 = choices[t, s1]
-                input_hat[t, final_state] = self.input_edges[s0, s1]
-                s1 = s0
+                input_hat[t, final_state] = inputs[t, s1]
+                s1 = choices[t, s1]
 
         return input_hat, metrics[L, :]
 
@@ -257,28 +261,37 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         input_hat = np.empty(L, dtype=int)
+        if "inputs" not in memory:
+            memory["inputs"] = np.zeros_like(memory["paths"])
         for t, z in enumerate(observed):
             new_metrics = np.full(num_states, fill_value=np.inf)
             choices = np.zeros(num_states, dtype=int)
+            inputs = np.zeros(num_states, dtype=int)
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                for x, (s1, y) in enumerate(
+                    zip(self.transitions[s0], self.outputs[s0])
+                ):
                     candidate_metric = memory["metrics"][s0, -1] + metric_function(y, z)
                     if candidate_metric < new_metrics[s1]:
                         new_metrics[s1] = candidate_metric
                         choices[s1] = s0
+                        inputs[s1] = x
 
             s_star = np.argmin(new_metrics)
-            s0, s1 = memory["paths"][s_star, :2]
-            input_hat[t] = self.input_edges[s0, s1]
+            input_hat[t] = memory["inputs"][s_star, 1]
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
             memory["metrics"][:, -1] = new_metrics
             memory["paths"] = np.roll(memory["paths"], shift=-1, axis=1)
+            memory["inputs"] = np.roll(memory["inputs"], shift=-1, axis=1)
 
             paths_copy = np.copy(memory["paths"])
+            inputs_copy = np.copy(memory["inputs"])
             for s1, s0 in enumerate(choices):
                 memory["paths"][s1, :-1] = paths_copy[s0, :-1]
                 memory["paths"][s1, -1] = s1
+                memory["inputs"][s1, :-1] = inputs_copy[s0, :-1]
+                memory["inputs"][s1, -1] = inputs[s1]
 
         return input_hat
 
@@ -318,7 +331,7 @@ class MealyMachine:
         if final_state_distribution is None:
             final_state_distribution = np.ones(num_states) / num_states
 
-        log_gamma = np.full((L, num_states, num_states), fill_value=-np.inf)
+        log_gamma = np.empty((L, num_states, num_input_symbols))
         log_alpha = np.full((L + 1, num_states), fill_value=-np.inf)
         log_beta = np.full((L + 1, num_states), fill_value=-np.inf)
 
@@ -329,19 +342,20 @@ class MealyMachine:
 
         for t, z in enumerate(observed):
             for x, s0 in product(range(num_input_symbols), range(num_states)):
-                y, s1 = self.outputs[s0, x], self.transitions[s0, x]
-                log_gamma[t, s0, s1] = log_input_priors[t, x] + metric_function(y, z)
+                y = self.outputs[s0, x]
+                log_gamma[t, s0, x] = log_input_priors[t, x] + metric_function(y, z)
 
         for t in range(0, L - 1):
-            for s1 in range(num_states):
-                log_alpha[t + 1, s1] = np.logaddexp.reduce(
-                    log_gamma[t, :, s1] + log_alpha[t, :]
+            for x, s0 in product(range(num_input_symbols), range(num_states)):
+                s1 = self.transitions[s0, x]
+                log_alpha[t + 1, s1] = np.logaddexp(
+                    log_alpha[t + 1, s1], log_gamma[t, s0, x] + log_alpha[t, s0]
                 )
 
         for t in range(L - 1, -1, -1):
             for s0 in range(num_states):
                 log_beta[t, s0] = np.logaddexp.reduce(
-                    log_gamma[t, s0, :] + log_beta[t + 1, :]
+                    log_gamma[t, s0, :] + log_beta[t + 1, self.transitions[s0]]
                 )
 
         log_input_posteriors = np.empty((L, num_input_symbols), dtype=float)
@@ -351,7 +365,7 @@ class MealyMachine:
                 for s0 in range(num_states):
                     s1 = self.transitions[s0, x]
                     edge_labels[s0] = (
-                        log_alpha[t, s0] + log_gamma[t, s0, s1] + log_beta[t + 1, s1]
+                        log_alpha[t, s0] + log_gamma[t, s0, x] + log_beta[t + 1, s1]
                     )
                 log_input_posteriors[t, x] = np.logaddexp.reduce(edge_labels)
 
-- 
2.43.0


From 7f444b676d7b83efea60e197eaca5d3ffe1724d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 08/16] fix: let the streaming Viterbi algorithm decide on the
 survivor of best metric

---
 src/komm/_finite_state_machine/MealyMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index ca18224..2f4c6f6 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -277,7 +277,7 @@ class MealyMachine:
                         choices[s1] = s0
                         inputs[s1] = x
 
-            s_star = np.argmin(new_metrics)
+            s_star = choices[np.argmin(new_metrics)]
             input_hat[t] = memory["inputs"][s_star, 1]
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
-- 
2.43.0


From de06b793df316ac1bdd88121dc070ba171456ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:01 +0000
Subject: [PATCH 09/16] fix: refuse indices and bits out of range in natural
 and reflected labelings

---
 src/komm/_labelings/NaturalLabeling.py   | 5 +++--
 src/komm/_labelings/ReflectedLabeling.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_labelings/NaturalLabeling.py b/src/komm/_labelings/NaturalLabeling.py
index 6971a38..6a383ce 100644
--- a/src/komm/_labelings/NaturalLabeling.py
+++ b/src/komm/_labelings/NaturalLabeling.py
@@ -6,6 +6,7 @@ import numpy.typing as npt
 
 from .. import abc
 from .._util.bit_operations import bits_to_int, int_to_bits
+from .._util.validators import validate_integer_range
 
 
 class NaturalLabeling(abc.Labeling):
@@ -82,7 +83,7 @@ class NaturalLabeling(abc.Labeling):
                    [1, 1, 1, 1]])
         """
         m = self._num_bits
-        indices = np.asarray(indices, dtype=int)
+        indices = validate_integer_range(indices, high=self.cardinality)
         bits = int_to_bits(indices, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -97,7 +98,7 @@ class NaturalLabeling(abc.Labeling):
                    [3, 3]])
         """
         m = self._num_bits
-        bits = np.asarray(bits, dtype=int)
+        bits = validate_integer_range(bits)
         indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = cast(npt.NDArray[np.integer], indices)
         return indices.reshape(*bits.shape[:-1], -1)
diff --git a/src/komm/_labelings/ReflectedLabeling.py b/src/komm/_labelings/ReflectedLabeling.py
index 744337e..17d2505 100644
--- a/src/komm/_labelings/ReflectedLabeling.py
+++ b/src/komm/_labelings/ReflectedLabeling.py
@@ -5,6 +5,7 @@ import numpy.typing as npt
 
 from .. import abc
 from .._util.bit_operations import bits_to_int, int_to_bits
+from .._util.validators import validate_integer_range
 
 
 class ReflectedLabeling(abc.Labeling):
@@ -81,7 +82,7 @@ class ReflectedLabeling(abc.Labeling):
                    [1, 0, 1, 0]])
         """
         m = self._num_bits
-        indices = np.asarray(indices, dtype=int)
+        indices = validate_integer_range(indices, high=self.cardinality)
         bits = int_to_bits(indices ^ indices >> 1, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -96,7 +97,7 @@ class ReflectedLabeling(abc.Labeling):
                    [3, 3]])
         """
         m = self._num_bits
-        bits = np.asarray(bits, dtype=int)
+        bits = validate_integer_range(bits)
         nat_indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = np.zeros_like(nat_indices)
         for shift in range(m):
-- 
2.43.0


From 46cbba0f4958a800f117d2fd0a7ea2758dc731a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:18 +0000
Subject: [PATCH 10/16] fix: constellations with an order of one: mean of PSK
 and APSK rings, minimum distance of QAM

---
 src/komm/_constellations/APSKConstellation.py | 2 +-
 src/komm/_constellations/PSKConstellation.py  | 2 +-
 src/komm/_constellations/QAMConstellation.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_constellations/APSKConstellation.py b/src/komm/_constellations/APSKConstellation.py
index c584d17..aa86c6f 100644
--- a/src/komm/_constellations/APSKConstellation.py
+++ b/src/komm/_constellations/APSKConstellation.py
@@ -131,7 +131,7 @@ class APSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and 1 not in self._orders:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index f62b50b..bb0a884 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -106,7 +106,7 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
             >>> const.mean()
             array([0.+0.j])
         """
-        if priors is None:
+        if priors is None and self._order > 1:
             return np.zeros((1,), dtype=complex)
         return super().mean(priors)
 
diff --git a/src/komm/_constellations/QAMConstellation.py b/src/komm/_constellations/QAMConstellation.py
index 53e686f..63f35f1 100644
--- a/src/komm/_constellations/QAMConstellation.py
+++ b/src/komm/_constellations/QAMConstellation.py
@@ -175,7 +175,7 @@ class QAMConstellation(abc.Constellation[np.complexfloating]):
             >>> const.minimum_distance()
             2.0
         """
-        return min(self._deltas)
+        return min(δ for M, δ in zip(self._orders, self._deltas) if M > 1)
 
     def indices_to_symbols(
         self, indices: npt.ArrayLike
-- 
2.43.0


From ad097fb00e43d8eacab9a514b2862f6002eed9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:52 +0000
Subject: [PATCH 11/16] fix: refuse empty codewords in fixed-to-variable codes

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 8975e4f..9893045 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -51,7 +51,9 @@ class FixedToVariableCode:
             raise ValueError("'source_block_size' must be at least 1")
         if set(domain) != set(product(range(calX), repeat=k)):
             raise ValueError("'enc_mapping': invalid domain")
-        if not all(all(0 <= x < calY for x in word) for word in codomain):
+        if not all(
+            all(0 <= x < calY for x in word) and len(word) > 0 for word in codomain
+        ):
             raise ValueError("'enc_mapping': invalid co-domain")
 
     def __repr__(self) -> str:
-- 
2.43.0


From db7d1bf0e7c6495286ed37c6255615ae35dfcddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:52 +0000
Subject: [PATCH 12/16] fix: Tunstall code splits one node too few when the
 count divides evenly

---
 src/komm/_lossless_coding/TunstallCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/TunstallCode.py b/src/komm/_lossless_coding/TunstallCode.py
index 82136a1..91bd100 100644
--- a/src/komm/_lossless_coding/TunstallCode.py
+++ b/src/komm/_lossless_coding/TunstallCode.py
@@ -104,7 +104,7 @@ def tunstall_code(
             return -self.probability < -other.probability
 
     S, n = pmf.size, target_block_size
-    K = ceil((2**n - S) / (S - 1)) - 1  # See [Say06, p. 70]
+    K = (2**n - S) // (S - 1)  # See [Say06, p. 70]
     size = S + K * (S - 1)
 
     pbar = tqdm(desc="Generating Tunstall code", total=K * S + size, delay=2.5)
-- 
2.43.0


From 5feff70d8b77ffe3ecc0f8dcbabeddc5348e0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:44 +0000
Subject: [PATCH 13/16] fix: LZ77 and LZSS codes for alphabets of more than 256
 symbols

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 4 ++--
 src/komm/_lossless_coding/LempelZivSSCode.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 6e998a2..29b1d0e 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -105,7 +105,7 @@ class LempelZiv77Code:
         """
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
-        buffer = bytes(self.search_buffer + source.tolist())
+        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZ77", delay=2.5)
@@ -117,7 +117,7 @@ class LempelZiv77Code:
                 if p >= 0:
                     break
                 l -= 1
-            tokens.append((p, l, buffer[i + l]))
+            tokens.append((p, l, ord(buffer[i + l])))
             i += l + 1
             pbar.update(l + 1)
 
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 4146c43..b325b34 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -121,7 +121,7 @@ class LempelZivSSCode:
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
         break_even = self.break_even
-        buffer = bytes(self.search_buffer + source.tolist())
+        buffer = "".join(map(chr, self.search_buffer + source.tolist()))
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZSS", delay=2.5)
@@ -138,7 +138,7 @@ class LempelZivSSCode:
                 i += l
                 pbar.update(l)
             else:  # Literal
-                tokens.append((0, buffer[i]))
+                tokens.append((0, ord(buffer[i])))
                 i += 1
                 pbar.update(1)
 
-- 
2.43.0


From 4ae3654b22610b179dbcae369f2d3ee38b185a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:43 +0000
Subject: [PATCH 14/16] fix: refuse a rectangular pulse width outside (0, 1]

---
 src/komm/_pulses/RectangularPulse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_pulses/RectangularPulse.py b/src/komm/_pulses/RectangularPulse.py
index 3520e2f..072d6b5 100644
--- a/src/komm/_pulses/RectangularPulse.py
+++ b/src/komm/_pulses/RectangularPulse.py
@@ -42,6 +42,10 @@ class RectangularPulse(abc.Pulse):
 
     width: float = 1.0
 
+    def __post_init__(self) -> None:
+        if not 0 < self.width <= 1:
+            raise ValueError("'width' must satisfy 0 < width <= 1")
+
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
         For the rectangular pulse, it is given by
-- 
2.43.0


From f63fc6b3324537021e144e7d19cdc7209eadd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 15/16] fix: order of states in MarkovChain absorption figures

---
 src/komm/_sources/MarkovChain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 9774aac..b08bf4b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -479,7 +479,7 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        transient = list(self.transient_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         Q = P[np.ix_(transient, transient)]
         I = np.eye(len(transient))
@@ -535,8 +535,8 @@ class MarkovChain:
                    [0.33333333, 0.66666667]])
         """
         N = self.mean_number_of_visits()
-        absorbing = list(self.absorbing_states())
-        transient = list(self.transient_states())
+        absorbing = sorted(self.absorbing_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         R = P[np.ix_(transient, absorbing)]
         B = N @ R
-- 
2.43.0


From 1b984ef6dc495a0f5bdd34aefc375e3080ec0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:59 +0000
Subject: [PATCH 16/16] fix: Lempel-Ziv field widths for sizes that are powers
 of the target cardinality

---
 src/komm/_lossless_coding/LempelZiv77Code.py    | 10 ++++------
 src/komm/_lossless_coding/LempelZiv78Code.py    | 11 +++++------
 src/komm/_lossless_coding/LempelZivSSCode.py    | 10 +++++-----
 src/komm/_lossless_coding/LempelZivWelchCode.py | 11 +++++------
 src/komm/_lossless_coding/util.py               |  9 +++++++++
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 29b1d0e..e318dda 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -1,11 +1,9 @@
-from math import ceil, log
-
 import numpy as np
 import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import integer_to_symbols, integer_width, symbols_to_integer
 
 Token = tuple[int, int, int]
 
@@ -84,9 +82,9 @@ class LempelZiv77Code:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = integer_width(self.search_size, base=calY)
+        l_width = integer_width(self.lookahead_size, base=calY)
+        x_width = integer_width(self.source_cardinality, base=calY)
         return p_width, l_width, x_width
 
     def source_to_tokens(self, source: npt.ArrayLike) -> list[Token]:
diff --git a/src/komm/_lossless_coding/LempelZiv78Code.py b/src/komm/_lossless_coding/LempelZiv78Code.py
index 786bfcc..bf2af7e 100644
--- a/src/komm/_lossless_coding/LempelZiv78Code.py
+++ b/src/komm/_lossless_coding/LempelZiv78Code.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, integer_to_symbols, integer_width, symbols_to_integer
 
 Token = tuple[int, int]
 
@@ -93,10 +92,10 @@ class LempelZiv78Code:
             array([1, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0])
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = integer_width(calX, base=calY)
         target: list[int] = []
         for i, (p, x) in enumerate(tokens):
-            k = ceil(log(i + 1, calY))
+            k = integer_width(i + 1, base=calY)
             target.extend(integer_to_symbols(p, base=calY, width=k))
             if x >= 0:
                 target.extend(integer_to_symbols(x, base=calY, width=M))
@@ -112,12 +111,12 @@ class LempelZiv78Code:
             [(0, 1), (0, 0), (1, 1), (2, 1), (4, 0), (2, 0)]
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = integer_width(calX, base=calY)
         target = np.asarray(target, dtype=int)
         tokens: list[Token] = []
         i = 0
         while i < target.size:
-            k = ceil(log(len(tokens) + 1, calY))
+            k = integer_width(len(tokens) + 1, base=calY)
             p = int(symbols_to_integer(target[i : i + k], base=calY))
             i += k
             if i < target.size:
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index b325b34..b5eae24 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -1,4 +1,4 @@
-from math import ceil, log
+from math import ceil
 from typing import Literal
 
 import numpy as np
@@ -6,7 +6,7 @@ import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import integer_to_symbols, integer_width, symbols_to_integer
 
 Token = tuple[Literal[0], int] | tuple[Literal[1], int, int]
 
@@ -85,9 +85,9 @@ class LempelZivSSCode:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = integer_width(self.search_size, base=calY)
+        l_width = integer_width(self.lookahead_size, base=calY)
+        x_width = integer_width(self.source_cardinality, base=calY)
         return p_width, l_width, x_width
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivWelchCode.py b/src/komm/_lossless_coding/LempelZivWelchCode.py
index 874c564..6641870 100644
--- a/src/komm/_lossless_coding/LempelZivWelchCode.py
+++ b/src/komm/_lossless_coding/LempelZivWelchCode.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, integer_to_symbols, integer_width, symbols_to_integer
 
 
 @dataclass
@@ -65,14 +64,14 @@ class LempelZivWelchCode:
             if word + (symbol,) in dictionary:
                 word += (symbol,)
                 continue
-            k = ceil(log(len(dictionary), calY))
+            k = integer_width(len(dictionary), base=calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
             dictionary[word + (symbol,)] = len(dictionary)
             word = (symbol,)
 
         if word:
-            k = ceil(log(len(dictionary), calY))
+            k = integer_width(len(dictionary), base=calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
 
@@ -106,7 +105,7 @@ class LempelZivWelchCode:
         dictionary: dict[int, Word] = {s: (s,) for s in range(calX)}
         output: list[int] = []
 
-        k = ceil(log(calX, calY))
+        k = integer_width(calX, base=calY)
         pointer = symbols_to_integer(input[:k], base=calY)
         old = dictionary[pointer]
         output.extend(old)
@@ -114,7 +113,7 @@ class LempelZivWelchCode:
         i = k
         pbar = tqdm(total=input.size, desc="Decompressing LZW", delay=2.5, initial=k)
         while True:
-            k = ceil(log(len(dictionary) + 1, calY))
+            k = integer_width(len(dictionary) + 1, base=calY)
             if i + k > input.size:
                 break
             pointer = symbols_to_integer(input[i : i + k], base=calY)
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index c56da84..4b5cfbf 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -177,6 +177,15 @@ def canonical_code(lengths: npt.ArrayLike, base: int = 2) -> list[Word]:
     return codewords
 
 
+def integer_width(size: int, base: int) -> int:
+    # Number of symbols needed to represent the integers in [0 : size), that is, ceil(log(size)).
+    width, power = 0, 1
+    while power < size:
+        power *= base
+        width += 1
+    return width
+
+
 def integer_to_symbols(integer: int, base: int, width: int) -> Word:
     symbols: list[int] = []
     for _ in range(width):
-- 
2.43.0

