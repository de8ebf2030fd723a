From 08b95c64e1c682d0182c160a1e843d0ca13f0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 01/23] fix: constructors no longer skip validation when the
 calling user function is named like an instance generator

---
 pydtmc/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 3028080..edb209e 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -226,6 +226,10 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
 
 def get_caller(stack: _tstack) -> str:
 
+    # only the code located in the same module can be recognized as a caller
+    if stack[1][1] != stack[0][1]:
+        return ''
+
     caller = stack[1][3]
 
     return caller
-- 
2.43.0


From 17a0910d9d69a27d0067e1c8de1eb0514a6a8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 02/23] fix: expected_transitions propagates the distribution
 at each step and leaves the argument untouched

---
 pydtmc/measures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index a346288..d357b92 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -175,12 +175,12 @@ def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribu
 
     if steps <= p.shape[0]:
 
-        idist = initial_distribution
-        idist_sum = initial_distribution
+        idist = _np.copy(initial_distribution)
+        idist_sum = _np.copy(initial_distribution)
 
         for _ in range(steps - 1):
-            pi = _np.dot(idist, p)
-            idist_sum += pi
+            idist = _np.dot(idist, p)
+            idist_sum += idist
 
         et = idist_sum[:, _np.newaxis] * p
 
-- 
2.43.0


From 2bb93b6def7b3297096f7100bef1bd64ce093fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 03/23] fix: hidden Markov model restriction on symbols only
 compares against the number of symbols

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a250d8b..77cf9bb 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -171,7 +171,7 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     p, e = _np.copy(p), _np.copy(e)
 
     p_decrease = len(sub_states) < p.shape[0]
-    e_decrease = p_decrease or len(sub_symbols) < e.shape[0]
+    e_decrease = p_decrease or len(sub_symbols) < e.shape[1]
 
     if p_decrease:
         p = p[_np.ix_(sub_states, sub_states)]
-- 
2.43.0


From f0774f1ee7a18fdcb7b1858719d93f642837db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 04/23] fix: equal models always have equal hashes, negative
 zeros included

---
 pydtmc/hidden_markov_model.py | 3 ++-
 pydtmc/markov_chain.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 118e388..47868d4 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -180,7 +180,8 @@ class HiddenMarkovModel(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), self.e.tobytes(), tuple(self.states), tuple(self.symbols)))
+        # the addition normalizes negative zeros
+        return hash(((self.p + 0.0).tobytes(), (self.e + 0.0).tobytes(), tuple(self.states), tuple(self.symbols)))
 
     def __repr__(self) -> str:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ac6bc6f..9c2b84a 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -239,7 +239,8 @@ class MarkovChain(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), tuple(self.states)))
+        # the addition normalizes negative zeros
+        return hash(((self.p + 0.0).tobytes(), tuple(self.states)))
 
     def __repr__(self) -> str:
 
-- 
2.43.0


From 147389e0be1cb78439ed4de14a697ddb5f355909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 05/23] fix: from_file rejects probabilities outside the unit
 interval

---
 pydtmc/hidden_markov_model.py | 6 ++++++
 pydtmc/markov_chain.py        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 47868d4..15f9f0e 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -788,9 +788,15 @@ class HiddenMarkovModel(_Model):
             else:
                 p[states.index(element_from), states.index(element_to)] = probability
 
+        if not _np.all((p >= 0.0) & (p <= 1.0)):  # pragma: no cover
+            raise ValueError('The transition matrix defined by the file must contain only values between 0.0 and 1.0.')
+
         if not _np.allclose(_np.sum(p, axis=1), _np.ones(n, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the transition matrix defined by the dictionary must sum to 1.0.')
 
+        if not _np.all((e >= 0.0) & (e <= 1.0)):  # pragma: no cover
+            raise ValueError('The emission matrix defined by the file must contain only values between 0.0 and 1.0.')
+
         if not _np.allclose(_np.sum(e, axis=1), _np.ones(n, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the emission matrix defined by the dictionary must sum to 1.0.')
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 9c2b84a..bccc65f 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2454,6 +2454,9 @@ class MarkovChain(_Model):
         for (state_from, state_to), probability in d.items():
             p[states.index(state_from), states.index(state_to)] = probability
 
+        if not _np.all((p >= 0.0) & (p <= 1.0)):  # pragma: no cover
+            raise ValueError('The transition matrix defined by the file must contain only values between 0.0 and 1.0.')
+
         if not _np.allclose(_np.sum(p, axis=1), _np.ones(size, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the transition matrix defined by the file must sum to 1.0.')
 
-- 
2.43.0


From 808fa6e5fb1949a22cd3b93ffb92dab7f76d4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 06/23] fix: accessibility matrix no longer overflows on large
 chains

---
 pydtmc/markov_chain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index bccc65f..1bd65f2 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -392,11 +392,13 @@ class MarkovChain(_Model):
         A property representing the accessibility matrix of the Markov chain.
         """
 
-        a = self.adjacency_matrix
-        i = _np.eye(self.__size, dtype=int)
+        am = _np.eye(self.__size, dtype=int) | self.adjacency_matrix
+        k = 1
 
-        am = _npl.matrix_power(i + a, self.__size - 1)
-        am = (am > 0).astype(int)
+        # the intermediate results must be brought back to booleans in order to prevent integer overflows
+        while k < self.__size - 1:
+            am = (_np.dot(am, am) > 0).astype(int)
+            k *= 2
 
         return am
 
-- 
2.43.0


From abea7e2479e3f75dae9c1a7ffd1e727a0f383452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 07/23] fix: regularity is decided on the adjacency pattern
 with the proper exponent

---
 pydtmc/markov_chain.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 1bd65f2..ab97521 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -712,9 +712,17 @@ class MarkovChain(_Model):
         if nz > 0:
             k = (2 * self.__size) - nz - 1
         else:
-            k = self.__size**self.__size - (2 * self.__size) + 2
+            k = self.__size**2 - (2 * self.__size) + 2
 
-        result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
+        m = self.adjacency_matrix
+        i = 1
+
+        # once all the elements are positive, they remain positive for any greater power
+        while i < k:
+            m = (_np.dot(m, m) > 0).astype(int)
+            i *= 2
+
+        result = _np.all(m > 0)
 
         return result
 
-- 
2.43.0


From 51a2cdf09f6fe85c91265863366e5fe62217e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 08/23] fix: periods are ordered by state index, consistently
 with the communicating classes

---
 pydtmc/computations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c2421ba..55803ba 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -100,8 +100,10 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
 
     sccs = list(_nx.strongly_connected_components(graph))
 
-    classes = [sorted(scc) for scc in sccs]
-    indices = sorted(classes, key=lambda x: (-len(x), x[0]))
+    # the classes must be sorted by state index, consistently with the communicating classes
+    positions = {node: index for index, node in enumerate(graph.nodes)}
+    classes = [sorted(scc, key=positions.get) for scc in sccs]
+    indices = sorted(classes, key=lambda x: (-len(x), positions[x[0]]))
 
     periods = [0] * len(indices)
 
@@ -113,7 +115,7 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
             spl = _nx.shortest_path_length(graph, c).keys()
             scc_reachable = scc_reachable.union(spl)
 
-        index = indices.index(sorted(scc))
+        index = indices.index(sorted(scc, key=positions.get))
 
         if (scc_reachable - scc) == set():
             periods[index] = _calculate_period(graph.subgraph(scc))
-- 
2.43.0


From 8c6fb6bf0f718f7ad94dbe114da90bd4fa2f7d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 09/23] fix: conditional_probabilities returns a detached array

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ab97521..70d6a2d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1203,7 +1203,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = self.__p[state, :]
+        value = _np.copy(self.__p[state, :])
 
         return value
 
-- 
2.43.0


From 1a15a98527b96760eec07fa294057493f19bb643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 10/23] fix: the Moran model rejects selection intensities that
 produce negative probabilities

---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 70d6a2d..9ec777c 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2647,6 +2647,9 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
+        if model == 'moran' and s > 1.0:
+            raise _ValidationError('The selection intensity specified is too high for the Moran model.')
+
         if model == 'wright-fisher' and (4.0 * n * max(u, v)) > 1.0:
             raise _ValidationError('The highest mutation rate specified is too high for the Wright-Fisher model.')
 
-- 
2.43.0


From d8bd2ac50a8a075c2e1b0fe586c1017d556c33c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 11/23] fix: hidden Markov model simulation cannot select an
 impossible first state or symbol

---
 pydtmc/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 934d0fe..50ebd77 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -130,7 +130,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         state = 0
 
         for j in range(n - 2, -1, -1):
-            if pr_i > pc[current_state, j]:
+            if pr_i >= pc[current_state, j]:
                 state = j + 1
                 break
 
@@ -138,7 +138,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         symbol = 0
 
         for j in range(k - 2, -1, -1):
-            if er_i > ec[state, j]:
+            if er_i >= ec[state, j]:
                 symbol = j + 1
                 break
 
-- 
2.43.0


From b8da60929cc25642819adb022d5a671d39361888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 12/23] fix: models keep their own copy of the given labels

---
 pydtmc/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ceb195d..3fa519a 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -610,6 +610,8 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
     if size is not None and labels_length != size:
         raise ValueError(f'The "@arg@" parameter must contain a number of elements equal to {size:d}.')
 
+    value = value.copy()
+
     return value
 
 
-- 
2.43.0


From 557bff8c8828c4ae15be03ef88d3c3f71407d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 13/23] fix: validate_sequences does not alter the given list

---
 pydtmc/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 3fa519a..482bc59 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -911,6 +911,8 @@ def validate_sequences(value: _tany, labels: _tlist_str, flex: bool) -> _tlists_
 
     if value_type in ['integer', 'string']:
         value = [value]
+    else:
+        value = value.copy()
 
     for index, value_current in enumerate(value):
         try:
-- 
2.43.0


From d5189dc99cc5298cd99abf11eb66836cfef02c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 14/23] fix: mixing_time accepts convergence at the last
 allowed iteration

---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index d357b92..0ac903f 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -487,7 +487,7 @@ def mc_mixing_time(mc: _tmc, initial_distribution: _tarray, jump: int, cutoff: f
         d = d.dot(p)
         mt += jump
 
-    if iterations == 100:  # pragma: no cover
+    if tvd > cutoff:  # pragma: no cover
         return None
 
     return mt
-- 
2.43.0


From 6005c3180f30604651b301d80e34dec538c189ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 15/23] fix: Newton-Cotes quadrature nodes lie inside the given
 interval

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e4c8357..c3dddc3 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -259,7 +259,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
 
         bandwidth = (b - a) / size
 
-        nodes = (_np.arange(size) + 0.5) * bandwidth
+        nodes = a + ((_np.arange(size) + 0.5) * bandwidth)
         weights = _np.repeat(bandwidth, size)
 
     p = _np.zeros((size, size), dtype=float)
-- 
2.43.0


From 0532da90b067959582e5cb709a14ee99a16662f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 16/23] fix: states and symbols properties return detached
 lists

---
 pydtmc/hidden_markov_model.py | 4 ++--
 pydtmc/markov_chain.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 15f9f0e..b75ad09 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -278,7 +278,7 @@ class HiddenMarkovModel(_Model):
         A property representing the states of the hidden Markov model.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @property
     def symbols(self) -> _tlist_str:
@@ -287,7 +287,7 @@ class HiddenMarkovModel(_Model):
         A property representing the symbols of the hidden Markov model.
         """
 
-        return self.__symbols
+        return self.__symbols.copy()
 
     def decode(self, symbols: _tsequence, initial_status: _ostatus = None, use_scaling: bool = True) -> _ohmm_decoding:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 9ec777c..a979deb 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -976,7 +976,7 @@ class MarkovChain(_Model):
         A property representing the states of the Markov chain.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @_cached_property
     def topological_entropy(self) -> float:
-- 
2.43.0


From b06a2c24abde2498e16e792b22abf510f17a6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 17/23] fix: random hidden Markov models place zeros only among
 the free entries of incomplete rows

---
 pydtmc/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 77cf9bb..f8c8eab 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -106,7 +106,7 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
                 j = columns[rng.randint(0, _np.sum(row).item())]
                 pm_mask_internal[i, j] = _np.inf
 
-        pm_mask_unassigned = _np.isnan(pm_mask_internal)
+        pm_mask_unassigned &= _np.isnan(pm_mask_internal)
         indices_unassigned = _np.flatnonzero(pm_mask_unassigned)
 
         r = rng.permutation(pm_zeros_required)
@@ -119,6 +119,7 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
         m = _np.copy(pm_mask_internal)
         m_unassigned = _np.isnan(pm_mask_internal)
         m[m_unassigned] = _np.ravel(rng.rand(1, _np.sum(m_unassigned, dtype=int).item()))
+        m[m_unassigned & _np.expand_dims(pm_full_rows, 1)] = 0.0
 
         for i in rows_range:
 
-- 
2.43.0


From 725be94fd1f77594bd4e72f10773561236f820d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 18/23] fix: correlations, relaxations and transition counts do
 not need an eigendecomposition for small times

---
 pydtmc/markov_chain.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index a979deb..137ad5b 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1257,7 +1257,8 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = _expected_transitions(self.__p, self.__rdl_decomposition, steps, initial_distribution)
+        rdl = self.__rdl_decomposition if steps > self.__size else None
+        value = _expected_transitions(self.__p, rdl, steps, initial_distribution)
 
         return value
 
@@ -1878,7 +1879,9 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = _time_correlations(self, self.__rdl_decomposition, sequence1, sequence2, time_points)
+        last_time_point = time_points if isinstance(time_points, int) else time_points[-1]
+        rdl = self.__rdl_decomposition if last_time_point > self.__size else None
+        value = _time_correlations(self, rdl, sequence1, sequence2, time_points)
 
         return value
 
@@ -1909,7 +1912,9 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = _time_relaxations(self, self.__rdl_decomposition, sequence, initial_distribution, time_points)
+        last_time_point = time_points if isinstance(time_points, int) else time_points[-1]
+        rdl = self.__rdl_decomposition if last_time_point > self.__size else None
+        value = _time_relaxations(self, rdl, sequence, initial_distribution, time_points)
 
         return value
 
-- 
2.43.0


From 69df9120660104ed19fb4a67c6a63f8f9d451f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 19/23] fix: hitting probabilities and times come from the
 non-singular linear system over the states reaching the targets

---
 pydtmc/measures.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 0ac903f..dc4cf14 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -30,7 +30,6 @@ __all__ = [
 
 import numpy as _np
 import numpy.linalg as _npl
-import scipy.optimize as _spo
 
 # Internal
 
@@ -272,15 +271,19 @@ def mc_hitting_probabilities(mc: _tmc, targets: _tlist_int) -> _tarray:
     p, size = mc.p, mc.size
 
     target = _np.array(targets)
-    non_target = _np.setdiff1d(_np.arange(size, dtype=int), target)
 
-    hp = _np.ones(size, dtype=float)
+    hp = _np.zeros(size, dtype=float)
+    hp[target] = 1.0
 
-    if non_target.size > 0:
-        a = p[non_target, :][:, non_target] - _np.eye(non_target.size)
-        b = _np.sum(-p[non_target, :][:, target], axis=1)
-        x = _spo.nnls(a, b)[0]
-        hp[non_target] = x
+    # the minimal solution vanishes where the targets are unreachable, elsewhere the linear system is non-singular
+    reachable = _np.flatnonzero(_np.any(mc.accessibility_matrix[:, target] > 0, axis=1))
+    solve = _np.setdiff1d(reachable, target)
+
+    if solve.size > 0:
+        a = _np.eye(solve.size) - p[solve, :][:, solve]
+        b = _np.sum(p[solve, :][:, target], axis=1)
+        x = _npl.solve(a, b)
+        hp[solve] = _np.clip(x, 0.0, 1.0)
 
     return hp
 
@@ -309,9 +312,9 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
     solve = _np.setdiff1d(list(range(size)), _np.union1d(target, infinity))
 
     if solve.size > 0:
-        a = p[solve, :][:, solve] - _np.eye(solve.size)
-        b = -_np.ones(solve.size, dtype=float)
-        x = _spo.nnls(a, b)[0]
+        a = _np.eye(solve.size) - p[solve, :][:, solve]
+        b = _np.ones(solve.size, dtype=float)
+        x = _npl.solve(a, b)
         ht[solve] = x
 
     return ht
-- 
2.43.0


From 880bb3e6d02a7e7391841b408739839e35f8d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 20/23] fix: the mean number of visits is infinite exactly for
 reachable recurrent states

---
 pydtmc/measures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index dc4cf14..989a5a6 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -436,9 +436,12 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
     mnv = _np.zeros((size, size), dtype=float)
 
+    # recurrence and reachability (in at least one step) only depend on the structure of the chain
+    reachable = _np.dot(p > 0.0, mc.accessibility_matrix > 0)
+
     for j in range(size):
 
-        ct1 = _np.isclose(hp[j, j], 1.0)
+        ct1 = closed_states[j] or hp[j, j] >= 1.0
 
         if ct1:
             z = _np.nan
@@ -447,7 +450,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
         for i in range(size):
 
-            if _np.isclose(hp[i, j], 0.0):
+            if not reachable[i, j]:
                 mnv[i, j] = 0.0
             elif ct1:
                 mnv[i, j] = _np.inf
-- 
2.43.0


From 389b69b19a073812d8f84c4b3964e5f05bce1739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 21/23] fix: mean recurrence times of rarely visited states are
 not reported as zero

---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 989a5a6..29b44fe 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -467,7 +467,7 @@ def mc_mean_recurrence_times(mc: _tmc) -> _oarray:
 
     pi = mc.pi[0]
 
-    mrt = _np.array([0.0 if _np.isclose(v, 0.0) else 1.0 / v for v in pi])
+    mrt = _np.array([1.0 / v if v > 0.0 else _np.inf for v in pi])
 
     return mrt
 
-- 
2.43.0


From c94f47dc1de807ecf2d37ca3f472f462389cdeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 22/23] fix: absorbing states are those with no transition to
 other states

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 137ad5b..7535c26 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -273,7 +273,7 @@ class MarkovChain(_Model):
     @_cached_property
     def __absorbing_states_indices(self) -> _tlist_int:
 
-        indices = [index for index in range(self.__size) if _np.isclose(self.__p[index, index], 1.0)]
+        indices = [index for index in range(self.__size) if _np.array_equal(_np.flatnonzero(self.__p[index, :]), [index])]
 
         return indices
 
-- 
2.43.0


From d354d3ce7a70f24338a0d8d54c9573dbdcf024aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 23/23] fix: instance generators never return models that are
 not stochastic

---
 pydtmc/hidden_markov_model.py | 6 +++++-
 pydtmc/markov_chain.py        | 6 +++++-
 pydtmc/utilities.py           | 6 ++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index b75ad09..479b303 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -101,7 +101,8 @@ from .utilities import (
     create_rng as _create_rng,
     create_validation_error as _create_validation_error,
     get_caller as _get_caller,
-    get_instance_generators as _get_instance_generators
+    get_instance_generators as _get_instance_generators,
+    is_stochastic as _is_stochastic
 )
 
 from .validation import (
@@ -161,6 +162,9 @@ class HiddenMarkovModel(_Model):
             except Exception as ex:  # pragma: no cover
                 raise _create_validation_error(ex, _ins.trace()) from None
 
+        elif not _is_stochastic(p) or not _is_stochastic(e):  # pragma: no cover
+            raise _ValidationError('The resulting transition matrix and emission matrix are not stochastic.')
+
         if len(list(set(states) & set(symbols))) > 0:  # pragma: no cover
             raise _ValidationError('State names and symbol names must be different.')
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 7535c26..937c667 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -157,7 +157,8 @@ from .utilities import (
     create_validation_error as _create_validation_error,
     get_caller as _get_caller,
     get_instance_generators as _get_instance_generators,
-    get_numpy_random_distributions as _get_numpy_random_distributions
+    get_numpy_random_distributions as _get_numpy_random_distributions,
+    is_stochastic as _is_stochastic
 )
 
 from .validation import (
@@ -224,6 +225,9 @@ class MarkovChain(_Model):
             except Exception as ex:  # pragma: no cover
                 raise _create_validation_error(ex, _ins.trace()) from None
 
+        elif not _is_stochastic(p):  # pragma: no cover
+            raise _ValidationError('The resulting transition matrix is not stochastic.')
+
         self.__cache: _tcache = {}
         self.__digraph: _tgraph = _build_mc_graph(p, states)
         self.__p: _tarray = p
diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index edb209e..e36d811 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -24,6 +24,7 @@ __all__ = [
     'is_number',
     'is_pandas',
     'is_spmatrix',
+    'is_stochastic',
     'is_string',
     'is_tuple'
 ]
@@ -373,6 +374,11 @@ def is_spmatrix(value: _tany) -> bool:
     return isinstance(value, _spsp.spmatrix)
 
 
+def is_stochastic(value: _tarray) -> bool:
+
+    return bool(_np.all(value > -1e-8) and _np.allclose(_np.sum(value, axis=1), 1.0))
+
+
 def is_string(value: _tany) -> bool:
 
     return isinstance(value, str) and len(value.strip()) > 0
-- 
2.43.0

