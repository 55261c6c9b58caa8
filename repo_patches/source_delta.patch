From 5b7b009618a7b1e32bb175c0643555c9a60f678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 01/72] fix: a state with a small probability of being left is
 not absorbing

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ac6bc6f..e059905 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -272,7 +272,7 @@ class MarkovChain(_Model):
     @_cached_property
     def __absorbing_states_indices(self) -> _tlist_int:
 
-        indices = [index for index in range(self.__size) if _np.isclose(self.__p[index, index], 1.0)]
+        indices = [index for index in range(self.__size) if _np.count_nonzero(self.__p[index, :]) == 1 and self.__p[index, index] > 0.0]
 
         return indices
 
-- 
2.43.0


From 84e1c41b5daeac81f81ed43b057697cb39b7335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 02/72] fix: list the periods in the order of the communicating
 classes for any state names

---
 pydtmc/computations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c2421ba..3bb22dc 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -100,8 +100,9 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
 
     sccs = list(_nx.strongly_connected_components(graph))
 
-    classes = [sorted(scc) for scc in sccs]
-    indices = sorted(classes, key=lambda x: (-len(x), x[0]))
+    nodes = {node: index for index, node in enumerate(graph.nodes)}
+    classes = [sorted(scc, key=nodes.get) for scc in sccs]
+    indices = sorted(classes, key=lambda x: (-len(x), nodes[x[0]]))
 
     periods = [0] * len(indices)
 
@@ -113,7 +114,7 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
             spl = _nx.shortest_path_length(graph, c).keys()
             scc_reachable = scc_reachable.union(spl)
 
-        index = indices.index(sorted(scc))
+        index = indices.index(sorted(scc, key=nodes.get))
 
         if (scc_reachable - scc) == set():
             periods[index] = _calculate_period(graph.subgraph(scc))
-- 
2.43.0


From 90b37d101ae9451f08a2d7e0df122d835859a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 03/72] fix: compute the accessibility matrix without integer
 overflow

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index e059905..d36de76 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -394,8 +394,8 @@ class MarkovChain(_Model):
         a = self.adjacency_matrix
         i = _np.eye(self.__size, dtype=int)
 
-        am = _npl.matrix_power(i + a, self.__size - 1)
-        am = (am > 0).astype(int)
+        am = _npl.matrix_power((i + a) > 0, self.__size - 1)
+        am = am.astype(int)
 
         return am
 
-- 
2.43.0


From 4c47bccfe26d3038d7055bc48b4607548013791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 04/72] fix: decide regularity on the support with the Wielandt
 exponent, without overflow or underflow

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index d36de76..6674029 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -709,9 +709,9 @@ class MarkovChain(_Model):
         if nz > 0:
             k = (2 * self.__size) - nz - 1
         else:
-            k = self.__size**self.__size - (2 * self.__size) + 2
+            k = self.__size**2 - (2 * self.__size) + 2
 
-        result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
+        result = _np.all(_npl.matrix_power(self.__p > 0.0, k))
 
         return result
 
-- 
2.43.0


From 208fd801efd2018817b41cd24f59394925a000ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 05/72] fix: the aperiodicity of a reducible chain depends only
 on the periods of its recurrent classes

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 6674029..3f9ddb4 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -642,7 +642,7 @@ class MarkovChain(_Model):
         elif all(period == 1 for period in self.periods):
             result = True
         else:  # pragma: no cover
-            result = _nx.is_aperiodic(self.__digraph)
+            result = _mt.gcd(*[self.periods[self.communicating_classes.index(recurrent_class)] for recurrent_class in self.recurrent_classes]) == 1
 
         return result
 
-- 
2.43.0


From 6b3d34473c79e6f242b1f7f21a851d79d0c13ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 06/72] fix: solve the hitting equations directly on the states
 which can reach the targets

---
 pydtmc/measures.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index a346288..b4607cb 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -30,7 +30,6 @@ __all__ = [
 
 import numpy as _np
 import numpy.linalg as _npl
-import scipy.optimize as _spo
 
 # Internal
 
@@ -277,10 +276,13 @@ def mc_hitting_probabilities(mc: _tmc, targets: _tlist_int) -> _tarray:
     hp = _np.ones(size, dtype=float)
 
     if non_target.size > 0:
-        a = p[non_target, :][:, non_target] - _np.eye(non_target.size)
-        b = _np.sum(-p[non_target, :][:, target], axis=1)
-        x = _spo.nnls(a, b)[0]
-        hp[non_target] = x
+
+        hp[non_target] = 0.0
+        solve = non_target[_np.any(mc.accessibility_matrix[_np.ix_(non_target, target)] != 0, axis=1)]
+
+        a = p[solve, :][:, solve] - _np.eye(solve.size)
+        b = _np.sum(-p[solve, :][:, target], axis=1)
+        hp[solve] = _npl.solve(a, b)
 
     return hp
 
@@ -291,10 +293,9 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
 
     target = _np.array(targets)
 
-    hp = mc_hitting_probabilities(mc, targets)
     ht = _np.zeros(size, dtype=float)
 
-    infinity = _np.flatnonzero(_np.isclose(hp, 0.0))
+    infinity = _np.flatnonzero(_np.all(mc.accessibility_matrix[:, target] == 0, axis=1))
     current_size = infinity.size
     new_size = 0
 
@@ -311,7 +312,7 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
     if solve.size > 0:
         a = p[solve, :][:, solve] - _np.eye(solve.size)
         b = -_np.ones(solve.size, dtype=float)
-        x = _spo.nnls(a, b)[0]
+        x = _npl.solve(a, b)
         ht[solve] = x
 
     return ht
-- 
2.43.0


From 1fbf290eb160beac7e8bc01349705f9fa780c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 07/72] fix: decide structurally which mean numbers of visits
 are null or infinite

---
 pydtmc/measures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index b4607cb..0886389 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -381,7 +381,7 @@ def mc_mean_first_passage_times_to(mc: _tmc, targets: _olist_int) -> _oarray:
 
 def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
-    p, size, states, cm = mc.p, mc.size, mc.states, mc.communication_matrix
+    p, size, states, am, cm = mc.p, mc.size, mc.states, mc.accessibility_matrix, mc.communication_matrix
 
     ccis = [[*map(states.index, communicating_class)] for communicating_class in mc.communicating_classes]
     closed_states = [True] * size
@@ -436,7 +436,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
     for j in range(size):
 
-        ct1 = _np.isclose(hp[j, j], 1.0)
+        ct1 = closed_states[j]
 
         if ct1:
             z = _np.nan
@@ -445,7 +445,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
         for i in range(size):
 
-            if _np.isclose(hp[i, j], 0.0):
+            if am[i, j] == 0:
                 mnv[i, j] = 0.0
             elif ct1:
                 mnv[i, j] = _np.inf
-- 
2.43.0


From 020872037493a9c76cdf309196335a4bcdd4e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 08/72] fix: the mean recurrence time of a rare state is not
 null

---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 0886389..f97a6bd 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -462,7 +462,7 @@ def mc_mean_recurrence_times(mc: _tmc) -> _oarray:
 
     pi = mc.pi[0]
 
-    mrt = _np.array([0.0 if _np.isclose(v, 0.0) else 1.0 / v for v in pi])
+    mrt = _np.array([1.0 / v for v in pi])
 
     return mrt
 
-- 
2.43.0


From 39c9776d0318a5aa2f298bba73b1384c53d16363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 09/72] fix: propagate the distribution at each step of the
 expected transitions

---
 pydtmc/measures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index f97a6bd..38b8776 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -178,8 +178,8 @@ def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribu
         idist_sum = initial_distribution
 
         for _ in range(steps - 1):
-            pi = _np.dot(idist, p)
-            idist_sum += pi
+            idist = _np.dot(idist, p)
+            idist_sum = idist_sum + idist
 
         et = idist_sum[:, _np.newaxis] * p
 
-- 
2.43.0


From e67e1622dd1d9c5643ac60a72ec1b136d66584af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 10/72] fix: the second largest eigenvalue modulus may be close
 to one

---
 pydtmc/computations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index 3bb22dc..58a776d 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -341,7 +341,7 @@ def rdl_decomposition(p: _tarray) -> _trdl:
 def slem(m: _tarray) -> _ofloat:
 
     ev = eigenvalues_sorted(m)
-    value = ev[~_np.isclose(ev, 1.0)][-1]
+    value = ev[-2]
 
     if _np.isclose(value, 0.0):
         return None
-- 
2.43.0


From d52343313d565ff6ce80bd529423b4c808fdfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 11/72] fix: do not rely on the eigenvectors of a matrix which
 is not diagonalizable

---
 pydtmc/computations.py |  7 +++++--
 pydtmc/markov_chain.py |  8 ++++----
 pydtmc/measures.py     | 14 +++++++-------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index 58a776d..83a1b82 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -33,12 +33,12 @@ import scipy.stats as _sps
 
 from .custom_types import (
     ofloat as _ofloat,
+    ordl as _ordl,
     tarray as _tarray,
     tgraph as _tgraph,
     tlist_int as _tlist_int,
     tlists_int as _tlists_int,
     tpartitions as _tpartitions,
-    trdl as _trdl,
     ttest_chi2 as _ttest_chi2
 )
 
@@ -313,10 +313,13 @@ def kullback_leibler_divergence(p, pi, phi, q):
     return kld
 
 
-def rdl_decomposition(p: _tarray) -> _trdl:
+def rdl_decomposition(p: _tarray) -> _ordl:
 
     evalues, evectors = _npl.eig(p)
 
+    if _npl.cond(evectors) > 1.0e6:
+        return None
+
     indices = _np.argsort(_np.abs(evalues))[::-1]
     evalues = evalues[indices]
     vectors = evectors[:, indices]
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 3f9ddb4..708830e 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -45,6 +45,7 @@ from .custom_types import (
     ointerval as _ointerval,
     olist_str as _olist_str,
     onumeric as _onumeric,
+    ordl as _ordl,
     osequence as _osequence,
     ostate as _ostate,
     ostates as _ostates,
@@ -69,7 +70,6 @@ from .custom_types import (
     tpartitions as _tpartitions,
     tpath as _tpath,
     trandfunc_flex as _trandfunc_flex,
-    trdl as _trdl,
     tredists as _tredists,
     tsequence as _tsequence,
     tstate as _tstate,
@@ -318,11 +318,11 @@ class MarkovChain(_Model):
         return ev
 
     @_cached_property
-    def __rdl_decomposition(self) -> _trdl:
+    def __rdl_decomposition(self) -> _ordl:
 
-        r, d, l = _rdl_decomposition(self.__p)  # noqa: E741
+        rdl = _rdl_decomposition(self.__p)
 
-        return r, d, l
+        return rdl
 
     @_cached_property
     def __recurrent_classes_indices(self) -> _tlists_int:
diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 38b8776..17e954d 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -38,13 +38,13 @@ from .custom_types import (
     ohmm_decoding as _ohmm_decoding,
     oint as _oint,
     olist_int as _olist_int,
+    ordl as _ordl,
     osequence as _osequence,
     otimes_out as _otimes_out,
     tany as _tany,
     tarray as _tarray,
     tmc as _tmc,
     tlist_int as _tlist_int,
-    trdl as _trdl,
     tsequence as _tsequence,
     ttimes_in as _ttimes_in
 )
@@ -170,9 +170,9 @@ def mc_expected_rewards(p: _tarray, steps: int, rewards: _tarray) -> _tany:
     return er
 
 
-def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribution: _tarray) -> _tarray:
+def mc_expected_transitions(p: _tarray, rdl: _ordl, steps: int, initial_distribution: _tarray) -> _tarray:
 
-    if steps <= p.shape[0]:
+    if steps <= p.shape[0] or rdl is None:
 
         idist = initial_distribution
         idist_sum = initial_distribution
@@ -518,7 +518,7 @@ def mc_sensitivity(mc: _tmc, state: int) -> _oarray:
     return s
 
 
-def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_correlations(mc: _tmc, rdl: _ordl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -551,7 +551,7 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
 
     tcs = []
 
-    if time_points[-1] > size:
+    if time_points[-1] > size and rdl is not None:
 
         r, d, l = rdl  # noqa: E741
 
@@ -610,7 +610,7 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
     return tcs
 
 
-def mc_time_relaxations(mc: _tmc, rdl: _trdl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_relaxations(mc: _tmc, rdl: _ordl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -632,7 +632,7 @@ def mc_time_relaxations(mc: _tmc, rdl: _trdl, sequence: _tsequence, initial_dist
 
     trs = []
 
-    if time_points[-1] > size:
+    if time_points[-1] > size and rdl is not None:
 
         r, d, l = rdl  # noqa: E741
 
-- 
2.43.0


From 284f5bb1a81fa53ce200bae24ba17e7de89a1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 12/72] fix: simulate any accepted model, even if its rows sum
 to one only within the tolerance

---
 pydtmc/simulations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 934d0fe..20c6d4b 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -114,7 +114,8 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
 
     current_state = initial_state
     states = [initial_state]
-    symbols = [rng.choice(k, size=1, p=hmm.e[current_state, :]).item()]
+    w = hmm.e[current_state, :]
+    symbols = [rng.choice(k, size=1, p=w / _np.sum(w)).item()]
 
     pr = rng.random(steps)
     pc = _np.cumsum(hmm.p, axis=1)
@@ -214,6 +215,7 @@ def mc_sequence_probability(mc: _tmc, walk_param: _tlist_int) -> float:
 def mc_simulate(mc: _tmc, steps: int, initial_state: int, final_state: _oint, rng: _trand) -> _tlist_int:
 
     p, size = mc.p, mc.size
+    p /= _np.sum(p, axis=1, keepdims=True)
     check_final_state = final_state is not None
 
     current_state = initial_state
-- 
2.43.0


From 4b690925d5723f96645ead38cf8d9d3d3816cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 13/72] fix: lumpability with respect to given partitions must
 not depend on rounding errors

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a250d8b..3a86e18 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -873,7 +873,7 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
 
     left = _np.dot(_np.dot(_np.dot(r, k), p), r)
     right = _np.dot(p, r)
-    is_lumpable = _np.array_equal(left, right)
+    is_lumpable = _np.allclose(left, right)
 
     if not is_lumpable:  # pragma: no cover
         return None, None, 'The Markov chain is not lumpable with respect to the given partitions.'
-- 
2.43.0


From 542b9a7a7e2b86f188021347b5879ae1ab255aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 14/72] fix: compare the probabilities of the blocks without
 averaging them when listing the lumping partitions

---
 pydtmc/computations.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index 83a1b82..a8aaa8e 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -211,7 +211,6 @@ def find_cyclic_classes(p: _tarray) -> _tlists_int:
     return indices
 
 
-# noinspection PyBroadException
 def find_lumping_partitions(p: _tarray) -> _tpartitions:
 
     size = p.shape[0]
@@ -252,16 +251,8 @@ def find_lumping_partitions(p: _tarray) -> _tpartitions:
             for state in lumping:
                 r[state, index] = 1.0
 
-        rt = _np.transpose(r)
-
-        try:
-            k = _np.dot(_npl.inv(_np.dot(rt, r)), rt)
-        except Exception:  # pragma: no cover
-            continue
-
-        left = _np.dot(_np.dot(_np.dot(r, k), p), r)
-        right = _np.dot(p, r)
-        is_lumpable = _np.array_equal(left, right)
+        block_probabilities = _np.dot(p, r)
+        is_lumpable = all(_np.all(block_probabilities[lumping, :] == block_probabilities[lumping[0], :]) for lumping in partition)
 
         if is_lumpable:
             partitions.append(partition)
-- 
2.43.0


From fd63c5f58814a03687d69977ea217188cda3659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 15/72] fix: the closest reversible chain has no negative
 probabilities

---
 pydtmc/generators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 3a86e18..9800738 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -780,10 +780,13 @@ def mc_closest_reversible(p: _tarray, initial_distribution: _tnumeric, weighted:
 
     p = _np.zeros((size, size), dtype=float)
     solution = solution['x']
+    solution[:mm1] = _np.clip(solution[:mm1], 0.0, None)
+    solution[mm1] = 1.0 - _np.sum(solution[:mm1])
 
     for i in range(m):
         p += solution[i] * basis_vectors[i]
 
+    p = _np.clip(p, 0.0, None)
     p[_np.where(~p.any(axis=1)), :] = _np.ones(size, dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From c104edeb03f0e4037a6d3361dcceaf0055b7fc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 16/72] fix: the search of the closest reversible chain does
 not stop at its starting point

---
 pydtmc/generators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 9800738..0844d35 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -775,6 +775,12 @@ def mc_closest_reversible(p: _tarray, initial_distribution: _tnumeric, weighted:
     # noinspection PyTypeChecker
     solution = _spo.minimize(_objective, x0, jac=_jacobian, args=(h, f), constraints=constraints, method='SLSQP', options={'disp': False})
 
+    # if the objective at the starting point, which is not feasible, equals the one at the first iterate, the solver stops there: restart from a feasible point
+    if solution['nit'] == 1:
+        x0[mm1] = 1.0
+        # noinspection PyTypeChecker
+        solution = _spo.minimize(_objective, x0, jac=_jacobian, args=(h, f), constraints=constraints, method='SLSQP', options={'disp': False})
+
     if not solution['success']:  # pragma: no cover
         return None, None, 'The closest reversible could not be computed.'
 
-- 
2.43.0


From a44ff5b14644c9c429758511ee439964eb970e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 17/72] fix: the top-down aggregation keeps all the states it
 does not merge

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 0844d35..85cf9b6 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -300,7 +300,7 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vi = _np.ravel(_np.argwhere(cq_phi[:, cq_index] == 1.0))
         vi0, vi1 = vi[0], vi[1]
-        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):(vi1 - 1)], cq_eta[:, (vi1 + 1):]))
+        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):vi1], cq_eta[:, (vi1 + 1):]))
 
         z = phi_i.shape[1]
 
-- 
2.43.0


From 27b6ba7f1b4e4633e8f325996a3f3ffb9a5d8e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 18/72] fix: the bipartitions of the spectral aggregation are
 never trivial and always progress

---
 pydtmc/generators.py | 68 ++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 85cf9b6..8c61e92 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -189,6 +189,30 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     return p, e, state_names, symbol_names, None
 
 
+def _spectral_bipartition(p: _tarray, pi: _tarray) -> _tarray:
+
+    # the sign structure of the second eigenvector of the additive reversibilization, or of the next one if all the signs are equal
+
+    size = p.shape[0]
+    d = _np.diag(pi)
+
+    ar = 0.5 * (p + _np.dot(_npl.solve(d, _np.transpose(p)), d))
+    evalues, evectors = _npl.eig(ar)
+    order = _np.argsort(_np.abs(evalues))
+
+    for index in _np.roll(order[::-1], -1):
+
+        bipartition = evectors[:, index] >= 0.0
+
+        if 0 < _np.count_nonzero(bipartition) < size:
+            return bipartition[:, _np.newaxis]
+
+    bipartition = _np.zeros((size, 1), dtype=bool)
+    bipartition[0] = True
+
+    return bipartition
+
+
 def mc_aggregate_spectral_bottom_up(p: _tarray, pi: _tarray, s: int) -> _tmc_generation:
 
     # noinspection DuplicatedCode
@@ -219,24 +243,15 @@ def mc_aggregate_spectral_bottom_up(p: _tarray, pi: _tarray, s: int) -> _tmc_gen
             return None
 
         indices = v > 0.0
-        p_sub = cbc_p[_np.ix_(indices, indices)]
-        pi_sub = _np.diag(cbc_pi[indices])
-
-        ar = 0.5 * (p_sub + _np.dot(_npl.solve(pi_sub, _np.transpose(p_sub)), pi_sub))
-
-        evalues, evectors = _npl.eig(ar)
-        index = _np.argsort(_np.abs(evalues))[-2]
-
-        evector = evectors[:, index]
-        evector = _np.transpose(evector[_np.newaxis, :])
+        bipartition = _spectral_bipartition(cbc_p[_np.ix_(indices, indices)], cbc_pi[indices])
 
         vt = _np.transpose(v[_np.newaxis, :])
 
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = bipartition
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~bipartition
 
         bc_stack = _np.hstack((cbc_phi[:, :cbc_index], v1, v2, cbc_phi[:, (cbc_index + 1):]))
 
@@ -320,37 +335,22 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
     # noinspection DuplicatedCode
     def _update_bipartition_candidates(cbc_q, cbc_pi, cbc_phi):
 
-        last_index = cbc_phi.shape[1] - 1
-        v = cbc_phi[:, last_index]
+        index = _np.flatnonzero(_np.sum(cbc_phi, axis=0) > 2.0)[-1]
+        v = cbc_phi[:, index]
 
         indices = v > 0.0
-        p_sub = cbc_q[_np.ix_(indices, indices)]
-        pi_sub = _np.diag(cbc_pi[indices])
-
-        ar = 0.5 * (p_sub + _np.dot(_npl.solve(pi_sub, _np.transpose(p_sub)), pi_sub))
-
-        evalues, evectors = _npl.eig(ar)
-        index = _np.argsort(_np.abs(evalues))[-2]
-
-        evector = evectors[:, index]
-        evector = _np.transpose(evector[_np.newaxis, :])
+        bipartition = _spectral_bipartition(cbc_q[_np.ix_(indices, indices)], cbc_pi[indices])
 
         vt = _np.transpose(v[_np.newaxis, :])
 
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = bipartition
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
-
-        cbc_phi = cbc_phi[:, :-1]
-
-        if _np.sum(v1) > 1.0:
-            cbc_phi = _np.hstack((cbc_phi[:, :last_index], v1, cbc_phi[:, (last_index + 1):]))
-            last_index += 1
+        v2[indices] = ~bipartition
 
-        if _np.sum(v2) > 1.0:
-            cbc_phi = _np.hstack((cbc_phi[:, :last_index], v2, cbc_phi[:, (last_index + 1):]))
+        columns = [x for x in (v1, v2) if _np.sum(x) > 1.0]
+        cbc_phi = _np.hstack((cbc_phi[:, :index], *columns, cbc_phi[:, (index + 1):]))
 
         return cbc_phi
 
-- 
2.43.0


From 00cfa0835cdacd791d23e2ca355299f70feffd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 19/72] fix: the Moran model rejects the selection intensities
 which define negative fitness

---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 708830e..6ed5c51 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2633,6 +2633,9 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
+        if model == 'moran' and s > 1.0:
+            raise _ValidationError('The selection intensity specified is too high for the Moran model.')
+
         if model == 'wright-fisher' and (4.0 * n * max(u, v)) > 1.0:
             raise _ValidationError('The highest mutation rate specified is too high for the Wright-Fisher model.')
 
-- 
2.43.0


From 1267a4481933975ad765014133525451e15612eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 20/72] fix: small birth and death probabilities are not null

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 8c61e92..ad0d0d8 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -557,9 +557,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 def mc_birth_death(p: _tarray, q: _tarray) -> _tmc_generation:
 
     r = 1.0 - q - p
+    r[_np.isclose(r, 0.0)] = 0.0
 
     p = _np.diag(r) + _np.diag(p[0:-1], k=1) + _np.diag(q[1:], k=-1)
-    p[_np.isclose(p, 0.0)] = 0.0
     p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[0], dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From 8976e70a93aa020a8279d0ec82f0931422c4aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 21/72] fix: the complete rows of a mask must sum to one, up to
 the tolerance of the other validations

---
 pydtmc/validation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ceb195d..f915768 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -661,9 +661,15 @@ def validate_mask(value: _tany, rows: int, columns: int) -> _tarray:
     if not all(_np.isnan(x) or (_np.isfinite(x) and _np.isreal(x) and 0.0 <= x <= 1.0) for _, x in _np.ndenumerate(value)):
         raise ValueError('The "@arg@" parameter can contain only NaNs and finite real values between 0.0 and 1.0.')
 
-    if _np.any(_np.nansum(value, axis=1, dtype=float) > 1.0):
+    row_sums = _np.nansum(value, axis=1, dtype=float)
+    row_sums_one = _np.isclose(row_sums, 1.0)
+
+    if _np.any((row_sums > 1.0) & ~row_sums_one):
         raise ValueError('The "@arg@" parameter row sums must not exceed 1.')
 
+    if _np.any(~_np.any(_np.isnan(value), axis=1) & ~row_sums_one):
+        raise ValueError('The "@arg@" parameter rows without undefined values must sum to 1.')
+
     return value
 
 
-- 
2.43.0


From 15970db056d6ff7a5f36310cb63171cee5802d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 22/72] fix: several infinite draws in a row of a random
 distribution do not give a null row

---
 pydtmc/markov_chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 6ed5c51..7f9889d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2734,6 +2734,7 @@ class MarkovChain(_Model):
         p = f(size=(size, size), **kwargs).astype(float)
         p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, None)
         p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[1], dtype=float)
+        p /= _np.amax(p, axis=1, keepdims=True)
         p /= _np.sum(p, axis=1, keepdims=True)
 
         mc = MarkovChain(p, states)
-- 
2.43.0


From e42776a9334f5be65153ca06f0d29f6c2557a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 23/72] fix: the rows of the Tauchen-Hussey approximation do
 not underflow

---
 pydtmc/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index ad0d0d8..9681a82 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -515,9 +515,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
             prime_right = rho * nodes[i]
             prime = prime_left + prime_right
 
-            for j in range(size):
-                p[i, j] = (weights[j] * _sps.norm.pdf(nodes[j], prime, sigma) / _sps.norm.pdf(nodes[j], alpha, k))
+            p[i, :] = _np.log(weights) + _sps.norm.logpdf(nodes, prime, sigma) - _sps.norm.logpdf(nodes, alpha, k)
 
+        p = _np.exp(p - _np.amax(p, axis=1, keepdims=True))
         p /= _np.sum(p, axis=1, keepdims=True)
 
     else:
-- 
2.43.0


From 76780be9bcf8d63385bf0bd5163638c54f913909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 24/72] fix: the accuracy of the Adda-Cooper approximation does
 not depend on the scale of the process

---
 pydtmc/generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 9681a82..dc4640e 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -430,9 +430,11 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
             z_ip = z[i + 1]
 
             for j in range(size):
-                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, sigma, rho, alpha, z[j], z[j + 1]))
+                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, sigma, rho, alpha, z[j], z[j + 1]), epsabs=1e-10 * z_sigma)
                 p[i, j] = z_sigma_factor * iq[0]
 
+        p /= _np.sum(p, axis=1, keepdims=True)
+
     elif approximation_type == 'rouwenhorst':
 
         z = (1.0 + rho) / 2.0
-- 
2.43.0


From 563edc832d7a54bbfea21c58c4f7244ee090cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 25/72] fix: the Tauchen approximation handles both unit
 autocorrelations alike

---
 pydtmc/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index dc4640e..74f91b9 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -526,8 +526,8 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
         size_m1 = size - 1
 
-        if _np.isclose(rho, 1.0):
-            rho = 1.0 - 1e-8
+        if _np.isclose(_np.abs(rho), 1.0):
+            rho = _np.copysign(1.0 - 1e-8, rho)
 
         y_std = _np.sqrt(sigma**2.0 / (1.0 - rho**2.0))
 
-- 
2.43.0


From e6de756190368b081c7d05b37ed2ece3b0ab32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 26/72] fix: reject the unit autocorrelations for which the
 approximation is not defined

---
 pydtmc/markov_chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 7f9889d..a010727 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2146,7 +2146,8 @@ class MarkovChain(_Model):
             approximation_type = _validate_enumerator(approximation_type, ['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'])
             alpha = _validate_float(alpha)
             sigma = _validate_float(sigma, lower_limit=(0.0, True))
-            rho = _validate_float(rho, lower_limit=(-1.0, False), upper_limit=(1.0, False))
+            rho_strict = approximation_type == 'adda-cooper' or (approximation_type == 'tauchen-hussey' and k is None)
+            rho = _validate_float(rho, lower_limit=(-1.0, rho_strict), upper_limit=(1.0, rho_strict))
 
             if states is not None:  # pragma: no cover
                 states = _validate_labels_input(states, size)
-- 
2.43.0


From fc88ef4d075ee45617c276d5dd2c8aeb60cc0335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 27/72] fix: the nodes of the Newton-Cotes quadrature lie in
 the given interval

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e4c8357..c3dddc3 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -259,7 +259,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
 
         bandwidth = (b - a) / size
 
-        nodes = (_np.arange(size) + 0.5) * bandwidth
+        nodes = a + ((_np.arange(size) + 0.5) * bandwidth)
         weights = _np.repeat(bandwidth, size)
 
     p = _np.zeros((size, size), dtype=float)
-- 
2.43.0


From 7022f197e4e94e46dd5f38d327ded63f70c90452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 28/72] fix: a transition function with negative values does
 not define a chain

---
 pydtmc/fitting.py      | 2 +-
 pydtmc/markov_chain.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index c3dddc3..d66ca85 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -275,7 +275,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             except Exception:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            if not _np.isfinite(f_result) or not _np.isreal(f_result):  # pragma: no cover
+            if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
             p[i, j] = f_result * weights[j]
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index a010727..f4b694c 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2277,7 +2277,7 @@ class MarkovChain(_Model):
         :param f: the transition function of the process.
         :param quadrature_interval: the quadrature interval to use for the computation of nodes and weights (*if omitted, the interval [0, 1] is used*).
         :raises ValidationError: if any input argument is not compliant.
-        :raises ValueError: if the Gauss-Legendre quadrature fails to converge.
+        :raises ValueError: if the Gauss-Legendre quadrature fails to converge or if the transition function returns an invalid (negative or not finite) value.
         """
 
         try:
-- 
2.43.0


From f69f3e8454f6b40d99592e777593094d661d21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 29/72] fix: document the actual default of the Laplace
 smoothing

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index f4b694c..ff23341 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2316,7 +2316,7 @@ class MarkovChain(_Model):
         :param sequence: the observed sequence of states.
         :param fitting_param:
          | - In the maximum a posteriori fitting, the matrix for the a priori distribution (*if omitted, a default value of 1 is assigned to each matrix element*).
-         | - In the maximum likelihood fitting, a boolean indicating whether to apply a Laplace smoothing to compensate for the unseen transition combinations (*if omitted, the value is set to True*).
+         | - In the maximum likelihood fitting, a boolean indicating whether to apply a Laplace smoothing to compensate for the unseen transition combinations (*if omitted, the value is set to False*).
         :raises ValidationError: if any input argument is not compliant.
         """
 
-- 
2.43.0


From ed04df6a0afe58ee61e5f4d77020dcb5714f5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 30/72] fix: the files of the models are encoded in utf-8
 whatever the locale

---
 pydtmc/files_io.py   | 14 +++++++-------
 pydtmc/validation.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index df5e128..fcd59c6 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -168,7 +168,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
         return result
 
-    with open(file_path, mode='r', newline='') as file:
+    with open(file_path, mode='r', encoding='utf-8', newline='') as file:
         file.seek(0)
         reader = _csv.reader(file)
         data = [row for _, row in enumerate(reader)]
@@ -181,7 +181,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 # noinspection PyTypeChecker
 def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
-    with open(file_path, mode='r') as file:
+    with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
         data = _json.load(file)
 
@@ -232,7 +232,7 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 # noinspection PyTypeChecker
 def read_txt(mc: bool, file_path: _tpath) -> _tobj_dict:
 
-    with open(file_path, mode='r') as file:
+    with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
         data = [line.strip().split() for line in file]
 
@@ -376,7 +376,7 @@ def write_csv(mc: bool, d: _tobj_dict, file_path: _tpath):
 
     header_out, rows_out = _write_csv_mc(d) if mc else _write_csv_hmm(d)
 
-    with open(file_path, mode='w', newline='') as file:
+    with open(file_path, mode='w', encoding='utf-8', newline='') as file:
 
         writer = _csv.writer(file, delimiter=',', quoting=_csv.QUOTE_MINIMAL, quotechar='"')
 
@@ -403,13 +403,13 @@ def write_json(mc: bool, d: _tobj_dict, file_path: _tpath):
 
         data.append(item)
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
         _json.dump(data, file)
 
 
 def write_txt(d: _tobj_dict, file_path: _tpath):
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
 
         line = ''
 
@@ -450,5 +450,5 @@ def write_xml(mc: bool, d: _tobj_dict, file_path: _tpath):
     xml_content = xml_content.replace('<Item', '\t<Item')
     xml_content = xml_content.replace('" />', '"/>\n')
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
         file.write(xml_content)
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index f915768..ab9bcd2 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -315,7 +315,7 @@ def validate_file_path(value: _tany, accepted_extensions: _olist_str, write_perm
 
         try:
 
-            with open(file_path, mode='r') as file:
+            with open(file_path, mode='rb') as file:
                 file.seek(0)
 
                 if not file.read(1):
-- 
2.43.0


From 0e71415134478a314b7ac66be4b3ee536e80d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 31/72] fix: the names read from csv and xml files keep their
 blanks

---
 pydtmc/files_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index fcd59c6..e1a1176 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -81,7 +81,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     if not isinstance(label, str) or len(label) < 3:  # pragma: no cover
                         raise ValueError('The file header is invalid.')
 
-                    label = label.strip()
+                    label = label.lstrip()
                     label_prefix = label[:2]
 
                     if label_prefix == 'E_':
@@ -306,9 +306,9 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
         if sorted(attributes_keys) != valid_params_keys:  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
-        attributes_values = [attribute[1].strip() for attribute in attributes]
+        attributes_values = [attribute[1] for attribute in attributes]
 
-        if any(len(attributes_value) == 0 for attributes_value in attributes_values):  # pragma: no cover
+        if any(len(attributes_value.strip()) == 0 for attributes_value in attributes_values):  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
         values = []
-- 
2.43.0


From ce53d10f3dcfd2cb4a168df417bcf880befb6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 32/72] fix: the extension of a file is its last suffix

---
 pydtmc/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 3028080..89a81bd 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -236,7 +236,7 @@ def get_file_extension(file_path: _tpath) -> str:
     if isinstance(file_path, str):
         file_path = _pl.Path(file_path)
 
-    file_extension = ''.join(file_path.suffixes).lower()
+    file_extension = file_path.suffix.lower()
 
     return file_extension
 
-- 
2.43.0


From c9d687675bf86e8baa0f2c897ad59cf2ce71863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 33/72] fix: a file which defines twice the same probability is
 not valid

---
 pydtmc/files_io.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index e1a1176..703374c 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -224,7 +224,12 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             values.append(value)
 
-        d[tuple(values[:-1])] = values[-1]
+        key = tuple(values[:-1])
+
+        if key in d:  # pragma: no cover
+            raise ValueError('The file contains duplicated elements.')
+
+        d[key] = values[-1]
 
     return d
 
@@ -264,7 +269,12 @@ def read_txt(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             values.append(value)
 
-        d[tuple(values[:-1])] = values[-1]
+        key = tuple(values[:-1])
+
+        if key in d:  # pragma: no cover
+            raise ValueError('The file contains duplicated lines.')
+
+        d[key] = values[-1]
 
     return d
 
@@ -328,7 +338,12 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             values.append(value)
 
-        d[tuple(values[:-1])] = values[-1]
+        key = tuple(values[:-1])
+
+        if key in d:  # pragma: no cover
+            raise ValueError('The file contains duplicated elements.')
+
+        d[key] = values[-1]
 
     return d
 
-- 
2.43.0


From daa26eb7061db82bb858b8f61efa282ab13b804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 34/72] fix: a file with probabilities out of range does not
 define a model

---
 pydtmc/hidden_markov_model.py | 3 +++
 pydtmc/markov_chain.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 118e388..e557132 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -767,6 +767,9 @@ class HiddenMarkovModel(_Model):
         else:
             d = _read_xml(False, file_path)
 
+        if not all(0.0 <= probability <= 1.0 for probability in d.values()):  # pragma: no cover
+            raise ValueError('The probabilities defined by the file must be between 0.0 and 1.0.')
+
         states = [key[1] for key in d if key[0] == 'P' and key[1] == key[2]]
         n = len(states)
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ff23341..6735b65 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2443,6 +2443,9 @@ class MarkovChain(_Model):
         else:
             d = _read_xml(True, file_path)
 
+        if not all(0.0 <= probability <= 1.0 for probability in d.values()):  # pragma: no cover
+            raise ValueError('The probabilities defined by the file must be between 0.0 and 1.0.')
+
         states = [key[0] for key in d if key[0] == key[1]]
         size = len(states)
 
-- 
2.43.0


From ab62b3fb9483578867e70147018643e9e8b3db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 35/72] fix: only the null rows of a matrix or graph are
 replaced by uniform ones, whatever its scale

---
 pydtmc/hidden_markov_model.py | 8 ++++----
 pydtmc/markov_chain.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index e557132..a87748e 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -848,14 +848,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
@@ -900,14 +900,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 6735b65..cb7f6dd 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2499,7 +2499,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
@@ -2538,7 +2538,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
-- 
2.43.0


From 33b22275be86f1335a493867751eba1fbeceafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 36/72] fix: the weights of a graph may be null and must be
 finite

---
 pydtmc/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ab9bcd2..c38a0a8 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -391,10 +391,10 @@ def validate_graph(value: _tany, layers: _oint = None, edge_attributes: _oedge_a
         if not all(_is_string(node) for node in nodes):  # pragma: no cover
             raise ValueError('The "@arg@" parameter must define node labels as non-empty strings.')
 
-    edge_weights = list(value.edges(data='weight', default=0.0))
+    edge_weights = list(value.edges(data='weight', default=None))
 
-    if not all(_is_number(edge_weight[2]) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
-        raise ValueError('The "@arg@" parameter must define edge weight attributes as non-negative numbers.')
+    if not all(_is_number(edge_weight[2]) and _np.isfinite(edge_weight[2]) and float(edge_weight[2]) >= 0.0 for edge_weight in edge_weights):  # pragma: no cover
+        raise ValueError('The "@arg@" parameter must define edge weight attributes as finite non-negative numbers.')
 
     if edge_attributes is not None:
 
-- 
2.43.0


From 02e113bfde3920a594c20f7dba6e1e39387580dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 37/72] fix: the arguments of a constructor are validated
 whatever the name of the calling function

---
 pydtmc/hidden_markov_model.py | 6 ++++--
 pydtmc/markov_chain.py        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index a87748e..e582c68 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -147,9 +147,11 @@ class HiddenMarkovModel(_Model):
         if HiddenMarkovModel.__instance_generators is None:
             HiddenMarkovModel.__instance_generators = _get_instance_generators(self.__class__)
 
-        caller = _get_caller(_ins.stack())
+        stack = _ins.stack()
+        caller = _get_caller(stack)
+        caller_internal = stack[1].frame.f_globals is globals()
 
-        if caller not in HiddenMarkovModel.__instance_generators:
+        if not caller_internal or caller not in HiddenMarkovModel.__instance_generators:
 
             try:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index cb7f6dd..fc99df1 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -212,9 +212,11 @@ class MarkovChain(_Model):
         if MarkovChain.__instance_generators is None:
             MarkovChain.__instance_generators = _get_instance_generators(self.__class__)
 
-        caller = _get_caller(_ins.stack())
+        stack = _ins.stack()
+        caller = _get_caller(stack)
+        caller_internal = stack[1].frame.f_globals is globals()
 
-        if caller not in MarkovChain.__instance_generators:
+        if not caller_internal or caller not in MarkovChain.__instance_generators:
 
             try:
 
-- 
2.43.0


From bbe8430da94d6bf6c3017dc541e20d77ef0fee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 38/72] fix: equal models which differ by the sign of a zero
 have the same hash

---
 pydtmc/hidden_markov_model.py | 2 +-
 pydtmc/markov_chain.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index e582c68..a366acf 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -182,7 +182,7 @@ class HiddenMarkovModel(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), self.e.tobytes(), tuple(self.states), tuple(self.symbols)))
+        return hash(((self.p + 0.0).tobytes(), (self.e + 0.0).tobytes(), tuple(self.states), tuple(self.symbols)))
 
     def __repr__(self) -> str:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index fc99df1..5d41c89 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -241,7 +241,7 @@ class MarkovChain(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), tuple(self.states)))
+        return hash(((self.p + 0.0).tobytes(), tuple(self.states)))
 
     def __repr__(self) -> str:
 
-- 
2.43.0


From 581cd4647d5293b28ffbcdce5bc13385a6285d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:01 +0000
Subject: [PATCH 39/72] fix: the lists of names are neither shared with the
 caller nor between models

---
 pydtmc/hidden_markov_model.py | 4 ++--
 pydtmc/markov_chain.py        | 2 +-
 pydtmc/validation.py          | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index a366acf..4897d83 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -279,7 +279,7 @@ class HiddenMarkovModel(_Model):
         A property representing the states of the hidden Markov model.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @property
     def symbols(self) -> _tlist_str:
@@ -288,7 +288,7 @@ class HiddenMarkovModel(_Model):
         A property representing the symbols of the hidden Markov model.
         """
 
-        return self.__symbols
+        return self.__symbols.copy()
 
     def decode(self, symbols: _tsequence, initial_status: _ostatus = None, use_scaling: bool = True) -> _ohmm_decoding:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 5d41c89..2aa6f7e 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -967,7 +967,7 @@ class MarkovChain(_Model):
         A property representing the states of the Markov chain.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @_cached_property
     def topological_entropy(self) -> float:
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index c38a0a8..27ca4de 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -610,7 +610,7 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
     if size is not None and labels_length != size:
         raise ValueError(f'The "@arg@" parameter must contain a number of elements equal to {size:d}.')
 
-    return value
+    return value.copy()
 
 
 def validate_markov_chain(value: _tany, size: _oint = None) -> _tmc:
-- 
2.43.0


From baf7ea45c116272122ba00ebf013e8b460e4f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 40/72] fix: the cached results and the rows of the matrix are
 not shared with the caller

---
 pydtmc/decorators.py   |  7 +++++--
 pydtmc/markov_chain.py | 10 +++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pydtmc/decorators.py b/pydtmc/decorators.py
index 9749b3f..5768c2d 100644
--- a/pydtmc/decorators.py
+++ b/pydtmc/decorators.py
@@ -13,6 +13,7 @@ __all__ = [
 
 # Standard
 
+import copy as _cp
 import functools as _ft
 import re as _re
 import threading as _th
@@ -59,9 +60,11 @@ class cached_property(property):
 
         with self._lock:
             try:
-                return instance.__dict__[self._func_name]
+                value = instance.__dict__[self._func_name]
             except KeyError:
-                return instance.__dict__.setdefault(self._func_name, self._func(instance))
+                value = instance.__dict__.setdefault(self._func_name, self._func(instance))
+
+        return _cp.deepcopy(value)
 
     def __set__(self, instance, value):
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 2aa6f7e..411a2a1 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1016,7 +1016,7 @@ class MarkovChain(_Model):
         if 'ap' not in self.__cache:
             self.__cache['ap'] = _absorption_probabilities(self)
 
-        return self.__cache['ap']
+        return _cp.copy(self.__cache['ap'])
 
     @_object_mark(instance_generator=True)
     def aggregate(self, s: int, method: str = 'adaptive') -> _tmc:
@@ -1194,7 +1194,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = self.__p[state, :]
+        value = _np.copy(self.__p[state, :])
 
         return value
 
@@ -1527,7 +1527,7 @@ class MarkovChain(_Model):
         if 'mat' not in self.__cache:
             self.__cache['mat'] = _mean_absorption_times(self)
 
-        return self.__cache['mat']
+        return _cp.copy(self.__cache['mat'])
 
     @_object_mark(aliases=['mfpt_between', 'mfptb'])
     def mean_first_passage_times_between(self, origins: _tstates, targets: _tstates) -> _ofloat:
@@ -1598,7 +1598,7 @@ class MarkovChain(_Model):
         if 'mnv' not in self.__cache:
             self.__cache['mnv'] = _mean_number_visits(self)
 
-        return self.__cache['mnv']
+        return _cp.copy(self.__cache['mnv'])
 
     @_object_mark(aliases=['mrt'])
     def mean_recurrence_times(self) -> _oarray:
@@ -1615,7 +1615,7 @@ class MarkovChain(_Model):
         if 'mrt' not in self.__cache:
             self.__cache['mrt'] = _mean_recurrence_times(self)
 
-        return self.__cache['mrt']
+        return _cp.copy(self.__cache['mrt'])
 
     @_object_mark(instance_generator=True)
     def merge_with(self, other: _tmc, gamma: float) -> _tmc:
-- 
2.43.0


From 99a1a2e1f6c3d491b1907cbfa18e800292775ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 41/72] fix: the validation of the sequences does not modify
 the given list

---
 pydtmc/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 27ca4de..4049eb9 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -916,6 +916,8 @@ def validate_sequences(value: _tany, labels: _tlist_str, flex: bool) -> _tlists_
     if value_type in ['integer', 'string']:
         value = [value]
 
+    value = value.copy()
+
     for index, value_current in enumerate(value):
         try:
             value[index] = validate_sequence(value_current, labels)
-- 
2.43.0


From fe950d6f8419ed142b8456890a1548fd15592904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 42/72] fix: copy only the cached results which can be modified

---
 pydtmc/decorators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydtmc/decorators.py b/pydtmc/decorators.py
index 5768c2d..cad0e2a 100644
--- a/pydtmc/decorators.py
+++ b/pydtmc/decorators.py
@@ -18,6 +18,10 @@ import functools as _ft
 import re as _re
 import threading as _th
 
+# Libraries
+
+import numpy as _np
+
 
 ###########
 # CLASSES #
@@ -64,7 +68,10 @@ class cached_property(property):
             except KeyError:
                 value = instance.__dict__.setdefault(self._func_name, self._func(instance))
 
-        return _cp.deepcopy(value)
+        if isinstance(value, (list, _np.ndarray)):
+            return _cp.deepcopy(value)
+
+        return value
 
     def __set__(self, instance, value):
 
-- 
2.43.0


From 6241070a7a92843f09ed25eb79d4ea5b416ec4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 43/72] fix: names with blanks are not written to txt files,
 which cannot represent them

---
 pydtmc/files_io.py            | 3 +++
 pydtmc/hidden_markov_model.py | 1 +
 pydtmc/markov_chain.py        | 1 +
 3 files changed, 5 insertions(+)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index 703374c..541794f 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -424,6 +424,9 @@ def write_json(mc: bool, d: _tobj_dict, file_path: _tpath):
 
 def write_txt(d: _tobj_dict, file_path: _tpath):
 
+    if any(attribute.split() != [attribute] for key in d for attribute in key):  # pragma: no cover
+        raise ValueError('The names that contain blanks cannot be written to txt files.')
+
     with open(file_path, mode='w', encoding='utf-8') as file:
 
         line = ''
diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 4897d83..efd397d 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -511,6 +511,7 @@ class HiddenMarkovModel(_Model):
         :param file_path: the location of the file in which the hidden Markov model must be written.
         :raises OSError: if the file cannot be written.
         :raises ValidationError: if any input argument is not compliant.
+        :raises ValueError: if the names cannot be written in the given format.
         """
 
         try:
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 411a2a1..5ba6db1 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1969,6 +1969,7 @@ class MarkovChain(_Model):
         :param file_path: the location of the file in which the Markov chain must be written.
         :raises OSError: if the file cannot be written.
         :raises ValidationError: if any input argument is not compliant.
+        :raises ValueError: if the names cannot be written in the given format.
         """
 
         try:
-- 
2.43.0


From d2ffb1edb1c90a2cd5e0cb58be41450599266510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 44/72] fix: the restriction to some of the symbols of a hidden
 model with fewer states than symbols

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 74f91b9..0ff7db5 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -171,7 +171,7 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     p, e = _np.copy(p), _np.copy(e)
 
     p_decrease = len(sub_states) < p.shape[0]
-    e_decrease = p_decrease or len(sub_symbols) < e.shape[0]
+    e_decrease = p_decrease or len(sub_symbols) < e.shape[1]
 
     if p_decrease:
         p = p[_np.ix_(sub_states, sub_states)]
-- 
2.43.0


From 839bc03d29eb9d7723ace91672de6aacd35f197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 45/72] fix: HiddenMarkovModel.predict validates output_indices

---
 pydtmc/hidden_markov_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index efd397d..288d0c4 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -403,6 +403,7 @@ class HiddenMarkovModel(_Model):
             prediction_type = _validate_enumerator(prediction_type, ['map', 'mle', 'viterbi'])
             symbols = _validate_sequence(symbols, self.__symbols)
             initial_status = _np.full(self.__size[0], 1.0 / self.__size[0], dtype=float) if initial_status is None else _validate_status(initial_status, self.__states)
+            output_indices = _validate_boolean(output_indices)
 
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
-- 
2.43.0


From b4d92351ea483e614cd6c0b04a12703443717e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 46/72] fix: restrictions of hidden models to a single state or
 symbol are rejected

---
 pydtmc/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 4049eb9..a76f622 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -521,6 +521,9 @@ def validate_labels_current(value: _tany, labels: _tlist_str, subset: bool, mini
         if value < 0 or value > limit:
             raise ValueError(f'The "@arg@" parameter, when specified as an integer, must have a value between 0 and {limit:d}.')
 
+        if minimum_length is not None and minimum_length > 1:
+            raise ValueError(f'The "@arg@" parameter must contain at least {minimum_length:d} elements.')
+
         value = [value]
 
         return value
@@ -582,6 +585,9 @@ def validate_labels_current(value: _tany, labels: _tlist_str, subset: bool, mini
         if value not in labels:
             raise ValueError(f'The "@arg@" parameter, when specified as a string, must match one of the following strings: {", ".join(labels)}.')
 
+        if minimum_length is not None and minimum_length > 1:
+            raise ValueError(f'The "@arg@" parameter must contain at least {minimum_length:d} elements.')
+
         value = [labels.index(value)]
 
         return value
-- 
2.43.0


From 3be5b0c142ce4e8e4862ef80f3ffc820563891f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 47/72] fix: allocate the zeros of random hidden models outside
 the rows completed by the masks

---
 pydtmc/generators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 0ff7db5..9639f3c 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -106,7 +106,7 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
                 j = columns[rng.randint(0, _np.sum(row).item())]
                 pm_mask_internal[i, j] = _np.inf
 
-        pm_mask_unassigned = _np.isnan(pm_mask_internal)
+        pm_mask_unassigned = _np.isnan(pm_mask_internal) & ~pm_full_rows[:, _np.newaxis]
         indices_unassigned = _np.flatnonzero(pm_mask_unassigned)
 
         r = rng.permutation(pm_zeros_required)
@@ -123,6 +123,11 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
         for i in rows_range:
 
             assigned_columns = _np.isnan(pm_mask_internal[i, :])
+
+            if pm_full_rows[i]:
+                m[i, assigned_columns] = 0.0
+                continue
+
             s = _np.sum(m[i, assigned_columns])
 
             if s > 0.0:
-- 
2.43.0


From 5e251c5b25071673cf70c580f1497a443263af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 48/72] fix: reject emission guesses of fits whose columns do
 not match the possible symbols

---
 pydtmc/hidden_markov_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 288d0c4..c500983 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -640,6 +640,10 @@ class HiddenMarkovModel(_Model):
             possible_symbols = _validate_labels_input(possible_symbols)
             p_guess = _validate_transition_matrix(p_guess, len(possible_states))
             e_guess = _validate_emission_matrix(e_guess, p_guess.shape[1])
+
+            if e_guess.shape[1] != len(possible_symbols):
+                raise ValueError(f'The "e_guess" parameter must have {len(possible_symbols):d} columns.')
+
             symbols = _validate_sequences(symbols, possible_symbols, True)
             initial_status = _np.full(len(possible_states), 1.0 / len(possible_states), dtype=float) if initial_status is None else _validate_status(initial_status, possible_states)
 
-- 
2.43.0


From 5ba0c3211bdf3ed14cf0ee2bbfa595981bb25b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 49/72] fix: count the distinct pairs and triples of states in
 the Markov property assessment, not their joined names

---
 pydtmc/assessments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index ae3b6aa..72d372a 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -250,7 +250,7 @@ def assess_markov_property(possible_states: _tlist_str, sequence: _tsequence, si
 
     p, _ = _fit_sequence('mle', False, possible_states, sequence)
 
-    sequence_indices, sequence_labels = _cp.deepcopy(sequence), [possible_states[state] for state in sequence]
+    sequence_indices = _cp.deepcopy(sequence)
     sequence_length = len(sequence)
 
     sample_length = sequence_length - (sequence_length % 3)
@@ -271,9 +271,9 @@ def assess_markov_property(possible_states: _tlist_str, sequence: _tsequence, si
         fnp = _fnp_iteration(i, sts3, sts2, s02, p)
         chi2 += ((so3[i] - fnp)**2.0) / fnp
 
-    doubles = [f'{sequence_labels[i]}{sequence_labels[i + 1]}' for i in range(sequence_length - 1)]
-    triples = [f'{sequence_labels[i]}{sequence_labels[i + 1]}{sequence_labels[i + 2]}' for i in range(sequence_length - 2)]
-    dof = len(set(triples)) - len(set(doubles)) + len(set(sequence_labels)) - 1
+    doubles = [tuple(sequence_indices[i:i + 2]) for i in range(sequence_length - 1)]
+    triples = [tuple(sequence_indices[i:i + 3]) for i in range(sequence_length - 2)]
+    dof = len(set(triples)) - len(set(doubles)) + len(set(sequence_indices)) - 1
 
     p_value = 0.0 if dof == 0 else 1.0 - _sps.chi2.cdf(chi2, dof)
     rejection = p_value < significance
-- 
2.43.0


From bcb4177431298b35ed51da0689436f1862b5c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 50/72] fix: split the sequences of the stationarity assessment
 in blocks with exact arithmetic

---
 pydtmc/assessments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index 72d372a..316515f 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -327,7 +327,6 @@ def assess_stationarity(possible_states: _tlist_str, sequence: _tsequence, block
     k, n = len(sequence), len(possible_states)
 
     iters = k - 1
-    block_size = float(k) / blocks
     adjustment = 1.0 / n
     chi2_func = _chi2_standard_inner if blocks == 1 else _chi2_contingency_inner
 
@@ -339,7 +338,7 @@ def assess_stationarity(possible_states: _tlist_str, sequence: _tsequence, block
 
         for i in range(iters):
             if sequence_labels[i] == state:
-                p = _mt.ceil((i + 1) / block_size) - 1
+                p = (((i + 1) * blocks) - 1) // k
                 f = sequence_indices[i + 1]
                 ct[p, f] += 1.0
 
-- 
2.43.0


From e3aada068c0cb4d355bf1e030df3d02eb8419b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 51/72] fix: reject matrices and vectors of complex numbers
 instead of dropping their imaginary parts

---
 pydtmc/utilities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 89a81bd..22386d4 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -219,6 +219,14 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
         raise TypeError('The data type is not supported.')
 
     if dtype is not None:
+
+        if _np.iscomplexobj(output) and not _np.issubdtype(dtype, _np.complexfloating):
+
+            if not _np.all(_np.isreal(output)):
+                raise TypeError('The data contains complex numbers.')
+
+            output = _np.real(output)
+
         output = output.astype(dtype)
 
     return output
-- 
2.43.0


From e5de2a372e751ff1fabb290810ff29ef24b3307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 52/72] fix: reject a boundary condition which is not a number

---
 pydtmc/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index a76f622..5e23a9f 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -149,7 +149,7 @@ def validate_boundary_condition(value: _tany) -> _tbcond:
 
         value = float(value)
 
-        if (value < 0.0) or (value > 1.0):
+        if not 0.0 <= value <= 1.0:
             raise ValueError('The "@arg@" parameter, when specified as a number, must have a value between 0 and 1.')
 
         return value
-- 
2.43.0


From d7bad3445808f78d8aba23cbc7ec5c12e5dca486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 53/72] fix: plot_flow cut the last distribution out of the
 axes

The horizontal limits were those of steps columns, but the plot has one column
more: the bars of the last step and half of the flows towards it were not visible.
---
 pydtmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index a5f36cc..ec968a5 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -507,7 +507,7 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
             if dv > 0.05:
                 ax.text(aj, bm[ai, aj], f'{dv:.3f}', horizontalalignment='center', verticalalignment='center')
 
-    _xticks_steps(ax, steps)
+    _xticks_steps(ax, distributions.shape[1])
 
     ax.set_ylim(0.0, 1.0)
     ax.invert_yaxis()
-- 
2.43.0


From f24096bfb6cee47813f6630f5665a1e413c43fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 54/72] fix: plot_flow failed with the palettes which have no
 list of colors

Every registered colormap is accepted by the validation, but segmented ones
(jet, hot, Blues, ...) have no "colors" attribute and raised AttributeError.
---
 pydtmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index ec968a5..15ebf48 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -366,7 +366,8 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
 
         i = gc_d.shape[0]
 
-        cm = _np.array(_mplp.get_cmap(gc_pn).colors)
+        cm = _mplp.get_cmap(gc_pn)
+        cm = cm(_np.arange(cm.N))[:, :3]
 
         ipf = _spip.interp1d(_np.linspace(0.0, 1.0, cm.shape[0]), cm, kind='linear', axis=0)
         ipv = ipf(_np.linspace(0.0, 1.0, 3 + ((i - 1) * 10)))
-- 
2.43.0


From e5c4c6aed20ef0222f23a5720da966efaadef804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 55/72] fix: plot_graph and plot_trellis altered the names with
 special characters

Names were handed to pydot unquoted: what follows a colon was taken for a port
(the states a:1 and a:2 became one node a), markup and quotes broke the graph and
the keywords node, edge and graph set the default attributes.
---
 pydtmc/plotting.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 15ebf48..45172fa 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -127,6 +127,14 @@ def _decode_image(g, dpi):
     return img, img_x, img_xo, img_y, img_yo
 
 
+def _quote_name(name):
+
+    # Quoted strings prevent pydot from interpreting ports, keywords, markup and quotes inside names.
+    name = name.replace('\\', '\\\\').replace('"', '\\"')
+
+    return f'"{name}"'
+
+
 def _xticks_labels(ax, size, labels_name, labels, minor_major):
 
     if labels_name is not None:
@@ -657,7 +665,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'ellipse'
 
-            g_sub1.add_node(_pyd.Node(state, **node_attributes))
+            g_sub1.add_node(_pyd.Node(_quote_name(state), **node_attributes))
 
         for symbol in phe_hmm.symbols:
 
@@ -670,7 +678,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'hexagon'
 
-            g_sub2.add_node(_pyd.Node(symbol, **node_attributes))
+            g_sub2.add_node(_pyd.Node(_quote_name(symbol), **node_attributes))
 
         for i in range(phe_hmm.n):
 
@@ -693,7 +701,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(_quote_name(state_i), _quote_name(state_j), **edge_attributes))
 
             for j in range(phe_hmm.k):
 
@@ -712,7 +720,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(ep, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, symbol, **edge_attributes))
+                    g.add_edge(_pyd.Edge(_quote_name(state_i), _quote_name(symbol), **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, phe_dpi)
 
@@ -852,7 +860,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                 else:
                     node_attributes['shape'] = 'ellipse'
 
-            g.add_node(_pyd.Node(state_i, **node_attributes))
+            g.add_node(_pyd.Node(_quote_name(state_i), **node_attributes))
 
             for j in range(pme_mc.size):
 
@@ -871,7 +879,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(_quote_name(state_i), _quote_name(state_j), **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, pme_dpi)
 
@@ -1303,7 +1311,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
         for row in range(n):
 
-            sub_label = gte_hmm.states[row]
+            sub_label = _quote_name(gte_hmm.states[row])
             sub.add_node(_pyd.Node(f'state{row}', color='transparent', label=sub_label, shape='plaintext'))
 
             if row > 0:
@@ -1315,7 +1323,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             path_current = gte_states_path[col]
 
-            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else gte_hmm.symbols[gte_symbols[col]]
+            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else _quote_name(gte_hmm.symbols[gte_symbols[col]])
             sub = _pyd.Subgraph(f'cluster_{col + 1}', color='transparent', label=sub_label)
 
             for row in range(n):
-- 
2.43.0


From 5cc07115a2a34dab3533a873c5eef332e3a7f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 56/72] fix: plot_trellis drew the wrong edges from the initial
 states

The initial probability was indexed by the column, always the first one, instead
of by the state: given an initial state, the edges of the first step were drawn
from all the states or from none.
---
 pydtmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 45172fa..9d3d0db 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1343,7 +1343,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gte_initial_distribution[col] > 0.0:
+                if col == 0 and not gte_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
@@ -1399,7 +1399,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gts_initial_distribution[col] > 0.0:
+                if col == 0 and not gts_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
-- 
2.43.0


From f5f477a1d796f2b52a7685cd1fac36af36c08a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 57/72] fix: plot_trellis in standard mode colored the wrong
 edges of the backward trellis

The edges of the most probable path were looked for with the states swapped, and
the colors were listed in the order of insertion instead of that of the graph.
---
 pydtmc/plotting.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 9d3d0db..c6c9941 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1391,8 +1391,6 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
                 node_index += 1
 
-        edge_colors = []
-
         for row in range(n):
 
             row_offset = row * f
@@ -1407,16 +1405,15 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
                     if hmm.p[row][row_next] > 0.0:
 
                         if gts_forward:
-                            trellis.add_edge(row_offset + col, (row_next * f) + col + 1)
-                            on_path = gts_states_path[col] == row and gts_states_path[col + 1] == row_next
+                            edge_from = row_offset + col
+                            edge_to = (row_next * f) + col + 1
                         else:
-                            trellis.add_edge((row_next * f) + col + 1, row_offset + col)
-                            on_path = gts_states_path[col] == row_next and gts_states_path[col + 1] == row
+                            edge_from = (row_next * f) + col + 1
+                            edge_to = row_offset + col
 
-                        if on_path:
-                            edge_colors.append(_default_color_path)
-                        else:
-                            edge_colors.append(_color_black)
+                        edge_color = _default_color_path if gts_states_path[col] == row and gts_states_path[col + 1] == row_next else _color_black
+
+                        trellis.add_edge(edge_from, edge_to, color=edge_color)
 
         for row in range(n):
 
@@ -1442,6 +1439,8 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             node_index += 1
 
+        edge_colors = [edge_color for _, _, edge_color in trellis.edges(data='color')]
+
         return trellis, node_colors, node_edges, node_labels, node_positions, edge_colors
 
     def _plot_extended(ps_hmm, ps_initial_distribution, ps_symbols, ps_backward, ps_forward, ps_states_path, ps_dpi):
-- 
2.43.0


From e15bfc7f33fd2ad215eb70f23475734fa8354fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 58/72] fix: plot_trellis put the probabilities under the wrong
 symbols

The first column of the backward and forward probabilities is that of the initial
states, the column T_0 of the trellis, and the k-th one follows the k-th decoded
symbol: decoding the first symbol of the walk too shifted the values by one step
and dropped the last ones.
---
 pydtmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index c6c9941..3f45cd7 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1520,7 +1520,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
     _, symbols = hmm.simulate(steps, initial_state=initial_state, output_indices=True, seed=seed)
 
-    decoding = hmm.decode(symbols, initial_status=initial_distribution)
+    decoding = hmm.decode(symbols[1:], initial_status=initial_distribution)
 
     if decoding is None:  # pragma: no cover
         raise ValueError('The computation of backward and forward probabilities failed.')
-- 
2.43.0


From 2ca44afcb662246ca6ef9cb2d91e5ac233820553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 59/72] fix: plot_graph hid the names which start with a
 percent sign

Graphviz takes such identifiers for anonymous ones and displays their number: the
label of the node is now explicit.
---
 pydtmc/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 3f45cd7..bc27e32 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -665,7 +665,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'ellipse'
 
-            g_sub1.add_node(_pyd.Node(_quote_name(state), **node_attributes))
+            g_sub1.add_node(_pyd.Node(_quote_name(state), label=_quote_name(state), **node_attributes))
 
         for symbol in phe_hmm.symbols:
 
@@ -678,7 +678,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'hexagon'
 
-            g_sub2.add_node(_pyd.Node(_quote_name(symbol), **node_attributes))
+            g_sub2.add_node(_pyd.Node(_quote_name(symbol), label=_quote_name(symbol), **node_attributes))
 
         for i in range(phe_hmm.n):
 
@@ -860,7 +860,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                 else:
                     node_attributes['shape'] = 'ellipse'
 
-            g.add_node(_pyd.Node(_quote_name(state_i), **node_attributes))
+            g.add_node(_pyd.Node(_quote_name(state_i), label=_quote_name(state_i), **node_attributes))
 
             for j in range(pme_mc.size):
 
-- 
2.43.0


From f35cb8436ee06765eb07594e59cf561da4594297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 60/72] fix: the decoding of hidden models overflows to NaN for
 states ruled out by past symbols

---
 pydtmc/measures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 17e954d..efcb30e 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -92,8 +92,12 @@ def hmm_decode(p: _tarray, e: _tarray, initial_distribution: _tarray, symbols: _
         scaling_factor = 1.0 / scaling_factors[i + 1]
         backward_i = backward[:, i + 1]
 
-        for state in range(n):
-            backward[state, i] = scaling_factor * _np.sum(_np.multiply(_np.multiply(p[state, :], backward_i), e_i))
+        with _np.errstate(over='ignore'):
+            for state in range(n):
+                backward[state, i] = scaling_factor * _np.sum(_np.multiply(_np.multiply(p[state, :], backward_i), e_i))
+
+        # states that past symbols rule out may overflow, and infinite values would produce invalid products with null probabilities
+        backward[:, i] = _np.minimum(backward[:, i], _np.finfo(float).max)
 
     posterior = _np.multiply(backward, forward)
     posterior = posterior[:, 1:]
-- 
2.43.0


From 3fde1ef48621234fc6b16926cf0b49d09eb614ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 61/72] fix: files with blank names are rejected

---
 pydtmc/files_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index 541794f..f4ab56a 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -95,6 +95,9 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     else:  # pragma: no cover
                         raise ValueError('The file header is invalid.')
 
+                    if len(label_value.strip()) == 0:  # pragma: no cover
+                        raise ValueError('The file header is invalid.')
+
                 n, k = len(states), len(symbols)
 
                 if len(set(states)) < n or len(set(symbols)) < k:  # pragma: no cover
@@ -136,7 +139,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             if index == 0:
 
-                if not all(isinstance(state, str) and len(state) > 0 for state in row):  # pragma: no cover
+                if not all(isinstance(state, str) and len(state.strip()) > 0 for state in row):  # pragma: no cover
                     raise ValueError('The file header is invalid.')
 
                 states = row
@@ -216,7 +219,7 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             elif param_type == 'string':
 
-                if not isinstance(value, str) or len(value) == 0:  # pragma: no cover
+                if not isinstance(value, str) or len(value.strip()) == 0:  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
             if len(param_possible_values) > 0 and value not in param_possible_values:  # pragma: no cover
-- 
2.43.0


From 8bd321bb794d221def6f26942db10a2acbeb6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 62/72] fix: weights whose sum overflows normalise to null rows

---
 pydtmc/hidden_markov_model.py | 4 ++++
 pydtmc/markov_chain.py        | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index c500983..bc658a3 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -850,6 +850,8 @@ class HiddenMarkovModel(_Model):
                 j = states.index(edge[1])
                 p[i, j] = float(edge_weight)
 
+        p[_np.amax(p, axis=1) > _np.finfo(float).max / n, :] /= n
+        e[_np.amax(e, axis=1) > _np.finfo(float).max / k, :] /= k
         p_sums, e_sums = _np.sum(p, axis=1), _np.sum(e, axis=1)
 
         for i in range(n):
@@ -902,6 +904,8 @@ class HiddenMarkovModel(_Model):
 
         n, k = mp.shape[0], me.shape[1]
         p, e = _np.copy(mp), _np.copy(me)
+        p[_np.amax(p, axis=1) > _np.finfo(float).max / n, :] /= n
+        e[_np.amax(e, axis=1) > _np.finfo(float).max / k, :] /= k
         p_sums, e_sums = _np.sum(p, axis=1), _np.sum(e, axis=1)
 
         for i in range(n):
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 5ba6db1..d91c9f7 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2496,6 +2496,7 @@ class MarkovChain(_Model):
             j = states.index(edge[1])
             p[i, j] = float(edge[2])
 
+        p[_np.amax(p, axis=1) > _np.finfo(float).max / size, :] /= size
         p_sums = _np.sum(p, axis=1)
 
         for i in range(size):
@@ -2533,10 +2534,11 @@ class MarkovChain(_Model):
             raise _create_validation_error(ex, _ins.trace()) from None
 
         p = _np.copy(m)
-        p_sums = _np.sum(p, axis=1)
-
         size = p.shape[1]
 
+        p[_np.amax(p, axis=1) > _np.finfo(float).max / size, :] /= size
+        p_sums = _np.sum(p, axis=1)
+
         for i in range(size):
 
             p_sums_i = p_sums[i]
-- 
2.43.0


From 0e9e8426c60d54d63ce2a392a62da1f7d6432d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 63/72] fix: the values of fitted functions overflow to null
 rows

---
 pydtmc/fitting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index d66ca85..66f6bfe 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -278,7 +278,11 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            p[i, j] = f_result * weights[j]
+            p[i, j] = f_result
+
+    scale = size * max(1.0, _np.amax(weights))
+    p[_np.amax(p, axis=1) > _np.finfo(float).max / scale, :] /= scale
+    p *= weights
 
     p[_np.where(~p.any(axis=1)), :] = _np.ones(size, dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
-- 
2.43.0


From cf4d91c8106623e16cdeabd2eb98fbf47b08c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 64/72] fix: approximations of processes whose location dwarfs
 their scale, or of extreme scale

---
 pydtmc/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 9639f3c..6dea777 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -420,6 +420,10 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
         return output
 
+    # the chain depends neither on the location nor on the scale of the process, the standardized one prevents cancellations and overflows
+    k = k / sigma if approximation_type == 'tauchen-hussey' else k
+    alpha, sigma = 0.0, 1.0
+
     if approximation_type == 'adda-cooper':
 
         z_sigma = sigma / (1.0 - rho**2.0)**0.5
-- 
2.43.0


From 9fce2017ed20365bb2052a7b37e68f41f76ee461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 65/72] fix: Adda-Cooper approximations of nearly unit root
 processes

---
 pydtmc/generators.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 6dea777..667eaab 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -431,15 +431,21 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
         z = (z_sigma * _sps.norm.ppf(_np.arange(size + 1) / size)) + alpha
 
+        # the density is negligible outside of the limits; for persistent processes, the integrand changes abruptly around the points where the conditional mean crosses the bounds of the target interval
+        z_limits = _np.clip(z, alpha - (10.0 * z_sigma), alpha + (10.0 * z_sigma))
+        z_crossings = (z - (alpha * (1.0 - rho))) / rho if _np.abs(rho) > 0.9 else _np.full(size + 1, _np.inf)
+        z_offsets = 8.0 * sigma * _np.array([-1.0, 0.0, 1.0])
+
         p = _np.zeros((size, size), dtype=float)
 
         for i in range(size):
 
-            z_i = z[i]
-            z_ip = z[i + 1]
+            z_i = z_limits[i]
+            z_ip = z_limits[i + 1]
 
             for j in range(size):
-                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, sigma, rho, alpha, z[j], z[j + 1]), epsabs=1e-10 * z_sigma)
+                z_points = [point for z_crossing in z_crossings[j:j + 2] for point in z_crossing + z_offsets if z_i < point < z_ip]
+                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, sigma, rho, alpha, z[j], z[j + 1]), epsabs=1e-10 * z_sigma, points=z_points)
                 p[i, j] = z_sigma_factor * iq[0]
 
         p /= _np.sum(p, axis=1, keepdims=True)
-- 
2.43.0


From 269de77ce29f862d5f4d38c5c06b810393c60c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 66/72] fix: Tauchen approximations of nearly unit root
 processes use their own autocorrelation

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 667eaab..24613ac 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -541,7 +541,7 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
         size_m1 = size - 1
 
-        if _np.isclose(_np.abs(rho), 1.0):
+        if _np.abs(rho) > 1.0 - 1e-8:
             rho = _np.copysign(1.0 - 1e-8, rho)
 
         y_std = _np.sqrt(sigma**2.0 / (1.0 - rho**2.0))
-- 
2.43.0


From 96e813136338d8c8f288a418aef874370ec02a60 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 67/72] fix: entropy rates below 1e-8 are negative, and null
 when normalized

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index d91c9f7..e51df7d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -507,7 +507,7 @@ class MarkovChain(_Model):
                     if self.__p[i, j] > 0.0:
                         h += pi_i * self.__p[i, j] * _np.log(self.__p[i, j])
 
-            h = h if _np.isclose(h, 0.0) else -h
+            h = 0.0 if h == 0.0 else -h
 
         return h
 
@@ -523,7 +523,7 @@ class MarkovChain(_Model):
 
         if h is None:
             hn = None
-        elif _np.isclose(h, 0.0):
+        elif h == 0.0:
             hn = 0.0
         else:
             ev = _eigenvalues_sorted(self.adjacency_matrix)
-- 
2.43.0


From acd3776cb4874a7436a1947174ca4594ea15eafd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 68/72] fix: chains with rare transitions reported as symmetric
 or reversible

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index e51df7d..7a58301 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -731,7 +731,7 @@ class MarkovChain(_Model):
         pi = self.pi[0]
         x = pi[:, _np.newaxis] * self.__p
 
-        result = _np.allclose(x, _np.transpose(x))
+        result = _np.allclose(x, _np.transpose(x), atol=0.0)
 
         return result
 
@@ -767,7 +767,7 @@ class MarkovChain(_Model):
         A property indicating whether the Markov chain is symmetric.
         """
 
-        result = _np.allclose(self.__p, _np.transpose(self.__p))
+        result = _np.allclose(self.__p, _np.transpose(self.__p), atol=0.0)
 
         return result
 
-- 
2.43.0


From 80a0755f1730d9c0bb529d48fe8608139d05821f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 69/72] fix: lump accepts groups which differ in their rare
 transitions

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 24613ac..1a93bb5 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -899,7 +899,7 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
 
     left = _np.dot(_np.dot(_np.dot(r, k), p), r)
     right = _np.dot(p, r)
-    is_lumpable = _np.allclose(left, right)
+    is_lumpable = _np.allclose(left, right, atol=1e-15)
 
     if not is_lumpable:  # pragma: no cover
         return None, None, 'The Markov chain is not lumpable with respect to the given partitions.'
-- 
2.43.0


From 337f9d18d99d01a72ffe91209bb5cf3fe04ee388 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 70/72] fix: birth-death chains lose small probabilities of
 staying

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 1a93bb5..beb416d 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -574,7 +574,7 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 def mc_birth_death(p: _tarray, q: _tarray) -> _tmc_generation:
 
     r = 1.0 - q - p
-    r[_np.isclose(r, 0.0)] = 0.0
+    r[_np.isclose(r, 0.0, atol=1e-15)] = 0.0
 
     p = _np.diag(r) + _np.diag(p[0:-1], k=1) + _np.diag(q[1:], k=-1)
     p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[0], dtype=float)
-- 
2.43.0


From 050fa5418be6729e18969906508e9c477ff8eceb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 71/72] fix: small committor probabilities are dropped

---
 pydtmc/measures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index efcb30e..0156419 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -157,8 +157,8 @@ def mc_committor_probabilities(mc: _tmc, committor_type: str, states1: _tlist_in
     else:
         b[states2] = 1.0
 
-    cp = _npl.solve(a, b)
-    cp[_np.isclose(cp, 0.0)] = 0.0
+    cp = _np.clip(_npl.solve(a, b), 0.0, 1.0)
+    cp[_np.isclose(cp, 0.0, atol=1e-15)] = 0.0
 
     return cp
 
-- 
2.43.0


From 9cbbb464e9a7ca56f14e7201ff79804cb8400217 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 72/72] fix: stochastically monotone chains rejected because of
 the rounding of their cumulative probabilities

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 7a58301..efc78fe 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -754,7 +754,7 @@ class MarkovChain(_Model):
                 sk = sm[k]
                 sl = sm[l]
 
-                if sl < sk:
+                if sl < sk and not _np.isclose(sl, sk, rtol=1e-12, atol=0.0):
                     result = False
                     break
 
-- 
2.43.0

