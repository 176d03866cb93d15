From 7fd895e8e9e4bed23442dad2c6ea738fe431947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 01/27] fix: release shared memory, timer and progress thread
 when a parallel run fails

---
 tnco/parallel.py | 90 +++++++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index f6e211d..046cdf9 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -14,14 +14,14 @@
 """Parallelization utilities."""
 
 import itertools as its
+from contextlib import ExitStack
 from multiprocessing.shared_memory import SharedMemory
 from struct import calcsize, pack_into, unpack_from
-from threading import TIMEOUT_MAX, Thread, Timer
+from threading import TIMEOUT_MAX, Event, Thread, Timer
 from time import sleep
 from typing import Any, Callable, Iterable, Optional, Tuple, Union
 from warnings import warn
 
-import more_itertools as mit
 from rich.console import Console
 from rich.progress import Progress, TextColumn, TimeElapsedColumn
 
@@ -77,7 +77,12 @@ class Buffer:
 
         # Initialize it
         if sequence:
-            pack_into(self.dtype * size, self.shm.buf, 0, *sequence)
+            try:
+                pack_into(self.dtype * size, self.shm.buf, 0, *sequence)
+            except BaseException:
+                # Do not leave the segment behind
+                self.shm.unlink()
+                raise
 
     def __len__(self) -> int:
         return self.shm.size // calcsize(self.dtype)
@@ -216,28 +221,6 @@ def Parallel(core: Callable[..., Any],
     # Get number of total runs
     n_runs = len(args)
 
-    # Initialize status
-    status = Buffer([0] * n_runs, 'f')
-
-    # Initialize stop
-    stop = Buffer([False] * n_runs, 'b')
-
-    # Initialize completed
-    completed = Buffer([0] * n_runs, '?')
-
-    # Get buffers
-    buffers = dict(
-        its.starmap(lambda name, dtype: (name, Buffer([0] * n_runs, dtype)),
-                    buffers))
-
-    # Initialize timer
-    def timer_helper():
-        for idx in range(len(stop)):
-            stop[idx] = True
-
-    timer = Timer(TIMEOUT_MAX if timeout is None else timeout, timer_helper)
-    timer.start()
-
     with Progress(TextColumn('[blue][{task.fields[idx]}/' + str(len(args)) +
                              ']'),
                   *Progress.get_default_columns(),
@@ -246,7 +229,41 @@ def Parallel(core: Callable[..., Any],
                   console=Console(stderr=True),
                   disable=(verbose <= 1),
                   auto_refresh=False,
-                  transient=not leave) as progress:
+                  transient=not leave) as progress, ExitStack() as resources:
+
+        # Release a buffer when the run ends
+        def get_buffer(sequence, dtype):
+            buffer = Buffer(sequence, dtype)
+            resources.callback(buffer.shm.unlink)
+            return buffer
+
+        # Initialize status
+        status = get_buffer([0] * n_runs, 'f')
+
+        # Initialize stop
+        stop = get_buffer([False] * n_runs, 'b')
+
+        # Initialize completed
+        completed = get_buffer([0] * n_runs, '?')
+
+        # Get buffers
+        buffers = dict(
+            its.starmap(
+                lambda name, dtype: (name, get_buffer([0] * n_runs, dtype)),
+                buffers))
+
+        # Initialize timer
+        def timer_helper():
+            for idx in range(len(stop)):
+                stop[idx] = True
+
+        timer = Timer(TIMEOUT_MAX if timeout is None else timeout,
+                      timer_helper)
+        resources.callback(timer.cancel)
+        timer.start()
+
+        # Set if the run is over, whether or not all cores are completed
+        closing = Event()
 
         # Update progressbar
         def update_progress():
@@ -287,7 +304,7 @@ def Parallel(core: Callable[..., Any],
                 progress.refresh()
 
             # While there are active tasks
-            while any(not c_ for c_ in completed):
+            while not closing.is_set() and any(not c_ for c_ in completed):
                 # Perform full update
                 full_update()
 
@@ -297,6 +314,10 @@ def Parallel(core: Callable[..., Any],
             # Perform last full update
             full_update()
 
+            # Nothing else to check if the run has been interrupted
+            if not all(completed):
+                return
+
             # Last checks
             assert not timer.is_alive() or not tasks or (
                 len(tasks) == n_runs and sorted(tasks) == list(range(n_runs)))
@@ -306,6 +327,8 @@ def Parallel(core: Callable[..., Any],
         if verbose >= 2:
             updater = Thread(target=update_progress, daemon=True)
             updater.start()
+            resources.callback(updater.join)
+            resources.callback(closing.set)
 
         def core_(*args, idx, **kwargs):
             # Get results
@@ -342,18 +365,5 @@ def Parallel(core: Callable[..., Any],
                                           **xs[-1],
                                           **buffers), range(n_runs), args))
 
-        # Close progressbar
-        if verbose >= 2:
-            updater.join()
-
-    # Close buffers
-    status.shm.unlink()
-    completed.shm.unlink()
-    stop.shm.unlink()
-    mit.consume(map(lambda buffer: buffer.shm.unlink(), buffers.values()))
-
-    # Stop timer
-    timer.cancel()
-
     # Return results
     return results
-- 
2.43.0


From 5f2327d8f5323d608fc8353344486123c9022c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 02/27] fix: keep the caller's tolerance when decomposing
 hyper-indices further

---
 tnco/utils/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index bee9edc..00e7f9c 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -139,7 +139,10 @@ def decompose_hyper_inds(
                 ()), _hyper_inds
 
     # Call again
-    return decompose_hyper_inds(array, inds, _hyper_inds=_hyper_inds)
+    return decompose_hyper_inds(array,
+                                inds,
+                                atol=atol,
+                                _hyper_inds=_hyper_inds)
 
 
 def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
-- 
2.43.0


From 606caccbc27d1914840f744ceab83764c0378b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 03/27] fix: do not restart the generator when retrying a
 random index name

---
 tnco/utils/tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index 00e7f9c..4ea4315 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -318,8 +318,9 @@ def svd(array: Array,
 
     # If svd_index_name is not provided, generate a random one
     if svd_index_name is None:
-        while (svd_index_name :=
-               ''.join(Random(seed).choices(ascii_letters, k=10))) in inds:
+        rng = Random(seed)
+        while (svd_index_name := ''.join(rng.choices(ascii_letters,
+                                                     k=10))) in inds:
             pass
 
     # If left_inds is empty or equal to inds, just return
-- 
2.43.0


From ed80f9e19aebfff6deccc849d8593bc1b60dc9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 04/27] fix: do not exhaust iterables that are used more than
 once

---
 tnco/app/finite_width/sa.py    | 3 +++
 tnco/app/infinite_memory/sa.py | 3 +++
 tnco/ctree.py                  | 1 +
 tnco/utils/tensor.py           | 3 +++
 tnco/utils/tn.py               | 3 ++-
 5 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index ff018da..9d27149 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -168,6 +168,9 @@ class Optimizer(BaseOptimizer):
                     "with 'beta_ini != beta_end'.")
             betas = mit.numeric_range(betas[0], betas[1],
                                       (betas[1] - betas[0]) / n_steps)
+        else:
+            # Betas are used for all the components of all the runs
+            betas = tuple(betas)
 
         # Get contraction cost
         cmodel = SimpleCostModel(max_width=self.max_width,
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 7c18f0e..ca39bfd 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -150,6 +150,9 @@ class Optimizer(BaseOptimizer):
                     "with 'beta_ini != beta_end'.")
             betas = mit.numeric_range(betas[0], betas[1],
                                       (betas[1] - betas[0]) / n_steps)
+        else:
+            # Betas are used for all the components of all the runs
+            betas = tuple(betas)
 
         # Get contraction cost
         cmodel = SimpleCostModel(cost_type=self.cost_type,
diff --git a/tnco/ctree.py b/tnco/ctree.py
index 7ddd39d..d1b11d7 100644
--- a/tnco/ctree.py
+++ b/tnco/ctree.py
@@ -79,6 +79,7 @@ class ContractionTree(_ContractionTree):
             raise TypeError("Got unexpected keyword arguments.")
 
         # Convert to list
+        path = list(path)
         ts_inds = list(ts_inds)
 
         # If a list of nodes has been provide, use it as 'ctree'
diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index 4ea4315..6e0c166 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -165,6 +165,9 @@ def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
         >>> get_einsum_subscripts(['i', 'j'], ['j', 'k'], ['i', 'k'])
         'ab,bc->ac'
     """
+    # Indices are used more than once
+    inds_a, inds_b, output_inds = map(tuple, (inds_a, inds_b, output_inds))
+
     # Normalize indexes
     cntr = dict(
         zip(mit.unique_everseen(its.chain(inds_a, inds_b, output_inds)),
diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 77ca73e..e63c8c3 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -909,7 +909,8 @@ def contract(
     if dims is None and arrays is None:
         raise ValueError("Either 'dims' or 'arrays' must be provided.")
 
-    # Get indices
+    # Get path and indices
+    path = list(path)
     ts_inds = list(map(tuple, ts_inds))
 
     # Convert int to dict
-- 
2.43.0


From e3db8e4e04923d1b3262d499fef4029a3ad7885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 05/27] fix: order of contracted indices independent of hash
 seeds

---
 tnco/utils/tn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index e63c8c3..b02c795 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -1000,6 +1000,9 @@ def contract(
                 filter(lambda x: x[0] in shared_inds and x[1] > 1,
                        hyper_count.items()))) | (output_inds & shared_inds)
 
+        # The order must not depend on hashes
+        hyper_inds = tuple(x for x in xs if x in hyper_inds)
+
         # Update hyper-count
         for x in shared_inds:
             hyper_count[x] -= 1
-- 
2.43.0


From 8269c12142a4da44ddd6f3f8637925dfe3d4d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 06/27] fix: reject compressed output without a file and report
 missing or binary input files

---
 tnco/app/app.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 79f964c..576029a 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -109,7 +109,7 @@ def load_file(filename: str) -> Any:
         raise ValueError("'filename' is not valid ({})".format(e))
 
     # Check that file exists
-    if not Path(filename).exists:
+    if not Path(filename).exists():
         raise FileNotFoundError("'{}' does not exist.".format(filename))
 
     def load(binary):
@@ -128,7 +128,7 @@ def load_file(filename: str) -> Any:
         # Is json?
         try:
             return json.loads(binary.decode())
-        except json.JSONDecodeError:
+        except (json.JSONDecodeError, UnicodeDecodeError):
             pass
 
         # Is text?
@@ -649,7 +649,7 @@ def dump_results(tn: TensorNetwork,
     output_compression = str(output_compression).lower()
     if output_compression not in ['auto', 'none', 'bz2', 'gzip']:
         raise ValueError(f'"{output_compression=}" not supported.')
-    if output_compression not in ['auto', 'none'] and not output_compression:
+    if output_compression not in ['auto', 'none'] and not output_filename:
         raise ValueError(
             "Output can be compressed only if 'output_filename' is provided.")
 
-- 
2.43.0


From 56a60a0fcb253d73ac15f139f87d03484ac8bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 07/27] fix: raise the intended error for unsupported cost and
 width types

---
 tnco/optimize/finite_width/cost_model.py    | 4 ++--
 tnco/optimize/infinite_memory/cost_model.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index ea7c6de..bae9127 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -89,11 +89,11 @@ class SimpleCostModel(BaseCostModel):
         width_type = str(width_type).lower()
         if width_type not in ['float32', 'float64', 'float128']:
             raise NotImplementedError(
-                f"'width_type={self.width_type}' not available.")
+                f"'width_type={width_type}' not available.")
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'cost_type={cost_type}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
diff --git a/tnco/optimize/infinite_memory/cost_model.py b/tnco/optimize/infinite_memory/cost_model.py
index d9424d0..109b497 100644
--- a/tnco/optimize/infinite_memory/cost_model.py
+++ b/tnco/optimize/infinite_memory/cost_model.py
@@ -73,7 +73,7 @@ class SimpleCostModel(BaseCostModel):
         cost_type = str(cost_type).lower()
         if cost_type not in ['float32', 'float64', 'float128', 'float1024']:
             raise NotImplementedError(
-                f"'cost_type={self.cost_type}' not available.")
+                f"'cost_type={cost_type}' not available.")
 
         # Check sparse_inds and n_projs
         if n_projs is not None and (n_projs != int(n_projs) or n_projs < 1):
-- 
2.43.0


From 3fd0ed381dba0fe32abc5d8c2ff006f5011bf6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 08/27] fix: hash ordered sets consistently with their equality

---
 tnco/ordered_frozenset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/ordered_frozenset.py b/tnco/ordered_frozenset.py
index d82a00e..ff558cd 100644
--- a/tnco/ordered_frozenset.py
+++ b/tnco/ordered_frozenset.py
@@ -52,7 +52,7 @@ class OrderedFrozenSet:
         return iter(self._order)
 
     def __hash__(self) -> int:
-        return hash(self._order)
+        return hash(self._set)
 
     def __len__(self) -> int:
         return len(self._order)
-- 
2.43.0


From 91481d107bd2f40320d3a625e268021b886c2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:37 +0000
Subject: [PATCH 09/27] fix: keep the number of new slices when pickling the
 optimizer

---
 tnco/optimize/finite_width/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tnco/optimize/finite_width/optimizer.py b/tnco/optimize/finite_width/optimizer.py
index 2f43094..d24278b 100644
--- a/tnco/optimize/finite_width/optimizer.py
+++ b/tnco/optimize/finite_width/optimizer.py
@@ -88,6 +88,9 @@ class Optimizer:
         # Save model
         self._cmodel = cmodel
 
+        # Save number of new slices
+        self._max_number_new_slices = max_number_new_slices
+
         # Save cache
         self._ctree_cache = (ctree.dims, ctree._n_tensors, ctree._tensors_pos,
                              ctree._inds_order)
@@ -332,9 +335,10 @@ class Optimizer:
     @staticmethod
     def __build__(*args):
         (ctree, cmodel, prng_state, disable_shared_inds, min_ctree, slices,
-         min_slices, skip_slices) = args
+         min_slices, skip_slices, max_number_new_slices) = args
         return Optimizer(ctree,
                          cmodel,
+                         max_number_new_slices=max_number_new_slices,
                          seed=prng_state,
                          disable_shared_inds=disable_shared_inds,
                          skip_slices=skip_slices,
@@ -345,7 +349,8 @@ class Optimizer:
     def __reduce__(self):
         return self.__build__, (self.ctree, self.cmodel, self.prng_state,
                                 self.disable_shared_inds, self.min_ctree,
-                                self.slices, self.min_slices, self.skip_slices)
+                                self.slices, self.min_slices, self.skip_slices,
+                                self._max_number_new_slices)
 
     def __repr__(self) -> str:
         return "Optimizer(ctree={}, cmodel={})".format(self.ctree, self.cmodel)
-- 
2.43.0


From 0efad3bde68b6623fd1049350403851bcd6087ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 10/27] fix: include the disconnected costs in the JSON results

---
 tnco/app/finite_width/sa.py    | 1 +
 tnco/app/infinite_memory/sa.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index 9d27149..40de513 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -55,6 +55,7 @@ class JSONEncoder(BaseJSONEncoder):
             return tuple(obj)
         if isinstance(obj, ContractionResults):
             return dict(**BaseJSONEncoder().default(obj),
+                        disconnected_costs=obj.disconnected_costs,
                         disconnected_paths=obj.disconnected_paths,
                         disconnected_slices=obj.disconnected_slices,
                         slices=obj.slices)
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index ca39bfd..dd3a731 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -50,6 +50,7 @@ class JSONEncoder(BaseJSONEncoder):
         """
         if isinstance(obj, ContractionResults):
             return dict(**BaseJSONEncoder().default(obj),
+                        disconnected_costs=obj.disconnected_costs,
                         disconnected_paths=obj.disconnected_paths)
         if hasattr(obj, 'to_json'):
             return obj.to_json()
-- 
2.43.0


From 4fb05216ed76d093aa36715b66da0367e93e5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 11/27] fix: pass type, backend and seed when loading circuits
 to sample and keep qubits ordered

---
 tnco/app/circuit/sampling.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 7b2d19f..ece2cd3 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -27,6 +27,7 @@ from rich.progress import Console, Progress, track
 
 from tnco.app import Optimizer, Tensor, TensorNetwork
 from tnco.app.app import BaseContractionResults
+from tnco.ordered_frozenset import OrderedFrozenSet
 from tnco.typing import Array, Circuit, Matrix, Qubit
 from tnco.utils.circuit import load
 from tnco.utils.tn import contract, get_einsum_subscripts
@@ -78,7 +79,7 @@ class SamplingIntermediateState:
 
     def __init__(self, data, qubits):
         object.__setattr__(self, 'data', tuple(data))
-        object.__setattr__(self, 'qubits', frozenset(qubits))
+        object.__setattr__(self, 'qubits', OrderedFrozenSet(qubits))
 
     def __getitem__(self, k):
         return self.data[k]
@@ -175,7 +176,7 @@ def sample(
                 "(with or without phase change) are allowed.")
 
         # Get all qubits
-        qubits = frozenset(mit.flatten(map(op.itemgetter(1), circuit)))
+        qubits = OrderedFrozenSet(mit.flatten(map(op.itemgetter(1), circuit)))
 
         # Check consistency with qubit_order
         if qubit_order is not None and frozenset(qubit_order) != qubits:
@@ -191,13 +192,22 @@ def sample(
                              simplify=simplify,
                              use_matrix_commutation=use_matrix_commutation,
                              decompose_hyper_inds=decompose_hyper_inds,
-                             fuse=fuse) + (q,)
+                             fuse=fuse,
+                             dtype=dtype,
+                             backend=optimization_backend,
+                             seed=seed) + (q,)
             for i, (m, q) in track(enumerate(circuit),
                                    total=len(circuit),
                                    description="Loading TNs...",
                                    disable=verbose <= 0,
                                    console=Console(stderr=True)))
 
+        # Order the output indices as they appear in the tensors
+        partial_tn = list(
+            (arrays, ts_inds, None if ts_inds is None else OrderedFrozenSet(
+                mit.flatten(ts_inds)).intersection(output_inds), op_qubits)
+            for arrays, ts_inds, output_inds, op_qubits in partial_tn)
+
         # Convert to tensors
         partial_tn = list(
             (None, arrays, None, op_qubits) if ts_inds is None else (
-- 
2.43.0


From 47d756b0a340f3e2a22ff6ed357e08530f77923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 12/27] fix: sample qiskit circuits and use the requested
 backend when converting circuits

---
 tnco/app/circuit/sampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index ece2cd3..c5acdad 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -390,7 +390,7 @@ try:
         return sample(
             cirq_to_arrays(circuit.all_operations(),
                            dtype=kwargs.get('dtype', None),
-                           backend=kwargs.get('backend', None)), *args,
+                           backend=kwargs.get('optimization_backend', None)), *args,
             **kwargs)
 
     @sample.register
@@ -398,7 +398,7 @@ try:
         return sample(
             cirq_to_arrays(circuit,
                            dtype=kwargs.get('dtype', None),
-                           backend=kwargs.get('backend', None)), *args,
+                           backend=kwargs.get('optimization_backend', None)), *args,
             **kwargs)
 
 except ModuleNotFoundError:
@@ -412,10 +412,10 @@ try:
 
     @sample.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-        return load(
+        return sample(
             qiskit_to_arrays(circuit,
                              dtype=kwargs.get('dtype', None),
-                             backend=kwargs.get('backend', None)), *args,
+                             backend=kwargs.get('optimization_backend', None)), *args,
             **kwargs)
 
 except ModuleNotFoundError:
-- 
2.43.0


From df726750757f84759dd832bf922826fb591dbf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 13/27] fix: isinf and signbit of high-precision floats answer
 their own question

---
 include/tnco/fixed_float.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index e88ada9..521b8fc 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -575,9 +575,10 @@ void init(py::module &m, const std::string &name) {
            [](const self_type &self, const long double &other) -> auto {
              return self >= other;
            })
-      .def("isinf", [](const self_type &self) -> auto { return isnan(self); })
+      .def("isinf", [](const self_type &self) -> auto { return isinf(self); })
       .def("isnan", [](const self_type &self) -> auto { return isnan(self); })
-      .def("signbit", [](const self_type &self) -> auto { return isnan(self); })
+      .def("signbit",
+           [](const self_type &self) -> auto { return signbit(self); })
       .def(py::pickle(
           [](const self_type &self) -> std::string { return dump(self); },
           [](const std::string &state) -> auto {
-- 
2.43.0


From 6defc9fce0cfcd2369464f04d9895ab076a3af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 14/27] fix: comparisons of high-precision floats with NaN

---
 include/tnco/fixed_float.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 521b8fc..2908f0c 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -134,27 +134,27 @@ struct FixedFloat {
   }
 
   auto operator==(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) == 0;
+    return mpfr_equal_p(_x, x._x) != 0;
   }
 
   auto operator!=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) != 0;
+    return mpfr_equal_p(_x, x._x) == 0;
   }
 
   auto operator>(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) > 0;
+    return mpfr_greater_p(_x, x._x) != 0;
   }
 
   auto operator>=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) >= 0;
+    return mpfr_greaterequal_p(_x, x._x) != 0;
   }
 
   auto operator<(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) < 0;
+    return mpfr_less_p(_x, x._x) != 0;
   }
 
   auto operator<=(const FixedFloat &x) const -> bool {
-    return mpfr_cmp(_x, x._x) <= 0;
+    return mpfr_lessequal_p(_x, x._x) != 0;
   }
 
   template <typename T>
-- 
2.43.0


From 582f938f3efe670617d75e8326534a63c973d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 15/27] fix: in-place division of high-precision floats returns
 its operand

---
 include/tnco/fixed_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/fixed_float.hpp b/include/tnco/fixed_float.hpp
index 2908f0c..5e54300 100644
--- a/include/tnco/fixed_float.hpp
+++ b/include/tnco/fixed_float.hpp
@@ -104,7 +104,7 @@ struct FixedFloat {
     return *this;
   }
 
-  auto operator/=(const FixedFloat &x) -> FixedFloat {
+  auto operator/=(const FixedFloat &x) -> FixedFloat & {
     mpfr_div(_x, _x, x._x, rounding);
     return *this;
   }
-- 
2.43.0


From fb9ed45444e2c5ad1801a16f63999661ae9b5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 16/27] fix: combining bit sets of different sizes raises
 instead of aborting

---
 include/tnco/bitset.hpp | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/tnco/bitset.hpp b/include/tnco/bitset.hpp
index ef4eea3..35214b7 100644
--- a/include/tnco/bitset.hpp
+++ b/include/tnco/bitset.hpp
@@ -119,45 +119,77 @@ struct Bitset : boost::dynamic_bitset<T...> {
 template <typename... T>
 void init(py::module &m, const std::string &name) {
   using self_type = Bitset<T...>;
+
+  // Operands must have the same size
+  static constexpr auto check_size = [](const self_type &x,
+                                        const self_type &y) -> void {
+    if (std::size(x) != std::size(y)) {
+      throw std::invalid_argument("Bitsets must have the same size.");
+    }
+  };
+
   py::class_<self_type>(m, name.c_str())
       .def(py::init<>())
       .def(py::init<const std::vector<size_t> &, size_t>(), "positions"_a,
            "size"_a)
       .def(py::init<const std::string &>())
-      .def("__and__", &self_type::operator&)
-      .def("__or__", &self_type::operator|)
-      .def("__xor__", &self_type::operator^)
-      .def("__sub__", &self_type::operator-)
+      .def("__and__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self & other;
+           })
+      .def("__or__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self | other;
+           })
+      .def("__xor__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self ^ other;
+           })
+      .def("__sub__",
+           [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
+             return self - other;
+           })
       .def("__eq__",
            [](const self_type &self, const self_type &other) -> auto {
              return self == other;
            })
       .def("isdisjoint",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return !self.intersects(other);
            })
       .def("issubset",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return self.is_subset_of(other);
            })
       .def("issuperset",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return other.is_subset_of(self);
            })
       .def("__le__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return self.is_subset_of(other);
            })
       .def("__ge__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return other.is_subset_of(self);
            })
       .def("__lt__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return self.is_proper_subset_of(other);
            })
       .def("__gt__",
            [](const self_type &self, const self_type &other) -> auto {
+             check_size(self, other);
              return other.is_proper_subset_of(self);
            })
       .def("__invert__", [](const self_type &self) -> auto { return ~self; })
-- 
2.43.0


From faec580ba427f06ccd4b5976555eb7327a93a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 17/27] fix: reject trees whose links disagree, are shared,
 cyclic or unreachable

---
 include/tnco/tree.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index c5bd046..06016b7 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -117,7 +117,7 @@ struct Tree {
                                  std::end(count_parents), std::begin(nodes),
                                  true, std::logical_and<bool>{},
                                  [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_leaf() ? 0 : 2;
+                                   return c == (node.is_leaf() ? 0U : 2U);
                                  })) {
         return {false, "Tree is not valid."};
       }
@@ -127,12 +127,36 @@ struct Tree {
                                  std::end(count_children), std::begin(nodes),
                                  true, std::logical_and<bool>{},
                                  [](auto &&c, auto &&node) -> auto {
-                                   return c == node.is_root() ? 0 : 1;
+                                   return c == (node.is_root() ? 0U : 1U);
                                  })) {
         return {false, "Tree is not valid."};
       }
     }
 
+    // Starting from root, children must agree with their parent, and all nodes
+    // must be reached
+    {
+      size_t n_visited = 0;
+      std::stack<typename node_type::index_type> stack;
+      stack.push(size() - 1);
+      while (!std::empty(stack)) {
+        const auto pos = stack.top();
+        stack.pop();
+        ++n_visited;
+        if (!nodes[pos].is_leaf()) {
+          for (const auto &child : nodes[pos].children) {
+            if (nodes[child].parent != pos) {
+              return {false, "Tree is not valid."};
+            }
+            stack.push(child);
+          }
+        }
+      }
+      if (n_visited != size()) {
+        return {false, "Tree is not valid."};
+      }
+    }
+
     // Everything, OK
     return {true, ""};
   }
-- 
2.43.0


From 25461af678b52a689387bd267dc65a608f1cc5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 18/27] fix: ignore negative positions when swapping nodes

---
 include/tnco/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/tree.hpp b/include/tnco/tree.hpp
index 06016b7..fb5a875 100644
--- a/include/tnco/tree.hpp
+++ b/include/tnco/tree.hpp
@@ -175,7 +175,7 @@ struct Tree {
      *
      *   Swap D <-> C.
      */
-    if (pos_D >= static_cast<long int>(size())) {
+    if (pos_D < 0 || pos_D >= static_cast<long int>(size())) {
       return;
     }
 
-- 
2.43.0


From f8f234f199d0f23ebab6cd2a5f2709fecf822adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 19/27] fix: compare cached dimensions with those of the other
 cache

---
 include/tnco/optimize/finite_width/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tnco/optimize/finite_width/utils.hpp b/include/tnco/optimize/finite_width/utils.hpp
index 8651939..61c5d89 100644
--- a/include/tnco/optimize/finite_width/utils.hpp
+++ b/include/tnco/optimize/finite_width/utils.hpp
@@ -113,7 +113,7 @@ struct DimsCache {
     // If both are floats
     if (px_ == nullptr && py_ == nullptr) {
       return tnco::utils::is_close(std::get<float_type>(log2_dims),
-                                   std::get<float_type>(log2_dims), atol);
+                                   std::get<float_type>(cache.log2_dims), atol);
     }
 
     // At this point, they should have different types
-- 
2.43.0


From 971327de00db4115ab556e86f73ead6b6f017766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 20/27] fix: never accept moves with zero probability

---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 4 ++--
 include/tnco/optimize/infinite_memory/optimizer.hpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index e6b7380..ee28a87 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -198,7 +198,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
         //-------------------------------
 
-        if (uniform(this->prng) <= prob(delta_cost, total_cost)) {
+        if (uniform(this->prng) < prob(delta_cost, total_cost)) {
           // Swap
           this->ctree.swap_with_nn(pos_E);
 
@@ -292,7 +292,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           // Try to update ...
           if (const auto delta_cost =
                   new_cost_cache.partial_cost.back() - total_cost;
-              uniform(this->prng) <= prob(delta_cost, total_cost)) {
+              uniform(this->prng) < prob(delta_cost, total_cost)) {
             // Swap cost_cache
             cost_cache = std::move(new_cost_cache);
 
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 1817d20..9c850aa 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -159,7 +159,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
       //-------------------------------
 
-      if (uniform(this->prng) <= prob(delta_cost, total_cost)) {
+      if (uniform(this->prng) < prob(delta_cost, total_cost)) {
         // Swap
         this->ctree.swap_with_nn(pos_E);
 
-- 
2.43.0


From 4f78680df59bd55a568929c7e17b23415eb61235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 21/27] fix: compute costs in the selected type when all
 dimensions are equal

---
 include/tnco/optimize/infinite_memory/cost_model/simple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
index a9b5d01..15aa70c 100644
--- a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
+++ b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
@@ -42,7 +42,8 @@ template <typename CostType, typename Bitset, typename DimsType>
     -> CostType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return std::pow(dims, inds.count());
+    using std::pow;
+    return pow(CostType(dims), inds.count());
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
-- 
2.43.0


From f20301d4e24d2876012eef1b11ec9358cbd10100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 22/27] fix: compute logarithms of dimensions without losing
 precision

---
 .../tnco/optimize/finite_width/cost_model/simple.hpp  | 11 +++++++----
 .../finite_width/cost_model/simple_sparse_inds.hpp    |  6 +++---
 include/tnco/optimize/finite_width/utils.hpp          |  6 ++++--
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/tnco/optimize/finite_width/cost_model/simple.hpp b/include/tnco/optimize/finite_width/cost_model/simple.hpp
index 9135700..3b4ecea 100644
--- a/include/tnco/optimize/finite_width/cost_model/simple.hpp
+++ b/include/tnco/optimize/finite_width/cost_model/simple.hpp
@@ -43,7 +43,7 @@ template <typename WidthType, typename Bitset, typename DimsType>
     -> WidthType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return log2(dims) * inds.count();
+    return log2(static_cast<long double>(dims)) * inds.count();
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
@@ -51,7 +51,9 @@ template <typename WidthType, typename Bitset, typename DimsType>
            "Each dimension must be a positive number.");
     WidthType width_{0};
     inds.visit(
-        [&width_, &dims](auto &&pos) -> auto { width_ += log2(dims[pos]); });
+        [&width_, &dims](auto &&pos) -> auto {
+          width_ += log2(static_cast<long double>(dims[pos]));
+        });
     return width_;
   }
 }
@@ -65,13 +67,14 @@ template <typename WidthType, typename Bitset, typename DimsType>
     -> WidthType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return (1 - 2 * inds.test(pos)) * log2(dims);
+    return (1 - 2 * inds.test(pos)) * log2(static_cast<long double>(dims));
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
                         [](auto &&d) -> auto { return d == 0; }),
            "Each dimension must be a positive number.");
-    return (1 - 2 * inds.test(pos)) * log2(dims[pos]);
+    return (1 - 2 * inds.test(pos)) *
+           log2(static_cast<long double>(dims[pos]));
   }
 }
 
diff --git a/include/tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp b/include/tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp
index d022a1d..4e354cf 100644
--- a/include/tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp
+++ b/include/tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp
@@ -47,7 +47,7 @@ template <typename WidthType, typename Bitset, typename DimsType>
   };
   return simple::get_width<WidthType>(inds - sparse_inds, dims) +
          min(simple::get_width<WidthType>(inds & sparse_inds, dims),
-             log2(n_projs));
+             log2(static_cast<long double>(n_projs)));
 }
 
 template <typename WidthType, typename Bitset, typename DimsType,
@@ -69,9 +69,9 @@ template <typename WidthType, typename Bitset, typename DimsType,
     auto new_inds = inds;
     new_inds[pos] = !new_inds.test(pos);
     return min(simple::get_width<WidthType>(new_inds & sparse_inds, dims),
-               log2(n_projs)) -
+               log2(static_cast<long double>(n_projs))) -
            min(simple::get_width<WidthType>(inds & sparse_inds, dims),
-               log2(n_projs));
+               log2(static_cast<long double>(n_projs)));
   }
 
   // Index is not among the sparse indices
diff --git a/include/tnco/optimize/finite_width/utils.hpp b/include/tnco/optimize/finite_width/utils.hpp
index 61c5d89..3447bb3 100644
--- a/include/tnco/optimize/finite_width/utils.hpp
+++ b/include/tnco/optimize/finite_width/utils.hpp
@@ -86,12 +86,14 @@ struct DimsCache {
     std::visit(
         [&log2_dims = this->log2_dims](auto &&dims) -> auto {
           if constexpr (std::is_arithmetic_v<std::decay_t<decltype(dims)>>) {
-            log2_dims = static_cast<float_type>(log2(dims));
+            log2_dims = log2(static_cast<float_type>(dims));
           } else {
             std::vector<float_type> log2_dims_(std::size(dims));
             std::transform(std::begin(dims), std::end(dims),
                            std::begin(log2_dims_),
-                           [](auto &&d) -> auto { return log2(d); });
+                           [](auto &&d) -> auto {
+                             return log2(static_cast<float_type>(d));
+                           });
             log2_dims = std::move(log2_dims_);
           }
         },
-- 
2.43.0


From a44a81bacf1621cd6725004a25abc6f086a2c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 23/27] fix: stop slicing when no index is left to slice

---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index ee28a87..f5f33b8 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -239,7 +239,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
           // Keep adding new random slices until the sliced width is not larger
           // than max_width
-          while (n_new_slices < max_number_new_slices &&
+          while (n_pos > 0 && n_new_slices < max_number_new_slices &&
                  new_sliced_width_B > p_cmodel->max_width) {
             // Get a random position
             std::swap(pos[this->prng() % n_pos], pos[n_pos - 1]);
@@ -277,7 +277,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           ASSERT(abs(p_cmodel->width(new_inds_B - new_slices, dims) -
                      new_sliced_width_B) < 1e-5,
                  "Error when getting new slices.");
-          ASSERT(n_new_slices >= max_number_new_slices ||
+          ASSERT(n_pos == 0 || n_new_slices >= max_number_new_slices ||
                      new_sliced_width_B <= p_cmodel->max_width,
                  "New slices are not enough to reduce width.");
         }
-- 
2.43.0


From 56acf58a5a784e129f9c991af923b428bb012667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 24/27] fix: measure the width after slicing with the cost
 model

---
 .../tnco/optimize/finite_width/greedy/optimizer.hpp  | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index f5f33b8..5537ebe 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -252,16 +252,8 @@ struct Optimizer : optimize::optimizer::Optimizer {
             new_slices.set(pos[n_pos - 1]);
 
             // Update sliced width
-            std::visit(
-                [&new_sliced_width_B, &pos, &n_pos](auto &&log2_dims) -> auto {
-                  if constexpr (std::is_arithmetic_v<
-                                    std::decay_t<decltype(log2_dims)>>) {
-                    new_sliced_width_B -= log2_dims;
-                  } else {
-                    new_sliced_width_B -= log2_dims[pos[n_pos - 1]];
-                  }
-                },
-                dims_cache.log2_dims);
+            new_sliced_width_B =
+                p_cmodel->width(new_inds_B - new_slices, dims);
 
             // Update number of available slices
             --n_pos;
-- 
2.43.0


From d6c2efd097ca3b3859ead3b87cd445fc8f00723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 25/27] fix: choose slices by the width the cost model reports

---
 include/tnco/optimize/finite_width/greedy/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/utils.hpp b/include/tnco/optimize/finite_width/greedy/utils.hpp
index f179d7d..36b5309 100644
--- a/include/tnco/optimize/finite_width/greedy/utils.hpp
+++ b/include/tnco/optimize/finite_width/greedy/utils.hpp
@@ -91,12 +91,12 @@ template <typename Bitset, typename CTree, typename GetWidth,
           // Update slices
           slices.set(xpos);
 
-          // Get the new width
-          sliced_width += get_delta_width(sliced_xs, ctree.dims, xpos);
-
           // Update indices
           sliced_xs.reset(xpos);
 
+          // Get the new width
+          sliced_width = get_width(sliced_xs, ctree.dims);
+
           // Break if slices are enough
           if (sliced_width <= max_width) {
             break;
-- 
2.43.0


From 8f7c731f871fe902dce2592b8c54e16d3de899d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 26/27] fix: fuse and decompose circuits loaded as tensor
 networks as requested

---
 tnco/app/app.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 576029a..cafb0c2 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -494,8 +494,8 @@ def load_tn(obj: Any,
                                             initial_state=initial_state,
                                             final_state=final_state,
                                             simplify=simplify_circuit,
-                                            decompose_hyper_inds=False,
-                                            fuse=False,
+                                            decompose_hyper_inds=decompose_hyper_inds,
+                                            fuse=fuse,
                                             atol=atol,
                                             dtype=dtype,
                                             backend=backend,
@@ -521,8 +521,8 @@ def load_tn(obj: Any,
                                                 initial_state=initial_state,
                                                 final_state=final_state,
                                                 simplify=simplify_circuit,
-                                                decompose_hyper_inds=False,
-                                                fuse=False,
+                                                decompose_hyper_inds=decompose_hyper_inds,
+                                                fuse=fuse,
                                                 atol=atol,
                                                 dtype=dtype,
                                                 backend=backend,
@@ -547,8 +547,8 @@ def load_tn(obj: Any,
                                                 initial_state=initial_state,
                                                 final_state=final_state,
                                                 simplify=simplify_circuit,
-                                                decompose_hyper_inds=False,
-                                                fuse=False,
+                                                decompose_hyper_inds=decompose_hyper_inds,
+                                                fuse=fuse,
                                                 atol=atol,
                                                 dtype=dtype,
                                                 backend=backend,
-- 
2.43.0


From b513808b4c426c5808de05cf00cab0be9280f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 27/27] fix: accept any iterable of paths when merging
 contraction paths

---
 tnco/utils/tn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index b02c795..2bca17b 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -334,6 +334,9 @@ def merge_contraction_paths(n_tensors: int,
         >>> merge_contraction_paths(4, paths)
         [(0, 1), (0, 1), (0, 1)]
     """
+    # Convert paths to list
+    paths = list(paths)
+
     # Initialize merged path and positions
     merged_pos = list(range(n_tensors))
     merged_path = []
-- 
2.43.0

