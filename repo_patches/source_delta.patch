From c7a976dc62a2b97904be859072ee5fb892efcde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 01/75] fix: apply train-level class imbalance to graph node
 sampling

The imbalance section with apply_to=train was silently ignored for graph
datasets, while the array path honours it.
---
 src/modssc/sampling/services/service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/sampling/services/service.py b/src/modssc/sampling/services/service.py
index 52894bd..fd90fcb 100644
--- a/src/modssc/sampling/services/service.py
+++ b/src/modssc/sampling/services/service.py
@@ -440,10 +440,15 @@ def _sample_graph(
     # labeling happens inside train_mask
     train_idx = np.where(train_mask)[0].astype(np.int64)
 
+    # apply imbalance to train if requested
+    rng_imb = np.random.default_rng(seed_imb)
+    if plan.imbalance.apply_to == "train" and plan.imbalance.kind != "none":
+        train_idx = apply_imbalance(idx=train_idx, y=y, spec=plan.imbalance, rng=rng_imb)
+        train_mask = _idx_to_mask(n_nodes, train_idx)
+
     rng_lab = np.random.default_rng(seed_label)
     labeled_idx = select_labeled(train_idx=train_idx, y=y, spec=plan.labeling, rng=rng_lab)
 
-    rng_imb = np.random.default_rng(seed_imb)
     if plan.imbalance.apply_to == "labeled":
         labeled_idx = apply_imbalance(idx=labeled_idx, y=y, spec=plan.imbalance, rng=rng_imb)
 
-- 
2.43.0


From 2e3fa66b018a061b3ac357b0537156882df97065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 02/75] fix: reject predictions whose length differs from the
 labels

A single prediction was silently broadcast against all labels.
---
 src/modssc/evaluation/metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modssc/evaluation/metrics.py b/src/modssc/evaluation/metrics.py
index c085ad4..2306ba2 100644
--- a/src/modssc/evaluation/metrics.py
+++ b/src/modssc/evaluation/metrics.py
@@ -126,4 +126,8 @@ def evaluate(
     y_true_arr = labels_1d(y_true)
     scores = to_numpy(scores_or_labels)
     y_pred = predict_labels(scores)
+    if y_true_arr.shape[0] != y_pred.shape[0]:
+        raise ValueError(
+            f"y_true and predictions differ in length: {y_true_arr.shape[0]} != {y_pred.shape[0]}"
+        )
     return compute_metrics(y_true_arr, y_pred, metrics)
-- 
2.43.0


From 22d7150a430211b19aaeccc7bd9ef22e4222ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 03/75] fix: generating views no longer writes into the input
 dataset's metadata

---
 src/modssc/views/services/service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 7f53aea..54a1717 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -209,7 +209,7 @@ def generate_views(
 
         # 3) Meta
         meta: dict[str, Any] = dict(ds.meta) if isinstance(ds.meta, dict) else {}
-        meta.setdefault("views", {})
+        meta["views"] = dict(meta.get("views") or {})
         meta["views"][str(view.name)] = {
             "columns": cols.tolist(),
             "columns_mode": (view.columns.mode if view.columns is not None else "all"),
@@ -217,7 +217,7 @@ def generate_views(
         }
         if view.meta:
             # view-level metadata override/additions
-            meta.setdefault("view_meta", {})
+            meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
-- 
2.43.0


From 118827ea604d3c0cf8b0cce5463ee963583f7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 04/75] fix: draw torch swap noise from the augmentation
 context's generator

It used the global torch generator, so the result was not a function of the context.
---
 src/modssc/data_augmentation/ops/tabular.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index cf32383..3c88087 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -82,8 +82,11 @@ class SwapNoise(AugmentationOp):
 
             torch = importlib.import_module("torch")
 
-            mask_swap = torch.rand(x.shape, device=x.device) < p
-            noise = torch.randn(x.shape, device=x.device, dtype=x.dtype)
+            # draw from the context generator: the global torch generator is not seeded by it
+            shape = tuple(x.shape)
+            mask_swap = torch.from_numpy(np.asarray(rng.random(size=shape) < p)).to(x.device)
+            noise = torch.from_numpy(np.asarray(rng.normal(0.0, 1.0, size=shape)))
+            noise = noise.to(device=x.device, dtype=x.dtype)
 
             # Where mask_swap is True, use noise, else x
             return torch.where(mask_swap, noise, x)
-- 
2.43.0


From 45d5d074cdf77a3eb945004b225a7954594c6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 05/75] fix: wait for the dataset cache lock instead of
 removing another loader's lock

---
 src/modssc/data_loader/cache.py | 37 +++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 5f0321e..791bd8a 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -17,6 +17,11 @@ from modssc.data_loader.manifest import Manifest, read_manifest
 from modssc.runtime.paths import default_local_cache_subdir
 from modssc.utils.io import atomic_write_text as _atomic_write_text
 
+try:
+    import fcntl
+except ImportError:  # pragma: no cover - platforms without flock
+    fcntl = None  # type: ignore[assignment]
+
 CACHE_ENV = "MODSSC_CACHE_DIR"
 CACHE_ROOT_ENV = "MODSSC_CACHE_ROOT"
 
@@ -86,24 +91,44 @@ def ensure_layout(layout: CacheLayout) -> None:
     _ensure_index(layout.index_path)
 
 
+def _acquire_lock(lock_path: Path) -> int:
+    if fcntl is None:  # pragma: no cover - platforms without flock
+        return os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+    while True:
+        fd = os.open(str(lock_path), os.O_CREAT | os.O_WRONLY)
+        try:
+            fcntl.flock(fd, fcntl.LOCK_EX)
+            # The previous holder removes the file: only a lock on the current file counts.
+            if os.path.samestat(os.fstat(fd), os.stat(lock_path)):
+                return fd
+        except FileNotFoundError:
+            pass
+        except BaseException:
+            os.close(fd)
+            raise
+        os.close(fd)
+
+
 @contextmanager
 def cache_lock(layout: CacheLayout, fingerprint: str) -> Iterator[None]:
-    """Simple file lock using O_EXCL creation."""
+    """Exclusive file lock on a cache entry.
+
+    Waits for the current holder; the lock of a process that died is released by the system.
+    """
     ensure_layout(layout)
     lock_path = layout.lock_path(fingerprint)
     lock_path.parent.mkdir(parents=True, exist_ok=True)
 
-    fd: int | None = None
+    fd = _acquire_lock(lock_path)
     try:
-        fd = os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+        os.ftruncate(fd, 0)
         os.write(fd, str(os.getpid()).encode("utf-8"))
         yield
     finally:
-        if fd is not None:
-            os.close(fd)
-        # best effort cleanup
+        # best effort cleanup, while the lock is still held
         with contextlib.suppress(Exception):
             lock_path.unlink(missing_ok=True)
+        os.close(fd)
 
 
 def is_cached(layout: CacheLayout, fingerprint: str) -> bool:
-- 
2.43.0


From d7814c5a1f1fa67cb18e120158ff0c20460ff4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 06/75] fix: keep interrupted dataset stores, refreshes and
 purges from leaving entries that look complete

---
 src/modssc/data_loader/cache.py            | 3 ++-
 src/modssc/data_loader/manifest.py         | 4 ++--
 src/modssc/data_loader/services/service.py | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 791bd8a..6e959f8 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -290,9 +290,10 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
-    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
+    # manifest first: an interrupted purge must not leave an entry that looks complete
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
+    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     index_delete(layout, [fingerprint])
 
 
diff --git a/src/modssc/data_loader/manifest.py b/src/modssc/data_loader/manifest.py
index fdc2ff2..9dafa1b 100644
--- a/src/modssc/data_loader/manifest.py
+++ b/src/modssc/data_loader/manifest.py
@@ -11,6 +11,7 @@ from typing import Any
 
 from modssc.data_loader.storage.json import to_jsonable as _jsonable
 from modssc.data_loader.types import DatasetIdentity, LoadedDataset
+from modssc.utils.io import atomic_write_text
 
 
 def utc_now_iso() -> str:
@@ -112,8 +113,7 @@ def build_manifest(
 
 
 def write_manifest(path: Path, manifest: Manifest) -> None:
-    path.parent.mkdir(parents=True, exist_ok=True)
-    path.write_text(manifest.to_json() + "\n", encoding="utf-8")
+    atomic_write_text(path, manifest.to_json() + "\n")
 
 
 def read_manifest(path: Path) -> Manifest:
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 124c009..991d0ef 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -464,7 +464,8 @@ def _download_and_store(
             ds = replace(ds, meta={})
         ds.meta["dataset_fingerprint"] = fp
 
-        # store processed
+        # store processed; the entry counts as cached again once its manifest is written
+        layout.manifest_path(fp).unlink(missing_ok=True)
         processed_dir = layout.processed_dir(fp)
         if processed_dir.exists():
             # clean partial state
-- 
2.43.0


From 82f7aaeddd839d4d19e6abb6fb7f295758cafba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 07/75] fix: keep the shape of cached string object arrays

---
 src/modssc/data_loader/storage/files.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/storage/files.py b/src/modssc/data_loader/storage/files.py
index 0fe7ab2..43b22fa 100644
--- a/src/modssc/data_loader/storage/files.py
+++ b/src/modssc/data_loader/storage/files.py
@@ -33,9 +33,12 @@ def _is_str_object_array(arr: np.ndarray) -> bool:
         items = arr.tolist()
     except Exception:
         return False
-    # conservative: require every element to be str
+    # conservative: require every element to be str, and the item list to keep the shape
     try:
-        return all(isinstance(x, str) for x in np.asarray(items, dtype=object).flat)
+        parsed = np.asarray(items, dtype=object)
+        if parsed.ndim == 0 or parsed.shape != arr.shape:
+            return False
+        return all(isinstance(x, str) for x in parsed.flat)
     except Exception:
         return False
 
-- 
2.43.0


From 27d9532d9884e441bdf617d18640ad2a5e19de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 08/75] fix: refuse to purge dataset cache entries outside the
 cache folder

---
 src/modssc/cli/datasets.py      | 5 ++++-
 src/modssc/data_loader/cache.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/cli/datasets.py b/src/modssc/cli/datasets.py
index 5538d6e..8a789b1 100644
--- a/src/modssc/cli/datasets.py
+++ b/src/modssc/cli/datasets.py
@@ -145,7 +145,10 @@ def cache_purge(
         configure_logging(log_level)
     layout = api._layout(cache_dir)
     if fingerprint:
-        api.cache.purge_fingerprint(layout, dataset_or_fp)
+        try:
+            api.cache.purge_fingerprint(layout, dataset_or_fp)
+        except DataLoaderError as exc:
+            exit_with_error(str(exc))
         typer.echo(f"Purged fingerprint: {dataset_or_fp}")
     else:
         fps = api.cache.purge_dataset(layout, dataset_or_fp)
diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 6e959f8..2eaa645 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -290,6 +290,8 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
+    if fingerprint in {"", ".", ".."} or Path(fingerprint).name != fingerprint:
+        raise ManifestError(f"Invalid cache fingerprint: {fingerprint!r}")
     # manifest first: an interrupted purge must not leave an entry that looks complete
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
-- 
2.43.0


From 5ffc8f1993abd0d014b2223108cc3dde541176ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 09/75] fix: seed graph.dgi and graph.node2vec before their
 layers are created

---
 src/modssc/preprocess/steps/graph/dgi.py      | 5 +++--
 src/modssc/preprocess/steps/graph/node2vec.py | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modssc/preprocess/steps/graph/dgi.py b/src/modssc/preprocess/steps/graph/dgi.py
index f3b18d1..ff7e3bb 100644
--- a/src/modssc/preprocess/steps/graph/dgi.py
+++ b/src/modssc/preprocess/steps/graph/dgi.py
@@ -145,6 +145,9 @@ def _train_dgi(
         edge_index_t, edge_weight_t = _add_self_loops(edge_index_t, edge_weight_t, n_nodes=n_nodes)
     edge_weight_t = _normalize_edge_weight(edge_index_t, edge_weight_t, n_nodes=n_nodes)
 
+    # Seed before the layers are created: their initial weights are part of the result.
+    torch.manual_seed(int(seed))
+
     encoder = _GCNEncoder(
         X_t.shape[1],
         hidden=int(hidden_dim),
@@ -158,8 +161,6 @@ def _train_dgi(
     )
     bce = torch.nn.BCEWithLogitsLoss()
 
-    torch.manual_seed(int(seed))
-
     for _epoch in range(int(unsup_epochs)):
         encoder.train()
         disc.train()
diff --git a/src/modssc/preprocess/steps/graph/node2vec.py b/src/modssc/preprocess/steps/graph/node2vec.py
index 071920e..39bc0f9 100644
--- a/src/modssc/preprocess/steps/graph/node2vec.py
+++ b/src/modssc/preprocess/steps/graph/node2vec.py
@@ -97,6 +97,9 @@ class GraphNode2VecStep:
         torch = require(module="torch", extra="transductive-torch", purpose="graph.node2vec")
         dev_name = resolve_device_name(self.device, torch=torch) or "cpu"
         device = torch.device(dev_name)
+        # Seed before the tables are created: their initial weights are part of the result.
+        if hasattr(torch, "manual_seed"):
+            torch.manual_seed(seed)
         emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
         ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
         optimizer = torch.optim.Adam(
-- 
2.43.0


From 5af68c29e92f631fe7035b05b553131ab1c90d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 10/75] fix: recompute both splits of a preprocess step when
 only one is cached

---
 src/modssc/preprocess/services/pipeline.py | 62 ++++++++++++----------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 5567758..51f62bc 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -17,7 +17,13 @@ from modssc.preprocess.fingerprint import derive_seed, fingerprint
 from modssc.preprocess.plan import PreprocessPlan
 from modssc.preprocess.registry import StepRegistry, default_step_registry
 from modssc.preprocess.store import ArtifactStore
-from modssc.preprocess.types import PreprocessResult, ResolvedPlan, ResolvedStep, SkippedStep
+from modssc.preprocess.types import (
+    PreprocessResult,
+    ResolvedPlan,
+    ResolvedStep,
+    SkippedStep,
+    StepSpec,
+)
 from modssc.runtime.device import _try_import_torch, resolve_device_name
 from modssc.utils.shape import shape_of as _shape_of
 
@@ -270,6 +276,22 @@ def _cache_outputs_complete(outputs: dict[str, Any], produces: tuple[str, ...])
     return expected.issubset(outputs.keys())
 
 
+def _load_cached_outputs(
+    cm: CacheManager, step_fp: str, *, spec: StepSpec, split: str
+) -> dict[str, Any] | None:
+    """Return the complete cached outputs of a step, or None on a cache miss."""
+    if not cm.has_step_outputs(step_fp, split=split):
+        return None
+    try:
+        outputs = cm.load_step_outputs(step_fingerprint=step_fp, split=split)
+        if not _cache_outputs_complete(outputs, spec.produces):
+            raise PreprocessCacheError(f"Incomplete cached outputs for step {spec.step_id!r}")
+    except PreprocessCacheError as e:
+        logger.warning("Preprocess cache miss for %s (%s): %s", spec.step_id, split, e)
+        return None
+    return outputs
+
+
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
@@ -546,20 +568,19 @@ def preprocess(
                 )
             step_obj.fit(train_store, fit_indices=np.asarray(fit_indices, dtype=np.int64), rng=rng)
 
-        # Load from cache if available, otherwise compute and save.
+        # Load from cache if available, otherwise compute and save.  The random stream continues
+        # from the train transform into the test transform: to compute the test outputs, the train
+        # transform has to run first.
         produced_train: dict[str, Any] | None = None
-        train_from_cache = False
-        if cm is not None and cm.has_step_outputs(step_fp, split="train"):
-            try:
-                produced_train = cm.load_step_outputs(step_fingerprint=step_fp, split="train")
-                if not _cache_outputs_complete(produced_train, spec.produces):
-                    raise PreprocessCacheError(
-                        f"Incomplete cached outputs for step {step_id!r} (train)"
-                    )
-                train_from_cache = True
-            except PreprocessCacheError as e:
-                logger.warning("Preprocess cache miss for %s (train): %s", step_id, e)
-                produced_train = None
+        produced_test: dict[str, Any] | None = None
+        if cm is not None:
+            produced_train = _load_cached_outputs(cm, step_fp, spec=spec, split="train")
+            if test_store is not None:
+                produced_test = _load_cached_outputs(cm, step_fp, spec=spec, split="test")
+                if produced_test is None:
+                    produced_train = None
+        train_from_cache = produced_train is not None
+        test_from_cache = produced_test is not None
         if produced_train is None:
             produced_train = step_obj.transform(train_store, rng=rng)
             if not isinstance(produced_train, dict):
@@ -595,20 +616,7 @@ def preprocess(
             perf_counter() - step_start,
         )
 
-        produced_test: dict[str, Any] | None = None
-        test_from_cache = False
         if test_store is not None:
-            if cm is not None and cm.has_step_outputs(step_fp, split="test"):
-                try:
-                    produced_test = cm.load_step_outputs(step_fingerprint=step_fp, split="test")
-                    if not _cache_outputs_complete(produced_test, spec.produces):
-                        raise PreprocessCacheError(
-                            f"Incomplete cached outputs for step {step_id!r} (test)"
-                        )
-                    test_from_cache = True
-                except PreprocessCacheError as e:
-                    logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
-                    produced_test = None
             if produced_test is None:
                 produced_test = step_obj.transform(test_store, rng=rng)
                 if not isinstance(produced_test, dict):
-- 
2.43.0


From 22ad80b0f5d47bf6b9814c7340b74a74e5c5739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 11/75] fix: dropping unused preprocess artifacts no longer
 fails when raw.X or raw.y was replaced

---
 src/modssc/preprocess/services/pipeline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 51f62bc..c6390be 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -365,6 +365,10 @@ def _purge_store(store: ArtifactStore, *, keep: set[str]) -> None:
     store.data = {k: v for k, v in store.data.items() if k in keep}
 
 
+def _first_available(store: ArtifactStore, key: str, fallback: str) -> Any:
+    return store.get(key) if store.has(key) else store.require(fallback)
+
+
 def resolve_plan(
     dataset: LoadedDataset,
     plan: PreprocessPlan,
@@ -681,8 +685,8 @@ def preprocess(
 
     # Choose final X for downstream training.
     out_key = plan.output_key
-    X_train = train_store.get(out_key, train_store.require("raw.X"))
-    y_train = train_store.get("labels.y", train_store.require("raw.y"))
+    X_train = _first_available(train_store, out_key, "raw.X")
+    y_train = _first_available(train_store, "labels.y", "raw.y")
 
     edges_train = train_store.get("graph.edge_index", dataset.train.edges)
     if train_store.has("graph.edge_weight"):
@@ -695,8 +699,8 @@ def preprocess(
 
     test_out = None
     if dataset.test is not None and test_store is not None:
-        X_test = test_store.get(out_key, test_store.require("raw.X"))
-        y_test = test_store.get("labels.y", test_store.require("raw.y"))
+        X_test = _first_available(test_store, out_key, "raw.X")
+        y_test = _first_available(test_store, "labels.y", "raw.y")
         edges_test = test_store.get("graph.edge_index", dataset.test.edges)
         if test_store.has("graph.edge_weight"):
             edges_test = {
-- 
2.43.0


From 4829078e4e2daf2e1e1cff07209164a552ff8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 12/75] fix: identify and keep every artifact a preprocess step
 reads

---
 src/modssc/preprocess/services/pipeline.py | 26 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index c6390be..084a329 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -30,12 +30,28 @@ from modssc.utils.shape import shape_of as _shape_of
 logger = logging.getLogger(__name__)
 
 
+# Optional inputs: artifacts a step reads when present, on top of its declared inputs.
 _IMPLICIT_CONSUMES: dict[str, tuple[str, ...]] = {
+    "core.ensure_2d": ("features.X",),
+    "tabular.impute": ("raw.X",),
+    "tabular.standard_scaler": ("raw.X",),
+    "graph.attach_edge_weight": ("graph.edge_weight",),
+    "graph.sparse_adjacency": ("raw.X", "graph.edge_weight"),
     "graph.node2vec": ("raw.X", "raw.y"),
-    "graph.dgi": ("raw.X",),
+    "graph.dgi": ("raw.X", "graph.edge_weight"),
+    "labels.to_torch": ("labels.y",),
 }
 
 
+def _step_inputs(step: ResolvedStep) -> tuple[str, ...]:
+    """Every artifact a step may read: declared, optional and chosen by parameter."""
+    keys = [*step.spec.consumes, *_IMPLICIT_CONSUMES.get(step.step_id, ())]
+    input_key = step.params.get("input_key")
+    if isinstance(input_key, str):
+        keys.append(input_key)
+    return tuple(dict.fromkeys(keys))
+
+
 _MAX_ESTIMATE_ITEMS = 1024
 _MAX_ESTIMATE_DEPTH = 2
 
@@ -353,8 +369,7 @@ def _build_purge_keep_sets(
     for i in range(len(steps) - 1, -1, -1):
         keep_sets[i] = set(required)
         step = steps[i]
-        required.update(step.spec.consumes)
-        required.update(_IMPLICIT_CONSUMES.get(step.step_id, ()))
+        required.update(_step_inputs(step))
     return keep_sets
 
 
@@ -539,9 +554,10 @@ def preprocess(
         )
 
         # Compute step fingerprint with input provenance.
-        inputs_train = {k: prov_train.get(k) for k in spec.consumes if k in prov_train}
+        input_keys = _step_inputs(step)
+        inputs_train = {k: prov_train.get(k) for k in input_keys if k in prov_train}
         inputs_test = (
-            {k: prov_test.get(k) for k in spec.consumes if k in prov_test} if test_store else {}
+            {k: prov_test.get(k) for k in input_keys if k in prov_test} if test_store else {}
         )
         step_fp = fingerprint(
             {
-- 
2.43.0


From 54acd9b08f995bc1af4655e5b883b8811cc7b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 13/75] fix: tie the preprocess cache of unidentified datasets
 to their content

---
 src/modssc/preprocess/fingerprint.py       | 43 ++++++++++++++++++++++
 src/modssc/preprocess/services/pipeline.py | 22 +++++------
 2 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/modssc/preprocess/fingerprint.py b/src/modssc/preprocess/fingerprint.py
index a200222..ffb860f 100644
--- a/src/modssc/preprocess/fingerprint.py
+++ b/src/modssc/preprocess/fingerprint.py
@@ -2,9 +2,14 @@ from __future__ import annotations
 
 import hashlib
 import json
+import pickle
 from collections.abc import Mapping
 from typing import Any
 
+import numpy as np
+
+from modssc.preprocess.numpy_adapter import to_numpy
+
 
 def stable_json_dumps(obj: Any) -> str:
     """Dump JSON with stable key ordering and compact separators.
@@ -21,6 +26,44 @@ def fingerprint(obj: Any, *, prefix: str = "") -> str:
     return f"{prefix}{h}" if prefix else h
 
 
+def _update_digest(h: Any, value: Any) -> None:
+    h.update(f"<{type(value).__module__}.{type(value).__qualname__}>".encode())
+    if isinstance(value, Mapping):
+        for k, v in value.items():
+            _update_digest(h, k)
+            _update_digest(h, v)
+    elif isinstance(value, (list, tuple)):
+        h.update(str(len(value)).encode())
+        for v in value:
+            _update_digest(h, v)
+    elif hasattr(value, "tocoo"):
+        coo = value.tocoo()
+        for part in (coo.shape, coo.row, coo.col, coo.data):
+            _update_digest(h, part)
+    elif hasattr(value, "detach") or isinstance(value, np.ndarray):
+        arr = to_numpy(value)
+        h.update(f"{arr.dtype.str}{arr.shape}".encode())
+        if arr.dtype == object:
+            for v in arr.ravel().tolist():
+                _update_digest(h, v)
+        else:
+            h.update(np.ascontiguousarray(arr).tobytes())
+    elif value is None or isinstance(value, (bool, int, float, str, bytes, np.generic)):
+        h.update(repr(value).encode("utf-8", "backslashreplace"))
+    else:
+        try:
+            h.update(pickle.dumps(value))
+        except Exception:
+            h.update(repr(value).encode("utf-8", "backslashreplace"))
+
+
+def content_digest(value: Any) -> str:
+    """SHA256 digest of the content of arrays, tensors, sparse matrices and plain containers."""
+    h = hashlib.sha256()
+    _update_digest(h, value)
+    return h.hexdigest()
+
+
 def derive_seed(master_seed: int, *, step_id: str, step_index: int) -> int:
     """Derive a per-step seed from a master seed and step identity.
 
diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 084a329..bd28319 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -13,7 +13,7 @@ import numpy as np
 from modssc.data_loader.types import LoadedDataset, Split
 from modssc.preprocess.cache import CacheManager
 from modssc.preprocess.errors import PreprocessCacheError, PreprocessValidationError
-from modssc.preprocess.fingerprint import derive_seed, fingerprint
+from modssc.preprocess.fingerprint import content_digest, derive_seed, fingerprint
 from modssc.preprocess.plan import PreprocessPlan
 from modssc.preprocess.registry import StepRegistry, default_step_registry
 from modssc.preprocess.store import ArtifactStore
@@ -313,19 +313,17 @@ def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     if isinstance(fp, str) and fp:
         return fp
 
-    # Fallback: structural fingerprint only (no full data hashing).
-    train_x = getattr(dataset.train, "X", None)
-    train_y = getattr(dataset.train, "y", None)
-    payload = {
+    # Fallback: no identity is known, so the cached outputs have to be tied to the content.
+    payload: dict[str, Any] = {
         "modality": dataset.meta.get("modality") if hasattr(dataset, "meta") else None,
-        "train": {
-            "x_shape": getattr(train_x, "shape", None),
-            "y_shape": getattr(train_y, "shape", None),
-            "has_edges": dataset.train.edges is not None,
-            "has_masks": dataset.train.masks is not None,
-        },
-        "has_test": dataset.test is not None,
     }
+    for name in ("train", "test"):
+        split = getattr(dataset, name, None)
+        payload[name] = (
+            None
+            if split is None
+            else {k: content_digest(getattr(split, k, None)) for k in ("X", "y", "edges", "masks")}
+        )
     return fingerprint(payload, prefix="dataset:")
 
 
-- 
2.43.0


From 6ffbbc0fbee0d837e054dd9b1a66a4e23ba370b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 14/75] fix: cached preprocess values come back unchanged, and
 damaged ones are recomputed

---
 src/modssc/preprocess/cache.py | 61 ++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 7f95172..bc31728 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -90,6 +90,17 @@ def _is_scipy_sparse(obj: Any) -> bool:
     return mod.startswith("scipy.sparse")
 
 
+def _survives_json(value: Any) -> bool:
+    """True when JSON gives back an equal value of the same types."""
+    if value is None or type(value) in (str, int, float, bool):
+        return True
+    if type(value) is list:
+        return all(_survives_json(v) for v in value)
+    if type(value) is dict:
+        return all(type(k) is str and _survives_json(v) for k, v in value.items())
+    return False
+
+
 def _save_json(path: Path, payload: Any, *, extra: dict[str, Any] | None = None) -> dict[str, Any]:
     import json
 
@@ -114,8 +125,14 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
                 }
             try:
                 payload = value.tolist()
+                items = value.ravel().tolist()
             except TypeError:
                 return None
+            # Nested containers would come back as further array dimensions.
+            if value.size == 0 or not all(
+                _survives_json(v) and not isinstance(v, (list, dict)) for v in items
+            ):
+                return None
             return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
         np.save(path.with_suffix(".npy"), value, allow_pickle=False)
         return {"type": "npy", "path": path.with_suffix(".npy").name}
@@ -146,16 +163,12 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
             }
 
     # Support simple JSON-serializable payloads (lists of strings, small dicts, etc.).
-    if isinstance(value, (str, int, float, bool)) or value is None:
+    if type(value) is tuple and _survives_json(list(value)):
+        return _save_json(path, list(value), extra={"format": "tuple"})
+    if _survives_json(value):
         return _save_json(path, value)
-    if isinstance(value, (list, tuple, dict)):
-        try:
-            payload = value
-            if isinstance(value, tuple):
-                payload = list(value)
-            return _save_json(path, payload)
-        except TypeError:
-            return None
+    if isinstance(value, (str, int, float, list, tuple, dict)):
+        return None
 
     if _is_scipy_sparse(value):
         # Lazy import to keep base install light.
@@ -222,6 +235,8 @@ def _load_value(path: Path, desc: dict[str, Any]) -> Any:
         payload = json.loads(fp.read_text(encoding="utf-8"))
         if desc.get("format") == "ndarray":
             return np.asarray(payload, dtype=object)
+        if desc.get("format") == "tuple":
+            return tuple(payload)
         return payload
     if t == "npz":
         try:
@@ -292,8 +307,11 @@ class CacheManager:
         payload = dict(manifest)
         if manifest_path.exists():
             try:
-                payload = json_load(manifest_path.read_text(encoding="utf-8"))
+                payload = json_load(_read_manifest(manifest_path))
+                if not isinstance(payload.get("saved", {}), dict):
+                    raise PreprocessCacheError("Invalid cache manifest structure")
             except PreprocessCacheError as e:
+                payload = dict(manifest)
                 logger.warning(
                     "Resetting corrupt preprocess manifest: step=%s split=%s error=%s",
                     step_fingerprint,
@@ -316,19 +334,34 @@ class CacheManager:
         if not manifest_path.exists():
             raise PreprocessCacheError(f"Missing cache manifest for step {step_fingerprint}")
 
-        manifest = manifest_path.read_text()
-        data = json_load(manifest)
-        saved = data.get("saved", {}).get(split, {})
+        data = json_load(_read_manifest(manifest_path))
+        saved = data.get("saved", {})
+        if isinstance(saved, dict):
+            saved = saved.get(split, {})
         if not isinstance(saved, dict):
             raise PreprocessCacheError("Invalid cache manifest structure")
         out: dict[str, Any] = {}
         split_path = self.split_dir(step_fingerprint, split)
         for key, desc in saved.items():
             if isinstance(desc, dict):
-                out[str(key)] = _load_value(split_path, desc)
+                try:
+                    out[str(key)] = _load_value(split_path, desc)
+                except (PreprocessCacheError, OptionalDependencyError):
+                    raise
+                except Exception as e:
+                    raise PreprocessCacheError(
+                        f"Failed to load cached value {key!r} of step {step_fingerprint}"
+                    ) from e
         return out
 
 
+def _read_manifest(path: Path) -> str:
+    try:
+        return path.read_text(encoding="utf-8")
+    except (OSError, UnicodeDecodeError) as e:
+        raise PreprocessCacheError(f"Unreadable cache manifest: {path}") from e
+
+
 def json_load(text: str) -> dict[str, Any]:
     import json
 
-- 
2.43.0


From d63250a2b7103b0fc1ae4c89113911caed30f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 15/75] fix: stub embeddings of object rows no longer depend on
 memory addresses

---
 src/modssc/preprocess/models_backends/stub.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/models_backends/stub.py b/src/modssc/preprocess/models_backends/stub.py
index 97151c0..ca7b1c9 100644
--- a/src/modssc/preprocess/models_backends/stub.py
+++ b/src/modssc/preprocess/models_backends/stub.py
@@ -16,7 +16,11 @@ def _sample_bytes(x: Any) -> bytes:
         return x.encode("utf-8", errors="ignore")
     arr = to_numpy(x)
     # Use shape + dtype + bytes for stable representation (avoid huge copies).
-    head = arr.tobytes()[:1024]
+    if arr.dtype == object:
+        # The raw bytes of object arrays are memory addresses.
+        head = repr(arr.tolist()).encode("utf-8", errors="ignore")[:1024]
+    else:
+        head = arr.tobytes()[:1024]
     meta = f"{arr.shape}|{arr.dtype}".encode()
     return meta + b"|" + head
 
-- 
2.43.0


From f4dfdd2224b28a945ba06b4aeaa9c83c55f3c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 16/75] fix: preprocessing no longer fails when the final
 features are text or objects

---
 src/modssc/preprocess/services/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index bd28319..e352979 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -279,7 +279,7 @@ def _maybe_log_gpu_info(
 
 
 def _maybe_warn_nonfinite(name: str, value: Any, *, max_elems: int = 1_000_000) -> None:
-    if not isinstance(value, np.ndarray):
+    if not isinstance(value, np.ndarray) or value.dtype.kind not in "fc":
         return
     if int(value.size) > max_elems:
         return
-- 
2.43.0


From 225ee7ab93cf86f6f3648c1f8a4eab44f661b5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 17/75] fix: label steps give a class the same code in the
 train and the test split

---
 src/modssc/preprocess/services/pipeline.py    |  5 ++++
 src/modssc/preprocess/steps/labels/encode.py  | 20 ++++++++++++--
 .../preprocess/steps/labels/ensure_onehot.py  | 27 ++++++++++++++-----
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index e352979..413941c 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -586,6 +586,11 @@ def preprocess(
                 )
             step_obj.fit(train_store, fit_indices=np.asarray(fit_indices, dtype=np.int64), rng=rng)
 
+        # Label steps read the classes of the train split, whatever split they then transform.
+        observe_train = getattr(step_obj, "observe_train", None)
+        if callable(observe_train):
+            observe_train(train_store)
+
         # Load from cache if available, otherwise compute and save.  The random stream continues
         # from the train transform into the test transform: to compute the test outputs, the train
         # transform has to run first.
diff --git a/src/modssc/preprocess/steps/labels/encode.py b/src/modssc/preprocess/steps/labels/encode.py
index 373cd96..e41bb18 100644
--- a/src/modssc/preprocess/steps/labels/encode.py
+++ b/src/modssc/preprocess/steps/labels/encode.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 import numpy as np
 
@@ -10,9 +10,25 @@ from modssc.supervised.utils import encode_labels
 
 @dataclass
 class EncodeLabelsStep:
-    """Encode raw.y to contiguous int64 labels and store labels.y/classes."""
+    """Encode raw.y to contiguous int64 labels and store labels.y/classes.
+
+    In a pipeline, every split is encoded with the classes of the train split; classes that only
+    the other split has come after them.
+    """
+
+    train_classes_: np.ndarray | None = field(default=None, init=False, repr=False)
+
+    def observe_train(self, store: ArtifactStore) -> None:
+        self.train_classes_ = encode_labels(store.require("raw.y"))[1]
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, object]:  # noqa: ARG002
         y = store.require("raw.y")
         y_enc, classes = encode_labels(y)
+        known = self.train_classes_
+        if known is not None and not np.array_equal(known, classes):
+            extra = classes[~np.isin(classes, known)]
+            columns = np.concatenate([known, extra])
+            order = np.argsort(columns, kind="stable")
+            y_enc = order[np.searchsorted(columns[order], classes)][y_enc].astype(np.int64)
+            classes = columns
         return {"labels.y": y_enc, "labels.classes": classes}
diff --git a/src/modssc/preprocess/steps/labels/ensure_onehot.py b/src/modssc/preprocess/steps/labels/ensure_onehot.py
index 3c0123f..47d365b 100644
--- a/src/modssc/preprocess/steps/labels/ensure_onehot.py
+++ b/src/modssc/preprocess/steps/labels/ensure_onehot.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any
 
 import numpy as np
@@ -10,24 +10,39 @@ from modssc.preprocess.store import ArtifactStore
 
 @dataclass
 class EnsureOneHotLabelsStep:
+    """One-hot encode raw.y.
+
+    In a pipeline, the columns of every split are the classes of the train split; classes that
+    only the other split has get the columns after them.
+    """
+
     unlabeled_value: int = -1
     dtype: str = "float32"
+    train_classes_: np.ndarray | None = field(default=None, init=False, repr=False)
+
+    def _classes(self, store: ArtifactStore) -> np.ndarray:
+        y_flat = np.asarray(store.require("raw.y")).reshape(-1)
+        return np.unique(y_flat[y_flat != int(self.unlabeled_value)])
+
+    def observe_train(self, store: ArtifactStore) -> None:
+        self.train_classes_ = self._classes(store)
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         y = np.asarray(store.require("raw.y"))
         y_flat = y.reshape(-1)
         labeled = y_flat != int(self.unlabeled_value)
 
-        if labeled.any():
-            classes = np.unique(y_flat[labeled])
-        else:
-            classes = np.asarray([], dtype=y_flat.dtype)
+        classes = self._classes(store)
+        if self.train_classes_ is not None:
+            extra = classes[~np.isin(classes, self.train_classes_)]
+            classes = np.concatenate([self.train_classes_, extra])
 
         C = int(classes.size)
         onehot = np.zeros((y_flat.size, C), dtype=self.dtype)
         if C > 0 and labeled.any():
             rows = np.nonzero(labeled)[0]
-            cols = np.searchsorted(classes, y_flat[labeled])
+            order = np.argsort(classes, kind="stable")
+            cols = order[np.searchsorted(classes[order], y_flat[labeled])]
             onehot[rows, cols] = 1.0
 
         return {"labels.y_onehot": onehot, "labels.is_labeled": labeled.astype(bool)}
-- 
2.43.0


From 44bcd980cda8c027e40a64a6f3beff55344426c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 18/75] fix: core.to_numpy turns sparse features into a dense
 array

---
 src/modssc/preprocess/numpy_adapter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/numpy_adapter.py b/src/modssc/preprocess/numpy_adapter.py
index be5221a..e74717d 100644
--- a/src/modssc/preprocess/numpy_adapter.py
+++ b/src/modssc/preprocess/numpy_adapter.py
@@ -9,7 +9,8 @@ import numpy as np
 def to_numpy(x: Any) -> np.ndarray:
     """Best-effort conversion to numpy without requiring optional backends.
 
-    Supports common tensor-like objects (PyTorch, JAX) via duck-typing.
+    Supports common tensor-like objects (PyTorch, JAX) via duck-typing; scipy sparse matrices
+    become dense.
     """
     if isinstance(x, np.ndarray):
         return x
@@ -29,4 +30,8 @@ def to_numpy(x: Any) -> np.ndarray:
                 return arr
         except Exception:
             pass
+    if hasattr(obj, "toarray"):
+        arr = obj.toarray()
+        if isinstance(arr, np.ndarray):
+            return arr
     return np.asarray(obj)
-- 
2.43.0


From 371c36b6f54c54b2a85efaefbcba9c867e0f1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 19/75] fix: sklearn kNN graphs have k neighbours per node when
 points repeat

---
 src/modssc/graph/construction/backends/sklearn_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modssc/graph/construction/backends/sklearn_backend.py b/src/modssc/graph/construction/backends/sklearn_backend.py
index c3b25bc..f0947df 100644
--- a/src/modssc/graph/construction/backends/sklearn_backend.py
+++ b/src/modssc/graph/construction/backends/sklearn_backend.py
@@ -38,7 +38,10 @@ def knn_edges_sklearn(
     dst = idx.reshape(-1)
     dist_flat = dist.reshape(-1)
     if not include_self:
-        mask = dst != src
+        mask = idx != np.arange(n_rows, dtype=np.int64)[:, None]
+        # With duplicate points the query itself may be missing from its neighbours: keep k.
+        mask &= np.cumsum(mask, axis=1) <= int(k)
+        mask = mask.reshape(-1)
         src = src[mask]
         dst = dst[mask]
         dist_flat = dist_flat[mask]
-- 
2.43.0


From 5cc55e076018e38380de42b5cb8cb3f58e9c5eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 20/75] fix: rows of very small edge weights are normalised to
 sum to one

---
 src/modssc/graph/construction/ops/normalize.py    | 10 ++++++----
 src/modssc/graph/featurization/views/diffusion.py |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/modssc/graph/construction/ops/normalize.py b/src/modssc/graph/construction/ops/normalize.py
index 0fbf60b..ebbc58d 100644
--- a/src/modssc/graph/construction/ops/normalize.py
+++ b/src/modssc/graph/construction/ops/normalize.py
@@ -32,17 +32,19 @@ def normalize_edge_weights(
     w = np.asarray(edge_weight, dtype=np.float32)
 
     if src.size and int(src.min()) >= 0:
-        deg = np.bincount(src, weights=w, minlength=int(n_nodes)).astype(np.float32, copy=False)
+        deg = np.bincount(src, weights=w, minlength=int(n_nodes))
     else:
-        deg = np.zeros(n_nodes, dtype=np.float32)
+        deg = np.zeros(n_nodes, dtype=np.float64)
         np.add.at(deg, src, w)
+    # small totals are divided by as they are: eps only stands in for totals that are not positive
+    deg = np.where(deg > 0, deg, float(eps))
 
     if mode == "rw":
-        scale = 1.0 / np.maximum(deg[src], float(eps))
+        scale = 1.0 / deg[src]
         return (w * scale).astype(np.float32)
 
     if mode == "sym":
-        inv_sqrt = 1.0 / np.sqrt(np.maximum(deg, float(eps)))
+        inv_sqrt = 1.0 / np.sqrt(deg)
         return (w * inv_sqrt[src] * inv_sqrt[dst]).astype(np.float32)
 
     raise ValueError(f"Unknown normalization mode: {mode!r}")
diff --git a/src/modssc/graph/featurization/views/diffusion.py b/src/modssc/graph/featurization/views/diffusion.py
index 523db01..dcf8085 100644
--- a/src/modssc/graph/featurization/views/diffusion.py
+++ b/src/modssc/graph/featurization/views/diffusion.py
@@ -53,11 +53,12 @@ def diffusion_view(
     else:
         w = np.asarray(edge_weight, dtype=np.float32)
         if src.size and int(src.min()) >= 0:
-            deg = np.bincount(src, weights=w, minlength=int(n_nodes)).astype(np.float32, copy=False)
+            deg = np.bincount(src, weights=w, minlength=int(n_nodes))
         else:
-            deg = np.zeros(n_nodes, dtype=np.float32)
+            deg = np.zeros(n_nodes, dtype=np.float64)
             np.add.at(deg, src, w)
-        w_norm = w / np.maximum(deg[src], 1e-12)
+        # small totals are divided by as they are; totals that are not positive by a constant
+        w_norm = w / np.where(deg > 0, deg, 1e-12)[src]
 
     # Prefer CSR if scipy is available. Otherwise, use dense for small graphs.
     try:
-- 
2.43.0


From 27cbaa2bef620b56940aba3c3481090402412f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:48 +0000
Subject: [PATCH 21/75] fix: overwriting a graph or views cache entry removes
 its manifest first

---
 src/modssc/graph/cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index b8d4694..66726ac 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -124,6 +124,9 @@ class GraphCache(_FingerprintCacheOps):
     def _clear_entry_dir(self, d: Path) -> None:
         if not d.exists():
             return
+        # The manifest vouches for the other files: it goes first.
+        with contextlib.suppress(FileNotFoundError):
+            (d / "manifest.json").unlink()
         # Only remove files we create, keep directory (for resumable work dirs).
         for p in d.iterdir():
             if p.is_dir():
@@ -301,6 +304,9 @@ class ViewsCache(_FingerprintCacheOps):
         d = self.entry_dir(fingerprint)
         d.mkdir(parents=True, exist_ok=True)
         if overwrite and d.exists():
+            # The manifest vouches for the other files: it goes first.
+            with contextlib.suppress(FileNotFoundError):
+                (d / "manifest.json").unlink()
             for p in d.iterdir():
                 if p.is_file():
                     p.unlink()
-- 
2.43.0


From 18e87d0643bc5c47fb13f5ac19c0929bfb7b8328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:17 +0000
Subject: [PATCH 22/75] fix: the graph views cache is keyed by features, edges
 and weights

---
 src/modssc/graph/featurization/api.py | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 893f695..e625459 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+import sys
 from pathlib import Path
 from time import perf_counter
 
@@ -8,7 +9,7 @@ import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
 from ..cache import ViewsCache
-from ..fingerprint import fingerprint_dict
+from ..fingerprint import fingerprint_array, fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
 from .views.attr import attr_view
@@ -18,9 +19,25 @@ from .views.struct import StructParams, struct_embeddings
 logger = logging.getLogger(__name__)
 
 
-def _views_fingerprint(*, graph_fingerprint: str, spec: GraphFeaturizerSpec, seed: int) -> str:
+def _content_fingerprint(dataset: NodeDataset) -> str:
+    """Fingerprint of everything the views are computed from (every byte of it)."""
+    graph = dataset.graph
+    X = dataset.X.tocsr() if hasattr(dataset.X, "tocsr") else np.asarray(dataset.X)
+    arrays = {"X": X, "edge_index": graph.edge_index, "edge_weight": graph.edge_weight}
+    return fingerprint_dict(
+        {
+            k: None if v is None else fingerprint_array(v, max_bytes=sys.maxsize)
+            for k, v in arrays.items()
+        }
+    )
+
+
+def _views_fingerprint(
+    *, graph_fingerprint: str, content_fingerprint: str, spec: GraphFeaturizerSpec, seed: int
+) -> str:
     payload = {
         "graph_fingerprint": graph_fingerprint,
+        "content_fingerprint": content_fingerprint,
         "spec": spec.to_dict(),
         "seed": int(seed),
     }
@@ -51,7 +68,12 @@ def graph_to_views(
             }
         )
 
-    views_fp = _views_fingerprint(graph_fingerprint=graph_fp, spec=spec, seed=int(seed))
+    views_fp = _views_fingerprint(
+        graph_fingerprint=graph_fp,
+        content_fingerprint=_content_fingerprint(dataset),
+        spec=spec,
+        seed=int(seed),
+    )
 
     cache_enabled = bool(spec.cache) if cache is None else bool(cache)
     cache_store = ViewsCache(
-- 
2.43.0


From a0575c26f9065926f90a8f028199630b109cd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 23/75] fix: sklearn kNN classifier accepts fewer training
 samples than k

---
 src/modssc/supervised/backends/sklearn/knn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/sklearn/knn.py b/src/modssc/supervised/backends/sklearn/knn.py
index 122c661..94525d2 100644
--- a/src/modssc/supervised/backends/sklearn/knn.py
+++ b/src/modssc/supervised/backends/sklearn/knn.py
@@ -54,7 +54,8 @@ class SklearnKNNClassifier(SklearnProbaClassifier):
         y_enc = self._set_classes_from_y(y)
 
         model = KNeighborsClassifier(
-            n_neighbors=int(self.k),
+            # like the numpy and torch backends, never ask for more neighbours than samples
+            n_neighbors=min(int(self.k), int(X2.shape[0])),
             metric=str(self.metric),
             weights=str(self.weights),
             n_jobs=self.n_jobs,
-- 
2.43.0


From e6110908c979a09ed7ee2afb6c4b31d7e7c67613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 24/75] fix: the GraphSAGE classifier only knows the labels it
 was trained on

---
 .../supervised/backends/torch/graphsage_inductive.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modssc/supervised/backends/torch/graphsage_inductive.py b/src/modssc/supervised/backends/torch/graphsage_inductive.py
index 558c606..edb7b09 100644
--- a/src/modssc/supervised/backends/torch/graphsage_inductive.py
+++ b/src/modssc/supervised/backends/torch/graphsage_inductive.py
@@ -148,15 +148,15 @@ class TorchGraphSAGEClassifier(TorchSupportsProbaClassifierBase):
             raise ValueError("y must be a 1D array of node labels.")
         if int(y_tensor.shape[0]) != int(x_feat.shape[0]):
             raise ValueError("X['x'] and y must contain the same number of nodes.")
-        data.y = y_tensor
+        classes, y_enc = torch.unique(y_tensor, sorted=True, return_inverse=True)
+        data.y = y_enc
 
-        num_classes = int(y_tensor.max().item()) + 1
+        num_classes = int(classes.numel())
 
         device = "cuda" if torch.cuda.is_available() and self.n_jobs != 0 else "cpu"
 
         data = data.to(device)
-        classes = torch.arange(num_classes, device=device, dtype=torch.long)
-        self._classes_t = classes
+        self._classes_t = classes.to(device)
         self.classes_ = classes.detach().cpu().numpy()
 
         activation = _resolve_activation(self.activation, torch)
-- 
2.43.0


From dedd30b026fc50263578db5012bad850eda92116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 25/75] fix: naive Bayes classifiers can be created with a
 number of jobs

---
 .../backends/sklearn/naive_bayes.py           | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/modssc/supervised/backends/sklearn/naive_bayes.py b/src/modssc/supervised/backends/sklearn/naive_bayes.py
index 2f38eee..43288b4 100644
--- a/src/modssc/supervised/backends/sklearn/naive_bayes.py
+++ b/src/modssc/supervised/backends/sklearn/naive_bayes.py
@@ -16,8 +16,10 @@ class SklearnGaussianNBClassifier(SklearnProbaClassifier):
     classifier_id = "gaussian_nb"
     backend = "sklearn"
 
-    def __init__(self, *, var_smoothing: float = 1e-9, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self, *, var_smoothing: float = 1e-9, seed: int | None = 0, n_jobs: int | None = None
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.var_smoothing = float(var_smoothing)
         self._model: Any | None = None
 
@@ -50,8 +52,15 @@ class SklearnMultinomialNBClassifier(SklearnProbaClassifier):
     classifier_id = "multinomial_nb"
     backend = "sklearn"
 
-    def __init__(self, *, alpha: float = 1.0, fit_prior: bool = True, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self,
+        *,
+        alpha: float = 1.0,
+        fit_prior: bool = True,
+        seed: int | None = 0,
+        n_jobs: int | None = None,
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.fit_prior = bool(fit_prior)
         self._model: Any | None = None
@@ -92,8 +101,9 @@ class SklearnBernoulliNBClassifier(SklearnProbaClassifier):
         binarize: float | None = 0.0,
         fit_prior: bool = True,
         seed: int | None = 0,
+        n_jobs: int | None = None,
     ):
-        super().__init__(seed=seed, n_jobs=None)
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.binarize = binarize if binarize is None else float(binarize)
         self.fit_prior = bool(fit_prior)
-- 
2.43.0


From bbdf0bc25f29e579a662b2c046b01fbf8371935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 26/75] fix: seed torch logistic regression before its layer is
 created

---
 src/modssc/supervised/backends/torch/logreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/logreg.py b/src/modssc/supervised/backends/torch/logreg.py
index 988b101..ff60886 100644
--- a/src/modssc/supervised/backends/torch/logreg.py
+++ b/src/modssc/supervised/backends/torch/logreg.py
@@ -87,12 +87,12 @@ class TorchLogRegClassifier(TorchScoresClassifierBase):
         n_features = int(X.shape[1])
         n_classes = int(classes.numel())
 
+        torch.manual_seed(int(self.seed or 0))
         model = torch.nn.Linear(n_features, n_classes).to(X.device)
         optimizer = torch.optim.AdamW(
             model.parameters(), lr=float(self.lr), weight_decay=float(self.weight_decay)
         )
 
-        torch.manual_seed(int(self.seed or 0))
         model.train()
         n = int(X.shape[0])
         for _epoch in range(int(self.max_epochs)):
-- 
2.43.0


From 51f9cfd74f3a20d1a150af9ea223ba93a1694717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:17 +0000
Subject: [PATCH 27/75] fix: class weights given by label apply to that label

---
 src/modssc/supervised/backends/sklearn/common.py     | 12 ++++++++++++
 .../supervised/backends/sklearn/extra_trees.py       |  4 ++--
 src/modssc/supervised/backends/sklearn/linear_svm.py |  7 +++++--
 .../supervised/backends/sklearn/random_forest.py     |  4 ++--
 src/modssc/supervised/backends/sklearn/ridge.py      |  7 +++++--
 5 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/modssc/supervised/backends/sklearn/common.py b/src/modssc/supervised/backends/sklearn/common.py
index b8b7de9..43395b1 100644
--- a/src/modssc/supervised/backends/sklearn/common.py
+++ b/src/modssc/supervised/backends/sklearn/common.py
@@ -7,6 +7,7 @@ import numpy as np
 from modssc.supervised.base import (
     BaseSupervisedClassifier,
 )
+from modssc.supervised.errors import SupervisedValidationError
 from modssc.supervised.utils import ensure_2d
 
 
@@ -16,6 +17,17 @@ def require_fitted_model(model: Any) -> Any:
     return model
 
 
+def encode_class_weight(class_weight: Any, classes: np.ndarray) -> Any:
+    """Key per-class weights by encoded label: models are fitted on encoded labels."""
+    if not isinstance(class_weight, dict):
+        return class_weight
+    codes = {label: code for code, label in enumerate(np.asarray(classes).tolist())}
+    unknown = [label for label in class_weight if label not in codes]
+    if unknown:
+        raise SupervisedValidationError(f"class_weight names unknown classes: {unknown!r}")
+    return {code: float(class_weight.get(label, 1.0)) for label, code in codes.items()}
+
+
 def predict_proba_float32(model: Any, X: Any) -> np.ndarray:
     fitted = require_fitted_model(model)
     X2 = ensure_2d(X)
diff --git a/src/modssc/supervised/backends/sklearn/extra_trees.py b/src/modssc/supervised/backends/sklearn/extra_trees.py
index b71198f..361a7ad 100644
--- a/src/modssc/supervised/backends/sklearn/extra_trees.py
+++ b/src/modssc/supervised/backends/sklearn/extra_trees.py
@@ -4,7 +4,7 @@ import logging
 from time import perf_counter
 from typing import Any
 
-from modssc.supervised.backends.sklearn.common import SklearnProbaClassifier
+from modssc.supervised.backends.sklearn.common import SklearnProbaClassifier, encode_class_weight
 from modssc.supervised.base import FitResult
 from modssc.supervised.optional import optional_import
 from modssc.supervised.utils import ensure_2d
@@ -70,7 +70,7 @@ class SklearnExtraTreesClassifier(SklearnProbaClassifier):
             min_samples_split=int(self.min_samples_split),
             min_samples_leaf=int(self.min_samples_leaf),
             bootstrap=bool(self.bootstrap),
-            class_weight=self.class_weight,
+            class_weight=encode_class_weight(self.class_weight, self.classes_),
             n_jobs=self.n_jobs,
             random_state=None if self.seed is None else int(self.seed),
         )
diff --git a/src/modssc/supervised/backends/sklearn/linear_svm.py b/src/modssc/supervised/backends/sklearn/linear_svm.py
index 8d79940..72d50b1 100644
--- a/src/modssc/supervised/backends/sklearn/linear_svm.py
+++ b/src/modssc/supervised/backends/sklearn/linear_svm.py
@@ -4,7 +4,10 @@ import logging
 from time import perf_counter
 from typing import Any, Literal
 
-from modssc.supervised.backends.sklearn.common import SklearnDecisionFunctionClassifier
+from modssc.supervised.backends.sklearn.common import (
+    SklearnDecisionFunctionClassifier,
+    encode_class_weight,
+)
 from modssc.supervised.base import FitResult
 from modssc.supervised.optional import optional_import
 from modssc.supervised.utils import ensure_2d
@@ -61,7 +64,7 @@ class SklearnLinearSVMClassifier(SklearnDecisionFunctionClassifier):
             max_iter=int(self.max_iter),
             loss=str(self.loss),
             dual=bool(self.dual),
-            class_weight=self.class_weight,
+            class_weight=encode_class_weight(self.class_weight, self.classes_),
             random_state=None if self.seed is None else int(self.seed),
         )
         model.fit(X2, y_enc)
diff --git a/src/modssc/supervised/backends/sklearn/random_forest.py b/src/modssc/supervised/backends/sklearn/random_forest.py
index 0c0dc17..6060ddf 100644
--- a/src/modssc/supervised/backends/sklearn/random_forest.py
+++ b/src/modssc/supervised/backends/sklearn/random_forest.py
@@ -4,7 +4,7 @@ import logging
 from time import perf_counter
 from typing import Any
 
-from modssc.supervised.backends.sklearn.common import SklearnProbaClassifier
+from modssc.supervised.backends.sklearn.common import SklearnProbaClassifier, encode_class_weight
 from modssc.supervised.base import FitResult
 from modssc.supervised.optional import optional_import
 from modssc.supervised.utils import ensure_2d
@@ -70,7 +70,7 @@ class SklearnRandomForestClassifier(SklearnProbaClassifier):
             min_samples_split=int(self.min_samples_split),
             min_samples_leaf=int(self.min_samples_leaf),
             bootstrap=bool(self.bootstrap),
-            class_weight=self.class_weight,
+            class_weight=encode_class_weight(self.class_weight, self.classes_),
             n_jobs=self.n_jobs,
             random_state=None if self.seed is None else int(self.seed),
         )
diff --git a/src/modssc/supervised/backends/sklearn/ridge.py b/src/modssc/supervised/backends/sklearn/ridge.py
index b773075..4967b7e 100644
--- a/src/modssc/supervised/backends/sklearn/ridge.py
+++ b/src/modssc/supervised/backends/sklearn/ridge.py
@@ -4,7 +4,10 @@ import logging
 from time import perf_counter
 from typing import Any, Literal
 
-from modssc.supervised.backends.sklearn.common import SklearnDecisionFunctionClassifier
+from modssc.supervised.backends.sklearn.common import (
+    SklearnDecisionFunctionClassifier,
+    encode_class_weight,
+)
 from modssc.supervised.base import FitResult
 from modssc.supervised.optional import optional_import
 from modssc.supervised.utils import ensure_2d
@@ -70,7 +73,7 @@ class SklearnRidgeClassifier(SklearnDecisionFunctionClassifier):
             solver=str(self.solver),
             max_iter=self.max_iter,
             tol=float(self.tol),
-            class_weight=self.class_weight,
+            class_weight=encode_class_weight(self.class_weight, self.classes_),
             random_state=None if self.seed is None else int(self.seed),
         )
         model.fit(X2, y_enc)
-- 
2.43.0


From 6b2cc174de64efebcce54cba30d083d2209faa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 28/75] fix: numpy and torch kNN classifiers weigh neighbours
 by distance, like sklearn

---
 src/modssc/supervised/backends/numpy/knn.py | 2 +-
 src/modssc/supervised/backends/torch/knn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/supervised/backends/numpy/knn.py b/src/modssc/supervised/backends/numpy/knn.py
index fa4f98c..351c1a8 100644
--- a/src/modssc/supervised/backends/numpy/knn.py
+++ b/src/modssc/supervised/backends/numpy/knn.py
@@ -138,7 +138,7 @@ class NumpyKNNClassifier(BaseSupervisedClassifier):
             else:
                 # convert score to a distance-like quantity
                 if self.metric == "euclidean":
-                    dist = np.maximum(-top_scores, 0.0)
+                    dist = np.sqrt(np.maximum(-top_scores, 0.0))
                 else:
                     dist = np.maximum(1.0 - top_scores, 0.0)
                 w = 1.0 / (dist.astype(np.float32) + float(self.eps))
diff --git a/src/modssc/supervised/backends/torch/knn.py b/src/modssc/supervised/backends/torch/knn.py
index a8c3088..b9b45a2 100644
--- a/src/modssc/supervised/backends/torch/knn.py
+++ b/src/modssc/supervised/backends/torch/knn.py
@@ -153,7 +153,7 @@ class TorchKNNClassifier(TorchSupportsProbaClassifierBase):
                 w = torch.ones_like(top_scores, dtype=torch.float32)
             else:
                 if self.metric == "euclidean":
-                    dist = torch.clamp(-top_scores, min=0.0)
+                    dist = torch.clamp(-top_scores, min=0.0).sqrt()
                 else:
                     dist = torch.clamp(1.0 - top_scores, min=0.0)
                 w = 1.0 / (dist.to(torch.float32) + float(self.eps))
-- 
2.43.0


From 001319e17ca452bbea949f528482cce1624378de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 29/75] fix: class weights may name classes that a training
 subset lacks

---
 src/modssc/supervised/backends/sklearn/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modssc/supervised/backends/sklearn/common.py b/src/modssc/supervised/backends/sklearn/common.py
index 43395b1..953819e 100644
--- a/src/modssc/supervised/backends/sklearn/common.py
+++ b/src/modssc/supervised/backends/sklearn/common.py
@@ -21,11 +21,11 @@ def encode_class_weight(class_weight: Any, classes: np.ndarray) -> Any:
     """Key per-class weights by encoded label: models are fitted on encoded labels."""
     if not isinstance(class_weight, dict):
         return class_weight
-    codes = {label: code for code, label in enumerate(np.asarray(classes).tolist())}
-    unknown = [label for label in class_weight if label not in codes]
-    if unknown:
+    labels = np.asarray(classes).tolist()
+    unknown = [label for label in class_weight if label not in labels]
+    if unknown and any(label not in class_weight for label in labels):
         raise SupervisedValidationError(f"class_weight names unknown classes: {unknown!r}")
-    return {code: float(class_weight.get(label, 1.0)) for label, code in codes.items()}
+    return {code: float(class_weight.get(label, 1.0)) for code, label in enumerate(labels)}
 
 
 def predict_proba_float32(model: Any, X: Any) -> np.ndarray:
-- 
2.43.0


From 42f7a388b9fe976b62b2a31d349fb0b6a860cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:26 +0000
Subject: [PATCH 30/75] fix: class probabilities from decision scores are valid
 distributions

---
 src/modssc/inductive/methods/co_training.py   | 10 ++------
 .../methods/helpers/classifier_bridge.py      | 24 +++++++++++++++++++
 src/modssc/inductive/methods/pseudo_label.py  | 10 ++------
 src/modssc/inductive/methods/s4vm.py          | 11 ++-------
 src/modssc/inductive/methods/self_training.py | 10 ++------
 src/modssc/inductive/methods/setred.py        | 10 ++------
 src/modssc/inductive/methods/supervised.py    | 11 ++-------
 src/modssc/inductive/methods/tri_training.py  | 23 ++++++------------
 8 files changed, 43 insertions(+), 66 deletions(-)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index d954211..3ce8ac3 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -20,6 +20,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
     select_top_per_class,
     select_top_per_class_torch,
     unwrap_torch_x,
@@ -459,14 +460,7 @@ class CoTrainingMethod(InductiveMethod):
             X1 = _view_predict_payload_torch(v1, name=self._view_keys[0])
             X2 = _view_predict_payload_torch(v2, name=self._view_keys[1])
         scores = self._predict_scores_pair(X1, X2)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, data: Any) -> np.ndarray:
         if self._clf1 is None:
diff --git a/src/modssc/inductive/methods/helpers/classifier_bridge.py b/src/modssc/inductive/methods/helpers/classifier_bridge.py
index e4fcea4..2cc5674 100644
--- a/src/modssc/inductive/methods/helpers/classifier_bridge.py
+++ b/src/modssc/inductive/methods/helpers/classifier_bridge.py
@@ -189,6 +189,30 @@ def predict_scores(model: Any, X: Any, *, backend: str):
     raise InductiveValidationError(f"Unknown backend: {backend!r}")
 
 
+def scores_to_proba(scores: Any, *, backend: str):
+    """Turn classifier scores into one class distribution per row.
+
+    Non-negative rows (probabilities, votes) are divided by their sum. Rows with a negative
+    entry are decision values or logits and go through a softmax, which keeps their argmax.
+    """
+    if backend == "numpy":
+        scores = np.asarray(scores)
+        row_sum = scores.sum(axis=1, keepdims=True)
+        row_sum[row_sum == 0.0] = 1.0
+        proba = scores / row_sum
+        negative = (scores < 0).any(axis=1)
+        if np.any(negative):
+            rows = scores[negative]
+            exp = np.exp(rows - rows.max(axis=1, keepdims=True))
+            proba[negative] = exp / exp.sum(axis=1, keepdims=True)
+        return proba.astype(np.float32, copy=False)
+    torch = _torch()
+    row_sum = scores.sum(dim=1, keepdim=True)
+    row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
+    negative = (scores < 0).any(dim=1, keepdim=True)
+    return torch.where(negative, torch.softmax(scores, dim=1), scores / row_sum)
+
+
 def select_confident(
     scores: np.ndarray,
     *,
diff --git a/src/modssc/inductive/methods/pseudo_label.py b/src/modssc/inductive/methods/pseudo_label.py
index dac483a..96e5ab8 100644
--- a/src/modssc/inductive/methods/pseudo_label.py
+++ b/src/modssc/inductive/methods/pseudo_label.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
     select_confident,
     select_confident_torch,
 )
@@ -210,14 +211,7 @@ class PseudoLabelMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/s4vm.py b/src/modssc/inductive/methods/s4vm.py
index a22bb61..81c1f73 100644
--- a/src/modssc/inductive/methods/s4vm.py
+++ b/src/modssc/inductive/methods/s4vm.py
@@ -23,6 +23,7 @@ from modssc.inductive.methods.utils import (
     ensure_torch_data,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -193,15 +194,7 @@ class S4VMMethod(InductiveMethod):
             X = flatten_if_numpy(X)
 
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            if np.any(row_sum == 0.0):
-                row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/self_training.py b/src/modssc/inductive/methods/self_training.py
index 74b98c4..1de2cb8 100644
--- a/src/modssc/inductive/methods/self_training.py
+++ b/src/modssc/inductive/methods/self_training.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -473,14 +474,7 @@ class SelfTrainingMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index b165b46..12bbf05 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
     unwrap_torch_x,
 )
 from modssc.inductive.optional import optional_import
@@ -505,14 +506,7 @@ class SetredMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/supervised.py b/src/modssc/inductive/methods/supervised.py
index 82c01f1..34c7859 100644
--- a/src/modssc/inductive/methods/supervised.py
+++ b/src/modssc/inductive/methods/supervised.py
@@ -21,8 +21,8 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
 )
-from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
 
 logger = logging.getLogger(__name__)
@@ -100,14 +100,7 @@ class SupervisedMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 4287bfd..ac49f0b 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_torch_data,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -286,7 +287,10 @@ class TriTrainingMethod(InductiveMethod):
         if backend == "numpy":
             X = flatten_if_numpy(X)
 
-        scores_list = [predict_scores(clf, X, backend=backend) for clf in self._clfs]
+        scores_list = [
+            scores_to_proba(predict_scores(clf, X, backend=backend), backend=backend)
+            for clf in self._clfs
+        ]
 
         # Robustly align scores if shapes differ
         shapes = [s.shape[1] for s in scores_list]
@@ -365,28 +369,15 @@ class TriTrainingMethod(InductiveMethod):
 
                 avg = torch.mean(torch.stack(aligned_scores, dim=0), dim=0)
 
-            # Normalize row sums
-            if backend == "numpy":
-                row_sum = avg.sum(axis=1, keepdims=True)
-                row_sum[row_sum == 0.0] = 1.0
-                return (avg / row_sum).astype(np.float32, copy=False)
-            else:
-                row_sum = avg.sum(dim=1, keepdim=True)
-                row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-                return avg / row_sum
+            return scores_to_proba(avg, backend=backend)
 
         # Fast path if shapes match
         if backend == "numpy":
             avg = np.mean(np.stack(scores_list, axis=0), axis=0)
-            row_sum = avg.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (avg / row_sum).astype(np.float32, copy=False)
         else:
             torch = optional_import("torch", extra="inductive-torch")
             avg = torch.mean(torch.stack(scores_list, dim=0), dim=0)
-            row_sum = avg.sum(dim=1, keepdim=True)
-            row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-            return avg / row_sum
+        return scores_to_proba(avg, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         proba = self.predict_proba(X)
-- 
2.43.0


From b61ea4c7e865d22fba6e157975c12c4161020eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 31/75] fix: tri-training keeps class labels instead of score
 columns

---
 src/modssc/inductive/methods/tri_training.py | 48 +++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index ac49f0b..10e0dbb 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -43,6 +43,26 @@ class TriTrainingSpec(BaseClassifierSpec):
     bootstrap_ratio: float = 1.0
 
 
+def _known_labels(clf: Any) -> np.ndarray | None:
+    """Labels of the score columns of a fitted classifier (None when it does not expose them)."""
+    for name in ("classes_", "classes_t_"):
+        classes = getattr(clf, name, None)
+        if hasattr(classes, "detach"):
+            classes = classes.detach().cpu().numpy()
+        if isinstance(classes, (np.ndarray, list, tuple)):
+            return np.asarray(classes)
+    return None
+
+
+def _predicted_labels(clf: Any, scores: Any) -> np.ndarray:
+    """Label of the best score of each row (the column itself without known labels)."""
+    if hasattr(scores, "detach"):
+        scores = scores.detach().cpu().numpy()
+    best = np.asarray(scores).argmax(axis=1)
+    labels = _known_labels(clf)
+    return best if labels is None else labels[best]
+
+
 class TriTrainingMethod(InductiveMethod):
     """Tri-training with three classifiers (CPU/GPU)."""
 
@@ -124,8 +144,8 @@ class TriTrainingMethod(InductiveMethod):
                     j, k = [x for x in range(3) if x != i]
                     scores_j = predict_scores(clfs[j], X_u, backend=backend)
                     scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                    pred_j = scores_j.argmax(axis=1)
-                    pred_k = scores_k.argmax(axis=1)
+                    pred_j = _predicted_labels(clfs[j], scores_j)
+                    pred_k = _predicted_labels(clfs[k], scores_k)
                     agree = pred_j == pred_k
                     if not np.any(agree):
                         continue
@@ -221,8 +241,12 @@ class TriTrainingMethod(InductiveMethod):
                 j, k = [x for x in range(3) if x != i]
                 scores_j = predict_scores(clfs[j], X_u, backend=backend)
                 scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                pred_j = scores_j.argmax(dim=1)
-                pred_k = scores_k.argmax(dim=1)
+                pred_j = torch.as_tensor(
+                    _predicted_labels(clfs[j], scores_j), device=scores_j.device
+                )
+                pred_k = torch.as_tensor(
+                    _predicted_labels(clfs[k], scores_k), device=scores_k.device
+                )
                 agree = pred_j == pred_k
                 if not bool(agree.any()):
                     continue
@@ -382,14 +406,16 @@ class TriTrainingMethod(InductiveMethod):
     def predict(self, X: Any) -> np.ndarray:
         proba = self.predict_proba(X)
         backend = detect_backend(X)
+        # The columns of predict_proba are the labels known to any of the classifiers.
+        labels = [_known_labels(clf) for clf in self._clfs]
+        classes = None
+        if all(known is not None for known in labels):
+            classes = np.unique(np.concatenate(labels))
         if backend == "numpy":
             idx = proba.argmax(axis=1)
-            classes = getattr(self._clfs[0], "classes_", None)
-            if classes is None:
-                return idx
-            return np.asarray(classes)[idx]
+            return idx if classes is None else classes[idx]
         idx = proba.argmax(dim=1)
-        classes_t = getattr(self._clfs[0], "classes_t_", None)
-        if classes_t is None:
+        if classes is None:
             return idx
-        return classes_t[idx]
+        torch = optional_import("torch", extra="inductive-torch")
+        return torch.as_tensor(classes, device=idx.device)[idx]
-- 
2.43.0


From 4ae19018a948ce45c8dabd6aba3975828445c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 32/75] fix: graphsage classifier predicts labels in the
 training dtype

---
 src/modssc/supervised/backends/torch/graphsage_inductive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/graphsage_inductive.py b/src/modssc/supervised/backends/torch/graphsage_inductive.py
index edb7b09..c14e0e4 100644
--- a/src/modssc/supervised/backends/torch/graphsage_inductive.py
+++ b/src/modssc/supervised/backends/torch/graphsage_inductive.py
@@ -143,7 +143,9 @@ class TorchGraphSAGEClassifier(TorchSupportsProbaClassifierBase):
         if "edge_weight" in X:
             data.edge_weight = torch.as_tensor(X["edge_weight"], dtype=torch.float32)
 
-        y_tensor = torch.as_tensor(y, dtype=torch.long)
+        y_tensor = torch.as_tensor(y)
+        if y_tensor.is_floating_point() or y_tensor.dtype == torch.bool:
+            y_tensor = y_tensor.to(torch.long)
         if int(y_tensor.ndim) != 1:
             raise ValueError("y must be a 1D array of node labels.")
         if int(y_tensor.shape[0]) != int(x_feat.shape[0]):
-- 
2.43.0


From 3536da408aabda78e6dcfc50c6f2fc81ed82aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 33/75] fix: co-training accepts multi-dimensional views
 without unlabeled rows

---
 src/modssc/inductive/methods/helpers/classifier_bridge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/helpers/classifier_bridge.py b/src/modssc/inductive/methods/helpers/classifier_bridge.py
index 2cc5674..be1383a 100644
--- a/src/modssc/inductive/methods/helpers/classifier_bridge.py
+++ b/src/modssc/inductive/methods/helpers/classifier_bridge.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import math
 from collections.abc import Mapping
 from dataclasses import dataclass, field
 from typing import Any
@@ -37,7 +38,7 @@ def flatten_if_numpy(x: Any) -> np.ndarray:
     if not isinstance(x, np.ndarray):
         return x
     if x.ndim > 2:
-        return x.reshape(x.shape[0], -1)
+        return x.reshape(x.shape[0], math.prod(x.shape[1:]))
     return x
 
 
-- 
2.43.0


From b7fafd5ef68f445bf5a35d122426d27a49c2a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 34/75] fix: slicing and joining graph inputs keeps edge data
 with the edges

---
 src/modssc/inductive/methods/co_training.py   | 36 ++++-----------
 .../methods/helpers/torch_support.py          | 44 ++++++++++++++++---
 2 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index 3ce8ac3..df7818b 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from modssc.inductive.base import InductiveMethod, MethodInfo
 from modssc.inductive.errors import InductiveValidationError
+from modssc.inductive.methods.deep_utils import concat_data, slice_data
 from modssc.inductive.methods.utils import (
     BaseClassifierSpec,
     build_classifier,
@@ -161,31 +162,22 @@ def _view_predict_payload_torch(value: Any, *, name: str):
     return X
 
 
+def _graph_part(obj: Mapping[str, Any]) -> dict[str, Any]:
+    return {k: v for k, v in obj.items() if k == "x" or str(k).startswith("edge_")}
+
+
 def _index_torch(obj: Any, idx: Any) -> Any:
     if isinstance(obj, dict) and "x" in obj:
-        torch = optional_import("torch", extra="inductive-torch")
-        res = obj.copy()
-        res["x"] = obj["x"][idx]
-
         if "edge_index" in obj:
             try:
-                from torch_geometric.utils import subgraph
+                from torch_geometric.utils import subgraph  # noqa: F401
             except ImportError as exc:
                 raise InductiveValidationError(
                     "PyG is required to slice edge_index for graph inputs. "
                     "Install torch_geometric or remove graph preprocessing."
                 ) from exc
-            else:
-                edge_index = obj["edge_index"]
-                num_nodes = obj["x"].shape[0]
-
-                subset = idx
-                if isinstance(subset, slice):
-                    subset = torch.arange(num_nodes, device=obj["x"].device)[subset]
-
-                new_ei, _ = subgraph(subset, edge_index, relabel_nodes=True, num_nodes=num_nodes)
-                res["edge_index"] = new_ei
-
+        res = obj.copy()
+        res.update(slice_data(_graph_part(obj), idx))
         return res
     return obj[idx]
 
@@ -194,17 +186,7 @@ def _cat_torch(objs: list[Any], dim: int = 0) -> Any:
     torch = optional_import("torch", extra="inductive-torch")
     if isinstance(objs[0], dict) and "x" in objs[0]:
         res = objs[0].copy()
-        res["x"] = torch.cat([o["x"] for o in objs], dim=dim)
-
-        if "edge_index" in objs[0]:
-            edge_indices = []
-            offset = 0
-            for o in objs:
-                ei = o["edge_index"]
-                edge_indices.append(ei + offset)
-                offset += o["x"].shape[0]
-            res["edge_index"] = torch.cat(edge_indices, dim=1)
-
+        res.update(concat_data([_graph_part(o) for o in objs]))
         return res
     return torch.cat(objs, dim=dim)
 
diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index f77db81..2abcb0d 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -264,8 +264,11 @@ def concat_data(items: list[Any]) -> Any:
                 ei = torch.as_tensor(ei, device=x_cat.device, dtype=torch.long)
             ei = ei + offset
             edge_indices.append(ei)
-            if "edge_weight" in g:
-                ew = g["edge_weight"]
+            if any("edge_weight" in other for other in graphs):
+                # An edge without a weight counts as 1.
+                ew = g.get("edge_weight")
+                if ew is None:
+                    ew = torch.ones((int(ei.shape[1]),), device=x_cat.device)
                 if not isinstance(ew, torch.Tensor):
                     ew = torch.as_tensor(ew, device=x_cat.device)
                 edge_weights.append(ew)
@@ -282,7 +285,12 @@ def concat_data(items: list[Any]) -> Any:
         vals = [g[key] for g in graphs]
         if all(isinstance(v, torch.Tensor) for v in vals):
             # If node-wise (matching each graph's node count), concatenate
-            if all(v.shape[0] == g["x"].shape[0] for v, g in zip(vals, graphs, strict=False)):
+            if all(
+                v.ndim > 0 and v.shape[0] == g["x"].shape[0]
+                for v, g in zip(vals, graphs, strict=False)
+            ):
+                out[key] = torch.cat(vals, dim=0)
+            elif all("edge_index" in g and key in _edge_level_keys(g) for g in graphs):
                 out[key] = torch.cat(vals, dim=0)
             else:
                 out[key] = vals[0]
@@ -338,6 +346,20 @@ def cycle_batch_indices(
         yield idx
 
 
+def _edge_level_keys(X: Mapping[str, Any]) -> list[str]:
+    """Keys of a graph dict that hold one entry per edge."""
+    n_edges = int(X["edge_index"].shape[1])
+    return [
+        k
+        for k, v in X.items()
+        if k != "edge_index"
+        and str(k).startswith("edge_")
+        and hasattr(v, "shape")
+        and len(v.shape) > 0
+        and int(v.shape[0]) == n_edges
+    ]
+
+
 def slice_data(X: Any, idx: Any) -> Any:
     torch = _torch()
     if isinstance(X, dict):
@@ -367,13 +389,25 @@ def slice_data(X: Any, idx: Any) -> Any:
                     subgraph_idx, X["edge_index"], relabel_nodes=True, num_nodes=n
                 )
                 batch_data["edge_index"] = edge_index
+
+                # Edge-level entries follow the edges that remain.
+                edge_keys = _edge_level_keys(X)
+                if edge_keys:
+                    positions = torch.arange(
+                        int(X["edge_index"].shape[1]), device=X["edge_index"].device
+                    )
+                    _, kept = subgraph(
+                        subgraph_idx, X["edge_index"], positions, relabel_nodes=True, num_nodes=n
+                    )
+                    for k in edge_keys:
+                        batch_data[k] = X[k][kept]
             except ImportError:
                 pass
 
         for k, v in X.items():
-            if k in ("x", "edge_index"):
+            if k in ("x", "edge_index") or k in batch_data:
                 continue
-            if isinstance(v, torch.Tensor) and v.shape[0] == n:
+            if isinstance(v, torch.Tensor) and v.ndim > 0 and v.shape[0] == n:
                 batch_data[k] = v[idx]
             else:
                 batch_data[k] = v
-- 
2.43.0


From 9f8e59f8d428a075875eafa21818a54bd877e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 35/75] fix: temporal ensembling corrects its targets by the
 number of updates made

---
 src/modssc/inductive/methods/temporal_ensembling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/temporal_ensembling.py b/src/modssc/inductive/methods/temporal_ensembling.py
index 4a8733e..9f0ffe5 100644
--- a/src/modssc/inductive/methods/temporal_ensembling.py
+++ b/src/modssc/inductive/methods/temporal_ensembling.py
@@ -160,7 +160,7 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
         for epoch in range(int(self.spec.max_epochs)):
             if ensemble_predictions is not None:
                 epoch_predictions = torch.zeros_like(ensemble_predictions)
-                bias = 1.0 - float(self.spec.alpha) ** float(epoch + 1)
+                bias = 1.0 - float(self.spec.alpha) ** float(epoch)
                 bias = max(bias, 1e-12)
                 targets = ensemble_predictions / bias
             else:
@@ -217,7 +217,7 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
                         dtype=prob_u.dtype,
                     )
                     epoch_predictions = torch.zeros_like(ensemble_predictions)
-                    bias = 1.0 - float(self.spec.alpha) ** float(epoch + 1)
+                    bias = 1.0 - float(self.spec.alpha) ** float(epoch)
                     bias = max(bias, 1e-12)
                     targets = ensemble_predictions / bias
 
-- 
2.43.0


From c9d55ef074b3c6d99f66ec12ddc4710d2e80ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 36/75] fix: SimCLRv2 predicts with the model a distill-only
 run trained

---
 src/modssc/inductive/methods/simclr_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/simclr_v2.py b/src/modssc/inductive/methods/simclr_v2.py
index 5ea09e6..e23a848 100644
--- a/src/modssc/inductive/methods/simclr_v2.py
+++ b/src/modssc/inductive/methods/simclr_v2.py
@@ -534,7 +534,7 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
 
         if int(self.spec.distill_epochs) > 0 and self.spec.student_bundle is not None:
             final_bundle = self.spec.student_bundle
-        elif int(self.spec.finetune_epochs) > 0:
+        elif int(self.spec.finetune_epochs) > 0 or int(self.spec.distill_epochs) > 0:
             final_bundle = finetune_bundle
         else:
             final_bundle = pretrain_bundle
-- 
2.43.0


From e19c26cd0f24902709a63529bc64966900a81b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 37/75] fix: SimCLRv2 leaves the teacher it was given trainable

---
 src/modssc/inductive/methods/simclr_v2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/simclr_v2.py b/src/modssc/inductive/methods/simclr_v2.py
index e23a848..14e6816 100644
--- a/src/modssc/inductive/methods/simclr_v2.py
+++ b/src/modssc/inductive/methods/simclr_v2.py
@@ -442,8 +442,7 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
                 ensure_model_device(teacher_model, device=get_torch_device(X_uw))
                 _check_distill_models(student_model, teacher_model)
 
-            for p in teacher_model.parameters():
-                p.requires_grad_(False)
+            # The teacher only runs under no_grad below, so the caller's model need not be frozen.
             teacher_model.eval()
             student_model.train()
 
-- 
2.43.0


From 3379e1e49fcb5aee26a80a69f42cd771b8f1da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 38/75] fix: MixMatch draws its mixing weights from the seeded
 generator

---
 src/modssc/inductive/methods/mixmatch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/mixmatch.py b/src/modssc/inductive/methods/mixmatch.py
index d7f7b44..8750a35 100644
--- a/src/modssc/inductive/methods/mixmatch.py
+++ b/src/modssc/inductive/methods/mixmatch.py
@@ -6,6 +6,8 @@ from dataclasses import dataclass
 from time import perf_counter
 from typing import Any
 
+import numpy as np
+
 from modssc.inductive.base import InductiveMethod, MethodInfo
 from modssc.inductive.deep import TorchModelBundle
 from modssc.inductive.errors import InductiveValidationError
@@ -63,8 +65,10 @@ def _mixup(
     if alpha <= 0:
         lam = torch.ones((batch,), device=base.device, dtype=base.dtype)
     else:
-        dist = torch.distributions.Beta(float(alpha), float(alpha))
-        lam = dist.sample((batch,)).to(device=base.device, dtype=base.dtype)
+        # torch's Beta sampler takes no generator: draw from one seeded by ours instead.
+        lam_seed = int(torch.randint(0, 2**31 - 1, (1,), generator=generator).item())
+        draws = np.random.default_rng(lam_seed).beta(float(alpha), float(alpha), size=batch)
+        lam = torch.as_tensor(draws).to(device=base.device, dtype=base.dtype)
         lam = torch.max(lam, 1.0 - lam)
 
     perm = torch.randperm(batch, generator=generator, device="cpu")
-- 
2.43.0


From 7243cf704336d2e554e3347f2f507714d6399abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 39/75] fix: TriNet takes the number of classes from its heads

---
 src/modssc/inductive/methods/trinet.py | 29 +++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/trinet.py b/src/modssc/inductive/methods/trinet.py
index 08e7571..3cf6d63 100644
--- a/src/modssc/inductive/methods/trinet.py
+++ b/src/modssc/inductive/methods/trinet.py
@@ -312,6 +312,31 @@ def _train_head(
                     opt_shared.step()
 
 
+def _head_num_classes(
+    X: Any,
+    *,
+    shared_bundle: TorchModelBundle,
+    head_bundles: tuple[TorchModelBundle, TorchModelBundle, TorchModelBundle],
+) -> int:
+    """Number of classes the heads output (labels may not cover all of them)."""
+    torch = optional_import("torch", extra="inductive-torch")
+    models = [shared_bundle.model, *(bundle.model for bundle in head_bundles)]
+    was_training = [model.training for model in models]
+    for model in models:
+        model.eval()
+    with torch.no_grad():
+        feats = _forward_shared(shared_bundle, slice_data(X, slice(0, 1)))
+        logits = [_forward_head(bundle, feats) for bundle in head_bundles]
+    for model, was in zip(models, was_training, strict=True):
+        model.train(was)
+    if any(int(out.ndim) != 2 for out in logits):
+        raise InductiveValidationError("Head logits must be 2D (batch, classes).")
+    widths = {int(out.shape[1]) for out in logits}
+    if len(widths) != 1:
+        raise InductiveValidationError("TriNet heads disagree on class count.")
+    return widths.pop()
+
+
 def _validate_bundle_set(
     *,
     shared_bundle: TorchModelBundle | None,
@@ -462,9 +487,11 @@ class TriNetMethod(ArgmaxPredictMixin, InductiveMethod):
         if not (0.0 <= float(self.spec.des_drop_fraction) <= 1.0):
             raise InductiveValidationError("des_drop_fraction must be in [0, 1].")
 
-        n_classes = int(y_l.max().item()) + 1
         if y_l.min().item() < 0:
             raise InductiveValidationError("y_l labels must be non-negative.")
+        n_classes = _head_num_classes(X_l, shared_bundle=shared_bundle, head_bundles=head_bundles)
+        if int(y_l.max().item()) >= n_classes:
+            raise InductiveValidationError("y_l labels must be within [0, n_classes).")
         y_l_onehot = _one_hot(y_l, n_classes=n_classes)
 
         # Initialization with output smearing to create diverse heads.
-- 
2.43.0


From 80ab02f75736006ba95b21af82df8cf12ac25c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 40/75] fix: CoMatch keeps its memory in the precision of the
 features

---
 src/modssc/inductive/methods/comatch.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 0b3ab60..91b0d21 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -145,12 +145,18 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         self._da_count: int = 0
         self._da_target: Any | None = None
 
-    def _init_memory(self, *, feat_dim: int, n_classes: int, device: Any) -> None:
+    def _init_memory(
+        self, *, feat_dim: int, n_classes: int, device: Any, dtype: Any = None
+    ) -> None:
         if int(self.spec.queue_size) <= 0:
             return
         torch = optional_import("torch", extra="inductive-torch")
-        self._queue_feats = torch.zeros((int(self.spec.queue_size), int(feat_dim)), device=device)
-        self._queue_probs = torch.zeros((int(self.spec.queue_size), int(n_classes)), device=device)
+        self._queue_feats = torch.zeros(
+            (int(self.spec.queue_size), int(feat_dim)), device=device, dtype=dtype
+        )
+        self._queue_probs = torch.zeros(
+            (int(self.spec.queue_size), int(n_classes)), device=device, dtype=dtype
+        )
         self._queue_ptr = 0
         self._queue_count = 0
 
@@ -493,6 +499,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                         feat_dim=int(feats_uw.shape[1]),
                         n_classes=int(logits_lb.shape[1]),
                         device=feats_uw.device,
+                        dtype=feats_uw.dtype,
                     )
 
                 sup_loss = torch.nn.functional.cross_entropy(logits_lb, y_lb)
-- 
2.43.0


From 0bed900b2b8c8168fc4cf906a2f517d0aed1c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 41/75] fix: AdaMatch and CoMatch keep edge weights with their
 edges

---
 src/modssc/inductive/methods/adamatch.py | 35 ++----------------------
 src/modssc/inductive/methods/comatch.py  | 30 +++-----------------
 2 files changed, 7 insertions(+), 58 deletions(-)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index a1f42d2..c9a566a 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -20,6 +20,7 @@ from modssc.inductive.methods.deep_utils import (
     init_alignment_uniform,
     num_batches,
     sharpen_probs,
+    slice_data,
 )
 from modssc.inductive.methods.utils import (
     detect_backend,
@@ -188,36 +189,6 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
-        def _slice_dict(X, idx, n_total):
-            if not isinstance(X, dict):
-                return X[idx]
-            # Always return a dict if input is a dict
-
-            try:
-                from torch_geometric.utils import subgraph
-            except ImportError:
-                return {
-                    k: v[idx] if hasattr(v, "shape") and v.shape[0] == n_total else v
-                    for k, v in X.items()
-                }
-
-            out = {}
-            if "x" in X:
-                out["x"] = X["x"][idx]
-            if "edge_index" in X:
-                # Ensure idx is on same device as edge_index for subgraph
-                # Re-label nodes maps selected indices to 0..batch_size-1
-                idx_dev = idx.to(X["edge_index"].device)
-                ei, _ = subgraph(idx_dev, X["edge_index"], relabel_nodes=True, num_nodes=n_total)
-                out["edge_index"] = ei
-            for k, v in X.items():
-                if k not in ("x", "edge_index"):
-                    if hasattr(v, "shape") and v.shape[0] == n_total:
-                        out[k] = v[idx]
-                    else:
-                        out[k] = v
-            return out
-
         model.train()
         for epoch in range(int(self.spec.max_epochs)):
             iter_l = cycle_batches(
@@ -235,8 +206,8 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 steps=steps_per_epoch,
             )
             for step, ((x_lb, y_lb), idx_u) in enumerate(zip(iter_l, iter_u_idx, strict=False)):
-                x_uw = _slice_dict(X_u_w, idx_u, int(_get_len(X_u_w)))
-                x_us = _slice_dict(X_u_s, idx_u, int(_get_len(X_u_s)))
+                x_uw = slice_data(X_u_w, idx_u)
+                x_us = slice_data(X_u_s, idx_u)
 
                 if bool(self.spec.use_cat):
                     inputs = concat_data([x_lb, x_uw, x_us])
diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 91b0d21..00275b2 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -19,6 +19,7 @@ from modssc.inductive.methods.deep_utils import (
     ensure_model_device,
     num_batches,
     one_hot_labels,
+    slice_data,
 )
 from modssc.inductive.methods.utils import (
     detect_backend,
@@ -392,29 +393,6 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
-        def _slice(data, idx):
-            if not isinstance(data, dict):
-                return data[idx]
-            out = {}
-            if "x" in data:
-                out["x"] = data["x"][idx]
-            if "edge_index" in data:
-                try:
-                    from torch_geometric.utils import subgraph
-
-                    out["edge_index"], _ = subgraph(
-                        idx, data["edge_index"], relabel_nodes=True, num_nodes=_len(data)
-                    )
-                except ImportError:
-                    pass
-            for k, v in data.items():
-                if k not in ("x", "edge_index"):
-                    if hasattr(v, "shape") and v.shape[0] == _len(data):
-                        out[k] = v[idx]
-                    else:
-                        out[k] = v
-            return out
-
         model.train()
         for epoch in range(int(self.spec.max_epochs)):
             iter_l = cycle_batches(
@@ -432,9 +410,9 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 steps=steps_per_epoch,
             )
             for step, ((x_lb, y_lb), idx_u) in enumerate(zip(iter_l, iter_u_idx, strict=False)):
-                x_uw = _slice(X_u_w, idx_u)
-                x_us0 = _slice(X_u_s0, idx_u)
-                x_us1 = _slice(X_u_s1, idx_u)
+                x_uw = slice_data(X_u_w, idx_u)
+                x_us0 = slice_data(X_u_s0, idx_u)
+                x_us1 = slice_data(X_u_s1, idx_u)
 
                 if bool(self.spec.use_cat):
                     inputs = concat_data([x_lb, x_uw, x_us0, x_us1])
-- 
2.43.0


From 0004d4444ceb2a1f9574bf8ea5d5a8b38c4e379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 42/75] fix: running statistics of AdaMatch, FreeMatch,
 FlexMatch and SoftMatch start over with every fit

---
 src/modssc/inductive/methods/adamatch.py   | 4 ++++
 src/modssc/inductive/methods/flexmatch.py  | 4 ++++
 src/modssc/inductive/methods/free_match.py | 5 +++++
 src/modssc/inductive/methods/softmatch.py  | 6 ++++++
 4 files changed, 19 insertions(+)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index c9a566a..617d0a6 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -185,6 +185,10 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         steps_l = num_batches(int(_get_len(X_l)), int(self.spec.batch_size))
         steps_u = num_batches(int(_get_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
+        # Statistics start over with every fit.
+        self._p_model = None
+        self._p_target = None
+
 
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
diff --git a/src/modssc/inductive/methods/flexmatch.py b/src/modssc/inductive/methods/flexmatch.py
index 8cf3316..cc9c7e1 100644
--- a/src/modssc/inductive/methods/flexmatch.py
+++ b/src/modssc/inductive/methods/flexmatch.py
@@ -233,6 +233,10 @@ class FlexMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         steps_u = num_batches(int(get_torch_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
 
+        # Statistics start over with every fit.
+        self._selected_label = None
+        self._classwise_acc = None
+
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index e5b137e..ac326ef 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -215,6 +215,11 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         steps_u = num_batches(int(get_torch_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
 
+        # Statistics start over with every fit.
+        self._p_model = None
+        self._label_hist = None
+        self._time_p = None
+
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index 5b4e2c7..11b1a1b 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -223,6 +223,12 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         steps_u = num_batches(int(get_torch_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
 
+        # Statistics start over with every fit.
+        self._p_model = None
+        self._p_target = None
+        self._prob_max_mu_t = None
+        self._prob_max_var_t = None
+
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
-- 
2.43.0


From 9f3d86535a6e47f1fb99cfd785e256429bcffbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 43/75] fix: detach_target=False trains for more than one step

---
 src/modssc/inductive/methods/adamatch.py   |  4 ++--
 src/modssc/inductive/methods/comatch.py    |  6 ++++--
 src/modssc/inductive/methods/free_match.py |  4 ++--
 src/modssc/inductive/methods/softmatch.py  | 12 ++++++------
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index 617d0a6..9ba3e4f 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -83,8 +83,8 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         mean_u = probs_u.mean(dim=0)
         mean_l = probs_l.mean(dim=0)
         momentum = float(self.spec.ema_p)
-        self._p_model = momentum * self._p_model + (1.0 - momentum) * mean_u
-        self._p_target = momentum * self._p_target + (1.0 - momentum) * mean_l
+        self._p_model = momentum * self._p_model.detach() + (1.0 - momentum) * mean_u
+        self._p_target = momentum * self._p_target.detach() + (1.0 - momentum) * mean_l
 
         ratio = self._p_target / self._p_model.clamp_min(1e-6)
         aligned = probs_u * ratio
diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 00275b2..fe6d904 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -196,8 +196,9 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         alpha = float(self.spec.smoothing_alpha)
         if alpha >= 1.0:
             return probs
-        queue_feats = self._queue_feats[: self._queue_count]
-        queue_probs = self._queue_probs[: self._queue_count]
+        # Copies: the memory is overwritten before the gradient is computed.
+        queue_feats = self._queue_feats[: self._queue_count].clone()
+        queue_probs = self._queue_probs[: self._queue_count].clone()
         sim = (feats @ queue_feats.t()) / float(self.spec.temperature)
         affinity = _row_normalize(sim.exp())
         smoothed = alpha * probs + (1.0 - alpha) * (affinity @ queue_probs)
@@ -219,6 +220,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             self._init_da(n_classes=int(probs_u.shape[1]), device=probs_u.device)
         assert self._da_queue is not None
         mean_u = probs_u.mean(dim=0)
+        self._da_queue = self._da_queue.detach().clone()
         self._da_queue[self._da_ptr] = mean_u
         self._da_ptr = (self._da_ptr + 1) % int(self.spec.da_len)
         self._da_count = min(int(self.spec.da_len), self._da_count + 1)
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index ac326ef..0b7f432 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -94,11 +94,11 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
 
         m = float(self.spec.ema_p)
         value = max_probs.quantile(0.8) if bool(self.spec.use_quantile) else max_probs.mean()
-        self._time_p = self._time_p * m + (1.0 - m) * value
+        self._time_p = self._time_p.detach() * m + (1.0 - m) * value
         if bool(self.spec.clip_thresh):
             self._time_p = self._time_p.clamp(0.0, 0.95)
 
-        self._p_model = self._p_model * m + (1.0 - m) * probs_u.mean(dim=0)
+        self._p_model = self._p_model.detach() * m + (1.0 - m) * probs_u.mean(dim=0)
         hist = (
             probs_u.new_zeros((int(self._p_model.shape[0]),))
             if int(max_idx.numel()) == 0
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index 11b1a1b..fee4136 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -90,11 +90,11 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             )
         assert self._p_model is not None and self._p_target is not None
         m = float(self.spec.ema_p)
-        self._p_model = self._p_model * m + (1.0 - m) * probs_u.mean(dim=0)
+        self._p_model = self._p_model.detach() * m + (1.0 - m) * probs_u.mean(dim=0)
         if bool(self.spec.dist_uniform):
             target = self._p_target
         else:
-            self._p_target = self._p_target * m + (1.0 - m) * probs_l.mean(dim=0)
+            self._p_target = self._p_target.detach() * m + (1.0 - m) * probs_l.mean(dim=0)
             target = self._p_target
         ratio = target / self._p_model.clamp_min(1e-6)
         aligned = probs_u * ratio
@@ -125,8 +125,8 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 if int(max_probs.numel()) > 1
                 else max_probs.new_tensor(0.0)
             )
-            self._prob_max_mu_t = self._prob_max_mu_t * m + (1.0 - m) * mu
-            self._prob_max_var_t = self._prob_max_var_t * m + (1.0 - m) * var
+            self._prob_max_mu_t = self._prob_max_mu_t.detach() * m + (1.0 - m) * mu
+            self._prob_max_var_t = self._prob_max_var_t.detach() * m + (1.0 - m) * var
         else:
             num_classes = int(self._prob_max_mu_t.numel())
             mu = torch.zeros((num_classes,), device=max_probs.device)
@@ -136,8 +136,8 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 if int(cls_probs.numel()) > 1:
                     mu[c] = cls_probs.mean()
                     var[c] = cls_probs.var(unbiased=True)
-            self._prob_max_mu_t = self._prob_max_mu_t * m + (1.0 - m) * mu
-            self._prob_max_var_t = self._prob_max_var_t * m + (1.0 - m) * var
+            self._prob_max_mu_t = self._prob_max_mu_t.detach() * m + (1.0 - m) * mu
+            self._prob_max_var_t = self._prob_max_var_t.detach() * m + (1.0 - m) * var
 
     def fit(self, data: Any, *, device: DeviceSpec, seed: int = 0) -> SoftMatchMethod:
         start = perf_counter()
-- 
2.43.0


From 09e8c4f4575206e7e2f7ce321e6adcb074efc77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 44/75] fix: the GNN methods seed torch before they initialise
 their parameters

---
 src/modssc/transductive/methods/gnn/appnp.py     |  2 ++
 src/modssc/transductive/methods/gnn/chebnet.py   |  2 ++
 src/modssc/transductive/methods/gnn/gat.py       |  9 ++++++++-
 src/modssc/transductive/methods/gnn/gcn.py       | 10 +++++++++-
 src/modssc/transductive/methods/gnn/gcnii.py     | 10 +++++++++-
 src/modssc/transductive/methods/gnn/grand.py     |  3 ++-
 src/modssc/transductive/methods/gnn/graphsage.py |  2 ++
 src/modssc/transductive/methods/gnn/h_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/n_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/planetoid.py |  3 ++-
 src/modssc/transductive/methods/gnn/sgc.py       | 10 +++++++++-
 11 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index cc30179..44865e5 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -16,6 +16,7 @@ from .common import (
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -91,6 +92,7 @@ class APPNPMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 70cf0c9..a32da9a 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -111,6 +112,7 @@ class ChebNetMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 65c4300..51dd002 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -10,7 +10,13 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -205,6 +211,7 @@ class GATMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 379cb1e..82549fe 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -82,6 +89,7 @@ class GCNMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 43484c0..341a88d 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -11,7 +11,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -104,6 +111,7 @@ class GCNIIMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 8f92109..fb98433 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -11,7 +11,7 @@ from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
 from .common import TwoLayerMLP as _MLP
-from .common import normalize_device_name, prepare_data_cached, spmm, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, spmm, torch
 
 logger = logging.getLogger(__name__)
 
@@ -69,6 +69,7 @@ class GRANDMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 2e1dd5c..41e96b4 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -84,6 +85,7 @@ class GraphSAGEMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 3abce80..ea872c9 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -293,6 +294,7 @@ class HGCNMethod(TransductiveMethod):
             raise ValueError("weight_embed_dim must be >= 1")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 32bd7e8..fac6e46 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -213,6 +214,7 @@ class NGCNMethod(TransductiveMethod):
             raise ValueError("classifier must be 'fc' or 'attention'")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 790b5b6..1e02bbf 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -17,7 +17,7 @@ from modssc.graph.featurization.node2vec import (
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, torch
 
 logger = logging.getLogger(__name__)
 
@@ -82,6 +82,7 @@ class PlanetoidMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
 
         # Walk generation on CPU
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9811f3..09136ce 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -62,6 +69,7 @@ class SGCMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From 8f217600986a18e10917b0906097e14880e5bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 45/75] fix: a GNN fit or prediction never reuses prepared data
 of another dataset

---
 src/modssc/transductive/methods/gnn/appnp.py     |  1 +
 src/modssc/transductive/methods/gnn/chebnet.py   |  1 +
 src/modssc/transductive/methods/gnn/common.py    | 11 +++++++++++
 src/modssc/transductive/methods/gnn/gat.py       |  1 +
 src/modssc/transductive/methods/gnn/gcn.py       |  1 +
 src/modssc/transductive/methods/gnn/gcnii.py     |  1 +
 src/modssc/transductive/methods/gnn/grafn.py     |  1 +
 src/modssc/transductive/methods/gnn/grand.py     |  1 +
 src/modssc/transductive/methods/gnn/graphhop.py  |  1 +
 src/modssc/transductive/methods/gnn/graphsage.py |  1 +
 src/modssc/transductive/methods/gnn/h_gcn.py     |  1 +
 src/modssc/transductive/methods/gnn/n_gcn.py     |  1 +
 src/modssc/transductive/methods/gnn/planetoid.py |  1 +
 src/modssc/transductive/methods/gnn/sgc.py       |  1 +
 14 files changed, 24 insertions(+)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index 44865e5..efbaf25 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -93,6 +93,7 @@ class APPNPMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index a32da9a..0d6b0db 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -113,6 +113,7 @@ class ChebNetMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/common.py b/src/modssc/transductive/methods/gnn/common.py
index 9f85637..c687492 100644
--- a/src/modssc/transductive/methods/gnn/common.py
+++ b/src/modssc/transductive/methods/gnn/common.py
@@ -319,6 +319,17 @@ def prepare_data_cached(
     )
     cache["key"] = key
     cache["prep"] = prep
+    # The key holds ids: keep the objects alive so that no other object can get their ids.
+    graph = getattr(data, "graph", None)
+    cache["refs"] = (
+        data,
+        getattr(data, "X", None),
+        getattr(data, "y", None),
+        graph,
+        getattr(graph, "edge_index", None),
+        getattr(graph, "edge_weight", None),
+        getattr(data, "masks", None),
+    )
     return prep
 
 
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 51dd002..8808aa8 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -212,6 +212,7 @@ class GATMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 82549fe..124e5b1 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -90,6 +90,7 @@ class GCNMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 341a88d..29e3d02 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -112,6 +112,7 @@ class GCNIIMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grafn.py b/src/modssc/transductive/methods/gnn/grafn.py
index be08d50..a71eefd 100644
--- a/src/modssc/transductive/methods/gnn/grafn.py
+++ b/src/modssc/transductive/methods/gnn/grafn.py
@@ -198,6 +198,7 @@ class GraFNMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index fb98433..f7be90d 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -70,6 +70,7 @@ class GRANDMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphhop.py b/src/modssc/transductive/methods/gnn/graphhop.py
index 799545a..e1f9431 100644
--- a/src/modssc/transductive/methods/gnn/graphhop.py
+++ b/src/modssc/transductive/methods/gnn/graphhop.py
@@ -219,6 +219,7 @@ class GraphHopMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 41e96b4..e7d6a38 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -86,6 +86,7 @@ class GraphSAGEMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index ea872c9..edd8f8b 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -295,6 +295,7 @@ class HGCNMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index fac6e46..dbde5eb 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -215,6 +215,7 @@ class NGCNMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 1e02bbf..7b5ecd4 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -85,6 +85,7 @@ class PlanetoidMethod(TransductiveMethod):
         set_torch_seed(seed)
 
         # Walk generation on CPU
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device="cpu",
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index 09136ce..17178c9 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -70,6 +70,7 @@ class SGCMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From 9b1f22169cabe4c1675e97e8e3bf1d9ffaa53b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 46/75] fix: Poisson learning on torch accepts graphs without
 edge weights

---
 src/modssc/transductive/methods/pde/poisson_learning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index f429911..d24cc54 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -174,7 +174,12 @@ def poisson_learning_torch(
     if edge_index_t.ndim != 2 or edge_index_t.shape[0] != 2:
         raise ValueError(f"edge_index must have shape (2, E), got {tuple(edge_index_t.shape)}")
 
-    edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
+    if edge_weight is None:
+        edge_weight_t = torch.ones(
+            (int(edge_index_t.shape[1]),), dtype=torch.float32, device=device
+        )
+    else:
+        edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
     labeled_mask_t = torch.as_tensor(labeled_mask, dtype=torch.bool, device=device)
 
     n_nodes_i = int(n_nodes)
-- 
2.43.0


From 67dc8f395fd123abcff53f158cc2a8ee61b7b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 47/75] fix: self-loops do not change the numpy Laplace
 learning solution

---
 src/modssc/transductive/methods/classic/laplace_learning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/laplace_learning.py b/src/modssc/transductive/methods/classic/laplace_learning.py
index 5fd93e8..2bbe262 100644
--- a/src/modssc/transductive/methods/classic/laplace_learning.py
+++ b/src/modssc/transductive/methods/classic/laplace_learning.py
@@ -62,8 +62,7 @@ def laplace_learning_numpy(
     np.add.at(W, (dst, src), w)
 
     deg = W.sum(axis=1)
-    L = -W
-    np.fill_diagonal(L, deg)
+    L = np.diag(deg) - W
 
     labeled_idx = np.flatnonzero(labeled_mask)
     unlabeled_idx = np.flatnonzero(~labeled_mask)
-- 
2.43.0


From 2532f363550fc8326699bc2a92d3a1e22a78608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 48/75] fix: device names are resolved from a DeviceSpec as
 well

---
 src/modssc/runtime/device.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/runtime/device.py b/src/modssc/runtime/device.py
index d132258..b71a13a 100644
--- a/src/modssc/runtime/device.py
+++ b/src/modssc/runtime/device.py
@@ -64,7 +64,11 @@ def _cached_best_device_name() -> str:
     return _best_device_from_torch(_try_import_torch())
 
 
-def resolve_device_name(device: str | None, *, torch: Any = _TORCH_SENTINEL) -> str | None:
+def resolve_device_name(device: Any, *, torch: Any = _TORCH_SENTINEL) -> str | None:
+    # A DeviceSpec names its device in its ``device`` field.
+    spec_device = getattr(device, "device", None)
+    if isinstance(spec_device, str):
+        device = spec_device
     if device is None:
         return None
     if device != "auto":
-- 
2.43.0


From e72aa756454ea7402c5d9ec0a050bd3eb61a6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 49/75] fix: GNN methods refuse to train without a labeled node

---
 src/modssc/transductive/methods/gnn/common.py | 2 ++
 src/modssc/transductive/methods/gnn/grand.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/modssc/transductive/methods/gnn/common.py b/src/modssc/transductive/methods/gnn/common.py
index c687492..778be09 100644
--- a/src/modssc/transductive/methods/gnn/common.py
+++ b/src/modssc/transductive/methods/gnn/common.py
@@ -364,6 +364,8 @@ def train_fullbatch(
 ) -> TrainResult:
     """Generic full-batch training loop for node classification."""
     set_torch_seed(seed)
+    if not bool(train_mask.any()):
+        raise ValueError("train_mask is empty")
 
     optimizer = torch.optim.Adam(model.parameters(), lr=float(lr), weight_decay=float(weight_decay))
 
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index f7be90d..ecff429 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -78,6 +78,8 @@ class GRANDMethod(TransductiveMethod):
             norm_mode="rw",  # random-walk propagation
             cache=self._prep_cache,
         )
+        if not bool(prep.train_mask.any()):
+            raise ValueError("train_mask is empty")
         val_count = int(prep.val_mask.sum()) if prep.val_mask is not None else None
         logger.info(
             "GRAND sizes: n_nodes=%s n_classes=%s train=%s val=%s",
-- 
2.43.0


From a2de6075c6dbe79af5b1189a66f5b04a4411bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 50/75] fix: p-Laplace Newton steps start conjugate gradients
 from the current solution

---
 .../transductive/methods/pde/p_laplace_learning.py  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/modssc/transductive/methods/pde/p_laplace_learning.py b/src/modssc/transductive/methods/pde/p_laplace_learning.py
index cfde935..7b64dae 100644
--- a/src/modssc/transductive/methods/pde/p_laplace_learning.py
+++ b/src/modssc/transductive/methods/pde/p_laplace_learning.py
@@ -147,7 +147,11 @@ def p_laplace_learning_numpy(
 
     # p=2 initialization (L(u) independent of u)
     def solve_linear(
-        *, a_weight: np.ndarray, b_weight: np.ndarray, g: np.ndarray
+        *,
+        a_weight: np.ndarray,
+        b_weight: np.ndarray,
+        g: np.ndarray,
+        x0: np.ndarray | None = None,
     ) -> tuple[np.ndarray, int, float]:
         D = np.zeros((unlabeled_idx.size,), dtype=np.float32)
         if a_weight.size:
@@ -175,7 +179,11 @@ def p_laplace_learning_numpy(
         rhs = rhs - f
 
         cg = cg_solve_numpy(
-            matvec=matvec, b=rhs, tol=float(spec.cg_tol), max_iter=int(spec.cg_max_iter)
+            matvec=matvec,
+            b=rhs,
+            x0=x0,
+            tol=float(spec.cg_tol),
+            max_iter=int(spec.cg_max_iter),
         )
         return cg.x.astype(np.float32, copy=False), int(cg.n_iter), float(cg.residual_norm)
 
@@ -198,6 +206,7 @@ def p_laplace_learning_numpy(
                     a_weight=a_weight.astype(np.float32, copy=False),
                     b_weight=b_weight.astype(np.float32, copy=False),
                     g=g,
+                    x0=u,
                 )
                 u_new = ((p - 2.0) / (p - 1.0)) * u + (1.0 / (p - 1.0)) * v
                 residual = float(np.max(np.abs(u_new - u)))
-- 
2.43.0


From 00c818e542c0c2ff610bb54fbadfa77f89362021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 51/75] fix: numpy spmm keeps fractional edge weights for
 integer features

---
 src/modssc/transductive/backends/numpy_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/transductive/backends/numpy_backend.py b/src/modssc/transductive/backends/numpy_backend.py
index 176563c..5216c8d 100644
--- a/src/modssc/transductive/backends/numpy_backend.py
+++ b/src/modssc/transductive/backends/numpy_backend.py
@@ -28,6 +28,8 @@ def spmm(
     out[dst] += w * X[src]
     """
     edge_index = np.asarray(edge_index, dtype=np.int64)
+    if not np.issubdtype(X.dtype, np.floating):
+        X = X.astype(np.float32)
     if edge_index.size == 0:
         return np.zeros((n_nodes,) + X.shape[1:], dtype=X.dtype)
 
-- 
2.43.0


From 38913dccc6b1a7bf0b75152f5d6a77f746f9e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 52/75] fix: benchmark configuration rejects values of the
 wrong type instead of coercing them

---
 bench/schema.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/bench/schema.py b/bench/schema.py
index 20bd6e4..3718b52 100644
--- a/bench/schema.py
+++ b/bench/schema.py
@@ -24,7 +24,7 @@ def _as_mapping(obj: Any, *, name: str) -> Mapping[str, Any]:
 def _check_unknown(data: Mapping[str, Any], allowed: set[str], *, name: str) -> None:
     extra = set(data.keys()) - allowed
     if extra:
-        raise BenchConfigError(f"Unknown keys in {name}: {sorted(extra)}")
+        raise BenchConfigError(f"Unknown keys in {name}: {sorted(extra, key=str)}")
 
 
 def _require_str(data: Mapping[str, Any], key: str, *, name: str) -> str:
@@ -54,11 +54,26 @@ def _optional_int(data: Mapping[str, Any], key: str) -> int | None:
     val = data.get(key)
     if val is None:
         return None
-    if not isinstance(val, int):
+    if not isinstance(val, int) or isinstance(val, bool):
         raise BenchConfigError(f"{key} must be an int when provided")
     return int(val)
 
 
+def _int_value(data: Mapping[str, Any], key: str, *, name: str, default: int) -> int:
+    """Return an int; text such as an expanded placeholder is accepted when it spells one."""
+    val = data.get(key, default)
+    try:
+        if isinstance(val, int | str) and not isinstance(val, bool):
+            return int(val)
+    except ValueError:
+        pass
+    raise BenchConfigError(f"{name}.{key} must be an int")
+
+
+def _str_value(data: Mapping[str, Any], key: str, *, name: str, default: str) -> str:
+    return _require_str({key: data.get(key, default)}, key, name=name)
+
+
 def _optional_seed_list(data: Mapping[str, Any], key: str, *, name: str) -> list[int] | None:
     val = data.get(key)
     if val is None:
@@ -70,7 +85,7 @@ def _optional_seed_list(data: Mapping[str, Any], key: str, *, name: str) -> list
     out: list[int] = []
     seen: set[int] = set()
     for i, item in enumerate(val):
-        if not isinstance(item, int):
+        if not isinstance(item, int) or isinstance(item, bool):
             raise BenchConfigError(f"{name}.{key}[{i}] must be an int")
         seed = int(item)
         if seed in seen:
@@ -296,8 +311,8 @@ class ExperimentConfig:
             )
         run_cfg = RunConfig(
             name=_require_str(run, "name", name="run"),
-            seed=int(run.get("seed", 0)),
-            output_dir=str(run.get("output_dir", "modssc_cache/output")),
+            seed=_int_value(run, "seed", name="run", default=0),
+            output_dir=_str_value(run, "output_dir", name="run", default="modssc_cache/output"),
             seeds=_optional_seed_list(run, "seeds", name="run"),
             fail_fast=fail_fast,
             log_level=_optional_str(run, "log_level"),
@@ -410,7 +425,7 @@ class ExperimentConfig:
             augmentation_cfg = AugmentationConfig(
                 enabled=_optional_bool(aug, "enabled", default=True),
                 seed=_optional_int(aug, "seed"),
-                mode=str(aug.get("mode", "fixed")),
+                mode=_str_value(aug, "mode", name="augmentation", default="fixed"),
                 weak=_optional_mapping(aug, "weak"),
                 strong=_optional_mapping(aug, "strong"),
                 modality=_optional_str(aug, "modality"),
@@ -424,8 +439,8 @@ class ExperimentConfig:
         device_raw = _as_mapping(method.get("device", {}), name="method.device")
         _check_unknown(device_raw, {"device", "dtype", "resolved_device"}, name="method.device")
         device = DeviceConfig(
-            device=str(device_raw.get("device", "cpu")),
-            dtype=str(device_raw.get("dtype", "float32")),
+            device=_str_value(device_raw, "device", name="method.device", default="cpu"),
+            dtype=_str_value(device_raw, "dtype", name="method.device", default="float32"),
             resolved_device=_optional_str(device_raw, "resolved_device"),
         )
         model_cfg = None
-- 
2.43.0


From 69b0bd3ecdf594ffe4ed11a2374e2f4b88c3c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 53/75] fix: slicing a graph sample keeps edge attributes
 aligned with its edges and leaves other arrays whole

---
 bench/orchestrators/slicing.py | 41 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/bench/orchestrators/slicing.py b/bench/orchestrators/slicing.py
index bc5eb09..91df56d 100644
--- a/bench/orchestrators/slicing.py
+++ b/bench/orchestrators/slicing.py
@@ -36,7 +36,10 @@ def _infer_num_nodes(X: Mapping[str, Any]) -> int | None:
         return None
 
 
-def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None) -> Any:
+def _slice_edge_index(
+    edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None
+) -> tuple[Any, np.ndarray]:
+    """Return the edges among the selected nodes and the mask of the edges that were kept."""
     try:
         import importlib
 
@@ -57,11 +60,12 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
 
     subset = torch.as_tensor(idx, dtype=torch.long, device=device)
     try:
-        sub_ei, _ = pyg_utils.subgraph(
+        sub_ei, _, kept = pyg_utils.subgraph(
             subset,
             ei,
             relabel_nodes=True,
             num_nodes=None if num_nodes is None else int(num_nodes),
+            return_edge_mask=True,
         )
     except (RuntimeError, TypeError, ValueError) as exc:
         raise BenchRuntimeError(
@@ -69,9 +73,10 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
             f"failed to slice edge_index with relabel_nodes=True: {exc}",
         ) from exc
 
+    kept_mask = kept.detach().cpu().numpy()
     if is_torch_tensor(edge_index):
-        return sub_ei
-    return sub_ei.detach().cpu().numpy()
+        return sub_ei, kept_mask
+    return sub_ei.detach().cpu().numpy(), kept_mask
 
 
 def _slice_tensor(x: Any, idx: np.ndarray) -> Any:
@@ -86,16 +91,16 @@ def _slice_sequence(x: list[Any], idx: np.ndarray) -> list[Any]:
     return [x[int(i)] for i in idx.tolist()]
 
 
-def _should_slice_by_dim0(x: Any, idx: np.ndarray) -> bool:
-    if idx.size == 0:
-        return True
+def _should_slice_by_dim0(x: Any, idx: np.ndarray, *, num_nodes: int | None = None) -> bool:
     shape = getattr(x, "shape", None)
     if shape is None:
         return False
     try:
         if len(shape) == 0:
             return False
-        return int(shape[0]) > int(idx.max())
+        if num_nodes is not None:
+            return int(shape[0]) == int(num_nodes)
+        return idx.size == 0 or int(shape[0]) > int(idx.max())
     except (TypeError, ValueError):
         return False
 
@@ -113,25 +118,37 @@ def select_rows(
     if isinstance(X, Mapping):
         out: dict[str, Any] = {}
         num_nodes = _infer_num_nodes(X)
+        kept_edges: np.ndarray | None = None
         if "edge_index" in X:
-            out["edge_index"] = _slice_edge_index(X["edge_index"], idx_arr, num_nodes=num_nodes)
+            out["edge_index"], kept_edges = _slice_edge_index(
+                X["edge_index"], idx_arr, num_nodes=num_nodes
+            )
         for k, v in X.items():
             if k == "edge_index":
                 continue
+            if (
+                kept_edges is not None
+                and str(k).startswith("edge_")
+                and (is_torch_tensor(v) or isinstance(v, np.ndarray))
+                and tuple(v.shape[:1]) == kept_edges.shape
+            ):
+                edge_pos = np.flatnonzero(kept_edges)
+                out[k] = _slice_tensor(v, edge_pos) if is_torch_tensor(v) else v[edge_pos]
+                continue
             if is_torch_tensor(v):
-                if _should_slice_by_dim0(v, idx_arr):
+                if _should_slice_by_dim0(v, idx_arr, num_nodes=num_nodes):
                     out[k] = _slice_tensor(v, idx_arr)
                 else:
                     out[k] = v
                 continue
             if isinstance(v, np.ndarray):
-                if _should_slice_by_dim0(v, idx_arr):
+                if _should_slice_by_dim0(v, idx_arr, num_nodes=num_nodes):
                     out[k] = v[idx_arr]
                 else:
                     out[k] = v
                 continue
             if isinstance(v, list):
-                if _should_slice_by_dim0(np.asarray(v, dtype=object), idx_arr):
+                if _should_slice_by_dim0(np.asarray(v, dtype=object), idx_arr, num_nodes=num_nodes):
                     out[k] = _slice_sequence(v, idx_arr)
                 else:
                     out[k] = v
-- 
2.43.0


From 2bdba081ee6e1a23ef4f0e5592297ef773f57374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 54/75] fix: an explicit null no longer lifts a benchmark limit

---
 bench/limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/limits.py b/bench/limits.py
index 89f1b40..cd59ade 100644
--- a/bench/limits.py
+++ b/bench/limits.py
@@ -152,7 +152,7 @@ def _clamp_key(
 ) -> None:
     if limit is None:
         return
-    if key not in container:
+    if container.get(key) is None:
         if set_if_missing:
             container[key] = int(limit)
             changes.append(f"{path}.{key}: set to {int(limit)}")
-- 
2.43.0


From cd7c03f27559e16947b1c41174aec92976a060eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 55/75] fix: sweep summary copes with undefined (NaN) metrics

---
 bench/orchestrators/reporting.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bench/orchestrators/reporting.py b/bench/orchestrators/reporting.py
index 6c74638..46cff8a 100644
--- a/bench/orchestrators/reporting.py
+++ b/bench/orchestrators/reporting.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import json
 import logging
+import math
 from dataclasses import asdict
 from datetime import UTC, datetime
 from pathlib import Path
@@ -148,15 +149,16 @@ def write_seed_sweep_summary(
 
     aggregated_metrics: dict[str, Any] = {}
     for metric_path, values in sorted(metric_values.items()):
+        undefined = any(math.isnan(v) for v in values)
         _set_nested(
             aggregated_metrics,
             metric_path,
             {
                 "count": len(values),
                 "mean": float(fmean(values)),
-                "std": float(pstdev(values)) if len(values) > 1 else 0.0,
-                "min": float(min(values)),
-                "max": float(max(values)),
+                "std": math.nan if undefined else float(pstdev(values)),
+                "min": math.nan if undefined else float(min(values)),
+                "max": math.nan if undefined else float(max(values)),
                 "values": [float(v) for v in values],
             },
         )
-- 
2.43.0


From 7e9f8cb835a48c0deff69a9ae0c94a09e847faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:34 +0000
Subject: [PATCH 56/75] fix: a malformed views list is recorded as a failed run

---
 bench/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/main.py b/bench/main.py
index 92c4335..57eedfd 100644
--- a/bench/main.py
+++ b/bench/main.py
@@ -578,7 +578,8 @@ def _run_experiment_single(
     fallback_events: list[dict[str, Any]] = []
 
     normalization_requested = _collect_requested_normalization(cfg.preprocess.plan)
-    for pre_key in (cfg.views.plan if cfg.views is not None else {}).get("views", []):
+    requested_views = cfg.views.plan.get("views") if cfg.views is not None else None
+    for pre_key in requested_views if isinstance(requested_views, list) else []:
         if isinstance(pre_key, Mapping) and isinstance(pre_key.get("preprocess"), Mapping):
             normalization_requested.extend(_collect_requested_normalization(pre_key["preprocess"]))
 
-- 
2.43.0


From 7fcf30cb9b3a6fbf12a813d6cf765cb74f0f6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:34 +0000
Subject: [PATCH 57/75] fix: search trials obey the memory limits like the
 final run

---
 bench/orchestrators/hpo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bench/orchestrators/hpo.py b/bench/orchestrators/hpo.py
index 308e106..13f3a58 100644
--- a/bench/orchestrators/hpo.py
+++ b/bench/orchestrators/hpo.py
@@ -12,6 +12,7 @@ import numpy as np
 from modssc.hpo import Space, deep_merge
 
 from ..context import RunContext
+from ..limits import apply_limits
 from ..schema import BenchConfigError, ExperimentConfig
 from . import evaluation as eval_orch
 from . import method_inductive as inductive_orch
@@ -99,6 +100,9 @@ def run_hpo(
             trial_start = perf_counter()
             _LOGGER.debug("HPO trial %s params=%s", trial.index, trial.params)
             patched_dict = deep_merge(base_cfg_dict, trial.patch)
+            patched_dict, _, _ = apply_limits(
+                patched_dict, limits=base_cfg.limits, strict=base_cfg.run.benchmark_mode
+            )
             trial_cfg = ExperimentConfig.from_dict(patched_dict)
 
             scores = []
-- 
2.43.0


From c710079aaf5d93e8f602750c7fc4f0d99d9dd864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 58/75] fix: benchmark models get an output for classes that
 have no labeled row

---
 bench/orchestrators/method_inductive.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bench/orchestrators/method_inductive.py b/bench/orchestrators/method_inductive.py
index f060826..a567dfd 100644
--- a/bench/orchestrators/method_inductive.py
+++ b/bench/orchestrators/method_inductive.py
@@ -292,9 +292,11 @@ def _build_spec(method_cls: type[Any], params: dict[str, Any], *, strict: bool)
 def _infer_num_classes(y: Any) -> int:
     if is_torch_tensor(y):
         torch = _torch_module()
-        return int(torch.unique(y).numel())
-    y_arr = np.asarray(y)
-    return int(np.unique(y_arr).size)
+        known = torch.unique(y)
+        n_known = int(known.numel())
+        return max(n_known, int(known[-1]) + 1) if n_known else 0
+    known = np.unique(np.asarray(y))
+    return max(int(known.size), int(known[-1]) + 1) if known.size else 0
 
 
 def _inject_model_bundle(
-- 
2.43.0


From 568e374398e5ec7cec6cd2e3f9b010d3fcadc678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 59/75] fix: evaluation reads score columns as the labels the
 method was trained on

---
 bench/orchestrators/evaluation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bench/orchestrators/evaluation.py b/bench/orchestrators/evaluation.py
index bea37d4..a984b75 100644
--- a/bench/orchestrators/evaluation.py
+++ b/bench/orchestrators/evaluation.py
@@ -253,6 +253,8 @@ def evaluate_inductive(
         bool(strict),
     )
     results: dict[str, dict[str, float]] = {}
+    _, y_labeled = _split_data(pre, sampling, split="train_labeled")
+    known_labels = np.unique(labels_1d(y_labeled))
     for split in report_splits:
         X, y = _split_data(pre, sampling, split=split)
 
@@ -273,6 +275,7 @@ def evaluate_inductive(
             if not strict:
                 X = _smart_to_torch(X, dest_dev)
 
+        scored = X
         if method_id == "co_training":
             if views is None:
                 raise BenchRuntimeError(
@@ -286,14 +289,18 @@ def evaluate_inductive(
                 backend_ref=X,
                 strict=strict,
             )
-            data = InductiveDataset(X_l=X, y_l=y, views=views_payload)
-            scores = method.predict_proba(data)
-        else:
-            scores = method.predict_proba(X)
+            scored = InductiveDataset(X_l=X, y_l=y, views=views_payload)
+        scores = method.predict_proba(scored)
 
         scores_np = to_numpy(scores)
         y_true = labels_1d(y)
         y_pred = predict_labels(scores_np)
+        if scores_np.ndim == 2 and scores_np.shape[1] == known_labels.size:
+            # Score columns are the sorted labels of the labeled set.
+            y_pred = known_labels[y_pred]
+        elif scores_np.ndim == 2 and callable(getattr(method, "predict", None)):
+            # Some labels have no column; only the method knows which ones.
+            y_pred = labels_1d(to_numpy(method.predict(scored)))
         results[split] = compute_metrics(y_true, y_pred, metrics)
         _log_split_metrics(
             kind="inductive",
-- 
2.43.0


From d29bb25132d00526475c258dd13aa7048709865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 60/75] fix: label propagation and spreading accept a class
 that has no labeled node

---
 .../methods/classic/label_propagation.py      | 22 +++----------------
 .../methods/classic/label_spreading.py        | 21 +++---------------
 2 files changed, 6 insertions(+), 37 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/label_propagation.py b/src/modssc/transductive/methods/classic/label_propagation.py
index cfd713e..b6dfc84 100644
--- a/src/modssc/transductive/methods/classic/label_propagation.py
+++ b/src/modssc/transductive/methods/classic/label_propagation.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from modssc.runtime.device import resolve_device_name
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import (
     DiffusionResult,
     NormMode,
@@ -90,16 +91,7 @@ def label_propagation_numpy(
     if labeled_mask.shape != (n_nodes,):
         raise ValueError("labeled_mask must have shape (n_nodes,)")
 
-    y_valid = y[y >= 0]
-    if labeled_mask.any():
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = (
-            int(np.unique(y_labeled).size) if y_labeled.size else int(np.unique(y_valid).size)
-        )
-    else:
-        n_classes = int(np.unique(y_valid).size)
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(y)
 
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
@@ -159,15 +151,7 @@ def label_propagation_torch(
     if int(y.shape[0]) != int(n_nodes) or int(labeled_mask.shape[0]) != int(n_nodes):
         raise ValueError("y and labeled_mask must have shape (n_nodes,)")
 
-    # Determine n_classes from labeled nodes if possible
-    if bool(labeled_mask.any().item()):
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = int(torch.unique(y_labeled).numel()) if y_labeled.numel() else 0
-    else:
-        y_valid = y[y >= 0]
-        n_classes = int(torch.unique(y_valid).numel()) if y_valid.numel() else 0
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(to_numpy(y))
 
     # Build Y in torch then reuse the numpy helper to keep consistent behavior
     y_np = to_numpy(y)
diff --git a/src/modssc/transductive/methods/classic/label_spreading.py b/src/modssc/transductive/methods/classic/label_spreading.py
index 8d8444e..79fbb9c 100644
--- a/src/modssc/transductive/methods/classic/label_spreading.py
+++ b/src/modssc/transductive/methods/classic/label_spreading.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from modssc.runtime.device import resolve_device_name
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import (
     DiffusionResult,
     NormMode,
@@ -72,16 +73,7 @@ def label_spreading_numpy(
     if not (0.0 <= float(spec.alpha) < 1.0):
         raise ValueError("alpha must be in [0, 1)")
 
-    y_valid = y[y >= 0]
-    if labeled_mask.any():
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = (
-            int(np.unique(y_labeled).size) if y_labeled.size else int(np.unique(y_valid).size)
-        )
-    else:
-        n_classes = int(np.unique(y_valid).size)
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(y)
 
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
@@ -142,14 +134,7 @@ def label_spreading_torch(
     if int(y.shape[0]) != int(n_nodes) or int(labeled_mask.shape[0]) != int(n_nodes):
         raise ValueError("y and labeled_mask must have shape (n_nodes,)")
 
-    if bool(labeled_mask.any().item()):
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = int(torch.unique(y_labeled).numel()) if y_labeled.numel() else 0
-    else:
-        y_valid = y[y >= 0]
-        n_classes = int(torch.unique(y_valid).numel()) if y_valid.numel() else 0
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(to_numpy(y))
 
     y_np = to_numpy(y)
     Y_np = labels_to_onehot(y_np, n_classes=n_classes).astype(np.float32)
-- 
2.43.0


From 20fc489dc91c413b071890c05442f3ceb6b203d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 61/75] fix: cached graphs over training nodes are kept apart
 from graphs over training and test nodes

---
 bench/orchestrators/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/orchestrators/graph.py b/bench/orchestrators/graph.py
index 9d282c3..48906ad 100644
--- a/bench/orchestrators/graph.py
+++ b/bench/orchestrators/graph.py
@@ -84,6 +84,9 @@ def build(
 
     if X_test is not None:
         X = np.concatenate([_to_numpy(X_train), _to_numpy(X_test)], axis=0)
+        if dataset_fingerprint is not None:
+            # The same dataset also yields graphs over its training nodes only.
+            dataset_fingerprint = f"{dataset_fingerprint}:train+test"
     else:
         X = _to_numpy(X_train)
     _LOGGER.debug("Graph features: shape=%s", tuple(np.asarray(X).shape))
-- 
2.43.0


From 53f53970e91e3d44e0fbbea7d2894867526c41dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 62/75] fix: benchmark mode also refuses auto among the choices
 of a search space

---
 bench/main.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bench/main.py b/bench/main.py
index 57eedfd..d89f741 100644
--- a/bench/main.py
+++ b/bench/main.py
@@ -326,17 +326,14 @@ def _scan_auto_entries(node: Any, *, path: str) -> list[str]:
     if isinstance(node, Mapping):
         for key, value in node.items():
             child = f"{path}.{key}" if path else str(key)
-            if (
-                isinstance(value, str)
-                and value.strip().lower() == "auto"
-                and key
-                in {
-                    "device",
-                    "backend",
-                    "classifier_backend",
-                    "profile",
-                }
-            ):
+            # A list under one of these keys holds the choices of a search space.
+            choices = value if isinstance(value, list) else [value]
+            if any(isinstance(c, str) and c.strip().lower() == "auto" for c in choices) and key in {
+                "device",
+                "backend",
+                "classifier_backend",
+                "profile",
+            }:
                 paths.append(child)
             paths.extend(_scan_auto_entries(value, path=child))
     elif isinstance(node, list):
-- 
2.43.0


From 84449692b5277c6c3e8339e85393d3ce236052d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 63/75] fix: sampling commands report bad plans, split folders
 and existing outputs without a traceback

---
 src/modssc/cli/sampling.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/modssc/cli/sampling.py b/src/modssc/cli/sampling.py
index efca5fa..eacb8e6 100644
--- a/src/modssc/cli/sampling.py
+++ b/src/modssc/cli/sampling.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import json
 import logging
+import zipfile
 from pathlib import Path
 
 import typer
@@ -11,9 +12,11 @@ from modssc.data_loader import load_dataset
 from modssc.data_loader.errors import DataLoaderError
 from modssc.runtime.logging import LogLevelOption, add_log_level_callback, configure_logging
 from modssc.sampling.api import load_split, sample, save_split
+from modssc.sampling.errors import SamplingError
 from modssc.sampling.plan import (
     SamplingPlan,
 )
+from modssc.sampling.result import SamplingResult
 
 app = typer.Typer(help="Sampling commands (split protocols, labeled/unlabeled).")
 add_log_level_callback(app)
@@ -26,8 +29,15 @@ def _plan_from_path(path: Path) -> SamplingPlan:
     obj = ensure_mapping(obj, message="Plan file must contain a mapping at the root")
     try:
         return SamplingPlan.from_dict(obj)
-    except ValueError as exc:
-        exit_with_error(str(exc))
+    except (TypeError, ValueError) as exc:
+        exit_with_error(f"Invalid plan: {exc}")
+
+
+def _split_from_path(path: Path) -> SamplingResult:
+    try:
+        return load_split(path)
+    except (OSError, EOFError, KeyError, TypeError, ValueError, zipfile.BadZipFile) as exc:
+        exit_with_error(f"Failed to load split {path}: {exc}")
 
 
 @app.command("create")
@@ -56,8 +66,13 @@ def create(
             "Dataset fingerprint is missing in dataset.meta. Pass it explicitly in code."
         )
     plan = _plan_from_path(plan_path)
-    result, _ = sample(ds, plan=plan, seed=seed, dataset_fingerprint=str(ds_fp), save=False)
-    save_split(result, out_dir, overwrite=overwrite)
+    try:
+        result, _ = sample(ds, plan=plan, seed=seed, dataset_fingerprint=str(ds_fp), save=False)
+        save_split(result, out_dir, overwrite=overwrite)
+    except (OSError, SamplingError, TypeError, ValueError) as exc:
+        if logger.isEnabledFor(logging.DEBUG):
+            logger.exception("Sampling create failed for dataset %s", dataset_id)
+        exit_with_error(str(exc))
     payload = {
         "output_dir": str(out_dir),
         "dataset_fingerprint": result.dataset_fingerprint,
@@ -71,7 +86,7 @@ def create(
 def show(split_dir: Path, log_level: LogLevelOption = None) -> None:
     if log_level is not None:
         configure_logging(log_level)
-    res = load_split(split_dir)
+    res = _split_from_path(split_dir)
     typer.echo(json.dumps({"plan": res.plan, "stats": res.stats}, indent=2, sort_keys=True))
 
 
@@ -90,7 +105,7 @@ def validate(
         if logger.isEnabledFor(logging.DEBUG):
             logger.exception("Sampling validate failed while loading dataset %s", dataset_id)
         exit_with_error(str(exc))
-    res = load_split(split_dir)
+    res = _split_from_path(split_dir)
     y_train = ds.train.y
     n_train = len(y_train)
     n_test = len(ds.test.y) if ds.test is not None else None
@@ -102,5 +117,8 @@ def validate(
         )
         else None
     )
-    res.validate(n_train=n_train, n_test=n_test, n_nodes=n_nodes)
+    try:
+        res.validate(n_train=n_train, n_test=n_test, n_nodes=n_nodes)
+    except (KeyError, SamplingError, ValueError) as exc:
+        exit_with_error(f"Invalid split {split_dir}: {exc}")
     typer.echo("OK")
-- 
2.43.0


From aed166539c235d8e620d3f605a73959b695c9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 64/75] fix: preprocess, graph, augmentation and supervised
 commands report bad input without a traceback

---
 src/modssc/cli/augmentation.py |  7 ++++++-
 src/modssc/cli/graph.py        | 15 +++++++++------
 src/modssc/cli/preprocess.py   | 16 ++++++++++++----
 src/modssc/cli/supervised.py   |  8 +++++++-
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/modssc/cli/augmentation.py b/src/modssc/cli/augmentation.py
index 4432ee3..452fad4 100644
--- a/src/modssc/cli/augmentation.py
+++ b/src/modssc/cli/augmentation.py
@@ -4,6 +4,8 @@ import json
 
 import typer
 
+from modssc.cli._utils import exit_with_error
+from modssc.data_augmentation.errors import DataAugmentationError
 from modssc.data_augmentation.registry import available_ops, op_info
 from modssc.runtime.logging import LogLevelOption, add_log_level_callback, configure_logging
 
@@ -33,7 +35,10 @@ def info(
 ) -> None:
     if log_level is not None:
         configure_logging(log_level)
-    info = op_info(op_id)
+    try:
+        info = op_info(op_id)
+    except DataAugmentationError as exc:
+        exit_with_error(str(exc))
     if as_json:
         typer.echo(json.dumps(info, indent=2))
         return
diff --git a/src/modssc/cli/graph.py b/src/modssc/cli/graph.py
index 9d77b01..8e17dec 100644
--- a/src/modssc/cli/graph.py
+++ b/src/modssc/cli/graph.py
@@ -96,8 +96,8 @@ def _load_graph_spec(path: Path) -> GraphBuilderSpec:
     try:
         spec = GraphBuilderSpec.from_dict(data)
         spec.validate()
-    except GraphValidationError as exc:
-        exit_with_error(str(exc))
+    except (GraphValidationError, ValueError) as exc:
+        exit_with_error(f"Invalid graph spec: {exc}")
     return spec
 
 
@@ -162,7 +162,10 @@ def build_cmd(
     X, _ = _extract_xy(ds)
 
     if spec_path is not None:
-        spec = _load_graph_spec(spec_path)
+        try:
+            spec = _load_graph_spec(spec_path)
+        except TypeError as exc:
+            exit_with_error(f"Invalid graph spec: {exc}")
     else:
         spec = GraphBuilderSpec(
             scheme=scheme,  # type: ignore[arg-type]
@@ -195,7 +198,7 @@ def build_cmd(
             edge_shard_size=edge_shard_size,
             resume=bool(resume),
         )
-    except GraphError as exc:
+    except (GraphError, OSError, TypeError, ValueError) as exc:
         if logger.isEnabledFor(logging.DEBUG):
             logger.exception("Graph build failed for dataset %s", dataset)
         exit_with_error(str(exc))
@@ -264,7 +267,7 @@ def views_build_cmd(
     )
     try:
         g = build_graph(X, spec=gspec, seed=int(seed), cache=True)
-    except GraphError as exc:
+    except (GraphError, OSError, TypeError, ValueError) as exc:
         if logger.isEnabledFor(logging.DEBUG):
             logger.exception("Graph build failed for dataset %s", dataset)
         exit_with_error(str(exc))
@@ -286,7 +289,7 @@ def views_build_cmd(
     nd = NodeDataset(X=X, y=y, graph=g, masks={})
     try:
         res = graph_to_views(nd, spec=spec, seed=int(seed), cache_dir=cache_dir)
-    except GraphError as exc:
+    except (GraphError, OSError, TypeError, ValueError) as exc:
         if logger.isEnabledFor(logging.DEBUG):
             logger.exception("Graph views build failed for dataset %s", dataset)
         exit_with_error(str(exc))
diff --git a/src/modssc/cli/preprocess.py b/src/modssc/cli/preprocess.py
index e4ff14f..4f7f3f1 100644
--- a/src/modssc/cli/preprocess.py
+++ b/src/modssc/cli/preprocess.py
@@ -47,7 +47,11 @@ def steps_list(
 def steps_info(step_id: str, log_level: LogLevelOption = None) -> None:
     if log_level is not None:
         configure_logging(log_level)
-    typer.echo(json.dumps(step_info(step_id), indent=2))
+    try:
+        info = step_info(step_id)
+    except PreprocessError as exc:
+        exit_with_error(str(exc))
+    typer.echo(json.dumps(info, indent=2))
 
 
 @models_app.command("list")
@@ -70,7 +74,11 @@ def models_list(
 def models_info(model_id: str, log_level: LogLevelOption = None) -> None:
     if log_level is not None:
         configure_logging(log_level)
-    typer.echo(json.dumps(model_info(model_id), indent=2))
+    try:
+        info = model_info(model_id)
+    except PreprocessError as exc:
+        exit_with_error(str(exc))
+    typer.echo(json.dumps(info, indent=2))
 
 
 @app.command("run")
@@ -103,7 +111,7 @@ def run(
         exit_with_error(str(exc))
     try:
         plan = load_plan(plan_path)
-    except (yaml.YAMLError, ValueError) as exc:
+    except (yaml.YAMLError, OSError, TypeError, ValueError) as exc:
         if logger.isEnabledFor(logging.DEBUG):
             logger.exception("Preprocess run failed while parsing plan %s", plan_path)
         exit_with_error(f"Invalid plan file: {exc}")
@@ -117,7 +125,7 @@ def run(
             cache=not no_cache,
             purge_unused_artifacts=purge_unused,
         )
-    except PreprocessError as exc:
+    except (PreprocessError, OSError, TypeError, ValueError) as exc:
         if logger.isEnabledFor(logging.DEBUG):
             logger.exception("Preprocess run failed for dataset %s", dataset)
         exit_with_error(str(exc))
diff --git a/src/modssc/cli/supervised.py b/src/modssc/cli/supervised.py
index 87638f6..dbd4975 100644
--- a/src/modssc/cli/supervised.py
+++ b/src/modssc/cli/supervised.py
@@ -4,8 +4,10 @@ import json
 
 import typer
 
+from modssc.cli._utils import exit_with_error
 from modssc.runtime.logging import LogLevelOption, add_log_level_callback, configure_logging
 from modssc.supervised import available_classifiers, classifier_info
+from modssc.supervised.errors import UnknownClassifierError
 
 app = typer.Typer(help="Supervised baselines (kNN, SVM, logistic regression).")
 add_log_level_callback(app)
@@ -42,4 +44,8 @@ def info(
 ) -> None:
     if log_level is not None:
         configure_logging(log_level)
-    typer.echo(json.dumps(classifier_info(classifier_id), indent=2))
+    try:
+        payload = classifier_info(classifier_id)
+    except UnknownClassifierError as exc:
+        exit_with_error(str(exc))
+    typer.echo(json.dumps(payload, indent=2))
-- 
2.43.0


From eab77158ebbb9aba8534445e41a83d8f4c15140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 65/75] fix: preprocess plans with a text where a list of names
 belongs, or a step without an id, are rejected when read

---
 bench/orchestrators/preprocess.py | 14 ++++++++++++--
 src/modssc/preprocess/plan.py     | 14 +++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/bench/orchestrators/preprocess.py b/bench/orchestrators/preprocess.py
index 9a83069..980a035 100644
--- a/bench/orchestrators/preprocess.py
+++ b/bench/orchestrators/preprocess.py
@@ -32,6 +32,12 @@ def _shape_of(value: Any) -> tuple[int, ...] | None:
         return None
 
 
+def _str_tuple(value: Any, *, path: str) -> tuple[str, ...]:
+    if isinstance(value, (str, bytes)):
+        raise ValueError(f"{path} must be a list of strings")
+    return tuple(str(v) for v in (value or ()))
+
+
 def _plan_from_dict(obj: Mapping[str, Any]) -> PreprocessPlan:
     if not isinstance(obj, Mapping):
         raise ValueError("preprocess.plan must be a mapping")
@@ -61,8 +67,12 @@ def _plan_from_dict(obj: Mapping[str, Any]) -> PreprocessPlan:
         params = item.get("params", {}) or {}
         if not isinstance(params, Mapping):
             raise ValueError(f"params for step {step_id!r} must be a mapping")
-        modalities = tuple(str(m) for m in (item.get("modalities") or ()))
-        requires_fields = tuple(str(k) for k in (item.get("requires_fields") or ()))
+        modalities = _str_tuple(
+            item.get("modalities"), path=f"preprocess.plan.steps[{index}].modalities"
+        )
+        requires_fields = _str_tuple(
+            item.get("requires_fields"), path=f"preprocess.plan.steps[{index}].requires_fields"
+        )
         enabled = bool(item.get("enabled", True))
         steps.append(
             StepConfig(
diff --git a/src/modssc/preprocess/plan.py b/src/modssc/preprocess/plan.py
index cee460c..0c29691 100644
--- a/src/modssc/preprocess/plan.py
+++ b/src/modssc/preprocess/plan.py
@@ -50,6 +50,12 @@ class PreprocessPlan:
         return fingerprint(self.to_dict(), prefix="plan:")
 
 
+def _str_tuple(value: Any, *, name: str, step_id: str) -> tuple[str, ...]:
+    if isinstance(value, (str, bytes)):
+        raise ValueError(f"{name} for {step_id!r} must be a sequence of strings")
+    return tuple(str(v) for v in (value or ()))
+
+
 def load_plan(path: str | Path) -> PreprocessPlan:
     p = Path(path)
     data = yaml.safe_load(p.read_text())
@@ -65,15 +71,17 @@ def load_plan(path: str | Path) -> PreprocessPlan:
     for item in steps_raw:
         if not isinstance(item, Mapping):
             raise ValueError("Each step must be a mapping")
-        step_id = str(item.get("id") or item.get("step_id"))
+        step_id = str(item.get("id") or item.get("step_id") or "")
         if not step_id:
             raise ValueError("Each step must define 'id'")
         params = item.get("params", {}) or {}
         if not isinstance(params, Mapping):
             raise ValueError(f"params for {step_id!r} must be a mapping")
 
-        modalities = tuple(str(m) for m in (item.get("modalities") or ()))
-        requires_fields = tuple(str(k) for k in (item.get("requires_fields") or ()))
+        modalities = _str_tuple(item.get("modalities"), name="modalities", step_id=step_id)
+        requires_fields = _str_tuple(
+            item.get("requires_fields"), name="requires_fields", step_id=step_id
+        )
         enabled = bool(item.get("enabled", True))
         steps.append(
             StepConfig(
-- 
2.43.0


From bba2d1dda9df1db2aa1fe4b54e37f0585b8018a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 66/75] fix: writing on classifier_info's result no longer
 changes the classifier registry

---
 src/modssc/supervised/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/types.py b/src/modssc/supervised/types.py
index 2b34ae5..6f50759 100644
--- a/src/modssc/supervised/types.py
+++ b/src/modssc/supervised/types.py
@@ -40,5 +40,5 @@ class ClassifierSpec:
             "key": self.key,
             "description": self.description,
             "preferred_backends": list(self.preferred_backends),
-            "backends": {k: vars(v) for k, v in self.backends.items()},
+            "backends": {k: dict(vars(v)) for k, v in self.backends.items()},
         }
-- 
2.43.0


From 7b8bb6015e679c0930c3a624f6b039fb5b10070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 67/75] fix: registering an augmentation under a built-in id is
 refused instead of replacing the built-in

---
 src/modssc/data_augmentation/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modssc/data_augmentation/registry.py b/src/modssc/data_augmentation/registry.py
index ad430f8..e689b9e 100644
--- a/src/modssc/data_augmentation/registry.py
+++ b/src/modssc/data_augmentation/registry.py
@@ -55,6 +55,9 @@ def register_op(op_id: str) -> Callable[[type[AugmentationOp]], type[Augmentatio
         existing = _RUNTIME_OPS.get(op_id)
         if existing is not None and existing is not cls:
             raise DataAugmentationValidationError(f"Duplicate op_id: {op_id}")
+        builtin = _BUILTIN_OPS.get(op_id)
+        if builtin is not None and f"{cls.__module__}:{cls.__qualname__}" != builtin[0]:
+            raise DataAugmentationValidationError(f"Duplicate op_id: {op_id}")
         if not hasattr(cls, "op_id") or not hasattr(cls, "modality"):
             raise DataAugmentationValidationError(
                 f"Op class {cls.__name__} must define 'op_id' and 'modality'."
-- 
2.43.0


From 361ea1951b4595064c57b9ac1f688308b3c8d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 68/75] fix: evaluation compute reports any unreadable array
 file without a traceback

---
 src/modssc/cli/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/cli/evaluation.py b/src/modssc/cli/evaluation.py
index 306756e..70ea00f 100644
--- a/src/modssc/cli/evaluation.py
+++ b/src/modssc/cli/evaluation.py
@@ -22,7 +22,7 @@ def _load_npy(path: Path) -> np.ndarray:
         raise typer.BadParameter("Only .npy is supported")
     try:
         return np.load(path, allow_pickle=False)
-    except (OSError, ValueError) as exc:
+    except Exception as exc:  # numpy lets tokenizer and zip errors of a damaged header through
         raise typer.BadParameter(f"Failed to load {path}: {exc}") from exc
 
 
-- 
2.43.0


From 051bbcff26b05fc1af666a1a17feea6078a09b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 69/75] fix: views of torch features stay torch tensors

---
 src/modssc/views/services/service.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 54a1717..f638bde 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -181,8 +181,15 @@ def generate_views(
         n_features_map[str(view.name)] = n_features
         columns[str(view.name)] = cols
 
-        X_train_v_sub = X_train[:, cols]
-        X_test_v_sub = X_test[:, cols] if X_test is not None else None
+        def _take_columns(orig, feats):
+            raw = orig["x"] if isinstance(orig, dict) and "x" in orig else orig
+            if hasattr(raw, "detach") and hasattr(raw, "index_select"):
+                # torch features stay torch tensors on their device
+                return raw[:, cols.tolist()]
+            return feats[:, cols]
+
+        X_train_v_sub = _take_columns(ds.train.X, X_train)
+        X_test_v_sub = _take_columns(ds.test.X, X_test) if X_test is not None else None
 
         def _reconstruct(orig, feats):
             if isinstance(orig, dict) and "x" in orig:
-- 
2.43.0


From 0b4f7920e90d2bab11e46c3883bbbad1030c9837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 70/75] fix: SETRED measures its neighbourhood graph accurately
 and without self links

---
 src/modssc/inductive/methods/setred.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index 12bbf05..8bfc9e3 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -41,9 +41,12 @@ def _get_torch_x(obj: Any):
 
 
 def _pairwise_distances_numpy(X: np.ndarray) -> np.ndarray:
-    X = np.asarray(X, dtype=np.float32)
+    X = np.asarray(X, dtype=np.float64)
     if X.ndim != 2:
         raise InductiveValidationError("X must be 2D for distance computation.")
+    if X.shape[0]:
+        # distances do not depend on the origin, the rounding of the expansion below does
+        X = X - X.mean(axis=0)
     norms = np.sum(X * X, axis=1, keepdims=True)
     dist2 = norms + norms.T - 2.0 * (X @ X.T)
     dist2 = np.maximum(dist2, 0.0)
@@ -71,7 +74,7 @@ def _build_knn_graph_numpy(X: np.ndarray, *, k: int) -> tuple[list[np.ndarray],
     neighbors: list[set[int]] = [set() for _ in range(n)]
     for i in range(n):
         order = np.argsort(dist[i])
-        for j in order[1 : k + 1]:
+        for j in order[order != i][:k]:
             neighbors[i].add(int(j))
             neighbors[int(j)].add(int(i))
     return [np.asarray(sorted(nbrs), dtype=np.int64) for nbrs in neighbors], dist
-- 
2.43.0


From e636b4cc5e9442734d11bb9c63688c4fcc582ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 71/75] fix: nearest neighbour classifiers stay accurate far
 from the origin

---
 src/modssc/supervised/backends/numpy/knn.py |  7 +++++--
 src/modssc/supervised/backends/torch/knn.py | 10 +++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/modssc/supervised/backends/numpy/knn.py b/src/modssc/supervised/backends/numpy/knn.py
index 351c1a8..062d7fb 100644
--- a/src/modssc/supervised/backends/numpy/knn.py
+++ b/src/modssc/supervised/backends/numpy/knn.py
@@ -100,11 +100,14 @@ class NumpyKNNClassifier(BaseSupervisedClassifier):
         X = self._X_train
 
         if self.metric == "euclidean":
-            # negative squared distance so that larger is better
+            # negative squared distance so that larger is better; the expansion cancels far from
+            # the origin, so it is evaluated around the training mean in double precision
+            mean = X.mean(axis=0, dtype=np.float64)
+            Q, X = Q - mean, X - mean
             q2 = (Q * Q).sum(axis=1, keepdims=True)
             x2 = (X * X).sum(axis=1, keepdims=True).T
             dist2 = q2 + x2 - 2.0 * (Q @ X.T)
-            return -dist2
+            return -dist2.astype(np.float32)
         # cosine similarity
         Qn = Q / (np.linalg.norm(Q, axis=1, keepdims=True) + self.eps)
         Xn = X / (np.linalg.norm(X, axis=1, keepdims=True) + self.eps)
diff --git a/src/modssc/supervised/backends/torch/knn.py b/src/modssc/supervised/backends/torch/knn.py
index b9b45a2..c967efa 100644
--- a/src/modssc/supervised/backends/torch/knn.py
+++ b/src/modssc/supervised/backends/torch/knn.py
@@ -113,10 +113,18 @@ class TorchKNNClassifier(TorchSupportsProbaClassifierBase):
             raise RuntimeError("Model is not fitted (X_train is None)")
         X = self._X_train
         if self.metric == "euclidean":
+            dtype = Q.dtype
+            if X.is_floating_point():
+                # the expansion cancels far from the origin, so it is evaluated around the training
+                # mean, in double precision where that is cheap
+                if X.device.type == "cpu":
+                    Q, X = Q.double(), X.double()
+                mean = X.mean(dim=0)
+                Q, X = Q - mean, X - mean
             q2 = (Q * Q).sum(dim=1, keepdim=True)
             x2 = (X * X).sum(dim=1, keepdim=True).T
             dist2 = q2 + x2 - 2.0 * (Q @ X.T)
-            return -dist2
+            return -dist2.to(dtype)
         Qn = Q / (Q.norm(dim=1, keepdim=True) + float(self.eps))
         Xn = X / (X.norm(dim=1, keepdim=True) + float(self.eps))
         return Qn @ Xn.T
-- 
2.43.0


From dec0802d9f6df33d277da1e1561542e175e056dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 72/75] fix: euclidean graphs stay accurate far from the origin

---
 .../graph/construction/backends/faiss_backend.py       | 10 ++++++++--
 .../graph/construction/backends/numpy_backend.py       | 10 ++++++----
 src/modssc/graph/construction/schemes/anchor.py        |  3 +++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/modssc/graph/construction/backends/faiss_backend.py b/src/modssc/graph/construction/backends/faiss_backend.py
index 940d8b0..dba3935 100644
--- a/src/modssc/graph/construction/backends/faiss_backend.py
+++ b/src/modssc/graph/construction/backends/faiss_backend.py
@@ -52,8 +52,14 @@ def knn_search_faiss(
     faiss = optional_import("faiss", extra="graph-faiss")  # raises OptionalDependencyError
 
     params = params or FaissParams()
-    q = _as_float32_contiguous(query)
-    r = _as_float32_contiguous(ref)
+    if metric == "euclidean":
+        # single precision distances cancel far from the origin: measure around the centre
+        centre = np.mean(ref, axis=0, dtype=np.float64)
+        q = _as_float32_contiguous(query - centre)
+        r = _as_float32_contiguous(ref - centre)
+    else:
+        q = _as_float32_contiguous(query)
+        r = _as_float32_contiguous(ref)
 
     if metric == "cosine":
         q = _l2_normalize(q)
diff --git a/src/modssc/graph/construction/backends/numpy_backend.py b/src/modssc/graph/construction/backends/numpy_backend.py
index 9d2bd4e..a153a20 100644
--- a/src/modssc/graph/construction/backends/numpy_backend.py
+++ b/src/modssc/graph/construction/backends/numpy_backend.py
@@ -83,8 +83,9 @@ def knn_edges_numpy(
         Xn = _safe_l2_normalize(X.astype(np.float32, copy=False))
         norms = None
     else:
-        Xn = X.astype(np.float32, copy=False)
-        norms = np.sum(Xn * Xn, axis=1).astype(np.float32)
+        # double precision: the expansion below cancels badly far from the origin
+        Xn = X.astype(np.float64, copy=False)
+        norms = np.sum(Xn * Xn, axis=1)
 
     k_eff = min(int(k), n) if include_self else min(int(k), max(n - 1, 0))
     if k_eff <= 0:
@@ -197,8 +198,9 @@ def epsilon_edges_numpy(
         Xn = _safe_l2_normalize(X.astype(np.float32, copy=False))
         norms = None
     else:
-        Xn = X.astype(np.float32, copy=False)
-        norms = np.sum(Xn * Xn, axis=1).astype(np.float32)
+        # double precision: the expansion below cancels badly far from the origin
+        Xn = X.astype(np.float64, copy=False)
+        norms = np.sum(Xn * Xn, axis=1)
 
     wd = Path(work_dir) if work_dir is not None else None
     if wd is not None:
diff --git a/src/modssc/graph/construction/schemes/anchor.py b/src/modssc/graph/construction/schemes/anchor.py
index df941b4..5fbeee3 100644
--- a/src/modssc/graph/construction/schemes/anchor.py
+++ b/src/modssc/graph/construction/schemes/anchor.py
@@ -163,6 +163,9 @@ def anchor_edges(
     n = int(X.shape[0])
     if n == 0:
         return np.zeros((2, 0), dtype=np.int64), np.zeros((0,), dtype=np.float32)
+    if metric == "euclidean":
+        # single precision distances cancel far from the origin: measure around the centre
+        X = X - np.mean(X, axis=0, dtype=np.float64)
 
     m = params.n_anchors
     if m is None:
-- 
2.43.0


From 56cb03b15762dabdaa617a666e750dc2db69e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 73/75] fix: deep co-training rejects labels outside the
 model's classes with the documented error

---
 src/modssc/inductive/methods/deep_co_training.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/inductive/methods/deep_co_training.py b/src/modssc/inductive/methods/deep_co_training.py
index b0e8c15..85c2757 100644
--- a/src/modssc/inductive/methods/deep_co_training.py
+++ b/src/modssc/inductive/methods/deep_co_training.py
@@ -115,6 +115,8 @@ def _fgsm_adversarial(
             raise InductiveValidationError("Labeled batch size mismatch.")
         targets = torch.empty((int(logits.shape[0]),), dtype=torch.int64, device=logits.device)
         targets[:n_l] = y_l
+        if targets[:n_l].min().item() < 0 or targets[:n_l].max().item() >= int(logits.shape[1]):
+            raise InductiveValidationError("y_l labels must be within [0, n_classes).")
         if int(logits.shape[0]) > n_l:
             pseudo = logits.detach().argmax(dim=1)
             targets[n_l:] = pseudo[n_l:]
-- 
2.43.0


From 438f94589b629fab75e9d12520fe4e2ca89e1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 74/75] fix: PyG masks with several splits no longer mix rows
 and columns

---
 src/modssc/data_loader/providers/pyg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/providers/pyg.py b/src/modssc/data_loader/providers/pyg.py
index 40e0242..039e860 100644
--- a/src/modssc/data_loader/providers/pyg.py
+++ b/src/modssc/data_loader/providers/pyg.py
@@ -229,7 +229,11 @@ def _subset_graph(
 
     new_masks: dict[str, Any] = {}
     for key, value in masks.items():
-        arr = _to_numpy(value).astype(bool, copy=False).reshape(-1)
+        arr = _to_numpy(value).astype(bool, copy=False)
+        if arr.ndim == 2 and int(arr.shape[0]) == n_nodes:
+            # several published splits, one column each: take the first
+            arr = arr[:, 0]
+        arr = arr.reshape(-1)
         if arr.shape[0] < n_nodes:
             padded = np.zeros((n_nodes,), dtype=bool)
             padded[: arr.shape[0]] = arr
-- 
2.43.0


From ba85ed354dcaba59aa2853de0311a7c43f3fcbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 75/75] fix: torchvision and TFDS items whose shapes differ
 after the first dimension can be loaded

---
 src/modssc/data_loader/providers/common.py      | 12 ++++++++++++
 src/modssc/data_loader/providers/tfds.py        |  3 ++-
 src/modssc/data_loader/providers/torchvision.py |  3 ++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/providers/common.py b/src/modssc/data_loader/providers/common.py
index d60e529..4339042 100644
--- a/src/modssc/data_loader/providers/common.py
+++ b/src/modssc/data_loader/providers/common.py
@@ -15,6 +15,18 @@ def normalize_filter(values: Any) -> list[Any] | None:
     return [values]
 
 
+def as_object_array(items: list[Any]) -> np.ndarray:
+    """Return the items as an object array, one entry per item when their shapes differ."""
+    try:
+        return np.asarray(items, dtype=object)
+    except ValueError:
+        # NumPy cannot nest arrays that agree in their first dimensions only
+        out = np.empty((len(items),), dtype=object)
+        for i, item in enumerate(items):
+            out[i] = item
+        return out
+
+
 def apply_class_filter(
     X: np.ndarray, y: np.ndarray, *, class_filter: list[Any] | None
 ) -> tuple[np.ndarray, np.ndarray]:
diff --git a/src/modssc/data_loader/providers/tfds.py b/src/modssc/data_loader/providers/tfds.py
index 484c2c9..67c06c3 100644
--- a/src/modssc/data_loader/providers/tfds.py
+++ b/src/modssc/data_loader/providers/tfds.py
@@ -8,6 +8,7 @@ import numpy as np
 
 from modssc.data_loader.optional import optional_import
 from modssc.data_loader.providers.base import BaseProvider
+from modssc.data_loader.providers.common import as_object_array
 from modssc.data_loader.types import DatasetIdentity, LoadedDataset, Split
 from modssc.data_loader.uri import ParsedURI
 
@@ -95,4 +96,4 @@ def _materialize_tfds(ds: Any) -> tuple[np.ndarray, np.ndarray]:
     for x, y in items:
         X_list.append(x)
         y_list.append(y)
-    return np.asarray(X_list, dtype=object), np.asarray(y_list)
+    return as_object_array(X_list), np.asarray(y_list)
diff --git a/src/modssc/data_loader/providers/torchvision.py b/src/modssc/data_loader/providers/torchvision.py
index ed256ec..78d8710 100644
--- a/src/modssc/data_loader/providers/torchvision.py
+++ b/src/modssc/data_loader/providers/torchvision.py
@@ -11,6 +11,7 @@ from modssc.data_loader.providers.base import BaseProvider
 from modssc.data_loader.providers.common import (
     apply_class_filter,
     apply_limits,
+    as_object_array,
     limit_samples,
     normalize_filter,
 )
@@ -118,4 +119,4 @@ def _extract_xy(dataset: Any) -> tuple[np.ndarray, np.ndarray]:
     for sample in dataset:
         X_list.append(sample[0])
         y_list.append(sample[1])
-    return np.asarray(X_list, dtype=object), np.asarray(y_list)
+    return as_object_array(X_list), np.asarray(y_list)
-- 
2.43.0

