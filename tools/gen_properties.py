#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib

P = []
S = "src/modssc/"


def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update({k: v for k, v in kw.items() if v is not None})
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over if isinstance(over, list) else [over], "text": text},
                  why_tests_cant=why, anchors=anchors))


# ------------------------------------------------------------------ sampling
p("S01", "Splits are disjoint, complete and in range",
  "For every dataset and every accepted sampling plan (holdout or k-fold, stratified or not, with or without a provider test split, arrays or graph nodes), the train, validation and test parts are pairwise disjoint, contain no duplicates, stay in range, and together cover the rows being split. The labeled and unlabeled parts are disjoint subsets of the training part and, when no class-imbalance transform is requested, together make up exactly the training part. For graph datasets the returned masks describe the same partition of the nodes. The split's own validation accepts such splits and rejects every other.",
  ["inputs", "configurations"], "all label vectors (any class count, imbalance, size), all accepted plans, all seeds",
  "the tests sample a few fixed label vectors and plans; the partition law is over all label/plan/seed combinations, in particular tiny classes, rounding corners and policy combinations",
  [S + "sampling/services/service.py", S + "sampling/splitters.py", S + "sampling/labeling.py", S + "sampling/result.py"],
  [("splitters", S + "sampling/splitters.py"), ("label selection", S + "sampling/labeling.py"), ("result validation", S + "sampling/result.py")])
p("S02", "Split sizes and label budgets follow the plan",
  "For every dataset and accepted plan, the test and validation sizes follow the requested fractions to within per-class rounding (stratified splits keep every class within one sample of its share), k-fold folds differ in size by at most one per class and each row is tested exactly once over all folds. The labeled set has the size the plan asks for: the requested number per class when each class has that many training rows, the requested total or fraction (up to per-class rounding and the minimum-per-class guarantee), or exactly the fixed indices given. Class-imbalance transforms only ever remove samples and cap or decay the class counts as requested.",
  ["inputs", "configurations"], "all label vectors, all accepted plans, all seeds",
  "tests pin a handful of counts on balanced toy labels; rounding, short classes and min-per-class interactions need the whole input space",
  [S + "sampling/splitters.py", S + "sampling/labeling.py", S + "sampling/imbalance.py", S + "sampling/services/service.py"],
  [("splitters", S + "sampling/splitters.py"), ("label selection", S + "sampling/labeling.py"), ("imbalance", S + "sampling/imbalance.py")])
p("S03", "Sampling is a pure function of dataset identity, labels, plan and seed",
  "For every dataset, plan and seed, sampling twice gives identical index sets and split fingerprint, whatever was computed before, whatever the state of the global random generators and whatever the feature values are. Sampling never modifies the dataset or the plan. Different seeds do lead to different random splits, and changing the plan or the seed changes the split fingerprint.",
  ["inputs", "histories"], "all datasets, plans, seeds, and histories of earlier calls and global RNG states",
  "determinism under arbitrary history cannot be sampled by single-call unit tests",
  [S + "sampling/services/service.py", S + "sampling/fingerprint.py", S + "sampling/common.py"],
  [("seeded generator", S + "sampling/services/service.py"), ("split fingerprint", S + "sampling/fingerprint.py")])
p("S04", "Official test splits and graph masks are honoured or refused as the policy says",
  "When a dataset has a provider test split and the plan respects it, the reported test part is exactly that whole split and the training part never draws from it; when the policy overrides it, all parts refer to rows of the provider's training data. For graph datasets with official masks and the policy to use them, the resulting train, validation and test masks equal the official ones.",
  ["inputs", "configurations"], "all datasets with provider splits or masks, all plan/policy combinations",
  "tests cover one dataset per policy branch",
  [S + "sampling/services/service.py"], [("policy branch", S + "sampling/services/service.py")])
p("S05", "A saved split loads back identical, and reports true statistics",
  "For every sampling result, saving it and loading it back gives the same index sets, masks, fingerprints, plan and statistics, also when the save overwrites an earlier one. The statistics reported with a result (part sizes and class histograms) equal what can be recomputed from its index sets and the labels.",
  ["inputs", "histories"], "all sampling results, including overwriting saves",
  "tests round-trip one result",
  [S + "sampling/storage.py", S + "sampling/stats.py"], [("split storage", S + "sampling/storage.py"), ("statistics", S + "sampling/stats.py")])

# --------------------------------------------------------------- data loader
p("D01", "A cached dataset loads back exactly what was stored",
  "For every loaded dataset (train part and optional test part, with optional edges and masks; numeric arrays of any dtype and shape, tensors, and lists or object arrays of strings, bytes, numbers, lists or arrays), storing it in the processed cache and loading it back yields the same values, shapes, dtypes, presence of optional parts and (JSON-like) metadata. The reload holds in a fresh process and does not depend on the original objects being alive.",
  "inputs", "all datasets made of supported payload kinds, including empty arrays, zero-length axes, unicode and NaN",
  "tests store a few typical arrays",
  [S + "data_loader/storage/files.py", S + "data_loader/cache.py"], [("file storage", S + "data_loader/storage/files.py")])
p("D02", "The dataset cache behaves like a map from dataset request to provider data",
  "Over every history of loads (with and without forced refresh, download disabled, different dataset requests and cache folders), purges and garbage collections, a load returns what the provider delivers for that request at the time it was last (re)fetched, and never another request's data. The provider is contacted only when the entry is absent or a refresh is forced, an offline load of an absent entry fails cleanly, and purge or garbage collection remove exactly the entries they are asked to remove and leave all others loadable.",
  "histories", "all operation sequences over several dataset requests and cache folders",
  "unit tests run two- or three-step histories with mocks; interactions of purge, gc, force and offline need sequences",
  [S + "data_loader/api.py", S + "data_loader/cache.py", S + "data_loader/manifest.py", S + "data_loader/services/service.py"],
  [("load service", S + "data_loader/services/service.py"), ("cache layout, purge, gc", S + "data_loader/cache.py"), ("manifest", S + "data_loader/manifest.py")])
p("D03", "A crash while caching a dataset never leaves a wrong or unusable entry",
  "If the process dies at any point while a dataset is being fetched, stored, refreshed or purged, the next ordinary load in the same cache folder succeeds and returns the complete, correct data of the request (refetching if necessary). No interrupted entry is ever reported as complete while its stored data is missing or partial.",
  ["crash_points", "histories"], "all points (every file-system call) at which the process can stop, for first download, forced refresh and purge",
  "unit tests cannot stop the process between two file-system calls; only a crash-point enumeration reaches these windows",
  [S + "data_loader/services/service.py", S + "data_loader/cache.py", S + "data_loader/storage/files.py"],
  [("temporary directory then rename", S + "data_loader/services/service.py"), ("manifest written last", S + "data_loader/services/service.py")])
p("D04", "Concurrent loaders never corrupt or interleave a cache entry",
  "Whatever number of processes or threads load the same dataset request at the same time (all of them ordinary loads, or all of them forced refreshes), in every schedule each of them ends with the complete, correct data, at most one of them is inside the critical section of an entry at a time, and the cache afterwards holds one complete entry. A lock left behind by a dead process does not block loading for ever.",
  ["schedules", "fault_sequences"], "all interleavings of several loaders over the same cache folder, with and without a stale lock",
  "unit tests are sequential; the races need several writers",
  [S + "data_loader/cache.py", S + "data_loader/services/service.py"], [("entry lock", S + "data_loader/cache.py")])
p("D05", "Dataset identity is canonical and collision-free on request content",
  "Two dataset requests that denote the same provider, reference, version, options and modality get the same cache identity whatever the order in which options are written, and requests that differ in any of these get different identities. A dataset address parses into its provider and reference and formats back to an equivalent address, and malformed addresses are rejected with the documented error.",
  "inputs", "all request specifications, option trees and address strings",
  "tests use fixed examples of specs and URIs",
  [S + "data_loader/types.py", S + "data_loader/uri.py", S + "data_loader/services/service.py"],
  [("canonical fingerprint", S + "data_loader/types.py"), ("address parser", S + "data_loader/uri.py")])
p("D06", "Reading a cache entry never leaves its folder",
  "Whatever the contents of a cache entry's layout description (absolute paths, parent components, symbolic names), loading it either reads files inside that entry's own folder or fails with an error, and never reads a file outside it. Purging an entry or collecting garbage never deletes anything outside the cache folder given.",
  "inputs", "all layout descriptions and purge arguments",
  "tests try one or two traversal strings",
  [S + "data_loader/storage/files.py", S + "data_loader/cache.py"], [("path containment", S + "data_loader/storage/files.py")])

p("D07", "Providers deliver the source's own rows",
  "For every dataset an upstream library offers (tables, texts, images, recordings, graphs, of equal or differing shapes, with or without an official test part) and every class filter, size limit and seed, the loaded dataset holds only rows of the source, each once, with its own label and of a class asked for; without a limit it holds all of them in the source's order, with a limit exactly that many (the first ones when no seed is given), and the same request selects the same rows again. Parts do not mix, a test part is delivered exactly if the source has one, and a reduced graph keeps exactly the edges and mask entries of the delivered nodes.",
  "inputs", "all source contents, filters, limits, seeds and providers",
  "tests stub one tiny source per provider; row and label alignment must hold for all of them",
  [S + "data_loader/providers/openml.py", S + "data_loader/providers/hf.py", S + "data_loader/providers/torchvision.py", S + "data_loader/providers/torchaudio.py", S + "data_loader/providers/tfds.py", S + "data_loader/providers/pyg.py", S + "data_loader/providers/common.py"],
  [("filter and limit", S + "data_loader/providers/common.py"), ("graph subset", S + "data_loader/providers/pyg.py")])

# --------------------------------------------------------------- preprocess
p("P01", "Preprocessing results do not depend on the cache",
  "For every plan of built-in steps, dataset, seed and fit subset, running with the cache enabled gives the same outputs as running without it, whatever plans, datasets, seeds or fit subsets were processed before with the same cache folder. A rerun of an identical request gives the same outputs again.",
  "histories", "all sequences of preprocess requests (plans, datasets, seeds, fit indices) sharing one cache folder",
  "unit tests check a hit for the same request; stale-hit bugs need histories of near-identical requests",
  [S + "preprocess/cache.py", S + "preprocess/fingerprint.py", S + "preprocess/services/pipeline.py"],
  [("step fingerprints", S + "preprocess/fingerprint.py"), ("step cache", S + "preprocess/cache.py"), ("pipeline", S + "preprocess/services/pipeline.py")])
p("P02", "Fitted steps learn only from the fit subset of the training part",
  "For every plan with fitted steps, changing test rows, or training rows outside the fit subset, never changes what is computed for any other row; each row's output depends only on that row and the fit subset. Changing labels never changes the features produced by label-free steps.",
  "inputs", "all plans of row-wise and fitted steps, datasets and fit subsets",
  "leakage is a two-run (hyper)property over all perturbations; unit tests check single runs",
  [S + "preprocess/services/pipeline.py", S + "preprocess/steps"], [("fit on fit_indices", S + "preprocess/services/pipeline.py")])
p("P03", "Preprocessing is deterministic given its seed and leaves its inputs alone",
  "For every plan, dataset and seed, preprocessing gives the same outputs and fingerprint on every run, whatever the state of the global random generators and whatever ran before. The input dataset's arrays are never modified.",
  ["inputs", "histories"], "all plans, datasets, seeds, prior global RNG states",
  "repeatability under arbitrary RNG state is not a single-run fact",
  [S + "preprocess/services/pipeline.py", S + "preprocess/steps"], [("per-step derived seeds", S + "preprocess/services/pipeline.py")])
p("P04", "Built-in preprocessing steps compute what they document",
  "For every valid input, each built-in array, label, tabular, text, vision and graph step produces what an independent reference computes: standardisation and imputation by fit-subset statistics, one-hot by category membership (unknown categories ignored), projections of the requested size, dtype casts, shape normalisation, label encoding consistent across train and test, token ids by vocabulary, channel order, resizing and attaching edges. Values in rows not touched by a step stay equal.",
  "inputs", "all inputs the steps accept, in every supported container (dense, sparse, object)",
  "tests check single examples per step",
  [S + "preprocess/steps"], [("step classes", S + "preprocess/steps")])
p("P05", "Dropping intermediate artifacts never changes the final result",
  "For every valid plan, running with the option that discards artifacts no longer needed gives the same final features and labels as running with everything kept.",
  ["configurations", "inputs"], "all valid step sequences",
  "depends on which keys every later step reads, over all plans",
  [S + "preprocess/services/pipeline.py"], [("liveness-based purge", S + "preprocess/services/pipeline.py")])
p("P06", "Preprocess plans are canonical: they round-trip and identify themselves",
  "Every valid plan saved to a file and loaded back is the same plan and resolves to the same steps; its identity does not depend on key order or formatting. Disabled steps, steps for other modalities and steps whose conditions do not hold are left out of the resolved plan and change nothing; changing a step, a parameter or the order changes the identity.",
  ["inputs", "configurations"], "all plan documents",
  "tests use fixed plans",
  [S + "preprocess/plan.py", S + "preprocess/services/pipeline.py", S + "preprocess/fingerprint.py"],
  [("plan loader", S + "preprocess/plan.py"), ("plan resolution", S + "preprocess/services/pipeline.py")])
p("P07", "An interrupted or damaged preprocess cache never yields wrong output",
  "If the process dies at any point while a preprocess step is being cached, a later run over the same cache folder returns the same outputs as an uncached run. It never treats a partially written entry as complete.",
  ["crash_points", "fault_sequences"], "all points at which the process can stop while writing the step cache",
  "needs crash-point enumeration",
  [S + "preprocess/cache.py"], [("manifest last", S + "preprocess/cache.py")])

# --------------------------------------------------------------------- graph
p("G01", "Neighbour graphs equal brute-force neighbour search",
  "For every feature matrix, metric and parameter, the constructed kNN graph links every node to exactly its k nearest other nodes (ties free) and the radius graph links exactly the pairs within the radius, with edge values equal to the true distances, in every exact backend and for every chunk size. No self-neighbour appears unless self loops are requested.",
  "inputs", "all feature matrices (dense, duplicated points, sizes below and above chunk boundaries), k, radius, metric, backend",
  "tests check small fixed point sets; duplicates, k>=n and chunk boundaries need generation",
  [S + "graph/construction"], [("numpy backend", S + "graph/construction/backends/numpy_backend.py"), ("sklearn backend", S + "graph/construction/backends/sklearn_backend.py"), ("faiss backend", S + "graph/construction/backends/faiss_backend.py")])
p("G02", "Graph post-processing equals its matrix definition",
  "For every edge list with weights, symmetrisation (or/and/none), self-loop insertion, weighting (binary, heat kernel, cosine) and normalisation (random walk, symmetric, none) produce the graph whose adjacency matrix is given by the textbook matrix formula on the input adjacency. Symmetrised graphs are symmetric, random-walk rows sum to one (or zero for isolated nodes) and no duplicate edges appear.",
  "inputs", "all edge lists (duplicates, self loops, isolated nodes, empty) and option combinations",
  "tests check tiny fixed graphs",
  [S + "graph/construction/ops"], [("ops", S + "graph/construction/ops")])
p("G03", "Graph construction is deterministic and describes its own input",
  "For every dataset features, specification and seed, building a graph twice gives identical edges, weights and metadata, independent of cache use, earlier builds and global random state. Edge indices are in range, and the result's node count equals the number of rows.",
  ["inputs", "histories"], "all feature matrices, specifications, seeds",
  "repeatability over histories",
  [S + "graph/construction/api.py", S + "graph/construction/services/service.py"], [("graph service", S + "graph/construction/services/service.py")])
p("G04", "The graph cache is transparent and precise",
  "Over every history of graph builds sharing a cache folder, a build returns exactly the graph an uncached build of the same dataset fingerprint, preprocessing fingerprint, specification and seed returns; requests differing in any of these never share an entry. A saved graph (weighted or not, sharded or not) loads back identical.",
  "histories", "all sequences of builds and cache reads over several datasets, specifications and seeds",
  "tests check one hit and one miss",
  [S + "graph/cache.py", S + "graph/fingerprint.py", S + "graph/construction/services/service.py"], [("graph cache", S + "graph/cache.py"), ("fingerprint", S + "graph/fingerprint.py")])
p("G05", "Interrupted graph builds and saves are recovered, never trusted half-done",
  "If the process dies at any point while building a graph in chunks or saving it (first save or overwrite), a later build over the same cache folder returns exactly the graph of an uninterrupted build.",
  ["crash_points", "fault_sequences"], "all points at which the process can stop during chunked construction and saving",
  "needs crash-point enumeration",
  [S + "graph/cache.py", S + "graph/construction/services/service.py"], [("resume files", S + "graph/construction/services/service.py"), ("manifest", S + "graph/cache.py")])
p("G06", "Graph feature views equal their definitions",
  "For every node dataset, the attribute view is the node features, the diffusion view is the stated number of weighted-average steps of the features over the graph, and structural views have one finite row per node and are a deterministic function of graph and seed; views never modify the dataset.",
  "inputs", "all node datasets and view specifications",
  "tests check shapes on fixed graphs",
  [S + "graph/featurization"], [("views", S + "graph/featurization/views")])
p("G07", "The graph-views cache never returns views of other inputs",
  "Over every history of view computations sharing a cache folder, the views returned equal those computed without cache for the given features, edges, weights, specification and seed.",
  "histories", "all sequences of featurisation requests sharing one cache folder",
  "tests check one hit",
  [S + "graph/featurization/api.py", S + "graph/cache.py"], [("views cache key", S + "graph/featurization/api.py")])

# --------------------------------------------------------------------- views
p("V01", "Feature views select the columns they promise",
  "For every dataset and valid view plan, each view holds exactly the requested columns of the original features for both train and test rows, in row order, in the same kind of container and precision (arrays stay arrays, tensors stay tensors) and with labels untouched; random views have the requested size, contain no duplicates and are deterministic in the seed; a complement view together with the view it refers to partitions all the columns; a view's own preprocessing starts from the original dataset, never from another view. Invalid plans are rejected.",
  ["inputs", "configurations"], "all datasets, view plans and seeds",
  "tests check fixed plans",
  [S + "views/services/service.py", S + "views/plan.py"], [("view generation", S + "views/services/service.py")])

# -------------------------------------------------------------- augmentation
p("A01", "Augmentation is a pure function of sample, plan, seed, sample id and epoch",
  "For every augmentation plan, input and context, applying it again with the same context gives an identical result regardless of global random state or of what was augmented before, in numpy and torch alike, and the input sample is never modified. Steps with probability zero change nothing.",
  ["inputs", "histories"], "all plans of built-in operations, inputs of every modality and contexts",
  "purity over histories and RNG states",
  [S + "data_augmentation"], [("context-derived generator", S + "data_augmentation/utils.py"), ("pipeline", S + "data_augmentation/api.py")])
p("A02", "Augmentations keep the sample valid",
  "For every input and accepted parameters each built-in augmentation keeps what its definition promises: shape and dtype are kept, flips and crops move but never invent pixel values outside the padding, masks zero only a part of the entries, swap noise replaces only a part of the entries, text operations only delete, swap or reorder the given words and never return an empty text from a non-empty one when that is promised, and edge or feature dropping yields a subset of the given edges or features with consistent weights. Zero-strength parameters are the identity.",
  "inputs", "all inputs and parameters",
  "tests check examples",
  [S + "data_augmentation/ops"], [("ops", S + "data_augmentation/ops")])

# ---------------------------------------------------------------- evaluation
p("E01", "Metrics equal their textbook definitions",
  "For every pair of true labels and predictions, accuracy, macro F1 (averaged over the classes that occur in the true labels), balanced accuracy and the other built-in metrics equal independently computed reference values, lie in their range, are invariant under a common permutation of the rows and a common renaming of the classes, and are 1 exactly for perfect predictions. Labels, one-hot rows and score rows that denote the same classes give the same value, and inputs of differing length are rejected.",
  "inputs", "all label vectors and prediction encodings",
  "tests check few hand-made vectors",
  [S + "evaluation/metrics.py"], [("metrics", S + "evaluation/metrics.py")])

# ----------------------------------------------------------------------- hpo
p("H01", "Grid search visits every combination exactly once",
  "For every search space made of listed values (nested at any depth), grid search yields each combination of the Cartesian product exactly once, in a reproducible order, and each trial assigns a value to every tuned parameter and nothing else.",
  "inputs", "all finite search spaces",
  "tests enumerate 2x2 spaces",
  [S + "hpo/samplers.py", S + "hpo/space.py"], [("grid", S + "hpo/samplers.py")])
p("H02", "Random search is seeded, in range and prefix-stable",
  "For every search space and seed, random search yields exactly the requested number of trials, every sampled value lies in the declared domain (bounds, list, integer or real), the sequence is reproducible from the seed independent of global random state, and asking for more trials extends the sequence without changing its beginning.",
  ["inputs", "histories"], "all search spaces and seeds",
  "tests check one space",
  [S + "hpo/samplers.py", S + "hpo/space.py"], [("random sampler", S + "hpo/samplers.py")])
p("H03", "Applying a trial changes exactly the tuned parameters",
  "For every configuration tree and patch, merging the patch gives a tree that has the patch's values at the patched paths and the original values elsewhere, leaves both inputs unmodified, and shares no mutable state that lets a later change leak back; applying the same patch twice is the same as once.",
  "inputs", "all configuration trees and patches",
  "tests merge fixed trees",
  [S + "hpo/patching.py"], [("deep merge", S + "hpo/patching.py")])

# ---------------------------------------------------------------- supervised
p("C01", "Classifiers answer in the caller's label space with valid probabilities",
  "For every training set with labels of any supported type (non-contiguous or negative integers; strings, floats and booleans for the scikit-learn and numpy backends) every built-in classifier reports its classes as the sorted distinct training labels, predicts only those labels, one per row, and, when it offers probabilities, returns one finite, non-negative row summing to one per sample whose largest entry is at a predicted class. Scores have one column per class in the order of the reported classes.",
  ["inputs", "configurations"], "all training sets, all built-in classifier/backends available offline",
  "tests train on 0..K-1 integer labels almost exclusively",
  [S + "supervised"], [("classifier base", S + "supervised/base.py"), ("label encoding", S + "supervised/utils.py")])
p("C02", "Training a classifier is repeatable from its seed",
  "For every built-in classifier, training set and seed, fitting two fresh instances gives identical predictions and scores, whatever the state of the global random generators before each fit. Fitting does not modify the training data.",
  ["inputs", "histories"], "all classifiers, training sets, seeds, prior RNG states",
  "repeatability under arbitrary prior RNG state is a two-run property",
  [S + "supervised/backends"], [("seed handling", S + "supervised/backends")])
p("C03", "The neighbour classifier agrees with its definition in every backend",
  "For every training set and parameters, the k-nearest-neighbour classifier's votes equal a brute-force computation in each backend (numpy, scikit-learn, torch), for uniform weights and for weights inversely proportional to the distance. When there are fewer than k training samples, all of them vote.",
  "inputs", "all training sets without distance ties, k, metric, weights",
  "differential over inputs",
  [S + "supervised/backends"], [("knn backends", S + "supervised/backends/numpy/knn.py")])

p("C04", "Classifiers do not depend on how classes are named",
  "For every built-in classifier, training set and seed, replacing the labels by other labels in the same order (strings for integers, gaps, negative numbers) gives the renamed predictions and the same scores and probabilities. Class weights given by label apply to the class of that label.",
  ["inputs", "configurations"], "all classifiers, training sets, order-preserving renamings, per-class weights",
  "a relation between two training runs; tests use labels that equal their own codes, so a mix-up of labels and codes is invisible",
  [S + "supervised/backends", S + "supervised/utils.py"], [("label encoding", S + "supervised/utils.py"), ("class weights", S + "supervised/backends/sklearn/common.py")])
p("C05", "A sample's prediction does not depend on the batch it is predicted in",
  "For every built-in classifier and every set of query samples, predicting the samples together, one by one, or in any order and grouping gives each sample the same scores, probabilities and label up to rounding, whatever the state of the global random generators (training-time randomness such as dropout is off).",
  ["inputs", "histories"], "all classifiers, query sets and groupings",
  "a relation between several prediction calls over all batch compositions",
  [S + "supervised/backends"], [("torch prediction", S + "supervised/backends/torch/common.py"), ("knn batches", S + "supervised/backends/numpy/knn.py")])
p("C06", "Classifiers learn classes that are far apart",
  "For every training set of two or three well separated classes with at least six samples each and any label names, every built-in classifier trained for a moderate number of iterations classifies fresh samples of the same classes correctly (well above chance).",
  ["inputs"], "all classifier/backend pairs that train offline, separated class layouts, seeds",
  "tests only run a training step and look at shapes; a mix-up of rows and labels during batching keeps every shape",
  [S + "supervised/backends"], [("training loops", S + "supervised/backends/torch")])

# ----------------------------------------------------------------- inductive
p("I01", "Inductive methods predict known classes with valid class probabilities",
  "For every labeled/unlabeled dataset and every classical inductive method and base classifier, class probabilities have one row per sample and one column per class, are finite, non-negative and sum to one (a row without any score may stay all zero), and the predicted label of each row is the class with the largest probability. Predictions only name classes that occur among the labeled samples.",
  ["inputs", "configurations"], "all datasets (labels of any integers), all classical methods, base classifiers and backends",
  "tests use mocked classifiers and one dataset",
  [S + "inductive/methods"], [("probability normalisation", S + "inductive/methods"), ("classifier bridge", S + "inductive/methods/helpers/classifier_bridge.py")])
p("I02", "Inductive training is repeatable from its seed",
  "For every inductive method (classical and deep), dataset and seed, two fits from the same seed and the same initial model (one that draws no random numbers of its own, such as dropout masks) give identical models and predictions, whatever the state of the global random generators before and whatever the same method object was fitted on earlier.",
  ["inputs", "histories"], "all methods, datasets, seeds, prior RNG states",
  "two-run property",
  [S + "inductive"], [("seeding", S + "inductive/seed.py")])
p("I03", "Inductive methods never modify the data they are given",
  "For every method and dataset, after fit and predict the labeled features, labels, unlabeled features, views and metadata are element-wise what they were before.",
  "inputs", "all methods and datasets",
  "tests do not compare inputs afterwards",
  [S + "inductive/methods"], [("copies", S + "inductive/methods")])
p("I04", "Renaming classes or permuting them does not change what is learned",
  "For every classical inductive method with a label-symmetric base classifier and every order-preserving renaming of the integer class labels, training on renamed labels predicts exactly the renamed predictions.",
  "inputs", "all datasets and order-preserving label maps (gaps, negatives)",
  "tests use labels 0..K-1, where an index/label confusion is invisible",
  [S + "inductive/methods"], [("class mapping", S + "inductive/methods")])
p("I05", "Deep inductive methods keep the prediction contract",
  "For every deep semi-supervised method that can be trained offline, fitting on any valid tensors (any batch size, unlabeled sets smaller or larger than the labeled set, labels that do not cover every class) finishes, probabilities are finite, non-negative rows summing to one, the predicted labels are the most probable classes, a row's prediction does not depend on the rows next to it, and predicting leaves the model as it is; unusable data and settings are rejected with the documented error and leave the method unfitted.",
  ["inputs", "configurations"], "all valid tensor datasets and specs",
  "tests use one configuration per method",
  [S + "inductive/methods"], [("train loops", S + "inductive/methods")])
p("I06", "Invalid inductive data is rejected before training",
  "For every dataset with mismatched row counts, feature widths, empty parts or wrong containers, validation fails with the documented validation error and never silently trains; valid datasets pass unchanged.",
  "inputs", "all corruptions of valid datasets",
  "tests check single corruptions",
  [S + "inductive/validation.py", S + "inductive/adapters"], [("validation", S + "inductive/validation.py")])
p("I07", "Self-training's confident selection respects its thresholds",
  "For every score matrix, the confidence-based selection used by pseudo-labelling methods returns exactly the samples whose confidence reaches the threshold, limited to the most confident ones when a cap is given (overall or per class), without duplicates.",
  "inputs", "all score matrices, thresholds and caps",
  "tests check two small matrices",
  [S + "inductive/methods/helpers"], [("selection helpers", S + "inductive/methods/helpers")])

p("I08", "Pseudo-labelling methods follow their algorithm",
  "For every labeled and unlabeled set, base classifier and setting, pseudo-label, self-training, co-training, tri-training, SETRED, S4VM and democratic co-learning train their classifiers on exactly the rows and labels their algorithm prescribes (selection by confidence, agreement of the peers, error and size conditions, neighbourhood test, indicator choice, weighted vote), in every round, and answer with the resulting classifiers.",
  ["inputs", "configurations"], "all small datasets, deterministic base classifiers, settings; decisions that depend on ties or rounding are left out",
  "tests mock one round; the order of selection, the row-to-label pairing over several rounds and the stopping conditions need a reference run",
  [S + "inductive/methods"], [("algorithms", S + "inductive/methods")])
p("I09", "Graph inputs keep rows, edges and edge data together",
  "For every dataset whose features come with a graph (edge list, edge weights or attributes, per-node keys) and every index set, selecting rows yields the induced subgraph with edges renumbered and each edge keeping its data, joining two graphs keeps both edge sets disjoint with their data, and every method only ever hands its classifier or model graphs cut or joined this way from the data it was given.",
  "inputs", "all graph inputs and index sets",
  "tests use one graph without edge data",
  [S + "inductive/methods/helpers"], [("slicing and joining", S + "inductive/methods/helpers")])

p("I10", "Deep methods train with the loss their algorithm defines",
  "For every dataset, initial model and setting, the weights after training equal those of plain gradient descent on the loss the algorithm defines (supervised term, consistency or pseudo-label term with its thresholds, running statistics, warm-up and weights), batch by batch over all epochs; every epoch uses every labeled and every unlabeled row, repeats none before all were used, and pairs the weak and strong view of the same row.",
  ["inputs", "configurations"], "Pi-model, mean teacher, temporal ensembling, FixMatch, DeFixMatch, UDA, AdaMatch, FlexMatch, FreeMatch, SoftMatch, ADSH, noisy student, MixMatch, VAT, meta pseudo labels, deep co-training; small models and data, targets detached; decisions on a threshold or tie are left out",
  "tests run one epoch and check that predictions have the right shape",
  [S + "inductive/methods"], [("training loops", S + "inductive/methods")])

# -------------------------------------------------------------- transductive
p("T01", "Transductive methods answer for every node",
  "For every graph, labeled set, specification and method (classic, PDE and graph neural), fitting succeeds or refuses with a ValueError an input outside the method's documented domain; the answer has one finite row per node and one column per class; rows of methods that return probabilities are distributions (label propagation and spreading: all-zero exactly for nodes no label has reached); methods that clamp keep every given label; the dataset is never modified.",
  ["inputs", "configurations"], "all graphs (disconnected, isolated nodes, self loops, parallel and directed edges), labeled sets with every class present, all methods but those needing extra packages; Poisson learning, Laplace learning and dynamic propagation return scores; dynamic propagation with few iterations (see known finding), Poisson learning finite on undirected graphs only",
  "tests use path and two-cluster graphs",
  [S + "transductive/methods"], [("methods", S + "transductive/methods")])
p("T02", "Transductive methods solve the equations that define them",
  "For every weighted graph, label propagation, label spreading, Laplace learning, Poisson learning, lazy random walk and dynamic propagation return the iterate, fixed point or linear-system solution of their defining equation computed densely in double precision; p-Laplace learning minimises its energy and Poisson MBO follows its dense iteration; TSVM trains as described.",
  "inputs", "all weighted graphs (undirected where the equation needs it) and labeled sets; near ties of projections left out",
  "tests check single fixed graphs; sign and self-loop errors need generation",
  [S + "transductive/methods/classic", S + "transductive/methods/pde", S + "transductive/solvers"], [("solvers", S + "transductive/solvers")])
p("T03", "Array and tensor implementations of a transductive method agree",
  "For every graph and method offering both a numpy and a torch implementation, both give the same result to numerical tolerance.",
  "inputs", "all graphs, methods with two implementations",
  "differential over inputs",
  [S + "transductive"], [("backends", S + "transductive/backends")])
p("T04", "Transductive results follow a renumbering of nodes or edges",
  "For every graph and method, renumbering the nodes permutes the predictions accordingly, and reordering the edge list changes nothing, to numerical tolerance.",
  "inputs", "all graphs and permutations; not for h_gcn, planetoid and tsvm, whose coarsening, walks and label switching depend on the order of nodes by design",
  "metamorphic over inputs",
  [S + "transductive/methods"], [("methods", S + "transductive/methods")])
p("T05", "Hidden labels never influence transductive predictions",
  "For every graph and method, changing the label values of nodes outside the labeled (training and validation) masks, within the same set of classes, leaves every prediction unchanged.",
  "inputs", "all graphs, methods and hidden-label assignments; Poisson MBO with known class proportions uses them by design",
  "leakage is a two-run property",
  [S + "transductive/methods", "bench/orchestrators/method_transductive.py"], [("masks", S + "transductive/methods/utils.py")])
p("T06", "Graph operators equal their dense matrix form",
  "For every edge list and weights, degree, adjacency, Laplacian, normalisation, sparse matrix-vector products and linear solvers return the dense-matrix result in numpy and torch, and conversion to torch_geometric keeps the dataset.",
  "inputs", "all edge lists including duplicates, self loops and isolated nodes",
  "tests check fixed matrices",
  [S + "transductive/operators", S + "transductive/ops", S + "transductive/backends", S + "transductive/solvers"], [("operators", S + "transductive")])
p("T07", "Graph mincuts returns a minimum cut",
  "For every undirected weighted graph with both binary classes labeled, the returned labeling has the smallest total cut weight among all labelings that agree with the labeled nodes.",
  "inputs", "all binary-labeled weighted graphs (checked by exhaustive search over labelings)",
  "optimality over all cuts",
  [S + "transductive/methods/classic/graph_mincuts.py"], [("max-flow", S + "transductive/methods/classic/graph_mincuts.py")])
p("T08", "Graph neural methods are repeatable and tied to the data given",
  "For every graph neural method, dataset and seed, two fits give identical predictions whatever the state of the global random generators and whatever was fitted before with the same object; a prediction or fit always uses the dataset passed to the call, never one seen earlier.",
  ["inputs", "histories"], "all methods, graphs, seeds, prior RNG states, and sequences of datasets; methods documented to answer from fit time do so; arrays edited in place between calls are not claimed",
  "two-run and object-lifetime property",
  [S + "transductive/methods/gnn"], [("seeding and data cache", S + "transductive/methods/gnn/common.py")])
p("T09", "Invalid node datasets are rejected",
  "For every node dataset with out-of-range edges, wrong shapes, mask length mismatch or unusable labels, validation and fitting fail with a clear validation error; without a labeled node no class is preferred anywhere; valid datasets pass.",
  "inputs", "eighteen kinds of corruption of valid node datasets, every method",
  "tests check single corruptions",
  [S + "transductive/validation.py", S + "graph/validation.py"], [("validation", S + "transductive/validation.py")])
p("T10", "Graph networks train as their dense reference",
  "For every graph, specification and seed, the predictions of the trained network equal those of a dense double-precision reimplementation of the network and its training loop (optimiser, weight decay, early stopping on the validation mask, restoring the best parameters) started from the same initial parameters.",
  ["inputs", "configurations"], "APPNP, ChebNet, GAT, GCN, GCNII, GraFN, GraphHop, GraphSAGE, GRAND, H-GCN, N-GCN (undirected) and SGC without dropout; the early-stopping rule for every network also with dropout; few epochs; hidden values near the kink of an activation left out",
  "tests check shapes and that losses are finite",
  [S + "transductive/methods/gnn"], [("training loops", S + "transductive/methods/gnn/common.py")])
p("T11", "Node classifiers learn clustered graphs",
  "For every undirected graph made of two or three densely connected groups with few edges between them, where each group is a class with its own features and four labeled nodes per class are given, every transductive method trained for a moderate number of iterations labels the remaining nodes well above chance, with or without validation nodes, edge weights and a torch backend.",
  ["inputs", "configurations"], "all transductive methods that run offline except H-GCN (its ReLU output can die at initialisation); a network may fail for an unlucky seed, three seeds in a row are a violation; dynamic label propagation with few iterations",
  "tests only look at shapes and finiteness; masks, labels or edges mixed up on the way into training keep every shape",
  [S + "transductive/methods"], [("methods", S + "transductive/methods"), ("shared training code", S + "transductive/methods/gnn/common.py")])

# --------------------------------------------------------------------- bench
p("B01", "Experiment seeds are derived reproducibly and independently per section",
  "For every experiment configuration and master seed, the seeds derived for each section are deterministic, distinct between sections, within the integer range accepted by the libraries, and stable across processes; a sweep gives each run its own seed aligned over all sections and leaves the base configuration unmodified.",
  ["inputs", "configurations"], "all configurations and seeds",
  "tests check fixed seeds",
  ["bench/seed_sweep.py", "bench/utils/hashing.py"], [("seed derivation", "bench/utils/hashing.py"), ("sweep", "bench/seed_sweep.py")])
p("B02", "Configuration files expand environment variables exactly",
  "For every YAML configuration tree, loading it returns the same tree with each variable reference replaced by its value everywhere in strings (nested in lists and maps), escaped references kept literal, and an unset variable fails the load naming it.",
  ["inputs", "configurations"], "all configuration trees and environments",
  "tests check few strings",
  ["bench/utils/io.py"], [("expansion", "bench/utils/io.py")])
p("B03", "Experiment configuration is strict and lossless",
  "Every accepted experiment configuration keeps every value the user wrote, converting it back and forth changes nothing, and every configuration with an unknown key, missing required section, wrong type or forbidden model factory is rejected with a configuration error before anything runs.",
  ["inputs", "configurations"], "all configuration documents, all single-key mutations",
  "tests try a few mutations",
  ["bench/schema.py"], [("schema", "bench/schema.py")])
p("B04", "A run never overwrites another run's results",
  "For every sequence of runs and sweeps with the same or different names and seeds in one output folder, successful or failing at any stage, each writes to a fresh folder and leaves all earlier run folders byte-for-byte unchanged; a run that fails after its configuration was accepted still leaves its configuration, a report with status failed and an error record, and the caller learns of the failure (an exception when failing fast, a non-zero code otherwise).",
  "histories", "all sequences of runs",
  "needs histories",
  ["bench/context.py", "bench/main.py"], [("run directory allocation", "bench/context.py")])
p("B05", "Seed-sweep summaries are the statistics of their runs",
  "For every set of per-seed results, the aggregate reports each run once and the mean, spread and count of every numeric metric equal those recomputed from the runs; failed runs are reported as failed and excluded from the statistics.",
  "inputs", "all sets of per-seed results",
  "tests use two runs",
  ["bench/orchestrators/reporting.py"], [("summary", "bench/orchestrators/reporting.py")])
p("B06", "An experiment is reproducible end to end from its configuration",
  "For every valid experiment, inductive or transductive, running the same configuration again (fresh caches, warm caches, caches filled by other experiments on the same data, different global random state, another process) reports identical metrics, split statistics, artifact fingerprints and search results.",
  ["configurations", "histories"], "generated experiment configurations over small generated data sets and the shipped toy experiments, every inductive and transductive method of the shipped configurations with reduced budgets",
  "end-to-end repeatability over configurations",
  ["bench/main.py", "bench/orchestrators"], [("orchestrators", "bench/orchestrators")])
p("B07", "Run limits only ever reduce, and only what they name",
  "For every configuration and limit profile, applying limits never increases a value, never exceeds the limit, leaves unrelated settings untouched, and applying them twice equals applying them once.",
  ["inputs", "configurations"], "all configurations and limit profiles",
  "tests use fixed profiles",
  ["bench/limits.py"], [("limits", "bench/limits.py")])
p("B08", "Row slicing and masks hand each method exactly the rows it may see",
  "For every dataset container (array, list, sparse, tensor, mapping) and index set, selecting rows returns exactly those rows in order; the masks built for a transductive method mark exactly the sampled nodes; an inductive method is given labels of the labeled rows only; and the unlabeled nodes' labels are hidden.",
  "inputs", "all containers and index sets",
  "tests use numpy arrays",
  ["bench/orchestrators/slicing.py", "bench/orchestrators/method_transductive.py"], [("slicing", "bench/orchestrators/slicing.py"), ("masks", "bench/orchestrators/method_transductive.py")])
p("B09", "Hyper-parameter search reports the best trial it ran",
  "For every search space, objective and direction, the search evaluates every trial it announces, reports the trial with the best finite score (ties to the earliest), and applies its parameters to the final run; trials without a finite score never win over one that has one.",
  ["inputs", "configurations"], "all search spaces and score tables, including NaN and failures",
  "tests use two trials",
  ["bench/orchestrators/hpo.py"], [("search loop", "bench/orchestrators/hpo.py")])

p("B10", "Reported metrics are the metrics of the method's own predictions",
  "For every experiment, the metrics reported for a split equal those recomputed from first principles over exactly that split's rows, their true labels and the labels the trained method predicts for them, whatever the label values and whichever classes have labeled rows.",
  ["inputs", "configurations"], "every inductive and transductive method of the shipped configurations with reduced budgets; 2 to 4 classes, classes without labeled rows, official or sampled test split; a method's documented refusal is accepted",
  "the benchmark runner has no tests",
  ["bench/orchestrators/evaluation.py", "bench/main.py"], [("evaluation", "bench/orchestrators/evaluation.py"), ("class counts", "bench/orchestrators/method_inductive.py")])
p("B11", "Benchmark mode refuses every choice that is not pinned",
  "For every experiment in benchmark mode, a configuration that downloads, leaves the dataset cache implicit, asks for an automatic device, profile or backend anywhere (including among the choices of a search space), leaves the split for model selection or the fitting split of a fitted preprocessing step open, or searches on another split is refused with the matching error code before any method is trained, and a fully pinned configuration runs.",
  ["configurations"], "all combinations of up to three broken rules over five kinds of experiment; a backend choice inside a search space may be refused at the trial that uses it",
  "the benchmark runner has no tests",
  ["bench/main.py"], [("contract preflight", "bench/main.py")])

p("B12", "Benchmark mode changes nothing but what is allowed",
  "For every experiment whose choices are all pinned (offline dataset, declared conversions to tensors, explicit backends and device, named split for model selection), running it in benchmark mode succeeds exactly when the normal run does and gives the same metrics, the same search outcome and the same recorded artifacts, for every method, with and without views, augmentation, graph construction and search.",
  ["configurations", "seeds"], "all shipped methods on small tabular data; benchmark mode's own bookkeeping in the report may differ",
  "the benchmark runner has no tests",
  ["bench/main.py", "bench/orchestrators/method_inductive.py", "bench/orchestrators/evaluation.py"], [("strict inputs", "bench/orchestrators/method_inductive.py"), ("strict evaluation", "bench/orchestrators/evaluation.py")])

p("B13", "A run augments every row by itself",
  "For every set of unlabeled rows, weak and strong plan, seed and sample ids, row i of the augmented views a run hands to its method is the plan applied to row i alone under its own sample id, in the same order and the same kind of container and precision as the rows; it does not change when other rows are added, removed or reordered, nor with the global generators; the second strong view is asked for or absent, and drawn independently of the first; a graph is augmented as one sample. The rows themselves are not modified.",
  ["inputs", "configurations"], "array and tensor rows of every modality (text as arrays of strings), plans of built-in operations, seeds, ids with repetitions",
  "no test runs the orchestrator; the alignment of augmented rows with their rows is a relation over all data sets and plans",
  ["bench/orchestrators/augmentation.py", S + "data_augmentation/api.py"], [("augmentation of a split", "bench/orchestrators/augmentation.py")])

# --------------------------------------------------------------- cross-cutting
p("R01", "Everything the registries list can be looked up and described",
  "Every identifier a registry lists (datasets, providers, preprocessing steps, encoder models, augmentations, classifiers, inductive and transductive methods, metrics) resolves to a definition whose metadata agrees with the implementation that loads, and the listings are complete and sorted; writing on what a description returns never changes the registry; an unknown identifier, however close to a registered one, is rejected with an error and never answered with another entry; and over every history of registrations an identifier keeps its first definition: a conflicting registration, also of a built-in identifier, is refused and changes nothing.",
  ["inputs", "histories"], "all registered identifiers, near-miss identifiers (case, spaces, prefixes, dashes, unicode), histories of up to ten registrations of methods, augmentations, steps and providers before or after the built-in entries were loaded; a conflicting identifier registered before the built-in methods were loaded at all is refused when they load",
  "tests check some ids one at a time and never a history of registrations",
  [S + "data_augmentation/registry.py", S + "supervised/registry.py", S + "supervised/types.py", S + "preprocess/registry.py", S + "inductive/registry.py", S + "transductive/registry.py", S + "data_loader/catalog"],
  [("register_op", S + "data_augmentation/registry.py"), ("ClassifierSpec.to_dict", S + "supervised/types.py"), ("register_method", S + "inductive/registry.py")])
p("R02", "Specification records round-trip through their dictionary form",
  "Every valid specification (sampling plan, graph builder, weight and featuriser specification, view plan, augmentation plan, preprocess plan, dataset record and request) converted to its dictionary form, through JSON or YAML with keys in any order, and back is equal to the original and has the same fingerprint, two specifications that differ in any field have different dictionary forms and fingerprints, and the strict readers reject an unknown key at any level instead of ignoring it, as they reject a text where a list belongs and a step without an identifier.",
  "inputs", "all valid specifications; unknown keys are only judged for the readers documented as strict (sampling plans and the benchmark's own plan readers)",
  "tests convert one or two specifications each",
  [S + "sampling/plan.py", S + "graph/specs.py", S + "views/plan.py", S + "data_augmentation/plan.py", S + "preprocess/plan.py", "bench/orchestrators"],
  [("as_dict/from_dict", S + "sampling/plan.py"), ("GraphBuilderSpec.from_dict", S + "graph/specs.py"), ("load_plan", S + "preprocess/plan.py")])
p("L01", "The command line gives the library's answers",
  "For every command line over valid input, the evaluation, sampling, preprocess, dataset, graph, augmentation, supervised and method-listing commands print and store the result of the corresponding library call with the same arguments and exit zero; for input the library refuses, and for missing, empty, cut or damaged files, they exit non-zero without a traceback and without leaving or changing any output.",
  ["inputs", "configurations", "histories"], "generated arrays, plans, split folders, datasets of a local provider and option values; the list, show, create, validate, run, build and info commands, most in process and a sample as real processes; a provider that cannot be reached and preprocessing steps that fail inside a third-party library only need a non-zero exit",
  "tests replace the library call by a stub",
  [S + "cli"], [("evaluation", S + "cli/evaluation.py"), ("sampling", S + "cli/sampling.py"), ("preprocess", S + "cli/preprocess.py"), ("graph", S + "cli/graph.py")])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
