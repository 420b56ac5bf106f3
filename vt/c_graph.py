"""G01-G07: graph construction, post-processing, caching and featurisation."""
from __future__ import annotations

import copy
import os
import random
import shutil

import faiss  # noqa: F401  (imported once here: importing draws random numbers)
import numpy as np
import sklearn.cluster  # noqa: F401
import sklearn.neighbors  # noqa: F401
import torch

from .core import HarnessError, check, fail, require, st
from .crash import run as crash_run
from .eq import diff

from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec, NodeDataset, build_graph, graph_to_views
from modssc.graph.artifacts import DatasetViews, GraphArtifact
from modssc.graph.cache import GraphCache, ViewsCache
from modssc.graph.construction.ops.normalize import normalize_edge_weights
from modssc.graph.construction.ops.self_loops import add_self_loops
from modssc.graph.construction.ops.symmetrize import symmetrize_edges
from modssc.graph.construction.ops.weights import compute_edge_weights


# ------------------------------------------------------------------ features
@st.composite
def features(draw, max_n=24, min_n=1):
    return {"kind": draw(st.sampled_from(["grid", "grid", "gauss", "dups", "line", "zeros"])), "n": draw(st.integers(min_n, max_n)),
            "d": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6)), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
            "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 0.01, 100.0])), "far": draw(st.sampled_from([0, 0, 0, 0, 30, 3000, -2 * 10**4]))}


def make_X(c):
    r = np.random.default_rng(c["seed"])
    n, d, k = c["n"], c["d"], c["kind"]
    if k == "gauss":
        X = r.normal(size=(n, d)) * c["scale"]
    elif k == "line":
        X = np.outer(r.permutation(n), np.ones(d))
    else:
        X = r.integers(-3, 4, (n, d)).astype(float)
        if k == "dups" and n:
            X = X[r.integers(0, max(1, n // 3), n)]
        if k == "zeros":
            X[r.random(n) < 0.3] = 0
    return (X + c.get("far", 0)).astype(c["dtype"])


def spread(X):
    """Norms of the rows around their centre: distances are compared relative to their scale, wherever the data lies."""
    X = X.astype(np.float64)
    return np.linalg.norm(X - (X.mean(0) if len(X) else 0), axis=1)


def tolerance(X, metric):
    """Single precision relative to the spread; far from the origin also what double precision can resolve there."""
    if metric == "cosine":
        return 2e-5
    away = float((np.asarray(X, np.float64) ** 2).sum(1).max(initial=0.0))
    return 2e-5 * max(1e-6, float((spread(X) ** 2).max(initial=0.0))) + 32 * np.finfo(np.float64).eps * away


def true_sq(X, metric):
    """Matrix of squared euclidean or of cosine distances in double precision."""
    X = X.astype(np.float64)
    if metric == "euclidean":
        return ((X[:, None, :] - X[None, :, :]) ** 2).sum(-1)
    nr = np.linalg.norm(X, axis=1, keepdims=True)
    U = np.divide(X, nr, out=np.zeros_like(X), where=nr > 0)
    return 1.0 - U @ U.T


@st.composite
def knn_case(draw):
    return {"X": draw(features()), "metric": draw(st.sampled_from(["euclidean", "cosine"])),
            "backend": draw(st.sampled_from(["numpy", "numpy", "sklearn", "sklearn", "faiss", "auto", "hnsw", "anchor", "anchor-all"])),
            "ab": draw(st.sampled_from(["numpy", "sklearn", "faiss-exact"])), "am": draw(st.sampled_from(["random", "random", "kmeans"])),
            "k": draw(st.integers(1, 26)) if draw(st.booleans()) else draw(st.integers(1, 5)), "chunk": draw(st.sampled_from([1, 2, 3, 5, 7, 512])),
            "na": draw(st.one_of(st.none(), st.integers(1, 30))), "ak": draw(st.integers(1, 6)), "limit": draw(st.sampled_from([1000, 1000, 3])),
            "seed": draw(st.integers(0, 50)), "cache": draw(st.integers(0, 4)) == 0}


def _weights(X, metric):
    if metric == "cosine":
        return GraphWeightsSpec("cosine"), None
    s = 2.0 * max(1e-3, float(spread(X).max(initial=0.0)))
    return GraphWeightsSpec("heat", sigma=s), s


def _sq_of(g, s):
    w = g.edge_weight.astype(np.float64)
    return 1.0 - w if s is None else -2.0 * s * s * np.log(w)


RAW = dict(symmetrize="none", normalize="none", self_loops=False)


def _check_edges(g, D, s, tol, n):
    src, dst = g.edge_index
    require(g.n_nodes == n, "%s nodes for %s rows", g.n_nodes, n)
    require(g.edge_index.dtype == np.int64 and (not src.size or (g.edge_index.min() >= 0 and g.edge_index.max() < n)), "edge index out of range: %s", g.edge_index)
    require(not (src == dst).any(), "self-neighbours without self loops: %s", g.edge_index[:, src == dst])
    pairs = list(zip(src.tolist(), dst.tolist()))
    require(len(set(pairs)) == len(pairs), "duplicate edges: %s", [p for p in set(pairs) if pairs.count(p) > 1])
    got = _sq_of(g, s)
    bad = np.abs(got - D[src, dst]) > tol
    require(not bad.any(), "edge %s: distance measure %s, true %s", None if not bad.any() else pairs[int(np.argmax(bad))], got[bad][:3], D[src, dst][bad][:3])


@check("G01", knn_case(), quick=900, timeout=25, shards=2)
def knn_equals_brute_force(case, ctx):
    """kNN graphs of every backend, chunk size and metric against a double precision brute-force
    search (edge distances read back from the weights); anchor and HNSW graphs, which are approximate,
    may omit neighbours but not invent or distort them, and are exact when every node is an anchor.
    Non-trivial when there are more candidates than k and at least one edge was checked."""
    X = make_X(case["X"])
    n = len(X)
    wspec, s = _weights(X, case["metric"])
    b, k = case["backend"], case["k"]
    kw = dict(scheme="knn", metric=case["metric"], k=k, weights=wspec, chunk_size=case["chunk"], backend=b, **RAW)
    exact = True
    if b == "faiss":
        kw["faiss_exact"] = True
    if b == "hnsw":
        kw.update(backend="faiss", faiss_exact=False, faiss_hnsw_m=8)
        exact = False
    if b.startswith("anchor"):
        kw.update(scheme="anchor", anchors_method=case["am"], n_anchors=case["na"], anchors_k=case["ak"], candidate_limit=case["limit"],
                  backend=case["ab"].split("-")[0], faiss_exact=True)
        exact = False
        if b == "anchor-all":
            kw.update(anchors_method="random", n_anchors=n, anchors_k=n, candidate_limit=1000)
            exact = True
        elif kw["anchors_method"] == "kmeans":
            import warnings
            warnings.simplefilter("ignore")
    g = build_graph(X, spec=GraphBuilderSpec(**kw), seed=case["seed"], cache=case["cache"], cache_dir=ctx.tmp())
    ctx.label(b + ":" + case["metric"])
    D = true_sq(X, case["metric"])
    tol = tolerance(X, case["metric"])
    _check_edges(g, D, s, tol, n)
    want = min(k, n - 1)
    deg = np.bincount(g.edge_index[0], minlength=n)
    ctx.nontrivial(bool(g.n_edges) and n - 1 > k)
    if not exact:
        require((deg <= want).all(), "more than k=%s neighbours: %s", k, deg)
        return
    require((deg == want).all(), "neighbour counts %s, expected %s each (%s)", deg.tolist(), want, b)
    for i in range(n):
        near = np.sort(np.delete(D[i], i))[:want]
        mine = np.sort(D[i, g.edge_index[1][g.edge_index[0] == i]])
        require(np.abs(near - mine).max(initial=0.0) <= tol, "node %s: neighbour distance measures %s, the %s nearest are %s", i, mine, want, near)


@st.composite
def eps_case(draw):
    X = draw(features())
    return {"X": X, "metric": draw(st.sampled_from(["euclidean", "euclidean", "cosine"])), "backend": draw(st.sampled_from(["numpy", "sklearn", "auto"])),
            "r": draw(st.sampled_from([0.05, 0.3, 0.75, 1.0, 1.0, 1.5, 2.0, 2.0, 2.5, 3.0, 5.0, 40.0])), "chunk": draw(st.sampled_from([1, 2, 3, 5, 7, 512])),
            "cache": draw(st.integers(0, 4)) == 0}


@check("G01", eps_case(), quick=700, timeout=25)
def radius_equals_brute_force(case, ctx):
    """Radius graphs of both backends and every chunk size against the brute-force pair set; pairs
    whose distance equals the radius count as inside (exactly, for integer coordinates; a rounding band
    is free otherwise).  Non-trivial when some pairs are inside and some outside."""
    X = make_X(case["X"])
    n = len(X)
    wspec, s = _weights(X, case["metric"])
    spec = GraphBuilderSpec(scheme="epsilon", metric=case["metric"], radius=case["r"], weights=wspec, chunk_size=case["chunk"], backend=case["backend"], **RAW)
    g = build_graph(X, spec=spec, cache=case["cache"], cache_dir=ctx.tmp())
    D = true_sq(X, case["metric"])
    tol = tolerance(X, case["metric"])
    _check_edges(g, D, s, tol, n)
    r = case["r"] if case["metric"] == "cosine" else case["r"] ** 2
    has = np.zeros((n, n), bool)
    has[g.edge_index[0], g.edge_index[1]] = True
    off = ~np.eye(n, dtype=bool)
    grid = case["metric"] == "euclidean" and case["X"]["kind"] != "gauss"
    inside = (D <= r) if grid else (D <= r - tol)
    outside = (D > r) if grid else (D > r + tol)
    ctx.nontrivial(bool((inside & off).any() and (outside & off).any()))
    ctx.label(case["backend"] + ":" + case["metric"])
    m = inside & off & ~has
    require(not m.any(), "pair %s at distance measure %s <= %s is missing", np.argwhere(m)[:1].tolist(), D[m][:1], r)
    m = outside & has
    require(not m.any(), "pair %s at distance measure %s > %s is linked", np.argwhere(m)[:1].tolist(), D[m][:1], r)


# ------------------------------------------------------------------ post-processing
def dense(n, ei, w):
    A = np.zeros((n, n))
    np.add.at(A, (ei[0], ei[1]), np.ones(ei.shape[1]) if w is None else np.asarray(w, np.float64))
    return A


def dense_max(n, ei, w):
    """(matrix of the largest parallel weight, matrix of presence)"""
    A, P = np.zeros((n, n)), np.zeros((n, n), bool)
    for j in range(ei.shape[1]):
        a, b = int(ei[0, j]), int(ei[1, j])
        v = 1.0 if w is None else float(w[j])
        A[a, b] = v if not P[a, b] else max(A[a, b], v)
        P[a, b] = True
    return A, P


def sym_ref(A, P, mode):
    if mode == "none":
        return A, P
    Q = (P & P.T) if mode == "mutual" else (P | P.T)
    both = P & P.T
    return np.where(Q, np.where(both, (A + A.T) / 2, np.where(P, A, A.T)), 0.0), Q


def norm_ref(A, mode):
    deg = A.sum(1)
    with np.errstate(divide="ignore", invalid="ignore"):
        if mode == "rw":
            return np.where(deg[:, None] > 0, A / np.where(deg > 0, deg, 1)[:, None], 0.0)
        if mode == "sym":
            inv = np.where(deg > 0, 1 / np.sqrt(np.where(deg > 0, deg, 1)), 0.0)
            return A * inv[:, None] * inv[None, :]
    return A


def _mat_close(got, exp, what, rtol=1e-4):
    bad = np.abs(got - exp) > rtol * np.abs(exp) + 1e-30
    require(not bad.any(), "%s: entry %s is %s, expected %s", what, np.argwhere(bad)[:1].tolist(), got[bad][:1], exp[bad][:1])


@st.composite
def edge_list(draw):
    n = draw(st.integers(1, 7))
    es = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=16))
    ws = draw(st.lists(st.sampled_from([1.0, 0.5, 0.25, 2.0, 3.0, 0.1, 7.5]), min_size=len(es), max_size=len(es)))
    return {"n": n, "es": es, "ws": ws if draw(st.integers(0, 4)) else None, "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e-14, 1e-20])),
            "sym": draw(st.sampled_from(["none", "or", "mutual"])), "loops": draw(st.booleans()), "norm": draw(st.sampled_from(["none", "rw", "sym"])),
            "lw": draw(st.sampled_from([1.0, 0.5])), "order": draw(st.booleans())}


@check("G02", edge_list(), quick=2500, timeout=25)
def operations_equal_matrix_formulas(case, ctx):
    """Symmetrisation, self loops and normalisation applied to arbitrary directed edge lists (parallel
    edges, loops, no weights, tiny weights) against dense matrix formulas; non-trivial when there is an
    edge and an operation changes the matrix."""
    n = case["n"]
    ei = np.asarray(case["es"], np.int64).reshape(-1, 2).T.copy()
    w = None if case["ws"] is None else (np.asarray(case["ws"]) * case["scale"]).astype(np.float32)
    ei0, w0 = ei.copy(), None if w is None else w.copy()
    e1, w1 = symmetrize_edges(n_nodes=n, edge_index=ei, edge_weight=w, mode=case["sym"])
    require((w1 is None) == (w is None), "symmetrise: weights %s from %s", w1, w)
    if case["sym"] == "none":
        A = dense(n, ei, w)
        P = dense(n, ei, None) > 0
    else:
        A, P = sym_ref(*dense_max(n, ei, w), case["sym"])
        require(len({tuple(e) for e in e1.T.tolist()}) == e1.shape[1], "symmetrise %s: duplicate edges %s", case["sym"], e1.tolist())
        require(((dense(n, e1, None) > 0) == P).all(), "symmetrise %s: edges %s from %s", case["sym"], e1.T.tolist(), ei.T.tolist())
        got = dense(n, e1, w1)
        require((got == got.T).all(), "symmetrise %s: not symmetric: %s", case["sym"], got)
    _mat_close(dense(n, e1, w1), A, "symmetrise " + case["sym"])
    if case["loops"]:
        e2, w2 = add_self_loops(n_nodes=n, edge_index=e1, edge_weight=w1, weight=case["lw"])
        A = A.copy()
        for i in range(n):
            if not P[i, i]:
                A[i, i] = 1.0 if w1 is None else case["lw"]
        _mat_close(dense(n, e2, w2), A, "self loops")
        require((dense(n, e2, None).diagonal() >= 1).all() and e2.shape[1] == e1.shape[1] + int((~P.diagonal()).sum()), "self loops: %s", e2.tolist())
    else:
        e2, w2 = e1, w1
    changed = bool(ei.shape[1]) and not np.array_equal(A, dense(n, ei, w))
    if case["norm"] != "none" and w2 is not None:
        deg = A.sum(1)
        if case["norm"] == "rw" or (deg[e2[1]] > 0).all():       # sym is undefined when a target has no outgoing weight
            w3 = normalize_edge_weights(n_nodes=n, edge_index=e2, edge_weight=w2, mode=case["norm"])
            B = dense(n, e2, w3)
            if case["norm"] == "rw":
                rs = B.sum(1)
                require(np.allclose(rs[deg > 0], 1, atol=1e-4) and (rs[deg <= 0] == 0).all(), "rw rows sum to %s (row weights %s)", rs, deg)
            _mat_close(B, norm_ref(A, case["norm"]), "normalise " + case["norm"])
            changed = True
    else:
        require(normalize_edge_weights(n_nodes=n, edge_index=e2, edge_weight=w2, mode="none") is w2 or diff(
            normalize_edge_weights(n_nodes=n, edge_index=e2, edge_weight=w2, mode="none"), w2) is None, "normalise none changes the weights")
    require(diff(ei, ei0) is None and diff(w, w0) is None, "the inputs were modified")
    ctx.label("sym:" + case["sym"])
    ctx.nontrivial(changed)


@st.composite
def post_case(draw):
    return {"X": draw(features(max_n=14)), "metric": draw(st.sampled_from(["euclidean", "cosine"])), "scheme": draw(st.sampled_from(["knn", "knn", "epsilon"])),
            "k": draw(st.integers(1, 5)), "r": draw(st.sampled_from([0.5, 1.0, 1.5, 3.0])), "w": draw(st.sampled_from(["binary", "heat", "cosine"])),
            "sigma": draw(st.sampled_from([0.1, 0.5, 1.0, 4.0])), "sym": draw(st.sampled_from(["none", "or", "mutual"])), "loops": draw(st.booleans()),
            "norm": draw(st.sampled_from(["none", "rw", "sym"])), "backend": draw(st.sampled_from(["numpy", "sklearn"]))}


@check("G02", post_case(), quick=700, timeout=25)
def built_graph_equals_matrix_formula(case, ctx):
    """Whole builds: weight kernels against the true distances, then the chosen symmetrisation, self
    loops and normalisation against dense formulas on the raw graph of the same features; non-trivial
    when the raw graph has an edge and some post-processing is on."""
    c = dict(case["X"], scale=1.0)
    X = make_X(c)
    n = len(X)
    kind = case["w"] if not (case["w"] == "cosine" and case["metric"] != "cosine") else "heat"
    base = dict(scheme=case["scheme"], metric=case["metric"], k=case["k"], radius=case["r"], backend=case["backend"],
                weights=GraphWeightsSpec(kind, sigma=case["sigma"] if kind == "heat" else None))
    g0 = build_graph(X, spec=GraphBuilderSpec(**base, **RAW), cache=False)
    D = true_sq(X, case["metric"])[g0.edge_index[0], g0.edge_index[1]]
    w0 = g0.edge_weight.astype(float)
    if kind == "binary":
        require((w0 == 1).all(), "binary weights %s", w0)
    elif kind == "cosine":
        require(np.allclose(w0, 1 - D, atol=2e-5), "cosine weights %s, expected %s", w0, 1 - D)
    else:
        d2 = np.maximum(D, 0) ** 2 if case["metric"] == "cosine" else D
        slack = 2e-5 * max(1.0, float((X ** 2).sum(1).max(initial=0)))
        lo, hi = np.exp(-(d2 + slack) / (2 * case["sigma"] ** 2)), np.exp(-np.maximum(d2 - slack, 0) / (2 * case["sigma"] ** 2))
        require(((w0 >= lo * (1 - 1e-4) - 1e-38) & (w0 <= hi * (1 + 1e-4) + 1e-38)).all(), "heat weights %s for squared distances %s, sigma %s", w0, d2, case["sigma"])
    norm = case["norm"]
    if kind == "cosine" and (w0 <= 1e-3).any():
        norm = "none"           # normalising signed weights has no textbook meaning
    g = build_graph(X, spec=GraphBuilderSpec(**base, symmetrize=case["sym"], self_loops=case["loops"], normalize=norm), cache=False)
    require(g.directed == (case["sym"] == "none"), "directed=%s with symmetrize=%s", g.directed, case["sym"])
    A, P = sym_ref(*dense_max(n, g0.edge_index, g0.edge_weight), case["sym"])
    if case["loops"]:
        A, P = A + np.diag(1.0 * ~P.diagonal()), P | np.eye(n, dtype=bool)
    if kind == "heat" and A.size and 0 < A.sum(1)[A.sum(1) > 0].min(initial=1) < 1e-30:
        norm = None             # denormal float32 weights
    require(((dense(n, g.edge_index, None) > 0) == P).all() and (dense(n, g.edge_index, None) <= 1).all(), "edges %s, expected %s",
            sorted(g.edge_index.T.tolist()), np.argwhere(P).tolist())
    if norm is not None:
        if norm == "sym" and not (A.sum(1)[g.edge_index[1]] > 0).all():
            return
        B = dense(n, g.edge_index, g.edge_weight)
        E = norm_ref(A, norm)
        require((np.abs(B - E) <= 1e-4 * np.abs(E) + 1e-30).all(), "adjacency\n%s expected\n%s", B, E)
    ctx.nontrivial(bool(g0.n_edges) and (case["sym"] != "none" or case["loops"] or norm not in ("none", None)))
    ctx.label(kind + ":" + case["sym"] + ":" + str(norm))


# ------------------------------------------------------------------ determinism
@st.composite
def builder(draw, backends=("numpy", "sklearn", "faiss", "auto")):
    scheme = draw(st.sampled_from(["knn", "knn", "epsilon", "anchor"]))
    metric = draw(st.sampled_from(["euclidean", "cosine"]))
    b = draw(st.sampled_from(backends))
    w = draw(st.sampled_from(["binary", "heat", "cosine" if metric == "cosine" else "heat"]))
    return {"scheme": scheme, "metric": metric, "k": draw(st.integers(1, 4)), "radius": draw(st.sampled_from([0.5, 1.0, 2.0])),
            "symmetrize": draw(st.sampled_from(["none", "or", "mutual"])), "normalize": draw(st.sampled_from(["none", "rw", "sym"])) if w != "cosine" else "none",
            "self_loops": draw(st.booleans()), "backend": b if not (b == "faiss" and scheme == "epsilon") else "numpy",
            "chunk_size": draw(st.sampled_from([2, 3, 512])), "n_anchors": draw(st.one_of(st.none(), st.integers(1, 6))), "anchors_k": draw(st.integers(1, 3)),
            "anchors_method": draw(st.sampled_from(["random", "kmeans"])), "candidate_limit": draw(st.sampled_from([1000, 3])),
            "faiss_exact": draw(st.booleans()), "weights": {"kind": w, "sigma": 0.5 if w == "heat" else None}}


def bspec(d):
    d = dict(d)
    return GraphBuilderSpec(**{**d, "weights": GraphWeightsSpec(**d["weights"])})


def graph_eq(a, b):
    for f in ("n_nodes", "edge_index", "edge_weight", "directed", "meta"):
        d = diff(getattr(a, f), getattr(b, f), f)
        if d:
            return d
    return None


@st.composite
def det_case(draw):
    return {"X": draw(features(max_n=16)), "spec": draw(builder()), "seed": draw(st.integers(0, 2**31)), "other": draw(builder()), "g": draw(st.integers(0, 99)),
            "form": draw(st.sampled_from(["same", "copy", "list-roundtrip"])), "fp": draw(st.sampled_from([None, "d1"]))}


@check("G03", det_case(), quick=450, timeout=25)
def construction_is_deterministic(case, ctx):
    """The same request twice, with other builds and global random state changes in between, cached and
    not, from copies of the input: identical graphs; inputs and global random state untouched.
    Non-trivial when the graph has edges."""
    import warnings
    warnings.simplefilter("ignore")
    X = make_X(case["X"])
    X0 = X.copy()
    spec = bspec(case["spec"])
    kw = dict(spec=spec, seed=case["seed"], dataset_fingerprint=case["fp"], preprocess_fingerprint="p")
    np.random.seed(case["g"]); random.seed(case["g"]); torch.manual_seed(case["g"])
    st0 = (np.random.get_state()[1].copy(), random.getstate(), torch.random.get_rng_state().clone())
    try:
        a = build_graph(X, cache=False, **kw)
    except Exception as e:
        a = e
    st1 = (np.random.get_state()[1], random.getstate(), torch.random.get_rng_state())
    require((st0[0] == st1[0]).all() and st0[1] == st1[1] and torch.equal(st0[2], st1[2]), "building a graph changed the global random state")
    require(diff(X, X0) is None, "building a graph changed the features")
    np.random.seed(case["g"] + 1); random.seed(case["g"] + 1); torch.manual_seed(case["g"] + 1)
    np.random.rand(3)
    cd = ctx.tmp()
    for sp, sd in ((bspec(case["other"]), 3), (spec, case["seed"] + 1)):
        try:
            build_graph(X0 * 2 + 1, spec=sp, seed=sd, cache=True, cache_dir=cd)
        except Exception:
            pass
    X2 = {"same": X, "copy": X.copy(), "list-roundtrip": np.asarray(X.tolist(), X.dtype).reshape(X.shape)}[case["form"]]
    for i in range(3):
        try:
            b = build_graph(X2, cache=i > 0, cache_dir=cd, **kw)
        except Exception as e:
            b = e
        if isinstance(a, Exception) or isinstance(b, Exception):
            require(type(a) is type(b) and str(a) == str(b), "one build failed with %r, the other gave %r", a, b)
            ctx.label("error")
            continue
        d = graph_eq(a, b)
        require(d is None, "the same request gave two graphs (%s build): %s", ["uncached", "cache filling", "cached"][i], d)
        require(b.n_nodes == len(X), "n_nodes %s for %s rows", b.n_nodes, len(X))
        require(not b.n_edges or (b.edge_index.min() >= 0 and b.edge_index.max() < len(X)), "edges out of range")
        require(b.meta["seed"] == case["seed"] and b.meta["preprocess_fingerprint"] == "p" and (case["fp"] is None or b.meta["dataset_fingerprint"] == case["fp"]),
                "metadata does not describe the request: %s", b.meta)
        ctx.nontrivial(b.n_edges > 0)
    ctx.label(case["spec"]["scheme"] + ":" + case["spec"]["backend"])


# ------------------------------------------------------------------ graph cache
@st.composite
def cache_history(draw):
    n, specs = draw(st.integers(2, 9)), [draw(builder(("numpy", "sklearn")))]
    for _ in range(draw(st.integers(0, 2))):      # specifications that differ from the first in one field
        s = dict(specs[0])
        f = draw(st.sampled_from(sorted(s)))
        s[f] = draw(builder(("numpy", "sklearn")))[f]
        specs.append(s)
    ops = draw(st.lists(st.tuples(st.sampled_from(["build"] * 8 + ["mutate", "purge", "roundtrip"]), st.integers(0, 2), st.integers(0, len(specs) - 1), st.integers(0, 1),
                                  st.sampled_from([None, None, "p1", "p2"]), st.sampled_from([None, None, 1, 2, 5]), st.booleans(), st.booleans()), min_size=2, max_size=9))
    return {"n": n, "specs": specs, "ops": ops, "seed": draw(st.integers(0, 999))}


@check("G04", cache_history(), quick=450, timeout=25)
def graph_cache_is_transparent(case, ctx):
    """Histories of builds (several feature matrices differing in one entry, specifications differing
    in one field, seeds, fingerprints, shard sizes, resume on and off, purges, features changed in place)
    sharing a cache folder, each compared with an uncached build; non-trivial when a build was
    answered from the cache."""
    import warnings
    warnings.simplefilter("ignore")
    cd = ctx.tmp()
    r = np.random.default_rng(case["seed"])
    base = r.integers(-3, 4, (case["n"], 2)).astype(float)
    Xs = [base.copy(), base.copy(), base.astype(np.float32)]
    Xs[1][case["seed"] % case["n"], 1] += 1
    known, names, ver = set(), ["a", "b", "c"], [0, 0, 0]
    for op, xi, si, seed, pfp, shard, resume, named in case["ops"]:
        store = GraphCache(root=__import__("pathlib").Path(cd))
        if op == "mutate":
            Xs[xi].flat[(case["seed"] * 7 + si) % Xs[xi].size] += 1
            ver[xi] += 1
            continue
        if op == "purge":
            store.purge()
            known.clear()
            require(store.list() == [], "purge left %s", store.list())
            continue
        spec = bspec(case["specs"][si])
        kw = dict(spec=spec, seed=seed, preprocess_fingerprint=pfp, dataset_fingerprint="%s%d" % (names[xi], ver[xi]) if named else None)
        try:
            want = build_graph(Xs[xi], cache=False, **kw)
        except Exception:
            ctx.label("error")
            continue
        key = want.meta["fingerprint"]
        hit = key in known
        require(hit == store.exists(key), "cache entry exists=%s, but the history says %s", store.exists(key), hit)
        got = build_graph(Xs[xi], cache=True, cache_dir=cd, edge_shard_size=shard, resume=resume, **kw)
        d = graph_eq(want, got)
        require(d is None, "cached build (%s) differs from the uncached one: %s", "hit" if hit else "miss", d)
        known.add(key)
        require(store.list() == sorted(known), "cache lists %s, built %s", store.list(), sorted(known))
        ctx.nontrivial(hit)
        ctx.label("hit" if hit else "miss")
        got.edge_index[...] = 0             # a caller changing its result must not change the cache
        if op == "roundtrip":
            g, man = store.load(key)
            d = graph_eq(want, g)
            require(d is None, "load() differs from the built graph: %s", d)


@st.composite
def key_case(draw):
    a = draw(builder())
    f = draw(st.sampled_from(sorted(a) + ["seed", "dataset_fingerprint", "preprocess_fingerprint", "faiss_hnsw_m", "faiss_ef_search", "faiss_ef_construction", "feature_field",
                                          "sigma", "X"]))
    return {"spec": a, "field": f, "other": draw(builder()), "X": draw(features(max_n=8, min_n=2)), "cell": draw(st.integers(0, 99))}


@check("G04", key_case(), quick=500, timeout=20)
def different_requests_have_different_entries(case, ctx):
    """Two requests that differ in one field only (any specification field, a fingerprint, the seed or
    one feature value) never share a cache entry, and equal requests do; non-trivial when the field
    really differs."""
    X, f = make_X(case["X"]), case["field"]
    a, kw = dict(case["spec"], backend="numpy", anchors_method="random"), {"seed": 1, "dataset_fingerprint": "d", "preprocess_fingerprint": "p"}
    b, kw2, X2 = copy.deepcopy(a), dict(kw), X
    if f in ("seed", "dataset_fingerprint", "preprocess_fingerprint"):
        kw2[f] = 2 if f == "seed" else (None if f == "preprocess_fingerprint" and case["cell"] % 2 else "other")
    elif f in ("faiss_hnsw_m", "faiss_ef_search", "faiss_ef_construction"):
        b[f] = 77
    elif f == "feature_field":
        b[f] = "features.Z"
    elif f == "sigma":
        a["weights"], b["weights"] = {"kind": "heat", "sigma": 0.5}, {"kind": "heat", "sigma": 0.6}
    elif f == "X":
        kw["dataset_fingerprint"] = kw2["dataset_fingerprint"] = None
        X2 = X.copy()
        X2.flat[case["cell"] % X.size] += 1
    else:
        b[f] = case["other"][f]
        if f == "backend":
            b[f] = "sklearn"
        if b["weights"]["kind"] == "cosine":
            a["metric"] = b["metric"] = "cosine"
        if a["weights"]["kind"] == "cosine" and f == "metric":
            return
    same = a == b and kw == kw2 and X2 is X
    cd = ctx.tmp()
    try:
        ga = build_graph(X, spec=bspec(a), cache=True, cache_dir=cd, **kw)
        gb = build_graph(X2, spec=bspec(b), cache=True, cache_dir=cd, **kw2)
    except Exception:
        ctx.label("error")
        return
    require((ga.meta["fingerprint"] == gb.meta["fingerprint"]) == same, "requests differing in %s: fingerprints equal is %s", f, ga.meta["fingerprint"] == gb.meta["fingerprint"])
    require(len(os.listdir(cd)) == (1 if same else 2), "entries %s", os.listdir(cd))
    ctx.nontrivial(not same)
    ctx.label(f)


@st.composite
def artifact(draw):
    n = draw(st.integers(1, 9))
    m = draw(st.integers(0, 12))
    es = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=m, max_size=m))
    return {"n": n, "es": es, "w": draw(st.sampled_from([None, "int", "float"])), "directed": draw(st.booleans()),
            "meta": draw(st.sampled_from([{}, {"fingerprint": "x", "k": [1, {"a": None}]}, {"seed": 3}])), "shard": draw(st.sampled_from([None, 1, 2, 3, 5, 12, 100])), "s": draw(st.integers(0, 99))}


def make_graph(c):
    ei = np.asarray(c["es"], np.int64).reshape(-1, 2).T
    r = np.random.default_rng(c["s"])
    w = None if c["w"] is None else (r.integers(1, 5, ei.shape[1]).astype(np.float32) if c["w"] == "int" else r.random(ei.shape[1]).astype(np.float32))
    return GraphArtifact(n_nodes=c["n"], edge_index=ei, edge_weight=w, directed=c["directed"], meta=c["meta"])


@check("G04", st.lists(artifact(), min_size=1, max_size=3), quick=500, timeout=20)
def saved_graphs_load_back(case, ctx):
    """Graphs (weighted or not, empty, sharded or not) saved one over another under the same name: the
    last one loads back identical; non-trivial when it has edges."""
    import pathlib
    cd = pathlib.Path(ctx.tmp())
    for c in case:
        g = make_graph(c)
        store = GraphCache(root=cd, edge_shard_size=c["shard"])
        store.save(fingerprint="f", graph=g, manifest={"extra": 1})
        for rd in (store, GraphCache(root=cd)):
            h, man = rd.load("f")
            d = graph_eq(g, h)
            require(d is None, "loaded graph differs: %s", d)
            require(man["extra"] == 1 and man["n_nodes"] == c["n"] and man["n_edges"] == len(c["es"]), "manifest %s", man)
        ctx.nontrivial(bool(c["es"]))


# ------------------------------------------------------------------ crashes
@st.composite
def crash_case(draw):
    return {"n": draw(st.integers(3, 9)), "scheme": draw(st.sampled_from(["knn", "epsilon"])), "chunk": draw(st.sampled_from([1, 2, 4])), "shard": draw(st.sampled_from([None, 2, 4])),
            "shard2": draw(st.sampled_from([None, 3])), "seed": draw(st.integers(0, 99)), "torn": draw(st.sampled_from([None, None, 0.0, 0.5])),
            "mode": draw(st.sampled_from(["build", "build", "overwrite", "overwrite", "overwrite-other"])), "w": draw(st.sampled_from(["binary", "heat"])), "twice": draw(st.booleans())}


@check("G05", crash_case(), quick=40, timeout=60, shards=4)
def interrupted_graph_builds_recover(case, ctx):
    """The process is killed before every single file operation of a chunked build, or of a save over an
    existing entry (optionally with the last written file cut short); a later build over the folder
    returns the graph of an uninterrupted build.  Non-trivial when at least 3 crash points were tried."""
    import pathlib
    r = np.random.default_rng(case["seed"])
    X = r.integers(-3, 4, (case["n"], 2)).astype(float)
    spec = GraphBuilderSpec(scheme=case["scheme"], metric="euclidean", k=2, radius=2.0, backend="numpy", chunk_size=case["chunk"], weights=GraphWeightsSpec(case["w"], sigma=1.0))
    want = build_graph(X, spec=spec, cache=False)
    fp = want.meta["fingerprint"]
    other = want
    if case["mode"] == "overwrite-other":     # the entry previously held another layout of the same graph
        other = GraphArtifact(n_nodes=want.n_nodes, edge_index=want.edge_index, edge_weight=want.edge_weight, directed=want.directed, meta=want.meta)
    root = ctx.tmp()
    k, tried = 0, 0
    while k < 200:
        cd = os.path.join(root, "k%d" % k)
        os.mkdir(cd)
        store = GraphCache(root=pathlib.Path(cd), edge_shard_size=case["shard"])
        if case["mode"] != "build":
            GraphCache(root=pathlib.Path(cd), edge_shard_size=case["shard2"] if case["mode"] == "overwrite-other" else case["shard"]).save(
                fingerprint=fp, graph=other, manifest={"spec": spec.to_dict()})

        def work():
            if case["mode"] == "build":
                build_graph(X, spec=spec, cache=True, cache_dir=cd, edge_shard_size=case["shard"])
            else:
                store.save(fingerprint=fp, graph=want, manifest={"spec": spec.to_dict()}, overwrite=True)
        torn = case["torn"] if case["mode"] == "build" or case["torn"] is None else case["torn"]
        status, nops, msg = crash_run(work, kill_at=k, torn=torn)
        if status == "error":
            raise HarnessError("crash run failed: %s" % msg)
        if status == "crashed" and case["twice"]:
            crash_run(lambda: build_graph(X, spec=spec, cache=True, cache_dir=cd, edge_shard_size=case["shard"]), kill_at=max(1, k // 2))
        for rep in range(2):
            try:
                got = build_graph(X, spec=spec, cache=True, cache_dir=cd, edge_shard_size=case["shard"])
            except Exception as e:
                fail("after a crash before file operation %s of a %s, the next build fails: %r", k, case["mode"], e)
            d = graph_eq(want, got)
            require(d is None, "after a crash before file operation %s of a %s, build %s differs: %s", k, case["mode"], rep + 1, d)
        require(not os.path.isdir(os.path.join(cd, fp, "_work")), "work files are left after a finished build")
        shutil.rmtree(cd)
        if status == "done":
            break
        tried += 1
        k += 1
    ctx.nontrivial(tried >= 3)
    ctx.label(case["mode"])


@st.composite
def vcrash_case(draw):
    return {"g": draw(node_case()), "spec": draw(fspec()), "torn": draw(st.sampled_from([None, 0.0, 0.5])), "over": draw(st.booleans())}


# ------------------------------------------------------------------ views
@st.composite
def node_case(draw, max_n=8):
    n = draw(st.integers(1, max_n))
    m = draw(st.integers(0, 14))
    es = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=m, max_size=m))
    return {"n": n, "es": es, "w": draw(st.sampled_from([None, "int", "float"])), "d": draw(st.integers(1, 3)), "xs": draw(st.integers(0, 999)), "ws": draw(st.integers(0, 99)),
            "xdtype": draw(st.sampled_from(["float64", "float32", "int64"])), "fp": draw(st.sampled_from([None, "g"])), "wscale": draw(st.sampled_from([1.0, 1.0, 1e-8, 1e-16]))}


def node_ds(c):
    r = np.random.default_rng(c["xs"])
    X = (r.normal(size=(c["n"], c["d"])) * 3).astype(c["xdtype"])
    g = make_graph({"n": c["n"], "es": c["es"], "w": c["w"], "directed": True, "meta": {"fingerprint": c["fp"]} if c["fp"] else {}, "s": c["ws"]})
    if c["w"] and c["wscale"] != 1.0:
        g = GraphArtifact(n_nodes=g.n_nodes, edge_index=g.edge_index, edge_weight=g.edge_weight * np.float32(c["wscale"]), directed=True, meta=g.meta)
    return NodeDataset(X=X, y=r.integers(0, 3, c["n"]), graph=g, masks={"train": r.random(c["n"]) < 0.5})


@st.composite
def fspec(draw, views=None):
    v = draw(st.lists(st.sampled_from(["attr", "diffusion", "struct"]), min_size=1, max_size=3, unique=True)) if views is None else views
    return {"views": v, "diffusion_steps": draw(st.integers(0, 6)), "diffusion_alpha": draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])), "struct_method": draw(st.sampled_from(["deepwalk", "node2vec"])),
            "struct_dim": draw(st.integers(1, 10)), "walk_length": draw(st.integers(2, 6)), "num_walks_per_node": draw(st.integers(1, 3)), "window_size": draw(st.integers(1, 3)),
            "p": draw(st.sampled_from([0.25, 1.0, 4.0])), "q": draw(st.sampled_from([0.25, 1.0, 4.0]))}


def fs(d, **kw):
    return GraphFeaturizerSpec(**{**d, "views": tuple(d["views"]), **kw})


def diffusion_ref(ds, steps, alpha):
    A = dense(ds.graph.n_nodes, ds.graph.edge_index, ds.graph.edge_weight)
    P = norm_ref(A, "rw")
    X = np.asarray(ds.X, np.float64)
    H = X
    for _ in range(steps):
        H = (1 - alpha) * P @ H + alpha * X
    return H


@st.composite
def view_case(draw):
    return {"g": draw(node_case()), "spec": draw(fspec()), "seed": draw(st.integers(0, 2**31)), "gs": draw(st.integers(0, 99))}


@check("G06", view_case(), quick=900, timeout=25)
def views_equal_definitions(case, ctx):
    """Attribute view against the features, diffusion view against a dense double-precision recurrence
    (parallel edges, isolated nodes, tiny weights), structural view for shape, finiteness and dependence
    on graph and seed only; the dataset and the global random state stay untouched.  Non-trivial when the
    graph has an edge and a view other than attr was computed."""
    ds = node_ds(case["g"])
    keep = copy.deepcopy(ds)
    spec = fs(case["spec"])
    np.random.seed(case["gs"]); random.seed(case["gs"]); torch.manual_seed(case["gs"])
    s0 = (np.random.get_state()[1].copy(), random.getstate(), torch.random.get_rng_state().clone())
    out = graph_to_views(ds, spec=spec, seed=case["seed"], cache=False)
    require((np.random.get_state()[1] == s0[0]).all() and random.getstate() == s0[1] and torch.equal(torch.random.get_rng_state(), s0[2]), "computing views changed the global random state")
    for f in ("X", "y", "masks"):
        d = diff(getattr(keep, f), getattr(ds, f), f)
        require(d is None, "the dataset was modified: %s", d)
    require(graph_eq(keep.graph, ds.graph) is None, "the graph was modified")
    require(sorted(out.views) == sorted(spec.views), "views %s, requested %s", sorted(out.views), spec.views)
    require(diff(out.y, ds.y) is None and diff(out.masks, ds.masks) is None, "labels or masks differ")
    if "attr" in out.views:
        d = diff(ds.X, out.views["attr"])
        require(d is None, "attribute view: %s", d)
    if "diffusion" in out.views:
        exp = diffusion_ref(ds, spec.diffusion_steps, spec.diffusion_alpha)
        got = out.views["diffusion"]
        require(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-4, atol=1e-4), "diffusion view %s, expected %s", got, exp)
    if "struct" in out.views:
        S = out.views["struct"]
        require(S.shape == (ds.graph.n_nodes, spec.struct_dim) and np.isfinite(S).all(), "structural view %s", S)
        np.random.seed(case["gs"] + 1); random.seed(1); torch.manual_seed(7)
        ds2 = NodeDataset(X=np.asarray(ds.X) * 0 + 1, y=ds.y, graph=ds.graph)
        S2 = graph_to_views(ds2, spec=fs(case["spec"], views=("struct",)), seed=case["seed"], cache=False).views["struct"]
        require(diff(S, S2) is None, "structural view is not a function of graph and seed")
    ctx.nontrivial(ds.graph.n_edges > 0 and set(spec.views) != {"attr"})
    for v in spec.views:
        ctx.label(v)


@st.composite
def func_graph(draw):
    n = draw(st.integers(1, 7))
    nxt = draw(st.lists(st.one_of(st.none(), st.integers(0, n - 1)), min_size=n, max_size=n))
    return {"n": n, "nxt": nxt, "L": draw(st.integers(2, 7)), "walks": draw(st.integers(1, 3)), "win": draw(st.integers(1, 4)), "method": draw(st.sampled_from(["deepwalk", "node2vec"])),
            "seed": draw(st.integers(0, 999)), "dim": draw(st.integers(1, 9)), "par": draw(st.integers(1, 2))}


@check("G06", func_graph(), quick=500, timeout=20)
def struct_view_equals_ppmi_factorisation(case, ctx):
    """Graphs where every node has at most one successor, so the walks are certain: the structural view
    is compared with a reference factorisation of the positive mutual information matrix of the walk
    windows (through inner products, which no rotation changes).  Non-trivial when the matrix is not
    zero."""
    n, L, W = case["n"], case["L"], case["win"]
    es = [(i, j) for i, j in enumerate(case["nxt"]) if j is not None for _ in range(case["par"])]
    ds = node_ds({"n": n, "es": es, "w": None, "d": 1, "xs": 0, "ws": 0, "xdtype": "float64", "fp": None, "wscale": 1.0})
    spec = GraphFeaturizerSpec(views=("struct",), struct_method=case["method"], struct_dim=case["dim"], walk_length=L, num_walks_per_node=case["walks"], window_size=W)
    E = graph_to_views(ds, spec=spec, seed=case["seed"], cache=False).views["struct"].astype(float)
    C = np.zeros((n, n))
    for s in range(n):
        walk = [s]
        for _ in range(L - 1):
            j = case["nxt"][walk[-1]]
            walk.append(walk[-1] if j is None else j)
        for i in range(L):
            for j in range(max(0, i - W), min(L, i + W + 1)):
                if i != j:
                    C[walk[i], walk[j]] += case["walks"]
    tot = C.sum()
    with np.errstate(divide="ignore", invalid="ignore"):
        M = np.where(C > 0, np.log(C * tot / (C.sum(1)[:, None] * C.sum(0)[None, :])), 0)
    M = np.maximum(M, 0)
    U, S, _ = np.linalg.svd(M)
    k = min(case["dim"], n)
    ctx.nontrivial(bool((M > 1e-6).any()))
    if k < n and S[k - 1] - S[k] < 1e-3:
        ctx.label("tied singular values")
        k = 0
        require(abs((E ** 2).sum() - (S[:case["dim"]] ** 2).sum()) < 1e-3 * max(1, (S ** 2).sum()), "energy of the embedding %s, expected %s", (E ** 2).sum(), (S[:case["dim"]] ** 2).sum())
        return
    G = (U[:, :k] * S[:k] ** 2) @ U[:, :k].T
    require(np.allclose(E @ E.T, G, atol=1e-3), "inner products\n%s expected\n%s", E @ E.T, G)


@st.composite
def bias_case(draw):
    return {"kind": draw(st.sampled_from(["components", "p", "q", "q-off", "p-off"])), "m": draw(st.integers(3, 5)), "seed": draw(st.integers(0, 9999)), "method": draw(st.sampled_from(["deepwalk", "node2vec"]))}


@check("G06", bias_case(), quick=120, timeout=25)
def struct_walks_follow_the_graph(case, ctx):
    """Structural view: nodes of different components have orthogonal rows; a tiny p makes node2vec
    walks bounce between two neighbours and a huge q keeps them inside their clique, and both effects are
    absent with p = q = 1.  Always non-trivial."""
    kind, m = case["kind"], case["m"]
    kw = dict(p=1.0, q=1.0)
    method = "node2vec"
    if kind == "components":
        n = 2 * m
        es = [(i, j) for c in (0, m) for i in range(c, c + m) for j in range(c, c + m) if i != j]
        method = case["method"]
        far = [(i, j) for i in range(m) for j in range(m, n)]
    elif kind.startswith("p"):
        n = 30
        es = [(i, (i + s) % n) for i in range(n) for s in (1, -1)]
        kw["p"] = 1e-9 if kind == "p" else 1.0
        far = [(i, j) for i in range(n) for j in range(n) if min((i - j) % n, (j - i) % n) > 2]
    else:                       # a ring of cliques; neighbouring cliques share one bridge
        n, c = 8 * m, m
        es = [(i, j) for o in range(0, n, c) for i in range(o, o + c) for j in range(o, o + c) if i != j]
        es += [e for o in range(0, n, c) for i, j in [(o + c - 1, (o + c) % n)] for e in ((i, j), (j, i))]
        kw["q"] = 1e9 if kind == "q" else 1.0
        far = [(i, j) for i in range(n) for j in range(n) if min((i // c - j // c) % 8, (j // c - i // c) % 8) >= 2]
    ds = node_ds({"n": n, "es": es, "w": None, "d": 1, "xs": 0, "ws": 0, "xdtype": "float64", "fp": None, "wscale": 1.0})
    spec = GraphFeaturizerSpec(views=("struct",), struct_method=method, struct_dim=n, walk_length=12, num_walks_per_node=4, window_size=3, **kw)
    E = graph_to_views(ds, spec=spec, seed=case["seed"], cache=False).views["struct"].astype(float)
    G = np.abs(E @ E.T)
    worst = max(G[i, j] for i, j in far)
    ctx.nontrivial(True)
    ctx.label(kind)
    if kind.endswith("-off"):
        require(worst > 1e-3, "walks with p = q = 1 behave as if biased (largest far inner product %s)", worst)
    else:
        require(worst < 1e-3, "%s: nodes that walks never connect have inner product %s", kind, worst)
    require(E.any(axis=1).all(), "a node with neighbours has a zero row: %s", E)


# ------------------------------------------------------------------ views cache
@st.composite
def views_history(draw):
    g = draw(node_case(6))
    big = draw(st.integers(0, 6)) == 0
    ops = draw(st.lists(st.tuples(st.sampled_from(["get", "get", "get", "get", "x", "w", "edge", "spec", "seed", "y", "purge"]), st.integers(0, 40)), min_size=3, max_size=9))
    return {"g": g, "spec": draw(fspec()), "ops": ops, "big": big}


@check("G07", views_history(), quick=350, timeout=25)
def views_cache_is_precise(case, ctx):
    """Histories of view requests sharing a cache folder in which single features, weights, edges, labels,
    specification fields or the seed change between requests (with and without a graph fingerprint in
    the metadata, with more than 1000 edges), each compared with an uncached computation; non-trivial when
    an input changed after a request."""
    import pathlib
    cd = ctx.tmp()
    c = dict(case["g"])
    if case["big"]:
        c["es"] = [(i % c["n"], (i * 7 // 3) % c["n"]) for i in range(1100)]
        c["w"] = c["w"]
    spec = dict(case["spec"])
    if case["big"]:
        spec["views"] = ["diffusion", "attr"]
    ds = node_ds(c)
    X, ei, w, y = np.array(ds.X), np.array(ds.graph.edge_index), None if ds.graph.edge_weight is None else np.array(ds.graph.edge_weight), np.array(ds.y)
    seed, asked, changed = 0, False, False
    for op, k in [("get", 0)] + [tuple(o) for o in case["ops"]] + [("get", 0)]:
        if op == "x":
            X = X.copy()
            X.flat[k % X.size] += 1
            changed = asked
        elif op == "w" and w is not None and w.size:
            w = w.copy()
            w[-1 - k % w.size] *= 2
            changed = asked
        elif op == "edge" and ei.size:
            ei = ei.copy()
            j = -1 - k % ei.shape[1]
            ei[1, j] = (ei[1, j] + 1) % c["n"]
            changed = asked
        elif op == "y":
            y = (y + k) % 3
        elif op == "seed":
            seed = k % 3
        elif op == "spec":
            f = sorted(spec)[k % len(spec)]
            alt = {"views": ["attr"] if k % 2 else ["diffusion"], "diffusion_steps": k % 5, "diffusion_alpha": (k % 4) / 4, "struct_method": ["deepwalk", "node2vec"][k % 2], "struct_dim": 1 + k % 7,
                   "walk_length": 2 + k % 4, "num_walks_per_node": 1 + k % 3, "window_size": 1 + k % 3, "p": 0.25 + k % 3, "q": 0.5 + k % 3}
            spec[f] = alt[f]
        elif op == "purge":
            shutil.rmtree(cd)
            os.mkdir(cd)
        if op != "get":
            continue
        d2 = NodeDataset(X=X, y=y, graph=GraphArtifact(n_nodes=c["n"], edge_index=ei, edge_weight=w, meta=dict(ds.graph.meta)), masks={"m%d" % seed: y == 0})
        want = graph_to_views(d2, spec=fs(spec), seed=seed, cache=False)
        got = graph_to_views(d2, spec=fs(spec), seed=seed, cache=True, cache_dir=cd)
        for f in ("views", "y", "masks", "meta"):
            d = diff(getattr(want, f), getattr(got, f), f)
            require(d is None, "cached views differ from the uncached ones: %s", d)
        asked = True
        ctx.nontrivial(changed)


@check("G07", vcrash_case(), quick=25, timeout=60, shards=2)
def interrupted_view_saves_recover(case, ctx):
    """The process is killed before every file operation of a cached view computation, or of a save over
    an existing entry of another seed's views; later requests get the right views.  Non-trivial when at
    least 2 crash points were tried."""
    import pathlib
    ds, spec = node_ds(case["g"]), fs(case["spec"])
    want = graph_to_views(ds, spec=spec, seed=0, cache=False)
    root, k, tried = ctx.tmp(), 0, 0
    while k < 60:
        cd = os.path.join(root, "k%d" % k)
        os.mkdir(cd)
        if case["over"]:
            graph_to_views(ds, spec=spec, seed=0, cache=True, cache_dir=cd)

        def work():
            if case["over"]:
                ViewsCache(root=pathlib.Path(cd)).save(fingerprint=want.meta["fingerprint"], views=want, manifest={"seed": 0})
            else:
                graph_to_views(ds, spec=spec, seed=0, cache=True, cache_dir=cd)
        status, _, msg = crash_run(work, kill_at=k, torn=case["torn"])
        if status == "error":
            raise HarnessError("crash run failed: %s" % msg)
        for rep in range(2):
            try:
                got = graph_to_views(ds, spec=spec, seed=0, cache=True, cache_dir=cd)
            except Exception as e:
                fail("after a crash before file operation %s of a view save (over=%s), the next request fails: %r", k, case["over"], e)
            for f in ("views", "y", "masks", "meta"):
                d = diff(getattr(want, f), getattr(got, f), f)
                require(d is None, "after a crash before file operation %s of a view save: %s", k, d)
        shutil.rmtree(cd)
        if status == "done":
            break
        tried += 1
        k += 1
    ctx.nontrivial(tried >= 2)
