"""T01-T10: transductive methods, operators and solvers."""
from __future__ import annotations

import copy
import dataclasses
import gc
import itertools
import math
import random

import numpy as np
import scipy.optimize
import scipy.sparse.csgraph  # noqa: F401
import torch
import torch_geometric.data  # noqa: F401

from .core import check, fail, probe, require, st
from .eq import diff

from modssc.graph.artifacts import GraphArtifact, NodeDataset
from modssc.transductive.errors import TransductiveValidationError
from modssc.transductive.registry import available_methods, get_method_class
from modssc.transductive.types import DeviceSpec
from modssc.transductive.validation import validate_node_dataset

torch.set_num_threads(1)

GNN = ("appnp", "chebnet", "gat", "gcn", "gcnii", "grafn", "grand", "graphhop", "graphsage", "h_gcn", "n_gcn", "planetoid", "sgc")
PROP = ("label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk", "dynamic_label_propagation",
        "graph_mincuts", "p_laplace_learning", "poisson_learning", "poisson_mbo", "tsvm")
BINARY = ("lazy_random_walk", "graph_mincuts", "tsvm")
SCORES = ("poisson_learning", "laplace_learning", "dynamic_label_propagation")
CLAMPED = ("label_propagation", "laplace_learning", "dynamic_label_propagation", "graph_mincuts", "p_laplace_learning")


# ------------------------------------------------------------------- datasets
@st.composite
def graph_case(draw, max_n=10, binary=None, connected=None, undirected=None, loops=True):
    C = 2 if binary else draw(st.sampled_from([2, 2, 3]))
    return {"n": max_n - draw(st.integers(0, max_n - C - 1)), "C": C, "d": draw(st.integers(1, 3)),
            "extra": draw(st.integers(0, 14)), "connected": draw(st.sampled_from([True, True, False])) if connected is None else connected,
            "undirected": draw(st.sampled_from([True, True, False])) if undirected is None else undirected,
            "loops": draw(st.integers(0, 2)) * (draw(st.integers(0, 2)) == 0) if loops else 0,
            "dups": draw(st.sampled_from([0, 0, 1, 3, 6])),
            "weights": draw(st.sampled_from(["var", "var", "var", "ones", "none"])), "lab": draw(st.sampled_from(["one", "some", "half"])),
            "val": draw(st.booleans()), "seed": draw(st.integers(0, 10**6))}


def build(c):
    """Plain dict of arrays of the dataset described by the case."""
    r = np.random.default_rng(c["seed"])
    n, C = c["n"], c["C"]
    pairs = {}

    def add(i, j):
        w = 1.0 if c["weights"] != "var" else round(float(r.uniform(0.05, 3.0)), 3)
        pairs.setdefault((i, j), w)

    if c["connected"]:
        order = r.permutation(n)
        for k in range(1, n):
            add(int(order[k]), int(order[r.integers(0, k)]))
        if not c["undirected"]:
            for k in range(n):
                add(int(order[k]), int(order[(k + 1) % n])) if n > 1 else None
    for _ in range(c["extra"]):
        i, j = (int(v) for v in r.integers(0, n, 2))
        if i != j and not (c["undirected"] and (j, i) in pairs):
            add(i, j)
    E = []
    for (i, j), w in pairs.items():
        E.append((i, j, w))
        if c["undirected"]:
            E.append((j, i, w))
    for _ in range(c["loops"]):
        i = int(r.integers(0, n))
        E.append((i, i, 1.0 if c["weights"] != "var" else round(float(r.uniform(0.05, 3.0)), 3)))
    for _ in range(c["dups"]):
        if pairs:
            (i, j) = list(pairs)[int(r.integers(0, len(pairs)))]
            w = 1.0 if c["weights"] != "var" else round(float(r.uniform(0.05, 2.0)), 3)
            E.append((i, j, w))
            if c["undirected"]:
                E.append((j, i, w))
    E = [E[k] for k in r.permutation(len(E))]
    ei = np.array([[e[0] for e in E], [e[1] for e in E]], dtype=np.int64).reshape(2, len(E))
    ew = None if c["weights"] == "none" else np.array([e[2] for e in E], dtype=np.float64).astype(np.float32)
    y = np.concatenate([np.arange(C), r.integers(0, C, n - C)])
    y = y[r.permutation(n)].astype(np.int64)
    train = np.zeros(n, bool)
    for k in range(C):
        idx = np.flatnonzero(y == k)
        train[r.choice(idx, 1)] = True
        if c["lab"] != "one":
            train[idx[r.random(idx.size) < (0.25 if c["lab"] == "some" else 0.5)]] = True
    rest = np.flatnonzero(~train)
    masks = {"train_mask": train}
    if c["val"] and rest.size >= 2:
        vm = np.zeros(n, bool)
        vm[rest[: max(1, rest.size // 3)]] = True
        masks["val_mask"] = vm
        masks["test_mask"] = ~(train | vm)
    X = np.round(r.normal(size=(n, c["d"])) + y[:, None] * 0.7, 3).astype(np.float32)
    return {"X": X, "y": y, "ei": ei, "ew": ew, "masks": masks, "n": n, "C": C}


def dataset(g, **kw):
    g = {**g, **kw}
    return NodeDataset(X=g["X"], y=g["y"], graph=GraphArtifact(n_nodes=g["n"], edge_index=g["ei"], edge_weight=g["ew"]),
                       masks=dict(g["masks"]), meta=dict(g.get("meta") or {}))


def dense(g):
    """A[dst, src] = summed weight, in double precision."""
    A = np.zeros((g["n"], g["n"]))
    w = np.ones(g["ei"].shape[1]) if g["ew"] is None else g["ew"].astype(np.float64)
    np.add.at(A, (g["ei"][1], g["ei"][0]), w)
    return A


def onehot(g):
    Y = np.eye(g["C"])[np.clip(g["y"], 0, None)]
    Y[~g["masks"]["train_mask"]] = 0
    return Y


def degree_norm(A, mode):
    deg = np.maximum(A.sum(1), 1e-12)
    return A / deg[:, None] if mode == "rw" else A / np.sqrt(deg[:, None] * deg[None, :])


def scramble(k):
    torch.manual_seed(k)
    np.random.seed(k % 2**32)
    random.seed(k)


def dev(kind):
    return DeviceSpec(device="cpu") if kind == "spec" else kind


# ---------------------------------------------------------------------- specs
@st.composite
def params(draw, name, plain=False):
    """Small random settings of a method; plain: no dropout or sampling."""
    b, i = st.booleans(), st.integers
    f = lambda *v: draw(st.sampled_from(v))
    ep = f(0, 1, 2, 3, 6) + 1
    gnn = {"max_epochs": ep, "lr": f(0.05, 0.01, 0.2), "weight_decay": f(0.0, 5e-4, 0.01), "patience": f(1, 2, 50)}
    drop = 0.0 if plain else f(0.0, 0.5)
    hid = draw(i(1, 5))
    if name == "label_propagation":
        return {"norm": f("rw", "rw", "sym"), "max_iter": f(1, 3, 50, 200), "tol": f(1e-6, 0.0), "normalize_rows": f(True, True, False)}
    if name == "label_spreading":
        return {"alpha": f(0.99, 0.5, 0.0, 0.9), "norm": f("sym", "sym", "rw"), "max_iter": f(1, 3, 50, 200), "tol": f(1e-6, 0.0), "normalize_rows": f(True, False)}
    if name == "lazy_random_walk":
        return {"alpha": f(0.99, 0.5, 0.1, 0.9)}
    if name == "dynamic_label_propagation":
        return {"k_neighbors": f(10, 1, 2, 3), "alpha": f(0.05, 0.0, 0.5), "lambda_value": f(0.1, 0.0, 0.5), "max_iter": f(1, 2, 3, 5)}
    if name == "graph_mincuts":
        return {"capacity_scale": f(1000.0, 1000.0, 1.0, 10.0), "min_capacity": f(1, 1, 0, 50)}
    if name == "p_laplace_learning":
        return {"p": f(3.0, 2.0, 2.5, 4.0), "max_iter": f(50, 5)}
    if name == "poisson_learning":
        return {"laplacian_kind": "sym", "eps": f(1e-6, 1e-3, 0.1), "center_sources": draw(b), "backend": f("numpy", "torch", "auto")}
    if name == "poisson_mbo":
        return {"T": f(5, 1, 20), "Ninner": f(3, 1, 8), "Nouter": f(2, 1, 4), "mu": f(1.0, 0.5, 3.0), "n_volume_iters": f(4, 0, 20),
                "b_strategy": f("uniform", "labeled"), "d_tau": f(10.0, 0.3), "symmetrize": f(True, True, False), "zero_diagonal": f(True, True, False)}
    if name == "tsvm":
        return {"max_iter": f(2, 0, 1, 5), "epochs_per_iter": f(2, 1, 4), "batch_size": f(256, 1, 2, 5), "lr": f(0.1, 0.01), "C_l": f(1.0, 0.1, 2.0),
                "C_u_max": f(1.0, 0.01), "l2": f(1.0, 0.1), "balance": draw(b)}
    if name == "appnp":
        return {**gnn, "hidden_dim": hid, "dropout": drop, "k": f(2, 0, 1, 5), "alpha": f(0.1, 0.5, 0.0, 1.0), "add_self_loops": draw(b)}
    if name == "chebnet":
        return {**gnn, "hidden_dim": hid, "dropout": drop, "k": f(2, 0, 1, 3, 4), "add_self_loops": draw(b)}
    if name == "gat":
        return {**gnn, "head_dim": f(2, 1, 3), "heads": f(2, 1, 3), "dropout": drop, "negative_slope": f(0.2, 0.5), "add_self_loops": draw(b)}
    if name in ("gcn", "graphsage"):
        return {**gnn, "hidden_dim": hid, "dropout": drop, "add_self_loops": draw(b)}
    if name == "gcnii":
        return {**gnn, "hidden_dim": hid, "num_layers": f(2, 1, 3), "alpha": f(0.1, 0.5), "lam": f(0.5, 1.0), "dropout": drop, "add_self_loops": draw(b)}
    if name == "grafn":
        z = 0.0 if plain else 0.5
        return {**gnn, "hidden_dims": f([3], [2, 3], [4, 2]), "tau": f(0.1, 1.0), "thres": f(0.9, 0.3), "drop_feat_strong": z, "drop_edge_strong": z,
                "drop_feat_weak": z / 5, "drop_edge_weak": z / 5}
    if name == "grand":
        return {**gnn, "hidden_dim": hid, "mlp_dropout": drop, "dropnode": drop, "prop_steps": f(2, 0, 1, 4), "num_samples": f(2, 1, 3),
                "lambda_consistency": f(1.0, 0.0), "add_self_loops": draw(b)}
    if name == "graphhop":
        return {"hops": f(2, 1, 3), "max_iter": f(2, 0, 1, 4), "max_epochs": ep, "lr": gnn["lr"], "weight_decay": gnn["weight_decay"], "patience": f(10, 1),
                "temperature": f(0.1, 1.0), "alpha": f(1.0, 0.3), "beta": f(1.0, 0.0), "symmetrize": draw(b)}
    if name == "h_gcn":
        return {**gnn, "hidden_dim": hid, "weight_embed_dim": f(2, 1), "num_layers": f(3, 5), "channels": f(2, 1), "dropout": drop, "add_self_loops": draw(b)}
    if name == "n_gcn":
        return {**gnn, "hidden_dim": hid, "gcn_layers": f(2, 1, 3), "K": f(2, 1, 3), "r": f(2, 1), "classifier": f("fc", "attention"), "dropout": drop,
                "add_self_loops": draw(b)}
    if name == "planetoid":
        return {"embedding_dim": f(4, 2), "num_walks": f(2, 1), "walk_length": f(4, 3), "window_size": f(2, 1), "num_negative": f(2, 1), "batch_size": f(64, 5),
                "sup_batch_size": f(256, 2), "epochs": f(1, 2), "lr": f(0.05, 0.01), "p": f(1.0, 0.5), "q": f(1.0, 2.0)}
    return {}


def make(name, p=None):
    cls = get_method_class(name)
    spec = cls().spec
    p = {k: tuple(v) if isinstance(v, list) else v for k, v in (p or {}).items()}
    return cls(dataclasses.replace(spec, **p)) if p else cls()


def snapshot(d):
    return copy.deepcopy({"X": d.X, "y": d.y, "ei": d.graph.edge_index, "ew": d.graph.edge_weight, "masks": d.masks, "meta": d.meta})


@st.composite
def method_case(draw, names, plain=False, **kw):
    name = draw(st.sampled_from(names))
    need = dict(kw)
    if name in BINARY:
        need["binary"] = True
    g = draw(graph_case(**need))
    return {"m": name, "g": g, "p": draw(params(name, plain)), "dev": draw(st.sampled_from([None, "cpu", "spec"])), "seed": draw(st.integers(0, 50))}


def reach(A, train, steps=None):
    """Nodes a label can reach along the edges (within the given number of steps)."""
    r = train.copy()
    for _ in range(len(r) if steps is None else steps):
        r = r | ((A > 0) @ r)
    return r


def may_refuse(name, g, A):
    """Inputs outside the domain a method documents: it may say so with a ValueError."""
    train = g["masks"]["train_mask"]
    und = A + A.T
    off = und - np.diag(np.diag(und))
    if name in ("lazy_random_walk", "dynamic_label_propagation"):
        return bool((off.sum(1) <= 0).any())
    if name == "laplace_learning":
        return not reach(A, train).all()
    if name == "p_laplace_learning":
        return not (off[~train][:, train] > 0).any()
    if name == "poisson_mbo":
        return not (off > 0).any()
    if name == "planetoid":
        return g["ei"].shape[1] == 0 or not (off > 0).any()
    return False


@check("T01", method_case(PROP + GNN), quick=700, timeout=60, shards=3)
def every_method_answers_for_every_node(case, ctx):
    """One row per node and one column per class, finite; rows of methods that return
    probabilities are distributions (label propagation and spreading: all zero exactly for nodes no
    label has reached); labels of labeled nodes are kept by methods that clamp; the dataset is not
    modified.  Non-trivial when some node is unlabeled and the fit succeeded."""
    name, g = case["m"], build(case["g"])
    A = dense(g)
    train = g["masks"]["train_mask"]
    d = dataset(g)
    before = snapshot(d)
    m = make(name, case["p"])
    try:
        out = m.fit(d, device=dev(case["dev"]), seed=case["seed"])
    except ValueError as e:
        if may_refuse(name, g, A):
            ctx.label("refused")
            return
        raise e
    require(out is m, "fit returned %r", out)
    P = m.predict_proba(d)
    if name == "poisson_learning" and not case["g"]["undirected"] and not np.isfinite(P).all():
        ctx.label("diverged")  # conjugate gradients need the symmetric matrix of an undirected graph
        return
    require(isinstance(P, np.ndarray) and P.shape == (g["n"], g["C"]), "%s returned %s of shape %s for %s nodes and %s classes", name, type(P), np.shape(P), g["n"], g["C"])
    require(np.isfinite(P).all() or (name == "laplace_learning" and may_refuse(name, g, A)), "%s returned non-finite values %s", name, P)
    require(diff(before, snapshot(d)) is None, "%s modified the dataset: %s", name, diff(before, snapshot(d)))
    ctx.label(name)
    ctx.nontrivial((~train).any())
    if name not in SCORES and not (name == "label_propagation" and not case["p"]["normalize_rows"]) and not (name == "label_spreading" and not case["p"]["normalize_rows"]):
        require((P >= 0).all(), "%s returned negative probabilities %s", name, P)
        s = P.sum(1)
        zero = s == 0
        if name in ("label_propagation", "label_spreading"):
            steps = case["p"]["max_iter"]
            if name == "label_propagation" or case["p"]["alpha"] > 0:
                want = reach(A, train, steps)
            else:
                want = train
            if name == "label_propagation" or case["p"]["max_iter"] <= 50:
                require((zero == ~want).all(), "%s: zero rows at %s but labels reach %s", name, np.flatnonzero(zero), np.flatnonzero(want))
        else:
            require(not zero.any(), "%s returned all-zero rows %s", name, P)
        require(np.allclose(s[~zero], 1.0, atol=1e-4), "%s rows sum to %s", name, s)
    if name in CLAMPED:
        require(np.array_equal(P[train], np.eye(g["C"], dtype=np.float32)[g["y"][train]]), "%s changed given labels: %s, labels %s", name, P[train], g["y"][train])
    require(np.array_equal(P, m.predict_proba(d)), "%s: a second prediction differs", name)


@probe("T01", "dlp-overflow",
       "dynamic_label_propagation with its default spec overflows to NaN on a connected 12-node cycle "
       "(the fused matrix grows without bound over the default 30 iterations)")
def dlp_default_overflows():
    n = 12
    a = np.arange(n)
    ei = np.concatenate([np.stack([a, (a + 1) % n]), np.stack([(a + 1) % n, a])], axis=1)
    tm = np.zeros(n, bool)
    tm[[0, 6]] = True
    y = (a >= 6).astype(np.int64)
    d = NodeDataset(X=np.ones((n, 1), np.float32), y=y, graph=GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=None), masks={"train_mask": tm}, meta={})
    with np.errstate(all="ignore"):
        P = make("dynamic_label_propagation").fit(d, device=DeviceSpec(device="cpu"), seed=0).predict_proba(d)
    return not np.isfinite(P).all()


# -------------------------------------------------------- T02 dense references
def close(got, want, tol, what, *args):
    err = np.abs(got - want).max(initial=0.0)
    require(np.isfinite(got).all() and err <= tol * max(1.0, np.abs(want).max(initial=0.0)), what + ": off by %s\n got %s\nwant %s", *args, err, got, want)


def run_prop(name, g, p, device=None, seed=0):
    d = dataset(g)
    return make(name, p).fit(d, device=dev(device), seed=seed).predict_proba(d).astype(np.float64)


@st.composite
def diffusion_case(draw):
    name = draw(st.sampled_from(["label_propagation", "label_spreading"]))
    norm = draw(st.sampled_from(["rw", "sym"]))
    g = draw(graph_case(undirected=True if norm == "sym" else None))
    return {"m": name, "g": g, "norm": norm, "k": draw(st.sampled_from([1, 2, 3, 5, 9])), "rows": draw(st.booleans()), "alpha": draw(st.sampled_from([0.99, 0.0, 0.5, 0.9])),
            "mode": draw(st.sampled_from(["steps", "limit"])), "dev": draw(st.sampled_from([None, "cpu"]))}


@check("T02", diffusion_case(), quick=500, timeout=20, shards=2)
def propagation_and_spreading_equal_dense_iteration(case, ctx):
    """A fixed number of steps equals the dense double precision iteration
    F <- P F (labeled rows reset) or F <- a S F + (1-a) Y; run to convergence, label propagation is
    the harmonic solution on the nodes labels reach and spreading without row normalisation is
    (1-a)(I-aS)^-1 Y.  Non-trivial when some unlabeled node gets information."""
    g = build(case["g"])
    A, Y, train = dense(g), onehot(g), g["masks"]["train_mask"]
    W = degree_norm(A, case["norm"])
    lp = case["m"] == "label_propagation"
    p = {"norm": case["norm"], "normalize_rows": case["rows"]}
    if not lp:
        p["alpha"] = case["alpha"]
    a = case["alpha"]
    R = reach(A, train)
    ctx.nontrivial((R & ~train).any())
    ctx.label(case["m"])
    if case["mode"] == "steps":
        got = run_prop(case["m"], g, {**p, "max_iter": case["k"], "tol": 0.0}, case["dev"])
        F = Y.copy()
        for _ in range(case["k"]):
            F2 = W @ F if lp else a * (W @ F) + (1 - a) * Y
            if lp:
                F2[train] = Y[train]
            if case["rows"]:
                s = F2.sum(1, keepdims=True)
                F2 = F2 / np.where(s > 0, s, 1.0)
            done = np.array_equal(F2, F)
            F = F2
            if done:
                break
        close(got, F, 2e-5, "%s after %s steps", case["m"], case["k"])
        return
    ctx.label("limit")
    U = R & ~train
    if lp:
        if case["norm"] == "sym" or not U.any():
            return
        Q = A.copy()
        Q[:, ~R] = 0
        if not case["rows"] and (A[U][:, ~R] > 0).any():
            Q = A.copy()
        deg = Q[U].sum(1)
        if case["rows"]:
            Q = Q[U] / deg[:, None]
        else:
            Q = A[U] / np.maximum(A[U].sum(1), 1e-12)[:, None]
        Quu, Qul = Q[:, U], Q[:, train]
        if np.abs(np.linalg.eigvals(Quu)).max(initial=0) > 0.97:
            ctx.label("slow")
            return
        F = Y.copy()
        F[U] = np.linalg.solve(np.eye(U.sum()) - Quu, Qul @ Y[train])
    else:
        if case["rows"] or np.abs(a * np.linalg.eigvals(W)).max() > 0.97:
            return
        F = np.linalg.solve(np.eye(g["n"]) - a * W, (1 - a) * Y)
    got = run_prop(case["m"], g, {**p, "max_iter": 3000, "tol": 1e-7}, case["dev"])
    close(got, F, 3e-4, "%s at convergence", case["m"])


@st.composite
def linear_case(draw):
    name = draw(st.sampled_from(["laplace_learning", "poisson_learning", "poisson_learning", "lazy_random_walk", "dynamic_label_propagation"]))
    need = {"connected": draw(st.sampled_from([True, True, True, False]))}
    if name == "poisson_learning":
        need = {"connected": True, "undirected": True}
    return {"m": name, "g": draw(graph_case(binary=name in BINARY, **need)), "p": draw(params(name)), "dev": draw(st.sampled_from([None, "cpu"]))}


@check("T02", linear_case(), quick=500, timeout=20, shards=2)
def linear_methods_solve_their_equations(case, ctx):
    """Laplace learning: (D-W)_UU F = W_UL Y; Poisson learning: (L + eps I + 11^T/n) F = B; lazy
    random walk: sign of (I - a S)^-1 y (near ties skipped); dynamic label propagation: its dense
    double precision iteration (kNN ties skipped).  Non-trivial when the method answered and some
    node is unlabeled."""
    name, g, p = case["m"], build(case["g"]), case["p"]
    A, Y, train = dense(g), onehot(g), g["masks"]["train_mask"]
    n = g["n"]
    if may_refuse(name, g, A):
        if name == "laplace_learning":
            return
        try:
            run_prop(name, g, p, case["dev"])
        except ValueError:
            ctx.label("refused")
            return
        fail("%s accepted an isolated node", name)
    got = run_prop(name, g, p, case["dev"])
    ctx.label(name)
    ctx.nontrivial((~train).any())
    S0 = 0.5 * (A + A.T)
    np.fill_diagonal(S0, 0.0)
    if name == "laplace_learning":
        F, U = Y.copy(), ~train
        if U.any():
            L = np.diag(A.sum(1)) - A
            if np.linalg.cond(L[np.ix_(U, U)]) > 1e4:
                return
            F[U] = np.linalg.solve(L[np.ix_(U, U)], A[np.ix_(U, train)] @ Y[train])
        close(got, F, 1e-3, "Laplace learning")
    elif name == "poisson_learning":
        S = degree_norm(A, p["laplacian_kind"])
        M = np.eye(n) - S + p["eps"] * np.eye(n) + np.ones((n, n)) / n
        B = np.zeros_like(Y)
        if p["center_sources"]:
            B[train] = Y[train] - Y[train].mean(0)
        else:
            B = Y - Y.mean(0)
        if np.linalg.cond(M) > 300:
            return
        close(got, np.linalg.solve(M, B), 1e-3, "Poisson learning")
    elif name == "lazy_random_walk":
        deg = S0.sum(1)
        S = S0 / np.sqrt(deg[:, None] * deg[None, :])
        y = np.where(train, np.where(g["y"] == 1, 1.0, -1.0), 0.0)
        f = np.linalg.solve(np.eye(n) - p["alpha"] * S, y)
        ok = np.abs(f) > 1e-3 * np.abs(f).max()
        want = np.stack([f < 0, f >= 0], 1).astype(float)
        require(np.array_equal(got[ok], want[ok]), "lazy random walk: got %s, solution %s", got, f)
    else:
        deg = S0.sum(1)
        P0 = S0 / deg[:, None]
        k = p["k_neighbors"]
        if k < n:
            P = np.zeros_like(P0)
            for i in range(n):
                row = P0[i].copy()
                row[i] = -np.inf
                order = np.argsort(-row, kind="stable")
                if k < n - 1 and row[order[k - 1]] > 0 and row[order[k - 1]] - row[order[k]] < 1e-6:
                    ctx.label("kNN tie")
                    return
                P[i, order[:k]] = P0[i, order[:k]]
                P[i] /= P[i].sum()
        else:
            P = P0.copy()
        Pt, Yt = P0.copy(), Y.copy()
        for _ in range(p["max_iter"]):
            Yn = Pt @ Yt
            Yn[train] = Y[train]
            Pt = P @ (Pt + p["alpha"] * Yt @ Yt.T) @ P.T + p["lambda_value"] * np.eye(n)
            Yt = Yn
        close(got, Yt, 1e-4, "dynamic label propagation")


@st.composite
def pde_case(draw):
    name = draw(st.sampled_from(["p_laplace_learning", "poisson_mbo"]))
    g = draw(graph_case(max_n=9, connected=True if name == "p_laplace_learning" else None, undirected=True))
    return {"m": name, "g": g, "p": draw(params(name))}


@check("T02", pde_case(), quick=250, timeout=60, shards=2)
def nonlinear_pde_methods_equal_their_references(case, ctx):
    """p-Laplace learning returns the softmax of the minimiser of sum w_ij |u_i-u_j|^p with labels
    fixed (found independently by a quasi-Newton search in double precision); Poisson MBO equals its
    dense double precision iteration (near ties of the projection skipped).  Non-trivial when some
    node is unlabeled and no tie was met."""
    name, g, p = case["m"], build(case["g"]), dict(case["p"])
    A, Y, train = dense(g), onehot(g), g["masks"]["train_mask"]
    n, C = g["n"], g["C"]
    if may_refuse(name, g, A):
        return
    if name == "p_laplace_learning":
        p["max_iter"] = 200
        got = run_prop(name, g, p)
        W = A + A.T
        np.fill_diagonal(W, 0)
        U = ~train
        if not U.any():
            require(np.array_equal(got, Y), "labels changed")
            return
        i, j = np.nonzero(np.triu(W))
        w = W[i, j]
        cols, start = [], []

        def energy(u):
            return float((w * np.abs(u[i] - u[j]) ** p["p"]).sum())

        for c in range(C):
            def f(z):
                u = Y[:, c].copy()
                u[U] = z
                dlt = u[i] - u[j]
                gr = np.zeros(n)
                t = p["p"] * w * np.abs(dlt) ** (p["p"] - 1) * np.sign(dlt)
                np.add.at(gr, i, t)
                np.add.at(gr, j, -t)
                return energy(u), gr[U]
            z0 = np.linalg.lstsq((np.diag(W.sum(1)) - W)[np.ix_(U, U)], W[np.ix_(U, train)] @ Y[train, c], rcond=None)[0]
            r = scipy.optimize.minimize(f, z0, jac=True, method="L-BFGS-B", options={"maxiter": 5000, "ftol": 1e-16, "gtol": 1e-12})
            cols.append(r.x)
            start.append(z0)
        if C == 2:
            # u_1 = 1 - u_0, so the log odds give the solution itself: compare how well it minimises
            u = Y[:, 0].copy()
            with np.errstate(divide="ignore"):
                u[U] = (1 + np.log(got[U, 0].astype(float)) - np.log(got[U, 1].astype(float))) / 2
            best, lin = Y[:, 0].copy(), Y[:, 0].copy()
            best[U], lin[U] = cols[0], start[0]
            require(energy(u) <= energy(best) * 1.005 + 0.03 * max(energy(lin) - energy(best), 0) + 1e-7,
                    "p=%s: the energy of the returned solution is %s, the least possible %s (linear start %s)",
                    p["p"], energy(u), energy(best), energy(lin))
            ctx.nontrivial()
            return
        u = np.stack(cols, 1)
        ex = np.exp(u - u.max(1, keepdims=True))
        want = Y.copy()
        want[U] = ex / ex.sum(1, keepdims=True)
        close(got, want, 1e-2 if p["p"] <= 3 else 3e-2, "p-Laplace learning (p=%s)", p["p"])
        ctx.nontrivial()
        return
    got = run_prop(name, g, p)
    W = A + A.T if p["symmetrize"] else A.copy()
    if p["zero_diagonal"]:
        np.fill_diagonal(W, 0)
    deg = W.sum(1)
    ybar = Y[train].mean(0)
    B = np.where(train[:, None], Y - ybar, 0.0)
    b = np.full(C, 1 / C) if p["b_strategy"] == "uniform" else ybar
    U = np.zeros((n, C))
    inv = np.divide(1.0, deg, out=np.zeros(n), where=deg > 0)
    for _ in range(p["T"]):
        U = U + inv[:, None] * (B - (deg[:, None] * U - W @ U))
    U = U * (b / ybar)
    tie = [False]

    def proj(V):
        srt = np.sort(V, 1)
        if ((srt[:, -1] - srt[:, -2] < 1e-4 * max(1e-3, np.abs(V).max())) & (V != 0).any(1)).any():
            tie[0] = True
        return np.eye(C)[V.argmax(1)]

    for _ in range(p["Nouter"]):
        for _ in range(p["Ninner"]):
            U = U - (deg[:, None] * U - W @ U - p["mu"] * B) / deg.max()
        s = np.ones(C)
        for _ in range(p["n_volume_iters"]):
            s = np.clip(s + p["d_tau"] * (b - proj(U * s).mean(0)), 0.5, 2.0)
        U = proj(U * s)
    if tie[0]:
        ctx.label("tie")
        return
    require(np.array_equal(got, U), "Poisson MBO: got %s want %s", got, U)
    ctx.nontrivial((~train).any())


@st.composite
def tsvm_case(draw):
    return {"g": draw(graph_case(binary=True)), "p": draw(params("tsvm")), "seed": draw(st.integers(0, 50)), "um": draw(st.sampled_from(["absent", "rest", "some"]))}


@check("T02", tsvm_case(), quick=200, timeout=20)
def tsvm_trains_as_described(case, ctx):
    """With full batches, the transductive SVM equals a dense double precision reference: hinge
    descent on labeled nodes, then rounds of labelling the unlabeled ones (balanced when all on one
    side) with growing weight.  The initial weights are read off a fit of zero epochs.  Scores or
    margins near a threshold are skipped.  Non-trivial when some round used unlabeled nodes."""
    g, p = build(case["g"]), dict(case["p"])
    p["batch_size"] = 100000
    train = g["masks"]["train_mask"]
    um = ~train
    if case["um"] != "absent":
        if case["um"] == "some":
            um = um & (np.arange(g["n"]) % 2 == 0)
        g["masks"] = {**g["masks"], "unlabeled_mask": um}
    d = dataset(g)
    m0 = make("tsvm", {**p, "epochs_per_iter": 0}).fit(d, seed=case["seed"])
    probe_X = np.vstack([np.zeros((1, g["X"].shape[1])), np.eye(g["X"].shape[1])]).astype(np.float32)

    def scores(m, X):
        q = m.predict_proba(type("D", (), {"X": X})()).astype(np.float64)
        return np.log(q[:, 1]) - np.log(q[:, 0])

    z = scores(m0, probe_X)
    w, b = z[1:] - z[0], z[0]
    X, y = g["X"].astype(np.float64), np.where(g["y"] == 1, 1.0, -1.0)
    near = [False]

    def sgd(Xs, ys, C):
        nonlocal w, b
        for _ in range(p["epochs_per_iter"]):
            mg = ys * (Xs @ w + b)
            near[0] |= bool((np.abs(mg - 1) < 1e-4).any())
            act = mg < 1
            gw, gb = w * p["l2"], 0.0
            if act.any():
                gw = gw - C * Xs[act].T @ ys[act] / act.sum()
                gb = -C * ys[act].mean()
            w, b = w - p["lr"] * gw, b - p["lr"] * gb

    sgd(X[train], y[train], p["C_l"])
    cu = 1e-3
    for _ in range(p["max_iter"]):
        if not um.any():
            break
        s = X[um] @ w + b
        yu = np.where(s >= 0, 1.0, -1.0)
        near[0] |= bool((np.abs(s) < 1e-5).any())
        if p["balance"] and abs(yu.sum()) == yu.size:
            o = np.argsort(np.abs(s), kind="stable")
            near[0] |= bool((np.diff(np.sort(np.abs(s))) < 1e-5).any())
            yu[o[: o.size // 2]] = -1.0
            yu[o[o.size // 2:]] = 1.0
        rep = int(max(1, round(p["C_l"] / max(cu, 1e-6))))
        sgd(np.vstack([np.repeat(X[train], rep, 0), X[um]]), np.concatenate([np.repeat(y[train], rep), yu]), max(cu, 1e-6))
        cu = min(p["C_u_max"], cu * 10)
    if near[0]:
        ctx.label("near a threshold")
        return
    m = make("tsvm", p).fit(d, seed=case["seed"])
    close(scores(m, g["X"]), X @ w + b, 2e-3, "TSVM scores")
    ctx.nontrivial(um.any() and p["max_iter"] > 0)


# ---------------------------------------------------------------- T03 backends
def _functions(name):
    import importlib

    if name == "poisson_learning":
        mod = importlib.import_module("modssc.transductive.methods.pde.poisson_learning")
    else:
        mod = importlib.import_module("modssc.transductive.methods.classic." + name)
    return mod


@st.composite
def parity_case(draw):
    name = draw(st.sampled_from(["label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk", "dynamic_label_propagation", "poisson_learning"]))
    p = draw(params(name))
    need = {"undirected": True, "connected": True} if name == "poisson_learning" else ({"undirected": True} if p.get("norm") == "sym" else {})
    if name in ("laplace_learning", "lazy_random_walk", "dynamic_label_propagation"):
        need["connected"] = True
    return {"m": name, "g": draw(graph_case(binary=name in BINARY, **need)), "p": p}


@check("T03", parity_case(), quick=600, timeout=20, shards=2)
def numpy_and_torch_agree(case, ctx):
    """The numpy and the torch implementation of a method called on the same arrays return the
    same scores (ill-conditioned systems, ties of the lazy walk and kNN ties are skipped) and both refuse or both
    accept.  Non-trivial when both answered and some node is unlabeled."""
    name, g, p = case["m"], build(case["g"]), dict(case["p"])
    A, train = dense(g), g["masks"]["train_mask"]
    mod = _functions(name)
    fn = getattr(mod, name)
    spec = dataclasses.replace(make(name).spec, **{k: v for k, v in p.items() if k != "backend"}) if p else make(name).spec
    kw = dict(n_nodes=g["n"], edge_index=g["ei"], edge_weight=g["ew"], y=g["y"], labeled_mask=train)
    out = {}
    for b in ("numpy", "torch"):
        try:
            if name == "poisson_learning":
                out[b] = fn(**kw, spec=dataclasses.replace(spec, backend=b))
            else:
                out[b] = fn(**kw, spec=spec, backend=b, device="cpu" if b == "torch" else None)
        except ValueError as e:
            out[b] = e
    bad = [b for b in out if isinstance(out[b], Exception)]
    if bad:
        require(len(bad) == 2, "%s: %s refused (%s) while the other accepted", name, bad, out[bad[0]])
        ctx.label("refused")
        return
    a, t = (np.asarray(out[b].F, dtype=np.float64) for b in ("numpy", "torch"))
    require(a.shape == t.shape, "%s: shapes %s and %s", name, a.shape, t.shape)
    ctx.label(name)
    S0 = 0.5 * (A + A.T)
    np.fill_diagonal(S0, 0)
    if name == "laplace_learning":
        U = ~train
        if U.any() and np.linalg.cond((np.diag(A.sum(1)) - A)[np.ix_(U, U)]) > 1e4:
            return
    if name == "poisson_learning":
        if np.linalg.cond(np.eye(g["n"]) - degree_norm(A, "sym") + np.ones((g["n"],) * 2) / g["n"]) > 300:
            return
    if name == "lazy_random_walk":
        deg = S0.sum(1)
        f = np.linalg.solve(np.eye(g["n"]) - p["alpha"] * S0 / np.sqrt(np.outer(deg, deg)), np.where(train, np.where(g["y"] == 1, 1.0, -1.0), 0.0))
        keep = np.abs(f) > 1e-3 * np.abs(f).max()
        a, t = a[keep], t[keep]
    if name == "dynamic_label_propagation" and p["k_neighbors"] < g["n"] - 1:
        P0 = np.sort(np.where(np.eye(g["n"]) > 0, -1, S0 / S0.sum(1, keepdims=True)), 1)[:, ::-1]
        k = p["k_neighbors"]
        if ((P0[:, k - 1] > 0) & (P0[:, k - 1] - P0[:, k] < 1e-6)).any():
            ctx.label("kNN tie")
            return
    close(t, a, 2e-3 if name in ("laplace_learning", "poisson_learning") else 1e-4, "%s torch against numpy", name)
    ctx.nontrivial((~train).any())


# -------------------------------------------------------------- T04 renumbering
RENUM = tuple(m for m in PROP if m != "tsvm") + tuple(m for m in GNN if m not in ("h_gcn", "planetoid"))


@st.composite
def renumber_case(draw):
    c = draw(method_case(RENUM, plain=True, connected=True))
    c["perm"] = draw(st.integers(0, 10**6))
    return c


@check("T04", renumber_case(), quick=500, timeout=60, shards=2)
def renumbering_nodes_permutes_predictions(case, ctx):
    """Renumbering the nodes and shuffling the edge list permutes the predictions.  Graph neural
    methods are compared with a learning rate of zero (their training is T10), so that rounding is not
    amplified; results of hard decisions (mincuts, lazy walk, MBO) are compared where the dense
    reference is not near a tie.  Non-trivial when the renumbering moves some node."""
    name, g, p = case["m"], build(case["g"]), dict(case["p"])
    A = dense(g)
    if may_refuse(name, g, A):
        return
    if name in GNN:
        p.update(lr=0.0, max_epochs=1)
    if name == "n_gcn" and not case["g"]["undirected"]:
        p["symmetrize"] = True
    if name in ("label_propagation", "label_spreading") and p["norm"] == "sym" and not case["g"]["undirected"]:
        p["norm"] = "rw"
    if name == "poisson_learning" and not case["g"]["undirected"]:
        return
    if name == "poisson_learning":
        if np.linalg.cond(np.eye(g["n"]) - degree_norm(A, "sym") + np.ones((g["n"],) * 2) / g["n"]) > 300:
            return
    if name == "laplace_learning":
        U = ~g["masks"]["train_mask"]
        if U.any() and np.linalg.cond((np.diag(A.sum(1)) - A)[np.ix_(U, U)]) > 1e4:
            return
    r = np.random.default_rng(case["perm"])
    n, E = g["n"], g["ei"].shape[1]
    perm, eo = r.permutation(n), r.permutation(E)  # new node perm[i] is old node i
    inv = np.argsort(perm)
    h = {**g, "X": g["X"][inv], "y": g["y"][inv], "ei": perm[g["ei"]][:, eo], "ew": None if g["ew"] is None else g["ew"][eo],
         "masks": {k: v[inv] for k, v in g["masks"].items()}}
    a, b = run_prop(name, g, p, case["dev"], case["seed"]), run_prop(name, h, p, case["dev"], case["seed"])
    ctx.label(name)
    b = b[perm]
    rows = np.ones(n, bool)
    if name in ("graph_mincuts",):
        # several minimum cuts may exist: the code returns the smallest source side, which is unique
        pass
    elif name in ("lazy_random_walk", "poisson_mbo", "dynamic_label_propagation"):
        S0 = 0.5 * (A + A.T)
        np.fill_diagonal(S0, 0)
        train = g["masks"]["train_mask"]
        if name == "lazy_random_walk":
            deg = S0.sum(1)
            f = np.linalg.solve(np.eye(n) - p["alpha"] * S0 / np.sqrt(np.outer(deg, deg)), np.where(train, np.where(g["y"] == 1, 1.0, -1.0), 0.0))
            rows = np.abs(f) > 1e-3 * np.abs(f).max()
        elif name == "dynamic_label_propagation" and p["k_neighbors"] < n - 1:
            P0 = np.sort(np.where(np.eye(n) > 0, -1, S0 / S0.sum(1, keepdims=True)), 1)[:, ::-1]
            k = p["k_neighbors"]
            if ((P0[:, k - 1] > 0) & (P0[:, k - 1] - P0[:, k] < 1e-6)).any():
                return
        elif name == "poisson_mbo" and case["g"]["weights"] != "var":
            return
        elif name == "poisson_mbo":
            if not np.array_equal(a, b):
                ctx.label("mbo differs")
                return
    tol = 2e-3 if name in ("laplace_learning", "poisson_learning", "p_laplace_learning") else 2e-4
    err = np.abs(a[rows] - b[rows]).max(initial=0) / max(1.0, np.abs(a).max())
    require(err <= tol, "%s: predictions do not follow the renumbering (off by %s)\n%s\n%s", name, err, a, b)
    ctx.nontrivial((perm != np.arange(n)).any())


# ------------------------------------------------------------- T05 hidden labels
@st.composite
def hidden_case(draw):
    c = draw(method_case(PROP + GNN))
    c["how"] = draw(st.sampled_from(["shuffle", "minus", "some minus", "constant"]))
    c["hs"] = draw(st.integers(0, 10**6))
    return c


@check("T05", hidden_case(), quick=600, timeout=60, shards=3)
def hidden_labels_do_not_matter(case, ctx):
    """Permuting, overwriting or hiding (-1) the labels of nodes that are neither training nor
    validation nodes leaves every prediction bitwise unchanged.  Non-trivial when some label changed."""
    name, g = case["m"], build(case["g"])
    if may_refuse(name, g, dense(g)):
        return
    tr = g["masks"]["train_mask"]
    free = ~tr
    if name in GNN and "val_mask" in g["masks"]:
        free = free & ~g["masks"]["val_mask"]
    r = np.random.default_rng(case["hs"])
    y2 = g["y"].copy()
    idx = np.flatnonzero(free)
    if case["how"] == "shuffle":
        y2[idx] = r.integers(0, g["C"], idx.size)
    elif case["how"] == "constant":
        y2[idx] = int(r.integers(0, g["C"]))
    elif case["how"] == "minus":
        y2[idx] = -1
    else:
        y2[idx[r.random(idx.size) < 0.5]] = -1
    if name == "poisson_mbo":
        require(case["p"]["b_strategy"] != "true", "generator")
    a = run_prop(name, g, case["p"], case["dev"], case["seed"])
    b = run_prop(name, {**g, "y": y2}, case["p"], case["dev"], case["seed"])
    require(np.array_equal(a, b, equal_nan=True), "%s: hidden labels %s -> %s changed the predictions by %s", name, g["y"], y2, np.abs(a - b).max())
    ctx.label(name)
    ctx.nontrivial(not np.array_equal(g["y"], y2))


# ---------------------------------------------------------------- T06 operators
@st.composite
def operator_case(draw):
    return {"g": draw(graph_case(max_n=12, connected=False if draw(st.booleans()) else None)), "vec": draw(st.booleans()), "cols": draw(st.integers(1, 3)),
            "xd": draw(st.sampled_from(["float32", "float64", "int64"])), "mode": draw(st.sampled_from(["rw", "sym", "none"])), "alpha": draw(st.sampled_from([0.99, 0.5, 0.0])),
            "rows": draw(st.booleans()), "it": draw(st.sampled_from([1, 2, 5, 20])), "seed": draw(st.integers(0, 10**6)), "torch": draw(st.booleans()),
            "dt": draw(st.sampled_from(["float32", "float64"]))}


@check("T06", operator_case(), quick=500, timeout=20, shards=2)
def operators_equal_dense_matrices(case, ctx):
    """Products, degree normalisation, Laplacian operators, fixed-point diffusion and the conjugate
    gradient solver, numpy and torch, against dense double precision matrices (A[dst, src] = w,
    duplicates add up).  Non-trivial when the graph has an edge."""
    from modssc.transductive.backends import numpy_backend as nb, torch_backend as tb
    from modssc.transductive.methods import utils as mu
    from modssc.transductive.methods.gnn import common as gc_
    from modssc.transductive.operators import clamp, laplacian, normalize, spmm as sp
    from modssc.transductive.solvers import cg, fixed_point

    g = build(case["g"])
    A, n = dense(g), g["n"]
    r = np.random.default_rng(case["seed"])
    shape = (n,) if case["vec"] else (n, case["cols"])
    X = r.integers(-4, 5, shape).astype("int64") if case["xd"] == "int64" else r.normal(size=shape).astype(case["xd"])
    ds = DeviceSpec(device="cpu", dtype=case["dt"])
    ei, ew = g["ei"], g["ew"]
    w1 = np.ones(ei.shape[1], np.float32) if ew is None else ew
    ctx.nontrivial(ei.shape[1] > 0)
    tol = 1e-5
    num = lambda t: t.detach().cpu().numpy().astype(np.float64)
    close(np.asarray(sp.spmm_numpy(n_nodes=n, edge_index=ei, edge_weight=ew, X=X), float), A @ X, tol, "spmm_numpy")
    close(num(sp.spmm_torch(n_nodes=n, edge_index=ei, edge_weight=ew, X=X, device=ds)), A @ X, tol, "spmm_torch")
    X2 = X.reshape(n, -1).astype(np.float32)
    if ei.shape[1] or True:
        close(mu.spmm_numpy(n_nodes=n, edge_index=ei, edge_weight=w1, X=X2).astype(float), A @ X2, tol, "methods.spmm_numpy")
        T = lambda a, dt=None: torch.as_tensor(a) if dt is None else torch.as_tensor(a, dtype=dt)
        close(num(mu.spmm_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w1), X=T(X2))), A @ X2, tol, "methods.spmm_torch")
        close(num(gc_.spmm(T(ei), T(w1), T(X2), n_nodes=n)), A @ X2, tol, "gnn spmm")
        close(mu.degrees_numpy(n_nodes=n, edge_index=ei, edge_weight=w1).astype(float), A.sum(1), tol, "degrees_numpy")
        close(num(mu.degrees_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w1))), A.sum(1), tol, "degrees_torch")
        ce, cw = gc_.coalesce_edges(T(ei), T(w1), n_nodes=n)
        M = np.zeros((n, n))
        M[num(ce)[1].astype(int), num(ce)[0].astype(int)] = num(cw)
        close(M, A, tol, "coalesce_edges")
        require(len(set(zip(*num(ce).tolist()))) == ce.shape[1], "coalesce_edges left duplicates")
        le, lw = gc_.add_self_loops_coalesce(T(ei), T(w1), n_nodes=n, fill_value=0.7)
        M = np.zeros((n, n))
        np.add.at(M, (num(le)[1].astype(int), num(le)[0].astype(int)), num(lw))
        close(M, A + 0.7 * np.eye(n), tol, "add_self_loops_coalesce")
    mode = case["mode"]
    # 'sym' divides by the degree of the source node: keep to sources that have one
    deg = A.sum(1)
    ok = mode != "sym" or (deg[ei[0]] > 0).all() if ei.size else True
    if ok:
        N = A if mode == "none" else degree_norm(A, mode)

        def as_dense(w):
            M = np.zeros((n, n))
            np.add.at(M, (ei[1], ei[0]), np.asarray(w, dtype=np.float64))
            return M

        close(as_dense(normalize.normalize_edges_numpy(n_nodes=n, edge_index=ei, edge_weight=ew, mode=mode)), N, tol, "normalize_edges_numpy %s", mode)
        close(as_dense(num(normalize.normalize_edges_torch(n_nodes=n, edge_index=ei, edge_weight=ew, mode=mode, device=ds))), N, tol, "normalize_edges_torch %s", mode)
        if mode != "none":
            close(as_dense(mu.normalize_edge_weight_numpy(n_nodes=n, edge_index=ei, edge_weight=w1, mode=mode)), N, tol, "normalize_edge_weight_numpy %s", mode)
            close(as_dense(num(mu.normalize_edge_weight_torch(n_nodes=n, edge_index=T(ei), edge_weight=T(w1), mode=mode))), N, tol, "normalize_edge_weight_torch %s", mode)
            close(as_dense(num(gc_.normalize_edge_weight(edge_index=T(ei), edge_weight=T(w1), n_nodes=n, mode=mode))), N, tol, "gnn normalize_edge_weight %s", mode)
            Xf = X.astype(np.float64)
            L = np.eye(n) - N
            close(np.asarray(laplacian.laplacian_matvec_numpy(n_nodes=n, edge_index=ei, edge_weight=ew, kind=mode)(X), float), L @ Xf, tol, "laplacian_matvec_numpy %s", mode)
            mv = laplacian.laplacian_matvec_torch(n_nodes=n, edge_index=ei, edge_weight=ew, device=ds, kind=mode)
            close(num(mv(torch.as_tensor(X, dtype=getattr(torch, case["dt"])))), L @ Xf, tol, "laplacian_matvec_torch %s", mode)
        Y, tm = onehot(g), g["masks"]["train_mask"]
        F = Y.copy()
        a = case["alpha"]
        for _ in range(case["it"]):
            F2 = a * (N @ F) + (1 - a) * Y
            F2[tm] = Y[tm]
            if case["rows"]:
                F2 = F2 / np.maximum(F2.sum(1, keepdims=True), 1e-12)
            same = np.array_equal(F2, F)
            F = F2
            if same:
                break
        kw = dict(n_nodes=n, edge_index=ei, edge_weight=ew, Y=Y.astype(np.float32), train_mask=tm, alpha=a, max_iter=case["it"], tol=0.0, normalize_rows=case["rows"], norm_mode=mode)
        close(np.asarray(fixed_point.fixed_point_diffusion_numpy(**kw).F, float), F, 1e-4, "fixed_point_diffusion_numpy")
        close(num(fixed_point.fixed_point_diffusion_torch(**kw, device=ds)["F"]), F, 1e-4, "fixed_point_diffusion_torch")
    yy = g["y"].copy()
    yy[::3] = -1
    want = np.where((yy >= 0)[:, None], np.eye(g["C"])[np.clip(yy, 0, None)], 0)
    require(np.array_equal(clamp.labels_to_onehot(yy, n_classes=g["C"]), want), "labels_to_onehot(%s)", yy)
    H = r.normal(size=(n, g["C"])).astype(np.float32)
    got = clamp.hard_clamp(H, want.astype(np.float32), yy >= 0)
    require(np.array_equal(got, np.where((yy >= 0)[:, None], want, H)), "hard_clamp")
    Hp = np.abs(H) * (r.random(n) < 0.7)[:, None]
    s = Hp.sum(1, keepdims=True)
    close(clamp.row_normalize(Hp).astype(float), np.where(s > 0, Hp / np.where(s > 0, s, 1), 0), tol, "row_normalize")


@st.composite
def cg_case(draw):
    return {"n": draw(st.integers(1, 12)), "cond": draw(st.sampled_from([1.0, 10.0, 100.0])), "seed": draw(st.integers(0, 10**6)), "x0": draw(st.booleans()),
            "b": draw(st.sampled_from(["gauss", "gauss", "zero", "eig"])), "tol": draw(st.sampled_from([1e-6, 1e-9])), "short": draw(st.booleans())}


@check("T06", cg_case(), quick=300, timeout=20)
def conjugate_gradient_solves_spd_systems(case, ctx):
    """Random symmetric positive definite systems of known condition: both solvers return the
    dense solution, report convergence and an honest residual; cut short, they report no convergence.
    Non-trivial when the right-hand side is non-zero."""
    from modssc.transductive.solvers import cg

    r = np.random.default_rng(case["seed"])
    n = case["n"]
    Q, _ = np.linalg.qr(r.normal(size=(n, n)))
    ev = np.geomspace(1.0, case["cond"], n) if n > 1 else np.array([case["cond"]])
    M = Q @ np.diag(ev) @ Q.T
    M = (M + M.T) / 2
    b = {"gauss": r.normal(size=n), "zero": np.zeros(n), "eig": Q[:, 0].copy()}[case["b"]]
    x0 = r.normal(size=n) if case["x0"] else None
    it = 1 if case["short"] else 50 * n + 50
    want = np.linalg.solve(M, b)
    a = cg.cg_solve_numpy(matvec=lambda v: M @ v, b=b, x0=x0, tol=case["tol"], max_iter=it)
    Mt = torch.as_tensor(M)
    xt, info = cg.cg_solve_torch(matvec=lambda v: Mt @ v, b=torch.as_tensor(b), device=DeviceSpec(dtype="float64"), x0=None if x0 is None else torch.as_tensor(x0), tol=case["tol"], max_iter=it)
    for which, x, conv, res in (("numpy", np.asarray(a.x, float), a.converged, a.residual_norm), ("torch", xt.numpy(), info["converged"], info["residual_norm"])):
        true = np.linalg.norm(b - M @ x)
        slack = 1e-5 * (1 + np.linalg.norm(M @ x)) if which == "numpy" else 1e-7  # numpy returns float32
        require(abs(true - res) <= slack + 1e-3 * true, "%s: reported residual %s, true %s", which, res, true)
        require(conv == (res <= case["tol"]), "%s: converged=%s at residual %s (tol %s)", which, conv, res, case["tol"])
        if not case["short"]:
            require(conv, "%s did not converge (residual %s)", which, res)
            close(x, want, 1e-4, "%s solution", which)
    ctx.nontrivial(case["b"] != "zero")


@st.composite
def pyg_case(draw):
    return {"g": draw(graph_case(max_n=8)), "dt": draw(st.sampled_from([None, "float32", "float64"]))}


@check("T06", pyg_case(), quick=60, timeout=20)
def pyg_adapter_keeps_the_dataset(case, ctx):
    """Conversion to a torch_geometric Data object keeps features, labels, edges with their
    weights and masks.  Non-trivial when there is an edge."""
    from modssc.transductive.adapters.pyg import to_pyg_data

    g = build(case["g"])
    d = to_pyg_data(X=g["X"], y=g["y"], edge_index=g["ei"], edge_weight=g["ew"], masks=g["masks"], device=None if case["dt"] is None else DeviceSpec(dtype=case["dt"]))
    require(np.array_equal(d.x.numpy(), g["X"]) and np.array_equal(d.y.numpy(), g["y"]) and np.array_equal(d.edge_index.numpy(), g["ei"]), "features, labels or edges changed")
    require((g["ew"] is None and getattr(d, "edge_weight", None) is None) or np.array_equal(d.edge_weight.numpy(), g["ew"]), "weights changed")
    for k, v in g["masks"].items():
        require(np.array_equal(getattr(d, k).numpy(), v), "%s changed", k)
    require(str(d.x.dtype) == "torch." + (case["dt"] or "float32"), "dtype %s", d.x.dtype)
    ctx.nontrivial(g["ei"].shape[1] > 0)


# ----------------------------------------------------------------- T07 min cuts
@st.composite
def cut_case(draw):
    return {"g": draw(graph_case(max_n=11, binary=True)), "p": draw(params("graph_mincuts"))}


@check("T07", cut_case(), quick=500, timeout=30, shards=2)
def mincut_is_minimum(case, ctx):
    """All 2^u labelings of the unlabeled nodes are enumerated: the returned labeling agrees with
    the labeled nodes and no other one has a smaller cut (weights from the positive to the negative
    side; exact in rounded capacities).  Non-trivial when two labelings have different cuts and the minimum is
    not zero."""
    g, p = build(case["g"]), case["p"]
    n, train = g["n"], g["masks"]["train_mask"]
    F = run_prop("graph_mincuts", g, p)
    w = np.ones(g["ei"].shape[1]) if g["ew"] is None else g["ew"].astype(np.float64)
    cap = np.maximum(np.rint(w * p["capacity_scale"]), p["min_capacity"])
    require(np.isin(F, [0.0, 1.0]).all() and (F.sum(1) == 1).all(), "not a labeling: %s", F)
    side = F[:, 1].astype(int)
    require((side[train] == g["y"][train]).all(), "labeled nodes changed side: %s", side)
    U = np.flatnonzero(~train)
    bits = ((np.arange(2 ** U.size)[:, None] >> np.arange(U.size)) & 1).astype(np.int8)
    S = np.zeros((bits.shape[0], n), np.int8)
    S[:, train] = g["y"][train]
    S[:, U] = bits
    src, dst = g["ei"]
    cost = ((S[:, src] == 1) & (S[:, dst] == 0)) @ cap
    mine = (((side[src] == 1) & (side[dst] == 0)) * cap).sum()
    require(mine <= cost.min() + 1e-9, "cut %s, but %s has %s", mine, S[cost.argmin()], cost.min())
    ctx.nontrivial(cost.max() > cost.min() > 0)


# ------------------------------------------------------- T08 repeatability, data
@st.composite
def repeat_case(draw):
    c = draw(method_case(GNN + ("tsvm",)))
    c["other"] = draw(graph_case(max_n=8, binary=c["m"] in BINARY))
    c["how"] = draw(st.sampled_from(["fresh", "refit", "after other"]))
    c["noise"] = draw(st.integers(0, 10**6))
    return c


@check("T08", repeat_case(), quick=400, timeout=60, shards=2)
def gnn_fits_are_repeatable(case, ctx):
    """Same data, settings and seed: identical predictions from a fresh instance, from a second
    fit of the same instance and from an instance that was fitted on another graph before, whatever
    the state of the global random generators.  Non-trivial when the method answered."""
    name, g, o = case["m"], build(case["g"]), build(case["other"])
    if may_refuse(name, g, dense(g)) or may_refuse(name, o, dense(o)):
        return
    scramble(1)
    d = dataset(g)
    m = make(name, case["p"]).fit(d, device=dev(case["dev"]), seed=case["seed"])
    a = m.predict_proba(d)
    scramble(case["noise"] + 2)
    if case["how"] == "fresh":
        m2 = make(name, case["p"])
    elif case["how"] == "refit":
        m2 = m
    else:
        m2 = make(name, case["p"]).fit(dataset(o), device=dev(case["dev"]), seed=case["noise"] % 97)
    scramble(case["noise"])
    d2 = d if case["how"] == "refit" else dataset(copy.deepcopy(g))
    b = m2.fit(d2, device=dev(case["dev"]), seed=case["seed"]).predict_proba(d2)
    require(np.array_equal(a, b), "%s (%s): same seed, predictions differ by %s", name, case["how"], np.abs(a - b).max() if a.shape == b.shape else "shape")
    ctx.label(name)
    ctx.nontrivial()


class Plain:
    """A dataset object of the documented protocol (attributes only)."""

    def __init__(self, g):
        self.X, self.y, self.masks, self.meta = g["X"], g["y"], dict(g["masks"]), {}
        self.graph = type("G", (), {})()
        self.graph.edge_index, self.graph.edge_weight, self.graph.n_nodes = g["ei"], g["ew"], g["n"]


WHOLE = ("appnp", "chebnet", "gat", "gcn", "gcnii", "graphsage", "grand")   # use features and graph of the dataset passed
FEATS = ("n_gcn", "h_gcn", "grafn", "tsvm")                                 # use its features


@st.composite
def stale_case(draw):
    c = draw(method_case(GNN + PROP, plain=True, connected=True))
    c["steps"] = draw(st.lists(st.tuples(st.sampled_from(["X", "graph", "masks", "y"]), st.integers(0, 10**6), st.booleans()), min_size=1, max_size=4))
    c["refit"] = draw(st.integers(0, 2)) == 0
    return c


def vary(g, what, k):
    r = np.random.default_rng(k)
    if what == "X":
        return {**g, "X": np.round(r.normal(size=g["X"].shape), 3).astype(np.float32)}
    if what == "graph":
        n = g["n"]
        o = r.permutation(n)
        e = [(int(o[i]), int(o[(i + 1) % n])) for i in range(n)]
        ei = np.array(e + [(b, a) for a, b in e], dtype=np.int64).T
        w = np.round(r.uniform(0.1, 2, n), 3).astype(np.float32)
        return {**g, "ei": ei, "ew": np.concatenate([w, w])}
    if what == "y":
        return {**g, "y": (g["y"] + 1) % g["C"]}
    tr = g["masks"]["train_mask"].copy()
    for c in range(g["C"]):
        idx = np.flatnonzero(g["y"] == c)
        tr[idx] = False
        tr[r.choice(idx)] = True
    return {**g, "masks": {"train_mask": tr}}


@check("T08", stale_case(), quick=250, timeout=60, shards=3)
def predictions_and_fits_use_the_data_passed(case, ctx):
    """A sequence of datasets, all but the current one deleted (so that addresses are reused), is
    predicted with or refitted on one instance: every answer equals that of a fresh instance that never
    saw the others.  Non-trivial when two answers in the sequence differ."""
    name, p = case["m"], case["p"]
    g = build(case["g"])
    if may_refuse(name, g, dense(g)):
        return
    fit = lambda m, d: m.fit(d, device=dev(case["dev"]), seed=case["seed"])
    d = Plain(g)
    m = fit(make(name, p), d)
    first = m.predict_proba(d)
    seen = [first]
    cur = g
    for what, k, gone in case["steps"]:
        if case["refit"]:
            cur = vary(cur, what, k)
            if may_refuse(name, cur, dense(cur)):
                return
            if gone:
                del d
                gc.collect()
                d = Plain(copy.deepcopy(cur))
            else:   # the same object with new attributes
                d.X, d.y, d.masks = cur["X"], cur["y"], dict(cur["masks"])
                d.graph.edge_index, d.graph.edge_weight = cur["ei"], cur["ew"]
            got = fit(m, d).predict_proba(d)
            d2 = Plain(copy.deepcopy(cur))
            want = fit(make(name, p), d2).predict_proba(d2)
        else:
            if what in ("masks", "y") or (what == "graph" and name not in WHOLE) or (what == "X" and name not in WHOLE + FEATS):
                continue
            cur = vary(g, what, k)
            if gone:
                del d
                gc.collect()
            d = Plain(copy.deepcopy(cur))
            got = m.predict_proba(d)
            d0, d2 = Plain(copy.deepcopy(g)), Plain(copy.deepcopy(cur))
            want = fit(make(name, p), d0).predict_proba(d2)
        require(np.array_equal(got, want), "%s: after %s of the %s the answer is not that for the dataset passed (off by %s)", name,
                "a refit" if case["refit"] else "a change", what, np.abs(got - want).max() if got.shape == want.shape else (got.shape, want.shape))
        seen.append(got)
    ctx.label(name)
    ctx.nontrivial(any(not np.array_equal(seen[0], s) for s in seen[1:]))


# ------------------------------------------------------------- T09 validation
CORRUPT = ("edge out of range", "edge negative", "edge rows", "edge 1d", "mask length", "mask length other", "no train mask", "empty train mask", "X 1d", "y 2d", "y rows",
           "y float", "y nan", "y gap", "y text", "no graph", "no edge index", "weights length")


@st.composite
def bad_case(draw):
    name = draw(st.sampled_from(PROP + GNN))
    return {"m": name, "g": draw(graph_case(binary=name in BINARY or None, connected=True)), "bad": draw(st.sampled_from(CORRUPT)), "k": draw(st.integers(0, 10**6)),
            "dev": draw(st.sampled_from([None, "cpu"]))}


def corrupt(g, bad, k):
    d = Plain(g)
    r = np.random.default_rng(k)
    n, E = g["n"], g["ei"].shape[1]
    ei = g["ei"].copy()
    e = int(r.integers(0, E))
    if bad == "edge out of range":
        ei[int(r.integers(0, 2)), e] = n + int(r.integers(0, 3))
        d.graph.edge_index = ei
    elif bad == "edge negative":
        ei[int(r.integers(0, 2)), e] = -1 - int(r.integers(0, 3))
        d.graph.edge_index = ei
    elif bad == "edge rows":
        d.graph.edge_index = np.vstack([ei, ei[:1]])
    elif bad == "edge 1d":
        d.graph.edge_index = ei.ravel()
    elif bad == "mask length":
        d.masks["train_mask"] = d.masks["train_mask"][:-1] if r.random() < 0.5 else np.append(d.masks["train_mask"], True)
    elif bad == "mask length other":
        d.masks[str(r.choice(["val_mask", "test_mask", "unlabeled_mask"]))] = np.ones(n + (1 if r.random() < 0.5 else -1), bool)
    elif bad == "no train mask":
        del d.masks["train_mask"]
    elif bad == "empty train mask":
        d.masks["train_mask"] = np.zeros(n, bool)
    elif bad == "X 1d":
        d.X = d.X[:, 0]
    elif bad == "y 2d":
        d.y = np.eye(g["C"])[d.y]
    elif bad == "y rows":
        d.y = d.y[:-1] if r.random() < 0.5 else np.append(d.y, 0)
    elif bad == "y float":
        d.y = d.y + 0.5
    elif bad == "y nan":
        d.y = d.y.astype(float)
        d.y[int(r.integers(0, n))] = np.nan
    elif bad == "y gap":
        d.y = np.where(d.y == g["C"] - 1, g["C"] + int(r.integers(0, 3)), d.y)
    elif bad == "y text":
        d.y = np.array(["c%d" % v for v in d.y])
    elif bad == "no graph":
        d.graph = None
    elif bad == "no edge index":
        d.graph.edge_index = None
    elif bad == "weights length":
        d.graph.edge_weight = np.ones(E + (1 if r.random() < 0.5 else -1), np.float32)
    return d


@check("T09", bad_case(), quick=500, timeout=30)
def broken_datasets_are_rejected(case, ctx):
    """Eighteen kinds of corruption of a valid dataset, against every method: the intact dataset
    passes validation; the corrupted one makes fit raise ValueError (a TransductiveValidationError
    for those the validator covers), never an answer; without any labeled node a method may also
    answer that no class is preferred anywhere.  Non-trivial always."""
    name, g, bad = case["m"], build(case["g"]), case["bad"]
    if bad == "weights length" and name == "tsvm":
        return
    validate_node_dataset(Plain(g))
    d = corrupt(g, bad, case["k"])
    small = {"max_epochs": 1} if hasattr(make(name).spec, "max_epochs") else {}
    if name == "planetoid":
        small = {"num_walks": 1, "walk_length": 3}
    covered = bad not in ("no train mask", "empty train mask", "weights length")
    if covered:
        try:
            validate_node_dataset(d)
        except TransductiveValidationError:
            pass
        else:
            fail("validation accepted a dataset with %s", bad)
    try:
        out = make(name, small).fit(d, device=dev(case["dev"]), seed=0).predict_proba(d)
    except ValueError as e:
        require(not covered or isinstance(e, TransductiveValidationError), "%s: %s gives %r", name, bad, e)
    else:
        out = np.asarray(out)
        if bad == "empty train mask" and (out.size == 0 or np.ptp(out, axis=1).max() <= 1e-6):
            ctx.label("no preference")  # without labels no class is preferred anywhere
            return
        fail("%s answered for a dataset with %s: %s", name, bad, out)
    ctx.label(bad)
    ctx.nontrivial()


# ------------------------------------------------- T10 training of graph networks
class Ref:
    """Double precision references of the networks (no dropout), by method."""

    @staticmethod
    def conv(A, mode, loops, n):
        M = A + np.eye(n) if loops else A
        return torch.as_tensor(degree_norm(M, mode))



def forward(name, p, g):
    """(operators, function of the parameter list giving logits), for parameters in registration order."""
    A, n = dense(g), g["n"]
    X = torch.as_tensor(g["X"].astype(np.float64))
    relu = torch.relu
    if name in ("gcn", "sgc", "chebnet", "gcnii"):
        S = Ref.conv(A, "sym", p.get("add_self_loops", True), n)
    elif name in ("appnp", "grand", "graphsage"):
        S = Ref.conv(A, "rw", p.get("add_self_loops", True), n)
    if name == "sgc":
        Xp = X
        for _ in range(p["k"]):
            Xp = S @ Xp
        return lambda q: Xp @ q["weight"].T + q["bias"]
    if name == "gcn":
        return lambda q: S @ (relu(S @ (X @ q["conv1.lin.weight"].T + q["conv1.lin.bias"])) @ q["conv2.lin.weight"].T + q["conv2.lin.bias"])
    if name == "appnp":
        def f(q):
            h0 = relu(X @ q["mlp.lin1.weight"].T + q["mlp.lin1.bias"]) @ q["mlp.lin2.weight"].T + q["mlp.lin2.bias"]
            h = h0
            for _ in range(p["k"]):
                h = (1 - p["alpha"]) * S @ h + p["alpha"] * h0
            return h
        return f
    if name == "grand":
        Xp = X
        for _ in range(p["prop_steps"]):
            Xp = S @ Xp
        return lambda q: relu(Xp @ q["lin1.weight"].T + q["lin1.bias"]) @ q["lin2.weight"].T + q["lin2.bias"]
    if name == "graphsage":
        def f(q):
            h = relu(torch.cat([X, S @ X], 1) @ q["conv1.lin.weight"].T + q["conv1.lin.bias"])
            return torch.cat([h, S @ h], 1) @ q["conv2.lin.weight"].T + q["conv2.lin.bias"]
        return f
    if name == "chebnet":
        def conv(q, c, x):
            t = [x, -S @ x]
            while len(t) <= p["k"]:
                t.append(2 * (-S @ t[-1]) - t[-2])
            return sum(t[k] @ q["%s.lins.%d.weight" % (c, k)].T for k in range(p["k"] + 1)) + q[c + ".bias"]
        return lambda q: conv(q, "conv2", relu(conv(q, "conv1", X)))
    if name == "gcnii":
        def f(q):
            x0 = x = relu(X @ q["lin_in.weight"].T + q["lin_in.bias"])
            for i in range(p["num_layers"]):
                x = (1 - p["alpha"]) * S @ x + p["alpha"] * x0
                be = math.log(p["lam"] / (i + 1) + 1)
                x = relu((1 - be) * x + be * (x @ q["lins.%d.weight" % i].T + q["lins.%d.bias" % i]))
            return x @ q["lin_out.weight"].T + q["lin_out.bias"]
        return f
    if name == "gat":
        B = torch.as_tensor((A > 0) | (np.eye(n, dtype=bool) & p["add_self_loops"]))
        if not p["add_self_loops"]:
            cnt = np.zeros((n, n))
            np.add.at(cnt, (g["ei"][1], g["ei"][0]), 1.0)   # parallel edges count separately
        else:
            cnt = np.asarray(B, dtype=np.float64)
        cnt = torch.as_tensor(cnt)

        def att(q, c, x, heads, out, concat):
            h = (x @ q[c + ".lin.weight"].T).view(n, heads, out)
            es, ed = (h * q[c + ".att_src"]).sum(-1), (h * q[c + ".att_dst"]).sum(-1)
            res = []
            for k in range(heads):
                e = torch.nn.functional.leaky_relu(ed[:, k][:, None] + es[:, k][None, :], p["negative_slope"])
                e = torch.where(B, e, torch.full_like(e, -1e30))
                ex = torch.exp(e - e.max(1, keepdim=True).values) * cnt
                s = ex.sum(1, keepdim=True)
                al = torch.where(s > 0, ex / torch.where(s > 0, s, torch.ones_like(s)), torch.zeros_like(ex))
                res.append(al @ h[:, k])
            o = torch.cat(res, 1) if concat else sum(res) / heads
            return o + q[c + ".bias"]

        def f(q):
            h = torch.nn.functional.elu(att(q, "conv1", X, p["heads"], p["head_dim"], True))
            return att(q, "conv2", h, 1, g["C"], False)
        return f
    if name == "n_gcn":
        adj = A - np.diag(np.diag(A))
        adj = np.maximum(adj, adj.T) + (np.eye(n) if p["add_self_loops"] else 0)
        S = torch.as_tensor(degree_norm(adj, "sym"))
        P = [torch.eye(n, dtype=torch.float64)]
        for _ in range(p["K"] - 1):
            P.append(S @ P[-1])

        def f(q):
            outs = []
            for k in range(p["K"]):
                for j in range(p["r"]):
                    z = X
                    for l in range(p["gcn_layers"]):
                        pre = "gcns.%d.lins.%d." % (k * p["r"] + j, l)
                        z = P[k] @ z @ q[pre + "weight"].T + q[pre + "bias"]
                        if l < p["gcn_layers"] - 1:
                            z = relu(z)
                    outs.append(z)
            if p["classifier"] == "fc":
                return torch.cat(outs, 1) @ q["fc.weight"].T + q["fc.bias"]
            a = torch.softmax(q["att_logits"], 0)
            o = sum(a[i] * z for i, z in enumerate(outs))
            return o @ q["out_lin.weight"].T + q["out_lin.bias"] if "out_lin.weight" in q else o
        return f
    raise AssertionError(name)


class NearZeroGradient(Exception):
    pass


def train(f, q0, p, g, jitter=None):
    """Full-batch Adam on the cross entropy of the training nodes with early stopping on the validation nodes."""
    q = {k: v.clone().requires_grad_(True) for k, v in q0.items()}
    opt = {k: (torch.zeros_like(v), torch.zeros_like(v)) for k, v in q.items()}
    y = torch.as_tensor(g["y"])
    tr = torch.as_tensor(g["masks"]["train_mask"])
    va = torch.as_tensor(g["masks"].get("val_mask", np.zeros(g["n"], bool)))
    best, best_q, bad = None, None, 0
    for t in range(1, p["max_epochs"] + 1):
        loss = torch.nn.functional.cross_entropy(f(q)[tr], y[tr])
        gr = torch.autograd.grad(loss, list(q.values()), allow_unused=True)
        new = {}
        for (k, v), d in zip(q.items(), gr):
            if d is None:   # no gradient: the optimiser leaves it alone
                new[k] = v.detach().clone().requires_grad_(True)
                continue
            d = d.detach() + p["weight_decay"] * v.detach()
            # too small for single precision: sign and size are rounding, and a sum that cancels exactly in
            # one order of summation need not in another
            weak = d.abs() < 2e-6
            if weak.any():
                if jitter is None:
                    raise NearZeroGradient
                d = torch.where(weak, d + 2e-7 * torch.as_tensor(jitter(d.shape)), d)
            m, s = opt[k]
            m = 0.9 * m + 0.1 * d
            s = 0.999 * s + 0.001 * d * d
            opt[k] = (m, s)
            new[k] = (v.detach() - p["lr"] * (m / (1 - 0.9 ** t)) / (torch.sqrt(s / (1 - 0.999 ** t)) + 1e-8)).requires_grad_(True)
        q = new
        if va.any():
            with torch.no_grad():
                vl = float(torch.nn.functional.cross_entropy(f(q)[va], y[va]))
            if best is not None and abs(vl - best) < 1e-5:
                raise NearZeroGradient
            if best is None or vl < best - 1e-9:
                best, best_q, bad = vl, {k: v.detach().clone() for k, v in q.items()}, 0
            else:
                bad += 1
                if bad >= p["patience"]:
                    break
    return best_q if best_q is not None else {k: v.detach() for k, v in q.items()}


TRAINED = ("appnp", "chebnet", "gat", "gcn", "gcnii", "graphsage", "grand", "n_gcn", "sgc")


@st.composite
def train_case(draw):
    name = draw(st.sampled_from(TRAINED))
    p = draw(params(name, plain=True)) if name != "sgc" else {"k": draw(st.sampled_from([2, 0, 1, 3])), "lr": draw(st.sampled_from([0.1, 0.02])), "weight_decay": draw(st.sampled_from([0.0, 0.01])),
                                                              "max_epochs": draw(st.sampled_from([1, 2, 4, 8])), "patience": draw(st.sampled_from([1, 2, 50])), "add_self_loops": draw(st.booleans())}
    return {"m": name, "p": p, "g": draw(graph_case(undirected=True if name in ("n_gcn", "gcn", "chebnet", "gcnii", "sgc") else None)), "seed": draw(st.integers(0, 50)),
            "dev": draw(st.sampled_from([None, "cpu", "spec"]))}


def module_params(m):
    mods = [v for v in vars(m).values() if isinstance(v, torch.nn.Module)]
    if len(mods) != 1:
        return None
    return {k: v.detach().clone().double() for k, v in mods[0].named_parameters()}


@check("T10", train_case(), quick=500, timeout=60, shards=3)
def graph_networks_train_as_their_dense_reference(case, ctx):
    """Starting from the parameters a fit with zero learning rate leaves, the published forward
    rule in dense double precision matrices, Adam on the training nodes' cross entropy and early
    stopping on the validation nodes give the method's predictions.  Gradients and validation losses too
    close to zero for single precision are skipped; so is a model whose parameters do not have the
    expected names.  Non-trivial when training changed the predictions."""
    name, g, p = case["m"], build(case["g"]), case["p"]
    d = dataset(g)
    m0 = make(name, {**p, "lr": 0.0, "weight_decay": 0.0, "max_epochs": 1}).fit(d, device=dev(case["dev"]), seed=case["seed"])
    q0 = module_params(m0)
    p0 = m0.predict_proba(d).astype(np.float64)
    f = forward(name, p, g)
    ctx.label(name)
    try:
        want0 = torch.softmax(f(q0), 1).numpy()
    except (KeyError, TypeError, AttributeError):
        ctx.label("unknown parameters")
        return
    close(p0, want0, 2e-5, "%s: forward pass", name)
    m1 = make(name, p).fit(d, device=dev(case["dev"]), seed=case["seed"])
    got = m1.predict_proba(d).astype(np.float64)
    try:
        want = torch.softmax(f(train(f, q0, p, g)), 1).detach().numpy()
    except NearZeroGradient:   # do the doubtful gradients matter for the predictions?
        r = np.random.default_rng(case["seed"])
        try:
            runs = [torch.softmax(f(train(f, q0, p, g, j)), 1).detach().numpy() for j in
                    (np.zeros, np.ones, lambda sh: -np.ones(sh), *[lambda sh: r.choice([-1.0, 0.0, 1.0], sh)] * 3)]
        except NearZeroGradient:
            runs = []
        if not runs or max(np.abs(w - runs[0]).max() for w in runs) > 3e-4:
            ctx.label("near zero " + name)
            return
        want = runs[0]
    close(got, want, 3e-3, "%s: training (%s)", name, p)
    ctx.nontrivial(np.abs(got - p0).max() > 1e-3)
