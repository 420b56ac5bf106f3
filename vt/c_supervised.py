"""C01-C04: supervised classifiers."""
from __future__ import annotations

import logging
import random
import warnings

import numpy as np
import sklearn.ensemble  # noqa: F401  (first import draws from the global RNG)
import sklearn.linear_model  # noqa: F401
import sklearn.naive_bayes  # noqa: F401
import sklearn.neighbors  # noqa: F401
import sklearn.svm  # noqa: F401
import torch

from .core import HarnessError, check, require, st
from .eq import diff

from modssc.supervised.api import available_classifiers, create_classifier
from modssc.supervised.types import ClassifierRuntime

torch.set_num_threads(1)
logging.getLogger("modssc").setLevel(logging.ERROR)

SK = {
    "knn": {"k": [1, 3, 5, 8], "weights": ["uniform", "distance"], "metric": ["euclidean", "cosine"]},
    "svm_rbf": {"probability": [True, False], "C": [0.3, 1.0], "sigma": [None, 1.5]},
    "logreg": {"C": [0.1, 1.0], "solver": ["lbfgs", "saga"], "max_iter": [40]},
    "linear_svm": {"C": [0.5, 1.0], "loss": ["squared_hinge", "hinge"], "class_weight": [None, "balanced"]},
    "ridge": {"alpha": [0.1, 1.0], "class_weight": [None, "balanced"]},
    "random_forest": {"n_estimators": [3, 7], "max_depth": [None, 2], "bootstrap": [True, False]},
    "extra_trees": {"n_estimators": [3, 7], "max_depth": [None, 2]},
    "gradient_boosting": {"n_estimators": [3], "max_depth": [1, 2], "subsample": [0.7, 1.0]},
    "gaussian_nb": {"var_smoothing": [1e-9, 1e-3]},
    "multinomial_nb": {"alpha": [1.0, 0.1]},
    "bernoulli_nb": {"alpha": [1.0, 0.1], "binarize": [0.0, 0.5]},
}
TORCH = {
    "knn": {"k": [1, 3, 5, 8], "weights": ["uniform", "distance"], "metric": ["euclidean", "cosine"], "batch_size": [2, 1024]},
    "logreg": {"lr": [0.05, 0.5], "batch_size": [2, 5, 64], "max_epochs": [1, 3]},
    "mlp": {"hidden_sizes": [[], [4], [3, 3]], "dropout": [0.0, 0.4], "activation": ["relu", "gelu", "tanh"],
            "batch_size": [2, 5, 64], "max_epochs": [1, 3], "lr": [0.05]},
    "image_cnn": {"conv_channels": [[2], [2, 3]], "fc_dim": [0, 4], "batch_size": [3, 64], "max_epochs": [1, 2], "dropout": [0.0, 0.3]},
    "audio_cnn": {"conv_channels": [[2], [2, 3]], "fc_dim": [0, 4], "batch_size": [3, 64], "max_epochs": [1, 2], "dropout": [0.0, 0.3]},
    "text_cnn": {"kernel_sizes": [[2], [2, 3, 9]], "num_filters": [2], "input_layout": ["channels_last", "channels_first"],
                 "batch_size": [3, 64], "max_epochs": [1, 2], "dropout": [0.0, 0.3]},
    "lstm_scratch": {"vocab_size": [12], "embedding_dim": [3], "hidden_dim": [4], "num_layers": [1, 2], "dropout": [0.0, 0.3],
                     "batch_size": [3, 64], "max_epochs": [1, 2]},
    "audio_cnn_scratch": {"base_channels": [2], "num_blocks": [1, 2], "batch_size": [3, 64], "max_epochs": [1, 2], "dropout": [0.0, 0.3]},
    "graphsage_inductive": {"hidden_channels": [3], "num_layers": [1, 2], "dropout": [0.0, 0.3], "max_epochs": [1, 2]},
    "image_pretrained": {"model_name": ["resnet18", "mobilenet_v3_small"], "weights": [None], "max_epochs": [1], "batch_size": [64],
                         "freeze_backbone": [True, False]},
}
NP = {"knn": TORCH["knn"]}
GRID = {"sklearn": SK, "torch": TORCH, "numpy": NP}
HEAVY = {"image_pretrained"}
PAIRS = sorted((b, c) for b, g in GRID.items() for c in g if c not in HEAVY)
# too slow to train in most cases and needing downloaded weights: audio_pretrained
_known = {(b, d.get("classifier_id") or d.get("key")) for d in available_classifiers(available_only=True) for b in d["backends"]}
LABELS = {
    "range": list(range(6)), "one": [1, 2, 3, 4, 5, 6], "gaps": [0, 2, 3, 9, 50, 200], "neg": [-7, -1, 0, 3, 4, 60],
    "str": ["10", "9", "b", "Ba", "a b", "zz"], "float": [-0.5, 0.25, 1.0, 1.5, 2.0, 1e6], "bool": [False, True],
}
SINGLE_OK = {"knn", "gaussian_nb", "multinomial_nb", "bernoulli_nb", "random_forest", "extra_trees"}


def params_of(grid):
    return st.fixed_dictionaries({k: st.sampled_from(v) for k, v in grid.items()})


def one(pair):
    b, c = pair
    return st.fixed_dictionaries({
        "backend": st.just(b), "clf": st.just(c), "params": params_of(GRID[b][c]),
        "k": st.sampled_from([3, 2, 1, 4, 6]), "n": st.integers(2, 24).map(lambda v: 26 - v), "d": st.integers(1, 5), "m": st.integers(1, 8).map(lambda v: 9 - v),
        "pal": st.sampled_from(sorted(LABELS)), "seed": st.integers(0, 2**31 - 1), "data": st.integers(0, 2**32 - 1),
        "xkind": st.sampled_from(["far", "gauss", "grid", "const", "3d"]),
        "xtype": st.sampled_from(["float64", "float32", "list", "torch"]),
        "ytype": st.sampled_from(["array", "list", "object", "torch", "int32", "uint8"]),
        "rng": st.integers(0, 2**31 - 1),
    })


case_any = st.sampled_from(PAIRS).flatmap(one)


def features(case, n, rng):
    c, d, kind = case["clf"], case["d"], case["xkind"]
    if c == "lstm_scratch":
        return rng.integers(0, case["params"]["vocab_size"], size=(n, d)).astype(np.int64)
    if c in ("image_cnn",):
        shape = (n, 1 + d % 3, 4, 4) if kind != "3d" else (n, 4, 4)
    elif c == "image_pretrained":
        shape = (n, 3, 40, 40)
    elif c == "audio_cnn":
        shape = (n, 1 + d % 2, 6) if kind != "grid" else (n, 6)
    elif c == "audio_cnn_scratch":
        shape = (n, 5, 6) if kind != "grid" else (n, 1, 5, 6)
    elif c == "text_cnn":
        shape = (n, 6, 4) if kind != "grid" else (n, 6)
    elif kind == "3d" and not (c == "knn" and case["backend"] == "torch") and c != "graphsage_inductive":
        shape = (n, d, 2)
    else:
        shape = (n, d)
    if kind == "grid":
        x = rng.integers(-2, 3, size=shape).astype(float)
    elif kind == "const":
        x = np.ones(shape)
    elif kind == "far":
        x = rng.normal(size=shape) + 5.0 * rng.integers(0, 3, size=(n,) + (1,) * (len(shape) - 1))
    else:
        x = rng.normal(size=shape)
    if c == "multinomial_nb":
        x = np.abs(x)
    return x


def label_values(case, k):
    pal = LABELS[case["pal"]]
    if case["backend"] == "torch" and case["pal"] in ("str", "float", "bool"):
        pal = LABELS["gaps"]
    return pal[: min(k, len(pal))]


def problem(case):
    """-> (X_train, y_train in user form, X_test, labels list in user values, per-row label values)."""
    rng = np.random.default_rng(case["data"])
    k = case["k"]
    if k == 1 and not (case["clf"] in SINGLE_OK or case["backend"] == "torch"):
        k = 2
    pal = label_values(case, k)
    k = len(pal)
    n = max(case["n"], 2 * k if case["clf"] in ("gradient_boosting",) else k)
    if case["clf"] == "svm_rbf" and case["params"]["probability"]:
        n = max(n, 2 * k)
    codes = rng.permutation(np.concatenate([np.arange(k), rng.integers(0, k, size=n - k)]))
    if case["clf"] == "svm_rbf" and case["params"]["probability"] and n >= 2 * k:
        codes = rng.permutation(np.concatenate([np.arange(k), np.arange(k), rng.integers(0, k, size=n - 2 * k)]))
    rows = [pal[i] for i in codes]
    Xtr = features(case, n, rng)
    if case["clf"] == "gaussian_nb" and np.ptp(Xtr.reshape(n, -1), axis=0).max() == 0:
        Xtr[0] += 1.0  # scikit-learn's GaussianNB is undefined when no feature varies
    Xte = features(case, case["m"], rng)
    if rng.random() < 0.5 and case["m"] >= 2 and not case.get("fresh"):
        Xte[: min(n, case["m"]) // 2 + 1] = Xtr[: min(n, case["m"]) // 2 + 1]
    return wrap_x(case, Xtr), wrap_y(case, rows), wrap_x(case, Xte), list(pal), rows


def wrap_x(case, X, edges=True):
    if case["clf"] == "lstm_scratch":
        return torch.as_tensor(X) if case["xtype"] != "float64" else X
    if case["backend"] == "torch":
        t = torch.as_tensor(X, dtype=torch.float64 if case["xtype"] == "float64" and case["clf"] == "knn" else torch.float32)
        if case["clf"] == "graphsage_inductive":
            n = t.shape[0]
            rng = np.random.default_rng(case["data"] + 1)
            e = rng.integers(0, n, size=(2, int(rng.integers(0, 3 * n + 1))))
            return {"x": t, "edge_index": torch.as_tensor(e)}
        return t
    if case["xtype"] == "list":
        return X.tolist()
    if case["xtype"] == "torch":
        return torch.as_tensor(X)
    return X.astype(case["xtype"])


def wrap_y(case, rows):
    ints = all(isinstance(r, int) and not isinstance(r, bool) for r in rows)
    yt = case["ytype"]
    if case["clf"] == "lstm_scratch" and yt in ("array", "list", "object"):
        return np.asarray(rows)
    if case["backend"] == "torch":
        a = np.asarray(rows)
        if yt == "int32":
            a = a.astype(np.int32)
        elif yt == "uint8" and a.min() >= 0:
            a = a.astype(np.uint8)
        return torch.as_tensor(a)
    if yt == "list":
        return list(rows)
    if yt == "object":
        return np.asarray(rows, dtype=object)
    if ints and yt == "torch":
        return torch.as_tensor(rows)
    if ints and yt == "int32":
        return np.asarray(rows, dtype=np.int32)
    if ints and yt == "uint8" and min(rows) >= 0:
        return np.asarray(rows, dtype=np.uint8)
    return np.asarray(rows)


def scramble(a):
    random.seed(a)
    np.random.seed(a % (2**32))
    torch.manual_seed(a)


def make(case, seed=None, extra=None):
    if (case["backend"], case["clf"]) not in _known:
        raise HarnessError("classifier %s/%s is not registered" % (case["backend"], case["clf"]))
    params = dict(case["params"])
    params.update(extra or {})
    return create_classifier(case["clf"], backend=case["backend"], params=params,
                             runtime=ClassifierRuntime(seed=case["seed"] if seed is None else seed))


def npy(a):
    return a.detach().cpu().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)


def fit_all(clf, X, y, Xte):
    """fit and collect predictions"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        clf.fit(X, y)
        out = {"classes": npy(clf.classes_), "pred": npy(clf.predict(Xte))}
        out["scores"] = npy(clf.predict_scores(Xte)) if hasattr(clf, "predict_scores") else None
        out["proba"] = npy(clf.predict_proba(Xte)) if clf.supports_proba else None
    return out


def copy_data(v):
    if isinstance(v, torch.Tensor):
        return v.clone()
    if isinstance(v, dict):
        return {k: copy_data(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v.copy()
    return [copy_data(x) for x in v] if isinstance(v, list) else v


def n_rows(X):
    return len(X["x"]) if isinstance(X, dict) else len(X)


def answers(case, ctx):
    X, y, Xte, pal, rows = problem(case)
    m = n_rows(Xte)
    clf = make(case)
    scramble(case["rng"])
    out = fit_all(clf, X, y, Xte)
    want = sorted(set(rows))
    got = out["classes"].tolist()
    require(len(got) == len(want) and all(a == b and isinstance(a, str) == isinstance(b, str) for a, b in zip(got, want)),
            "%s/%s reports classes %r for training labels %r", case["backend"], case["clf"], got, want)
    pred = out["pred"]
    require(pred.shape == (m,), "%s/%s predicts shape %s for %d samples", case["backend"], case["clf"], pred.shape, m)
    for v in pred.tolist():
        require(v in want, "%s/%s predicts %r, which is not a training label of %r", case["backend"], case["clf"], v, want)
    idx = np.array([want.index(v) for v in pred.tolist()])
    sc = out["scores"]
    if sc is not None:
        require(sc.shape == (m, len(want)), "%s/%s scores have shape %s for %d samples and %d classes", case["backend"], case["clf"], sc.shape, m, len(want))
        require(np.isfinite(sc).all(), "%s/%s gives scores that are not finite", case["backend"], case["clf"])
        if not (case["clf"] == "svm_rbf" and len(want) > 2):  # one-vs-one votes break ties differently
            top = sc[np.arange(m), idx]
            require((top >= sc.max(axis=1) - 1e-5 * (1 + np.abs(sc).max())).all(),
                    "%s/%s predicts %r where the scores are %r", case["backend"], case["clf"], pred.tolist(), sc.tolist())
    p = out["proba"]
    if p is not None:
        require(p.shape == (m, len(want)), "%s/%s probabilities have shape %s", case["backend"], case["clf"], p.shape)
        require(np.isfinite(p).all() and (p >= 0).all(), "%s/%s gives invalid probabilities %r", case["backend"], case["clf"], p.tolist())
        require(np.allclose(p.sum(axis=1), 1.0, atol=1e-4), "%s/%s probability rows sum to %r", case["backend"], case["clf"], p.sum(axis=1).tolist())
        if case["clf"] != "svm_rbf":  # scikit-learn documents that Platt scaling may disagree with predict
            require((p[np.arange(m), idx] >= p.max(axis=1) - 1e-5).all(),
                    "%s/%s predicts %r where the probabilities are %r", case["backend"], case["clf"], pred.tolist(), p.tolist())
    fr = clf._fit_result
    if fr is not None:
        require(fr.n_samples == n_rows(X) and fr.n_classes == len(want), "%s/%s fit result %r", case["backend"], case["clf"], fr)
    ctx.nontrivial(len(want) >= 2 and len(set(pred.tolist())) >= 2)
    ctx.label(case["backend"] + "/" + case["clf"])


@check("C01", st.sampled_from([p for p in PAIRS if p[0] != "torch"]).flatmap(one), quick=700, shards=3)
def answers_classic(case, ctx):
    """at least two classes and two different predictions"""
    answers(case, ctx)


@check("C01", st.sampled_from([p for p in PAIRS if p[0] == "torch"]).flatmap(one), quick=350, shards=3)
def answers_torch(case, ctx):
    """at least two classes and two different predictions"""
    answers(case, ctx)


@check("C01", one(("torch", "image_pretrained")), quick=4, thorough=40)
def answers_torchvision(case, ctx):
    """at least two classes and two different predictions"""
    answers(case, ctx)


def two_runs(case, ctx):
    X, y, Xte, pal, rows = problem(case)
    X0, y0, T0 = copy_data(X), copy_data(y), copy_data(Xte)
    outs = []
    for i in range(2):
        scramble(case["rng"] + 977 * i)
        for _ in range(i):
            torch.rand(3), np.random.rand(2), random.random()
        outs.append(fit_all(make(case), copy_data(X0), copy_data(y0), Xte))
    d = diff(outs[0], outs[1])
    require(d is None, "%s/%s: two fits from seed %d differ: %s", case["backend"], case["clf"], case["seed"], d)
    clf = make(case)
    scramble(5)
    fit_all(clf, X, y, Xte)
    d = diff(X0, X) or diff(y0, y) or diff(T0, Xte)
    require(d is None, "%s/%s modifies the caller's data: %s", case["backend"], case["clf"], d)
    scramble(case["rng"] // 3)
    d = diff(outs[0], fit_all(clf, X, y, Xte))
    require(d is None, "%s/%s: fitting the same instance again differs: %s", case["backend"], case["clf"], d)
    ctx.nontrivial(len(set(map(str, outs[0]["pred"].tolist()))) >= 2)
    ctx.label(case["backend"] + "/" + case["clf"])


@check("C02", st.sampled_from([p for p in PAIRS if p[0] != "torch"]).flatmap(one), quick=250, shards=2)
def repeatable_classic(case, ctx):
    """at least two different predictions"""
    two_runs(case, ctx)


@check("C02", st.sampled_from([p for p in PAIRS if p[0] == "torch"]).flatmap(one), quick=250, shards=3)
def repeatable_torch(case, ctx):
    """at least two different predictions"""
    two_runs(case, ctx)


@check("C02", one(("torch", "image_pretrained")), quick=2, thorough=20)
def repeatable_torchvision(case, ctx):
    """at least two different predictions"""
    two_runs(case, ctx)


# ---------------------------------------------------------------- C03
knn_case = st.fixed_dictionaries({
    "backend": st.sampled_from(["numpy", "sklearn", "torch"]),
    "k": st.integers(1, 9).map(lambda v: 1 + (v + 1) % 9), "weights": st.sampled_from(["uniform", "distance"]), "metric": st.sampled_from(["euclidean", "cosine"]),
    "batch": st.integers(1, 6), "nc": st.sampled_from([3, 2, 4, 1]), "labs": st.lists(st.integers(0, 3), min_size=1, max_size=16),
    "X": st.integers(1, 16).flatmap(lambda n: st.lists(st.lists(st.integers(-4, 4), min_size=3, max_size=3), min_size=17 - n, max_size=17 - n)),
    "Q": st.lists(st.lists(st.integers(-4, 4), min_size=3, max_size=3), min_size=1, max_size=8),
    "scale": st.sampled_from([1.0, 0.5, 8.0]), "names": st.sampled_from(["range", "gaps", "neg"]), "offset": st.sampled_from([0, 0, 0, 64, 4096]),
})


@check("C03", knn_case, quick=2500, shards=3)
def knn_votes(case, ctx):
    """more than one class, fewer neighbours than training points"""
    case = dict(case)
    n = len(case["X"])
    case["labs"] = (case["labs"] * 16)[:n] if len(case["labs"]) < n else case["labs"]
    X = np.array(case["X"][:n], dtype=float) * case["scale"]
    Q = np.array(case["Q"], dtype=float) * case["scale"]
    if case["metric"] == "euclidean":   # distances do not depend on the origin
        X, Q = X + case.get("offset", 0), Q + case.get("offset", 0)
    lab = LABELS[case["names"]]
    y = np.array([lab[v % case["nc"]] for v in case["labs"][:n]])
    params = {"k": case["k"], "weights": case["weights"], "metric": case["metric"]}
    if case["backend"] != "sklearn":
        params["batch_size"] = case["batch"]
    clf = create_classifier("knn", backend=case["backend"], params=params)
    if case["backend"] == "torch":
        clf.fit(torch.as_tensor(X, dtype=torch.float32), torch.as_tensor(y))
        P, pred = npy(clf.predict_proba(torch.as_tensor(Q, dtype=torch.float32))), npy(clf.predict(torch.as_tensor(Q, dtype=torch.float32)))
    else:
        clf.fit(X, y)
        P, pred = clf.predict_proba(Q), clf.predict(Q)
    classes = sorted(set(y.tolist()))
    k = min(case["k"], n)
    for i, q in enumerate(Q):
        if case["metric"] == "euclidean":
            D = np.sqrt(((X - q) ** 2).sum(axis=1))
        else:
            nq, nx = np.linalg.norm(q), np.linalg.norm(X, axis=1)
            with np.errstate(all="ignore"):
                D = 1.0 - np.where((nx > 0) & (nq > 0), X @ q / (nx * nq), 0.0)
            D = np.maximum(np.round(D, 9), 0.0)
        order = np.sort(D)
        cut = order[k - 1]
        tol = 1e-5
        sure, tied = D < cut - tol, np.abs(D - cut) <= tol
        need = k - int(sure.sum())
        if case["weights"] == "uniform":
            w = np.ones(n)
        elif case["metric"] == "cosine" and (D < 1e-6).any() and (D < cut + tol).sum() > 0:
            # the similarity of parallel vectors is 1 up to rounding: their votes dominate, by an amount rounding decides
            zero = [j for j in range(n) if D[j] < 1e-6]
            zc = {y[j] for j in zero}
            mass = sum(P[i][classes.index(c)] for c in zc)
            require(mass > 0.9, "%s: neighbours parallel to the query carry only %g of the votes: %r", case["backend"], mass, P[i].tolist())
            continue
        elif (D == 0).any():
            w = (D == 0).astype(float)  # an exact match outweighs everything else
        else:
            w = 1.0 / np.where(D > 0, D, 1.0)
        tw = w[tied][0] if tied.any() else 0.0
        lo = np.array([w[sure & (y == c)].sum() for c in classes])
        cnt = np.array([int((tied & (y == c)).sum()) for c in classes])
        total = w[sure].sum() + need * tw
        share = P[i].astype(float) * total
        extra = share - lo
        ok = (extra >= -1e-3 * total).all() and (extra <= cnt * tw + 1e-3 * total).all() and abs(extra.sum() - need * tw) <= 1e-3 * total
        require(ok, "%s kNN (%s, %s, k=%d): query %r gets votes %r; sure %r plus %d of tied %r, weight %g",
                case["backend"], case["metric"], case["weights"], case["k"], q.tolist(), P[i].tolist(), (lo / total).tolist(), need, cnt.tolist(), tw)
        if int(tied.sum()) == need:
            best = P[i].max()
            require(P[i][classes.index(pred[i])] >= best - 1e-6, "%s kNN predicts %r for votes %r", case["backend"], pred[i], P[i].tolist())
    ctx.nontrivial(len(classes) > 1 and case["k"] < n)
    ctx.label("%s/%s/%s" % (case["backend"], case["metric"], case["weights"]))


# ---------------------------------------------------------------- C04
WEIGHTED = ["linear_svm", "ridge", "random_forest", "extra_trees"]


@st.composite
def rename_case(draw):
    case = draw(case_any)
    case = dict(case)
    case["pal2"] = draw(st.sampled_from(["range", "one", "gaps", "neg"] if case["backend"] == "torch" else sorted(set(LABELS) - {"bool"})))
    if case["pal"] == "bool":
        case["pal"] = "range"
    case["cw"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.2, 1.0, 4.0, 9.0]), min_size=6, max_size=6)))
    return case


@check("C04", rename_case(), quick=500, shards=3)
def rename(case, ctx):
    """at least two different predictions, and the two label sets differ"""
    outs = []
    pals = []
    cw_used = False
    for pal in (case["pal"], case["pal2"]):
        c = dict(case, pal=pal)
        if c["ytype"] == "uint8" or c["ytype"] == "int32":
            c["ytype"] = "array"
        X, y, Xte, labs, rows = problem(c)
        extra = {}
        if case["cw"] and case["backend"] == "sklearn" and case["clf"] in WEIGHTED:
            extra["class_weight"] = {v: w for v, w in zip(labs, case["cw"])}
            cw_used = True
        scramble(case["rng"])
        out = fit_all(make(c, extra=extra), X, y, Xte)
        order = sorted(set(rows))
        outs.append((out, order))
        pals.append(labs)
    (a, oa), (b, ob) = outs
    back = dict(zip(pals[0], pals[1]))
    if [back[v] for v in oa] != ob:
        return  # the renaming does not keep the order of the labels
    want = [ob[oa.index(v)] for v in a["pred"].tolist()]
    require(want == b["pred"].tolist(), "%s/%s predicts %r with labels %r and %r with labels %r%s", case["backend"], case["clf"],
            a["pred"].tolist(), oa, b["pred"].tolist(), ob, " (class weights given by label)" if cw_used else "")
    for what in ("scores", "proba"):
        if a[what] is not None:
            d = diff(a[what], b[what])
            require(d is None, "%s/%s: %s change with the label names: %s", case["backend"], case["clf"], what, d)
    ctx.nontrivial(len(set(want)) >= 2 and oa != ob)
    ctx.label(("weighted/" if cw_used else "") + case["clf"])


@check("C04", st.fixed_dictionaries({"clf": st.sampled_from(WEIGHTED), "seed": st.integers(0, 10**6),
                                     "pal": st.sampled_from(["range", "one", "gaps", "neg", "str"]), "which": st.integers(0, 2)}), quick=150)
def heavy_class(case, ctx):
    """every case: indistinguishable rows, one class weighted far above the others"""
    labs = LABELS[case["pal"]][:3]
    rng = np.random.default_rng(case["seed"])
    y = np.array([labs[i] for i in rng.permutation([0, 1, 2] * 4)])
    X = np.ones((12, 2)) + rng.normal(size=(12, 2)) * 1e-3
    cw = {v: (1e4 if i == case["which"] else 1e-2) for i, v in enumerate(labs)}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        clf = create_classifier(case["clf"], params={"class_weight": cw, **({"max_depth": 1, "n_estimators": 5} if case["clf"] in ("random_forest", "extra_trees") else {})},
                                runtime=ClassifierRuntime(seed=1))
        clf.fit(X, y)
        pred = clf.predict(np.ones((1, 2))).tolist()
    if case["clf"] in ("random_forest", "extra_trees", "ridge"):
        require(pred == [labs[case["which"]]], "%s with class weights %r predicts %r", case["clf"], cw, pred)
    ctx.nontrivial()


@check("C01", st.fixed_dictionaries({"pair": st.sampled_from(PAIRS), "seed": st.one_of(st.none(), st.integers(0, 99)),
                                     "n_jobs": st.sampled_from([None, 1, 2]), "auto": st.booleans()}), quick=150)
def runtime_accepted(case, ctx):
    """a seed or a number of jobs is given"""
    b, c = case["pair"]
    try:
        clf = create_classifier(c, backend="auto" if case["auto"] else b, runtime=ClassifierRuntime(seed=case["seed"], n_jobs=case["n_jobs"]))
    except TypeError as e:
        require(False, "creating %s with runtime seed=%r n_jobs=%r fails: %s", c, case["seed"], case["n_jobs"], e)
        return
    if case["seed"] is not None:
        require(clf.seed == case["seed"], "%s ignores the runtime seed", c)
    if not case["auto"]:
        require(clf.backend == b, "asked for backend %s of %s, got %s", b, c, clf.backend)
    ctx.nontrivial(case["seed"] is not None or case["n_jobs"] is not None)


# ---------------------------------------------------------------- C05
def take(Q, rows):
    if isinstance(Q, dict):
        return Q
    return [Q[i] for i in rows] if isinstance(Q, list) else Q[rows]


@check("C05", case_any, quick=350, shards=3)
def row_by_row(case, ctx):
    """at least three query rows and two different predictions"""
    case = dict(case, m=max(case["m"], 3))
    if case["clf"] == "knn":  # rounding decides between tied neighbours, and the weight of a neighbour at distance zero
        case.update(fresh=True, xkind="gauss" if case["xkind"] in ("grid", "const") else case["xkind"])
    X, y, Xte, pal, rows = problem(case)
    if case["clf"] == "graphsage_inductive":
        Xte = Xte["x"]
    clf = make(case)
    scramble(case["rng"])
    whole = fit_all(clf, X, y, Xte)
    m = n_rows(Xte)
    rng = np.random.default_rng(case["data"] + 5)
    perm = rng.permutation(m)
    parts = [perm[: m // 2], perm[m // 2:]] if case["seed"] % 2 else [perm[[i]] for i in range(m)]
    best = whole["proba"] if whole["proba"] is not None else whole["scores"]
    for rs in parts:
        if not len(rs):
            continue
        scramble(case["rng"] // 7 + len(rs))
        Q = take(Xte, rs.tolist())
        pred = npy(clf.predict(Q))
        for name, fn in (("scores", "predict_scores"), ("proba", "predict_proba")):
            if whole[name] is None:
                continue
            g = npy(getattr(clf, fn)(Q))
            require(g.shape == whole[name][rs].shape and np.allclose(g, whole[name][rs], rtol=2e-4, atol=2e-5),
                    "%s/%s: the %s of rows %r change when they are predicted apart: %r, together %r", case["backend"], case["clf"], name,
                    rs.tolist(), g.tolist(), whole[name][rs].tolist())
        top2 = np.sort(np.asarray(best, dtype=float), axis=1)
        for j, i in enumerate(rs):
            clear = top2.shape[1] < 2 or top2[i, -1] - top2[i, -2] > 1e-3 * (1 + abs(top2[i, -1]))
            if clear:
                require(pred[j] == whole["pred"][i], "%s/%s: row %d is predicted %r alone and %r together", case["backend"], case["clf"], i, pred[j], whole["pred"][i])
    ctx.nontrivial(len(set(whole["pred"].tolist())) >= 2)
    ctx.label(case["backend"] + "/" + case["clf"])


# ---------------------------------------------------------------- C06
EASY = {
    ("numpy", "knn"): {"k": 3}, ("sklearn", "knn"): {"k": 3}, ("torch", "knn"): {"k": 3},
    ("sklearn", "svm_rbf"): {"sigma": 3.0}, ("sklearn", "logreg"): {}, ("sklearn", "linear_svm"): {}, ("sklearn", "ridge"): {},
    ("sklearn", "random_forest"): {"n_estimators": 15}, ("sklearn", "extra_trees"): {"n_estimators": 15},
    ("sklearn", "gradient_boosting"): {"n_estimators": 20}, ("sklearn", "gaussian_nb"): {},
    ("torch", "logreg"): {"lr": 0.1, "max_epochs": 60, "batch_size": 16}, ("torch", "mlp"): {"lr": 0.02, "max_epochs": 60, "hidden_sizes": [16], "batch_size": 16},
    ("torch", "image_cnn"): {"conv_channels": [8], "fc_dim": 16, "lr": 0.03, "max_epochs": 60, "batch_size": 16},
    ("torch", "audio_cnn"): {"conv_channels": [8], "fc_dim": 16, "lr": 0.03, "max_epochs": 60, "batch_size": 16},
    ("torch", "text_cnn"): {"kernel_sizes": [2], "num_filters": 12, "lr": 0.03, "max_epochs": 60, "batch_size": 16, "dropout": 0.1},
    ("torch", "lstm_scratch"): {"vocab_size": 12, "embedding_dim": 8, "hidden_dim": 12, "num_layers": 1, "lr": 0.03, "max_epochs": 40, "batch_size": 16, "dropout": 0.0},
    ("torch", "audio_cnn_scratch"): {"base_channels": 4, "num_blocks": 1, "lr": 0.03, "max_epochs": 60, "batch_size": 16, "dropout": 0.0},
    ("torch", "graphsage_inductive"): {"hidden_channels": 16, "lr": 0.05, "max_epochs": 80, "dropout": 0.0},
}


@check("C06", st.fixed_dictionaries({"pair": st.sampled_from(sorted(EASY)), "k": st.integers(2, 3), "data": st.integers(0, 2**32 - 1),
                                     "pal": st.sampled_from(["range", "gaps", "neg", "str"]), "seed": st.integers(0, 2**31 - 1), "per": st.integers(6, 12)}),
       quick=160, shards=3)
def learns(case, ctx):
    """every case: two or three well separated classes"""
    (b, c), k, per = case["pair"], case["k"], case["per"]
    rng = np.random.default_rng(case["data"])
    pal = LABELS["gaps" if b == "torch" and case["pal"] == "str" else case["pal"]][:k]
    code = rng.permutation(np.repeat(np.arange(k), per))
    test = rng.integers(0, k, size=12)

    def feats(code):
        n = len(code)
        centre = np.array([[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]])[code]
        noise = lambda *s: 0.3 * rng.normal(size=s)
        if c == "lstm_scratch":
            return torch.as_tensor(rng.integers(1, 4, size=(n, 4)) + 3 * code[:, None])
        if c == "image_cnn":
            v = centre[:, :, None, None] + noise(n, 3, 4, 4)
        elif c == "audio_cnn":
            v = centre[:, :, None] + noise(n, 3, 6)
        elif c == "text_cnn":
            v = centre[:, None, :] + noise(n, 5, 3)
        elif c == "audio_cnn_scratch":
            v = np.zeros((n, 6, 6)) + noise(n, 6, 6)
            v[np.arange(n)] += 2.0 * (code[:, None, None] - 1.0)
        else:
            v = centre + noise(n, 3)
        if b == "torch":
            t = torch.as_tensor(v, dtype=torch.float32)
            if c == "graphsage_inductive":
                src, dst = np.nonzero((code[:, None] == code[None, :]) & (rng.random((n, n)) < 0.3))
                return {"x": t, "edge_index": torch.as_tensor(np.stack([src, dst]))}
            return t
        return v

    X, Q = feats(code), feats(test)
    y = np.array([pal[i] for i in code])
    clf = create_classifier(c, backend=b, params=EASY[case["pair"]], runtime=ClassifierRuntime(seed=case["seed"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        clf.fit(X, torch.as_tensor(y) if b == "torch" else y)
        acc = np.mean(npy(clf.predict(Q)) == np.array([pal[i] for i in test]))
    require(acc >= 0.7, "%s/%s reaches an accuracy of %.2f on %d classes that are far apart", b, c, acc, k)
    ctx.nontrivial()
    ctx.label(b + "/" + c)
    if acc < 0.99:
        ctx.label("acc<1 " + c)
