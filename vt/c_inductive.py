"""I01-I10: inductive semi-supervised methods."""
from __future__ import annotations

import warnings

import numpy as np
import torch

from . import c_supervised as cs
from .core import HarnessError, check, fail, require, st
from .eq import diff

from modssc.inductive.errors import InductiveValidationError
from modssc.inductive.registry import get_method_class
from modssc.inductive.types import DeviceSpec, InductiveDataset

CPU = DeviceSpec(device="cpu")
INT_LABELS = ("gaps", "range", "one", "neg")
# ------------------------------------------------------------------ classical methods
BASES = {
    "sklearn": ["knn", "logreg", "svm_rbf", "ridge", "linear_svm", "random_forest", "extra_trees", "gradient_boosting",
                "gaussian_nb", "multinomial_nb", "bernoulli_nb"],
    "numpy": ["knn"],
    "torch": ["knn", "logreg", "mlp", "image_cnn", "text_cnn", "graphsage_inductive"],
}
SPECS = {
    "supervised": ("supervised:SupervisedSpec", {}),
    "pseudo_label": ("pseudo_label:PseudoLabelSpec", {
        "max_iter": [3, 1, 2, 0], "confidence_threshold": [0.5, 0.9, 0.0], "max_new_labels": [None, 1, 3], "min_new_labels": [1, 2]}),
    "self_training": ("self_training:SelfTrainingSpec", {
        "max_iter": [3, 1, 2, 0], "confidence_threshold": [0.5, 0.9, 0.0, None], "max_new_labels": [None, 1, 3], "min_new_labels": [1, 2],
        "group_min_count": [2, 1], "group_min_fraction": [1.0, 0.5], "group_confidence_threshold": [None, 0.6]}),
    "setred": ("setred:SetredSpec", {
        "max_iter": [3, 1, 2, 0], "pool_size": [None, 2, 5], "max_new_labels": [None, 1, 4], "confidence_threshold": [None, 0.6],
        "theta": [0.5, 0.1, 0.9], "graph_type": ["rng", "knn"], "knn_k": [2, 10], "edge_weight": ["uniform", "distance", "inverse_distance"]}),
    "tri_training": ("tri_training:TriTrainingSpec", {
        "max_iter": [3, 1, 2, 0], "confidence_threshold": [None, 0.6], "max_new_labels": [None, 1, 3], "bootstrap_ratio": [1.0, 0.5, 2.0]}),
    "s4vm": ("s4vm:S4VMSpec", {"k_candidates": [3, 0, 6], "flip_rate": [0.05, 0.2, 0.5]}),
    "democratic_co_learning": ("democratic_co_learning:DemocraticCoLearningSpec", {
        "max_iter": [3, 1, 2, 0], "confidence_level": [0.95, 0.5], "min_confidence": [0.5, 0.0, 0.95], "n_learners": [3, 4]}),
    "co_training": ("co_training:CoTrainingSpec", {
        "max_iter": [3, 1, 2, 0], "k_per_class": [1, 2, 5], "confidence_threshold": [None, 0.6]}),
}
CLASSIC = sorted(SPECS)
PAIRS = sorted((b, c) for b, cl in BASES.items() for c in cl)


def spec_class(path):
    import importlib
    mod, name = path.split(":")
    return getattr(importlib.import_module("modssc.inductive.methods." + mod), name)


def method_case(method, pair):
    b, c = pair
    d = {
        "method": st.just(method), "backend": st.just(b), "clf": st.just(c), "params": cs.params_of(cs.GRID[b][c]),
        "spec": cs.params_of(SPECS[method][1]),
        "k": st.sampled_from([3, 2, 4]), "n": st.integers(3, 14).map(lambda v: 17 - v), "nu": st.integers(0, 12).map(lambda v: 12 - v),
        "d": st.integers(1, 4).map(lambda v: 5 - v), "m": st.integers(1, 8).map(lambda v: 9 - v),
        "pal": st.sampled_from(INT_LABELS), "ydtype": st.sampled_from(["int64", "int32", "int16", "uint8"]),
        "xkind": st.sampled_from(["far", "gauss", "grid", "const", "3d"]), "xtype": st.sampled_from(["float64", "float32"]),
        "seed": st.integers(0, 2**31 - 10), "data": st.integers(0, 2**32 - 1), "rng": st.integers(0, 2**31 - 1),
        "groups": st.booleans(), "no_u": st.sampled_from([False, False, False, True]),
    }
    return st.fixed_dictionaries(d)


def allowed(method, pair):
    b, c = pair
    if method == "tri_training" and (c == "gaussian_nb" or not (c in cs.SINGLE_OK or b == "torch")):
        return False  # a bootstrap of one class or one row only: scikit-learn refuses to train or returns nan
    return not (method == "setred" and c in ("image_cnn", "text_cnn"))  # its neighbourhood graph needs flat features


def any_classic(backends, methods=CLASSIC):
    combos = [(m, p) for m in methods for p in PAIRS if p[0] in backends and allowed(m, p)]
    return st.sampled_from(combos).flatmap(lambda t: method_case(*t))


def yarr(case, rows):
    a = np.asarray(rows)
    dt = case["ydtype"]
    if dt == "uint8" and a.min() < 0:
        dt = "int16"
    return a.astype(dt)


class Problem:
    """data for one classical method case; ``rows`` are the labels in the user's values"""

    def __init__(self, case, pal=None):
        rng = np.random.default_rng(case["data"])
        m = case["method"]
        k = 2 if m == "s4vm" else case["k"]
        pal = list(cs.LABELS[pal or case["pal"]][:k])
        n = max(case["n"], 2 * k if case["clf"] in ("gradient_boosting", "svm_rbf") else k)
        extra = 2 * k if case["clf"] == "svm_rbf" else k
        codes = rng.permutation(np.concatenate([np.tile(np.arange(k), extra // k), rng.integers(0, k, size=n - extra)]))
        sub = dict(case)
        if m == "setred" and sub["xkind"] == "3d":
            sub["xkind"] = "gauss"
        if case["backend"] == "torch" and sub["xkind"] == "3d" and case["clf"] in ("knn", "graphsage_inductive"):
            sub["xkind"] = "gauss"
        nu = case["nu"]
        if m in ("tri_training", "s4vm"):
            nu = max(nu, 1)
        X = cs.features(sub, n + nu + case["m"], rng)
        if sub["xkind"] in ("far", "gauss", "grid") and case["clf"] not in ("multinomial_nb",):
            X[:n] += 2.0 * codes.reshape((n,) + (1,) * (X.ndim - 1))
        if case["clf"] == "gaussian_nb" and np.ptp(X[:n].reshape(n, -1), axis=0).max() == 0:
            X[0] += 1.0
        self.k, self.n, self.nu = k, n, nu
        self.pal, self.rows, self.codes = pal, [pal[c] for c in codes], codes
        self.Xl, self.Xu, self.Xt = X[:n], X[n : n + nu], X[n + nu :]
        self.X2 = cs.features(sub, n + nu + case["m"], rng)
        if case["clf"] == "gaussian_nb" and np.ptp(self.X2[:n].reshape(n, -1), axis=0).max() == 0:
            self.X2[0] += 1.0
        self.gu, self.gl = rng.integers(0, 4, size=nu), rng.integers(0, 4, size=n)
        self.no_u = case["no_u"] and m not in ("tri_training", "s4vm", "co_training")

    def wrap(self, case, X, tag=0):
        if case["backend"] == "torch":
            t = torch.as_tensor(np.array(X), dtype=torch.float64 if case["xtype"] == "float64" and case["clf"] == "knn" else torch.float32)
            if case["clf"] == "graphsage_inductive":
                rng = np.random.default_rng(case["data"] + tag)
                e = rng.integers(0, max(1, len(t)), size=(2, 2 * len(t)))
                return {"x": t, "edge_index": torch.as_tensor(e)}
            return t
        return np.array(X).astype(case["xtype"])

    def y(self, case):
        y = yarr(case, self.rows)
        return torch.as_tensor(y) if case["backend"] == "torch" else y

    def data(self, case):
        meta = None
        if case["groups"]:
            meta = {"group_u": self.gu, "group_l": self.gl, "note": ["x"]}
            if case["backend"] == "torch":
                meta = {"group_u": torch.as_tensor(self.gu), "group_l": torch.as_tensor(self.gl)}
        views = None
        if case["method"] == "co_training":
            n, nu = self.n, self.nu
            views = {"b": {"X_l": self.wrap(case, self.Xl, 1), "X_u": self.wrap(case, self.Xu, 2)},
                     "a": {"X_l": self.wrap(case, self.X2[:n], 3), "X_u": self.wrap(case, self.X2[n : n + nu], 4)}}
        return InductiveDataset(X_l=self.wrap(case, self.Xl, 1), y_l=self.y(case),
                                X_u=None if self.no_u else self.wrap(case, self.Xu, 2), views=views, meta=meta)

    def test(self, case):
        if case["method"] == "co_training":
            return InductiveDataset(X_l=self.wrap(case, self.Xt, 5), y_l=None, views={
                "b": {"X": self.wrap(case, self.Xt, 5)}, "a": {"X": self.wrap(case, self.X2[self.n + self.nu :], 6)}})
        return self.wrap(case, self.Xt, 5)


def build(case):
    path, _ = SPECS[case["method"]]
    kw = dict(case["spec"])
    spec = spec_class(path)(classifier_id=case["clf"], classifier_backend=case["backend"], classifier_params=dict(case["params"]), **kw)
    return get_method_class(case["method"])(spec)


def fit_predict(case, data, test, seed=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = build(case).fit(data, device=CPU, seed=case["seed"] if seed is None else seed)
        return {"proba": cs.npy(m.predict_proba(test)), "pred": cs.npy(m.predict(test))}


def deep(v):
    if isinstance(v, InductiveDataset):
        return {f: deep(getattr(v, f)) for f in ("X_l", "y_l", "X_u", "X_u_w", "X_u_s", "views", "meta")}
    if isinstance(v, tuple):
        return tuple(deep(x) for x in v)
    return cs.copy_data(v) if not isinstance(v, dict) else {k: deep(x) for k, x in v.items()}


def as_data(d):
    return InductiveDataset(**{k: deep(v) for k, v in d.items()}) if isinstance(d, dict) and "X_l" in d and "views" in d else deep(d)


def who(case):
    return "%s with %s/%s" % (case["method"], case["backend"], case["clf"])


def valid_answers(case, ctx, out, prob, subset_ok):
    want = sorted(set(prob.rows))
    p, pred = out["proba"], out["pred"]
    m = len(prob.Xt)
    require(p.ndim == 2 and p.shape[0] == m and (p.shape[1] == len(want) or subset_ok and 1 <= p.shape[1] <= len(want)),
            "%s: probabilities of shape %s for %d samples and %d classes", who(case), p.shape, m, len(want))
    require(np.isfinite(p).all() and (p >= 0).all(), "%s: invalid probabilities %r", who(case), p.tolist())
    total = p.sum(axis=1)
    if case["clf"] in ("ridge", "linear_svm", "svm_rbf", "logreg"):  # decision values of exactly zero stay a row of zeros
        total = np.where((p == 0).all(axis=1), 1.0, total)
    require(np.allclose(total, 1.0, atol=1e-4), "%s: probability rows sum to %r", who(case), p.sum(axis=1).tolist())
    require(pred.shape == (m,), "%s predicts shape %s for %d samples", who(case), pred.shape, m)
    for v in pred.tolist():
        require(v in want, "%s predicts %r, which is not a label of %r", who(case), v, want)
    if p.shape[1] == len(want) and case["clf"] != "svm_rbf":
        idx = np.array([want.index(v) for v in pred.tolist()])
        require((p[np.arange(m), idx] >= p.max(axis=1) - 1e-5).all(),
                "%s predicts %r where the probabilities (classes %r) are %r", who(case), pred.tolist(), want, p.tolist())
    ctx.nontrivial(len(set(pred.tolist())) >= 2 and not prob.no_u and prob.nu > 0)
    ctx.label(case["method"])


def answers(case, ctx):
    prob = Problem(case)
    cs.scramble(case["rng"])
    valid_answers(case, ctx, fit_predict(case, prob.data(case), prob.test(case)), prob, case["method"] == "tri_training")


@check("I01", any_classic(("sklearn", "numpy")), quick=500, shards=3)
def classic_answers(case, ctx):
    """unlabelled rows given and at least two different predictions"""
    answers(case, ctx)


@check("I01", any_classic(("torch",)), quick=250, shards=3)
def classic_answers_torch(case, ctx):
    """unlabelled rows given and at least two different predictions"""
    answers(case, ctx)


def repeat(case, ctx):
    prob = Problem(case)
    d0, t0 = deep(prob.data(case)), deep(prob.test(case))
    outs = []
    for i in range(2):
        cs.scramble(case["rng"] + 991 * i)
        outs.append(fit_predict(case, as_data(d0), as_data(t0)))
    d = diff(outs[0], outs[1])
    require(d is None, "%s: two fits from seed %d differ: %s", who(case), case["seed"], d)
    ctx.nontrivial(len(set(outs[0]["pred"].tolist())) >= 2 and prob.nu > 0 and not prob.no_u)
    ctx.label(case["method"])


@check("I02", any_classic(("sklearn", "numpy")), quick=250, shards=3)
def classic_repeatable(case, ctx):
    """unlabelled rows given and at least two different predictions"""
    repeat(case, ctx)


@check("I02", any_classic(("torch",)), quick=150, shards=2)
def classic_repeatable_torch(case, ctx):
    """unlabelled rows given and at least two different predictions"""
    repeat(case, ctx)


@check("I03", any_classic(("sklearn", "numpy", "torch")), quick=350, shards=3)
def classic_inputs_untouched(case, ctx):
    """unlabelled rows given and at least two different predictions"""
    prob = Problem(case)
    data, test = prob.data(case), prob.test(case)
    d0, t0 = deep(data), deep(test)
    out = fit_predict(case, data, test)
    d = diff(d0, deep(data)) or diff(t0, deep(test))
    require(d is None, "%s modifies the caller's data: %s", who(case), d)
    ctx.nontrivial(len(set(out["pred"].tolist())) >= 2 and prob.nu > 0 and not prob.no_u)
    ctx.label(case["method"])


@check("I04", st.tuples(any_classic(("sklearn", "numpy", "torch")), st.sampled_from(INT_LABELS)).map(
    lambda t: dict(t[0], pal2=t[1])), quick=350, shards=3)
def classic_label_names(case, ctx):
    """the two label palettes differ and at least two different predictions"""
    a, b = Problem(case), Problem(case, pal=case["pal2"])
    oa, ob = fit_predict(case, a.data(case), a.test(case)), fit_predict(case, b.data(case), b.test(case))
    names = dict(zip(a.pal, b.pal))
    d = diff(oa["proba"], ob["proba"])
    require(d is None, "%s: labels %r and %r give different probabilities: %s", who(case), a.pal, b.pal, d)
    got = [names[v] for v in oa["pred"].tolist()]
    require(got == ob["pred"].tolist(), "%s: labels %r predict %r but labels %r predict %r", who(case), a.pal, oa["pred"].tolist(), b.pal, ob["pred"].tolist())
    ctx.nontrivial(a.pal != b.pal and len(set(got)) >= 2 and a.nu > 0 and not a.no_u)
    ctx.label(case["method"])


# ------------------------------------------------------------------ I07 confident selection
from modssc.inductive.methods import utils as bridge  # noqa: E402

sel_case = st.fixed_dictionaries({
    "n": st.integers(0, 20).map(lambda v: 20 - v), "k": st.integers(1, 5), "data": st.integers(0, 2**32 - 1),
    "grid": st.sampled_from([0, 4, 10]), "thr": st.sampled_from([None, 0.5, 0.25, 0.0, 0.9, 1.0, -3.0]),
    "cap": st.sampled_from([None, 1, 2, 5, 0, 30]), "per": st.sampled_from([1, 2, 4, 0, 30]), "logits": st.booleans(),
})


def sel_scores(case):
    rng = np.random.default_rng(case["data"])
    s = rng.dirichlet(np.ones(case["k"]), size=case["n"]) if not case["logits"] else rng.normal(size=(case["n"], case["k"]))
    return np.round(s * case["grid"]) / case["grid"] if case["grid"] else s


@check("I07", sel_case, quick=400)
def confident_selection(case, ctx):
    """some but not all rows are selected"""
    s = sel_scores(case)
    if case["n"] == 0:
        return
    conf = s.max(axis=1)
    ok = {i for i in range(len(s)) if case["thr"] is None or conf[i] >= case["thr"]}
    want = len(ok) if case["cap"] is None else min(len(ok), case["cap"])
    for kind in ("numpy", "torch"):
        if kind == "numpy":
            got = bridge.select_confident(s, threshold=case["thr"], max_new=case["cap"])
        else:
            got = bridge.select_confident_torch(torch.as_tensor(s), threshold=case["thr"], max_new=case["cap"])
        got = [int(i) for i in cs.npy(got).reshape(-1)]
        require(len(set(got)) == len(got) and set(got) <= ok, "%s: selected %r although only %r reach the threshold", kind, got, sorted(ok))
        require(len(got) == want, "%s: selected %d rows instead of %d", kind, len(got), want)
        require(sorted(conf[got]) == sorted(sorted(conf[list(ok)], reverse=True)[:want]),
                "%s: selected confidences %r are not the %d largest", kind, conf[got].tolist(), want)
        if case["cap"] is None:
            require(got == sorted(got), "%s: rows come out of order: %r", kind, got)
    ctx.nontrivial(0 < want < len(s))


@check("I07", sel_case, quick=400)
def selection_per_class(case, ctx):
    """at least two classes are selected and some row is not"""
    s = sel_scores(case)
    if case["n"] == 0:
        return
    srt = np.sort(s, axis=1)
    s = s[(srt[:, -1] > srt[:, -2]) if s.shape[1] > 1 else np.ones(len(s), bool)]  # tied classes: either may win
    if len(s) == 0:
        return
    pred, conf = s.argmax(axis=1), s.max(axis=1)
    total = 0
    for kind in ("numpy", "torch"):
        if kind == "numpy":
            got = bridge.select_top_per_class(s, k_per_class=case["per"], threshold=case["thr"])
        else:
            got = bridge.select_top_per_class_torch(torch.as_tensor(s), k_per_class=case["per"], threshold=case["thr"])
        got = [int(i) for i in cs.npy(got).reshape(-1)]
        require(got == sorted(set(got)), "%s: rows are repeated or out of order: %r", kind, got)
        for c in range(s.shape[1]):
            ok = [i for i in np.flatnonzero(pred == c) if case["thr"] is None or conf[i] >= case["thr"]]
            mine = [i for i in got if pred[i] == c]
            best = sorted(conf[ok], reverse=True)[: case["per"]]
            require(set(mine) <= set(ok) and sorted(conf[mine]) == sorted(best),
                    "%s: class %d gets rows %r with confidences %r instead of the best %r", kind, c, mine, conf[mine].tolist(), best)
        total = len(got)
    ctx.nontrivial(len(set(pred[got])) >= 2 and total < len(s))


# ------------------------------------------------------------------ I06 validation
from modssc.inductive.adapters import to_numpy_dataset, to_torch_dataset  # noqa: E402

valid_case = st.fixed_dictionaries({
    "backend": st.sampled_from(["numpy", "torch"]), "n": st.integers(1, 6).map(lambda v: 7 - v), "nu": st.integers(0, 6).map(lambda v: 6 - v),
    "shape": st.sampled_from([[3], [1], [2, 4], [3, 2, 2]]), "two": st.booleans(), "parts": st.integers(0, 15),
    "data": st.integers(0, 2**32 - 1),
})


def valid_data(case):
    rng = np.random.default_rng(case["data"])
    sh = tuple(case["shape"])
    mk = (lambda a: a) if case["backend"] == "numpy" else torch.as_tensor
    n, nu, parts = case["n"], case["nu"], case["parts"]
    y = rng.integers(0, 3, size=n)
    if case["two"]:
        y = np.eye(3, dtype=np.int64)[y]
    return {"X_l": mk(rng.normal(size=(n,) + sh)), "y_l": mk(y),
            "X_u": mk(rng.normal(size=(nu,) + sh)) if parts & 1 else None,
            "X_u_w": mk(rng.normal(size=(nu,) + sh)) if parts & 2 else None,
            "X_u_s": mk(rng.normal(size=(nu,) + sh)) if parts & 4 else None,
            "views": {"a": mk(rng.normal(size=(n, 2))), "b": mk(rng.normal(size=(n, 1)))} if parts & 8 else None,
            "meta": {"k": 1} if parts & 8 else None}


@check("I06", valid_case, quick=200)
def valid_data_passes(case, ctx):
    """at least one optional part is present"""
    d = valid_data(case)
    out = (to_numpy_dataset if case["backend"] == "numpy" else to_torch_dataset)(InductiveDataset(**d))
    for k, v in d.items():
        e = diff(v, getattr(out, k), k)
        require(e is None, "the %s adapter changes the data: %s", case["backend"], e)
    ctx.nontrivial(case["parts"] > 0)


CORRUPT = ["X_l 1d", "X_l list", "X_l other backend", "y rows", "y list", "y 3d", "X_u width", "X_u_w width", "X_u_s width", "X_u 1d",
           "X_u list", "strong and weak rows", "views list", "views int key", "views value list", "X_u other backend"]


@check("I06", st.tuples(valid_case, st.sampled_from(CORRUPT), st.sampled_from(["adapter", "supervised", "pseudo_label", "self_training", "setred",
       "tri_training", "s4vm", "democratic_co_learning"])).map(lambda t: dict(t[0], corrupt=t[1], via=t[2])), quick=500)
def corrupted_data_rejected(case, ctx):
    """always: every case is a corrupted dataset"""
    case = dict(case, two=False)
    d = valid_data(case)
    rng = np.random.default_rng(case["data"] + 1)
    np_, n, nu, sh = case["backend"] == "numpy", case["n"], max(case["nu"], 1), tuple(case["shape"])
    mk = (lambda a: a) if np_ else torch.as_tensor
    other = torch.as_tensor if np_ else (lambda a: a)
    wide = (nu, sh[0] + int(rng.integers(1, 3))) + sh[1:]
    c = case["corrupt"]
    if c == "X_l 1d":
        d["X_l"] = mk(rng.normal(size=n))
    elif c == "X_l list":
        d["X_l"] = rng.normal(size=(n,) + sh).tolist()
    elif c == "X_l other backend":
        d["X_l"] = other(rng.normal(size=(n,) + sh))
    elif c == "y rows":
        d["y_l"] = mk(np.zeros(n + int(rng.choice([-1, 1, 2])), dtype=np.int64))
    elif c == "y list":
        d["y_l"] = [0] * n
    elif c == "y 3d":
        d["y_l"] = mk(np.zeros((n, 2, 1), dtype=np.int64))
    elif c.endswith("width"):
        d[c.split()[0]] = mk(rng.normal(size=wide))
    elif c == "X_u 1d":
        d["X_u"] = mk(rng.normal(size=n))
    elif c == "X_u list":
        d["X_u"] = rng.normal(size=(nu,) + sh).tolist()
    elif c == "X_u other backend":
        d["X_u"] = other(rng.normal(size=(nu,) + sh))
    elif c == "strong and weak rows":
        d["X_u_w"], d["X_u_s"] = mk(rng.normal(size=(nu,) + sh)), mk(rng.normal(size=(nu + 1,) + sh))
    elif c == "views list":
        d["views"] = [mk(rng.normal(size=(n, 2)))]
    elif c == "views int key":
        d["views"] = {1: mk(rng.normal(size=(n, 2)))}
    else:
        d["views"] = {"a": [[1.0, 2.0]] * n}
    data = InductiveDataset(**d)
    try:
        if case["via"] == "adapter":
            (to_numpy_dataset if np_ else to_torch_dataset)(data)
        else:
            path, _ = SPECS[case["via"]]
            spec = spec_class(path)(classifier_id="knn", classifier_backend="numpy" if np_ else "torch", classifier_params={"k": 1})
            get_method_class(case["via"])(spec).fit(data, device=CPU, seed=0)
    except InductiveValidationError:
        pass
    else:
        fail("%s accepts a dataset with a corrupted part (%s)", case["via"], c)
    ctx.nontrivial()
    ctx.label(c)


LABELS_BAD = ["float labels", "2d labels", "no rows", "string labels"]


@check("I06", st.fixed_dictionaries({
    "method": st.sampled_from(sorted(set(CLASSIC) - {"co_training"})), "backend": st.sampled_from(["numpy", "torch"]), "bad": st.sampled_from(
        LABELS_BAD + ["wrong classifier backend", "no unlabeled rows", "three classes"]), "n": st.integers(2, 8), "data": st.integers(0, 2**31)}), quick=200)
def unusable_training_data(case, ctx):
    """always: every case is an invalid training set"""
    np_ = case["backend"] == "numpy"
    mk = (lambda a: a) if np_ else torch.as_tensor
    rng = np.random.default_rng(case["data"])
    n = case["n"] + 1
    X, Xu, y = rng.normal(size=(n, 2)), rng.normal(size=(4, 2)), np.arange(n) % 2
    bad, backend = case["bad"], case["backend"]
    if bad == "float labels":
        y = y.astype(float)
    elif bad == "2d labels":
        y = np.eye(2, dtype=np.int64)[y]
    elif bad == "no rows":
        X, y = X[:0], y[:0]
    elif bad == "string labels":
        if not np_:
            return
        y = np.array(["a", "b"])[y]
    elif bad == "wrong classifier backend":
        backend = "torch" if np_ else "numpy"
    elif bad == "three classes":
        if case["method"] != "s4vm":
            return
        y = np.arange(n) % 3
    else:
        if case["method"] not in ("tri_training", "s4vm"):
            return
        Xu = None
    path, _ = SPECS[case["method"]]
    spec = spec_class(path)(classifier_id="knn", classifier_backend=backend, classifier_params={"k": 1})
    data = InductiveDataset(X_l=mk(X), y_l=mk(y), X_u=None if Xu is None else mk(Xu))
    try:
        get_method_class(case["method"])(spec).fit(data, device=CPU, seed=0)
    except InductiveValidationError:
        pass
    else:
        fail("%s trains on %s", case["method"], bad)
    ctx.nontrivial()
    ctx.label(bad)


BAD_VIEWS = ["missing X_u", "missing X_l", "one view", "no views", "labelled rows", "unlabelled rows", "1d", "list", "other backend", "bare array"]


@check("I06", st.fixed_dictionaries({"backend": st.sampled_from(["numpy", "torch"]), "bad": st.sampled_from(BAD_VIEWS), "which": st.sampled_from("ab"),
                                     "n": st.integers(2, 8), "data": st.integers(0, 2**31)}), quick=150)
def bad_views_rejected(case, ctx):
    """always: every case is an invalid set of views"""
    np_ = case["backend"] == "numpy"
    mk = (lambda a: a) if np_ else torch.as_tensor
    rng = np.random.default_rng(case["data"])
    n = case["n"]
    views = {k: {"X_l": mk(rng.normal(size=(n, w))), "X_u": mk(rng.normal(size=(5, w)))} for k, w in (("a", 2), ("b", 3))}
    v, bad = views[case["which"]], case["bad"]
    if bad.startswith("missing"):
        del v[bad.split()[1]]
    elif bad == "one view":
        del views[case["which"]]
    elif bad == "no views":
        views = None
    elif bad == "labelled rows":
        v["X_l"] = v["X_l"][:-1]
    elif bad == "unlabelled rows":
        v["X_u"] = v["X_u"][:-1]
    elif bad == "1d":
        v["X_u"] = v["X_u"][:, 0]
    elif bad == "list":
        v["X_l"] = v["X_l"].tolist()
    elif bad == "bare array":
        views[case["which"]] = v["X_l"]
    else:
        v["X_l"] = torch.as_tensor(v["X_l"]) if np_ else v["X_l"].numpy()
    spec = spec_class(SPECS["co_training"][0])(classifier_id="knn", classifier_backend=case["backend"], classifier_params={"k": 1})
    data = InductiveDataset(X_l=mk(rng.normal(size=(n, 2))), y_l=mk(np.arange(n) % 2), views=views)
    try:
        get_method_class("co_training")(spec).fit(data, device=CPU, seed=0)
    except InductiveValidationError:
        pass
    else:
        fail("co-training accepts views with %s", bad)
    ctx.nontrivial()
    ctx.label(bad)


# ------------------------------------------------------------------ I08 the algorithms, against references
from . import spyclf  # noqa: E402

ALGOS = [m for m in CLASSIC if m != "supervised"]


class Ambiguous(Exception):
    """a tie or a rounding margin decides: the case says nothing"""


def margin(values, tol=1e-9):
    if np.any(np.abs(np.asarray(values, dtype=float)) < tol):
        raise Ambiguous


def top(ids, conf, cap):
    """ids of the ``cap`` most confident entries"""
    order = sorted(range(len(ids)), key=lambda i: -conf[i])
    if cap is not None and len(ids) > cap:
        if cap > 0:
            margin([conf[order[cap - 1]] - conf[order[cap]]])
        order = order[:cap]
    return [ids[i] for i in order]


class World:
    """rows are known by number: 0..n-1 labelled, n..n+nu-1 unlabelled"""

    def __init__(self, case):
        rng = np.random.default_rng(case["data"])
        self.case, self.spec = case, case["spec"]
        k = 2 if case["method"] == "s4vm" else case["k"]
        self.pal = list(cs.LABELS[case["pal"]][:k])
        n, nu, d = max(case["n"], k), case["nu"], case["d"]
        codes = np.concatenate([np.arange(k), rng.integers(0, k, size=n - k)])
        rng.shuffle(codes)
        allcodes = np.concatenate([codes, rng.integers(0, k, size=nu + 6)])
        mu = rng.normal(size=(k, d)) * case["spread"]
        self.X = rng.normal(size=(n + nu + 6, d)) + mu[allcodes]
        self.X2 = rng.normal(size=(n + nu + 6, d + 1)) + (rng.normal(size=(k, d + 1)) * case["spread"])[allcodes]
        if case["method"] == "setred":   # far from the origin, with nearly equal rows
            twins = rng.permutation(n + nu)[:2 * min(case.get("twins", 0), (n + nu) // 2)].reshape(-1, 2)
            self.X[twins[:, 0]] = self.X[twins[:, 1]] + rng.normal(size=(len(twins), d)) * 1e-3
            self.X += case.get("offset", 0)
        self.y = np.array([self.pal[c] for c in codes])
        self.n, self.nu = n, nu
        self.L, self.U = list(range(n)), list(range(n, n + nu))
        self.T = list(range(n + nu, n + nu + 6))
        self.gu, self.gl = rng.integers(0, 5, size=nu), rng.integers(0, 5, size=n)
        self.ids = {}
        for M in (self.X, self.X2):
            for i, r in enumerate(M):
                self.ids[r.tobytes()] = i

    def who(self, rows):
        out = []
        for r in np.asarray(rows, dtype=float):
            i = self.ids.get(r.tobytes())
            require(i is not None, "%s trains on a row that is not in the data: %r", self.case["method"], r.tolist())
            out.append(i)
        return out

    def data(self):
        np_ = self.case["backend"] == "numpy"
        mk = np.array if np_ else (lambda a: torch.as_tensor(np.array(a)))
        n, e = self.n, self.n + self.nu
        views = meta = None
        if self.case["method"] == "co_training":
            views = {"a": {"X_l": mk(self.X[:n]), "X_u": mk(self.X[n:e])}, "b": (mk(self.X2[:n]), mk(self.X2[n:e]))}
        if self.case["method"] == "self_training" and self.case["groups"]:
            meta = {"group_u": mk(self.gu), "group_l": mk(self.gl)}
        return InductiveDataset(X_l=mk(self.X[:n]), y_l=mk(self.y), X_u=mk(self.X[n:e]), views=views, meta=meta)

    def test(self):
        mk = np.array if self.case["backend"] == "numpy" else (lambda a: torch.as_tensor(np.array(a)))
        if self.case["method"] == "co_training":
            return InductiveDataset(X_l=mk(self.X[self.T]), y_l=None, views={"a": {"X": mk(self.X[self.T])}, "b": mk(self.X2[self.T])})
        return mk(self.X[self.T])

    def ref(self, seed, train, X=None):
        """train: list of (row, label)"""
        X = self.X if X is None else X
        return spyclf.Model(seed, self.case["scale"]).train(X[[i for i, _ in train]], [v for _, v in train])


def labelled(w):
    return [(i, w.y[i]) for i in w.L]


def ref_pseudo_label(w, seeds):
    s, train, U = w.spec, labelled(w), list(w.U)
    for _ in range(s["max_iter"]):
        m = w.ref(seeds[0], train)
        if not U:
            break
        sc = m.scores(w.X[U])
        conf = sc.max(axis=1)
        margin(conf - s["confidence_threshold"])
        ok = [j for j in range(len(U)) if conf[j] >= s["confidence_threshold"]]
        pick = top(ok, conf[ok], s["max_new_labels"])
        if len(pick) < s["min_new_labels"]:
            break
        lab = m.classes[sc.argmax(axis=1)]
        train += [(U[j], lab[j]) for j in pick]
        U = [u for j, u in enumerate(U) if j not in set(pick)]
    return [train]


def ref_self_training(w, seeds):
    s, train, U = w.spec, labelled(w), list(w.U)
    thr = s["confidence_threshold"]
    for _ in range(s["max_iter"]):
        m = w.ref(seeds[0], train)
        if not U:
            break
        sc = m.scores(w.X[U])
        conf, lab = sc.max(axis=1), m.classes[sc.argmax(axis=1)]
        if thr is not None:
            margin(conf - thr)
        direct = [j for j in range(len(U)) if thr is None or conf[j] >= thr]
        cand = {j: (lab[j], conf[j]) for j in direct}
        if w.case["groups"]:
            gthr = s["group_confidence_threshold"]
            gthr = thr if gthr is None else gthr
            for g in sorted(set(int(w.gu[u - w.n]) for u in U)):
                members = [j for j, u in enumerate(U) if w.gu[u - w.n] == g]
                votes = [(w.y[i], 1.0) for i in w.L if w.gl[i] == g] + [(lab[j], conf[j]) for j in members if j in direct]
                if len(votes) < s["group_min_count"]:
                    continue
                count = {}
                for v, _ in votes:
                    count[v] = count.get(v, 0) + 1
                best = max(count.values())
                if best / len(votes) < s["group_min_fraction"]:
                    continue
                if sum(c == best for c in count.values()) > 1:
                    raise Ambiguous
                v = next(v for v, c in count.items() if c == best)
                mean = float(np.mean([c for u, c in votes if u == v]))
                if gthr is not None:
                    if mean != 1.0:
                        margin([mean - gthr])
                    if mean < gthr:
                        continue
                for j in members:
                    cand.setdefault(j, (v, mean))
        js = sorted(cand)
        pick = top(js, [cand[j][1] for j in js], s["max_new_labels"])
        if len(pick) < s["min_new_labels"]:
            break
        train += [(U[j], cand[j][0]) for j in pick]
        U = [u for j, u in enumerate(U) if j not in set(pick)]
    return [train]


def ref_co_training(w, seeds):
    s = w.spec
    train, U = [labelled(w), labelled(w)], list(w.U)
    for _ in range(s["max_iter"]):
        ms = [w.ref(seeds[v], train[v], (w.X, w.X2)[v]) for v in (0, 1)]
        if not U:
            break
        picks, labs = [], []
        for v in (0, 1):
            sc = ms[v].scores((w.X, w.X2)[v][U])
            conf, code = sc.max(axis=1), sc.argmax(axis=1)
            if s["confidence_threshold"] is not None:
                margin(conf - s["confidence_threshold"])
            pick = []
            for c in range(len(ms[v].classes)):
                ok = [j for j in range(len(U)) if code[j] == c and (s["confidence_threshold"] is None or conf[j] >= s["confidence_threshold"])]
                pick += top(ok, conf[ok], s["k_per_class"])
            picks.append(pick)
            labs.append(ms[v].classes[code])
        if not picks[0] and not picks[1]:
            break
        for v in (0, 1):
            train[1 - v] = train[1 - v] + [(U[j], labs[v][j]) for j in picks[v]]
        gone = set(picks[0]) | set(picks[1])
        U = [u for j, u in enumerate(U) if j not in gone]
    return train


def ref_tri_training(w, seeds, spies):
    s = w.spec
    boots = []
    for i in range(3):
        X, y = spies[i].fits[0]
        rows = w.who(X)
        require(set(rows) <= set(w.L) and [w.y[r] for r in rows] == y.tolist(),
                "tri-training: learner %d starts from rows %r with labels %r, not from a sample of the labelled rows", i, rows, y.tolist())
        want = max(1, int(round(s["bootstrap_ratio"] * w.n)))
        require(len(rows) == want, "tri-training: a bootstrap has %d rows instead of %d", len(rows), want)
        boots.append([(r, w.y[r]) for r in rows])
    added = [{}, {}, {}]
    train = lambda: [boots[i] + sorted(added[i].items()) for i in range(3)]  # noqa: E731
    for _ in range(s["max_iter"]):
        ms = [w.ref(seeds[i], t) for i, t in enumerate(train())]
        sc = [m.scores(w.X[w.U]) for m in ms]
        conf = [x.max(axis=1) for x in sc]
        lab = [m.classes[x.argmax(axis=1)] for m, x in zip(ms, sc)]
        new = [{}, {}, {}]
        for i in range(3):
            j, k = [x for x in range(3) if x != i]
            thr = s["confidence_threshold"]
            if thr is not None:
                margin(conf[j] - thr), margin(conf[k] - thr)
            ok = [u for u in range(w.nu) if lab[j][u] == lab[k][u] and w.U[u] not in added[i]
                  and (thr is None or conf[j][u] >= thr and conf[k][u] >= thr)]
            for u in top(ok, [(conf[j][u] + conf[k][u]) / 2 for u in ok], s["max_new_labels"]):
                new[i][w.U[u]] = lab[j][u]
        if not any(new):
            break
        for i in range(3):
            added[i].update(new[i])
    return train()


def edges(D, kind, k):
    n = len(D)
    nb = [set() for _ in range(n)]
    for i in range(n):
        if kind == "knn":
            kk = max(1, min(k, n - 1))
            o = sorted((j for j in range(n) if j != i), key=lambda j: D[i, j])
            if kk < len(o):
                margin([D[i, o[kk - 1]] - D[i, o[kk]]], 1e-5)
            for j in o[:kk]:
                nb[i].add(j), nb[j].add(i)
            continue
        for j in range(i + 1, n):
            others = [max(D[i, t], D[j, t]) for t in range(n) if t not in (i, j)]
            if others:
                margin([min(others) - D[i, j]], 1e-5)
            if not others or min(others) >= D[i, j]:
                nb[i].add(j), nb[j].add(i)
    return nb


def ref_setred(w, seeds, spies):
    from statistics import NormalDist

    s, train, U = w.spec, labelled(w), list(w.U)
    pools = [w.who(x) for x in spies[0].scored]
    pools = [x for i, x in enumerate(pools) if i == 0 or x != pools[i - 1]]
    used = 0
    for _ in range(s["max_iter"]):
        if not U:
            break
        m = w.ref(seeds[0], train)
        size = len(U) if s["pool_size"] is None else min(s["pool_size"], len(U))
        require(used < len(pools), "setred stops after %d rounds although unlabelled rows remain", used)
        pool = pools[used]
        used += 1
        require(len(pool) == size and len(set(pool)) == size and set(pool) <= set(U),
                "setred: the pool %r is not %d different rows of the remaining %r", pool, size, U)
        sc = m.scores(w.X[pool])
        conf, lab = sc.max(axis=1), m.classes[sc.argmax(axis=1)]
        counts = {c: sum(v == c for _, v in train) for c in m.classes.tolist()}
        total = size if s["max_new_labels"] is None else min(size, s["max_new_labels"])
        raw = {c: counts[c] * total / len(train) for c in counts}
        quota = {c: int(np.floor(raw[c] + 1e-9)) for c in raw}
        left = total - sum(quota.values())
        order = sorted(raw, key=lambda c: -(raw[c] - quota[c]))
        if 0 < left < len(order):
            margin([(raw[order[left - 1]] - quota[order[left - 1]]) - (raw[order[left]] - quota[order[left]])])
        for c in order[:left]:
            quota[c] += 1
        chosen = []
        for c in counts:
            thr = s["confidence_threshold"]
            if thr is not None:
                margin(conf - thr)
            ok = [j for j in range(size) if lab[j] == c and (thr is None or conf[j] >= thr)]
            chosen += top(ok, conf[ok], quota[c])
        if not chosen:
            break
        chosen.sort()
        rows = [(i, v) for i, v in train] + [(pool[j], lab[j]) for j in chosen]
        P = w.X[[i for i, _ in rows]]
        D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(axis=2))
        nb = edges(D, s["graph_type"], s["knn_k"])
        keep = []
        z = NormalDist().inv_cdf(s["theta"])
        for t, j in enumerate(chosen):
            i = len(train) + t
            near = sorted(nb[i])
            if not near:
                keep.append(j)
                continue
            wt = {"uniform": lambda x: 1.0, "distance": lambda x: x, "inverse_distance": lambda x: 1 / x}[s["edge_weight"]]
            ws = np.array([wt(D[i, q]) for q in near])
            cut = sum(x for x, q in zip(ws, near) if rows[q][1] != lab[j])
            p = counts[lab[j]] / len(train)
            limit = (1 - p) * ws.sum() + z * np.sqrt(p * (1 - p) * (ws ** 2).sum())
            if p < 1:
                margin([(cut - limit) / ws.sum()], 1e-4)
            if cut <= limit + (1e-9 if p == 1 else 0):
                keep.append(j)
        if len(keep) < s.get("min_new_labels", 1):
            break
        train += [(pool[j], lab[j]) for j in keep]
        gone = {pool[j] for j in keep}
        U = [u for u in U if u not in gone]
    require(used == len([x for x in pools if set(x) <= set(w.U)]), "setred scores %d pools instead of %d", len(pools), used)
    return [train]


def ref_democratic(w, seeds):
    from statistics import NormalDist

    s, n_l = w.spec, s_n(w)
    train = [labelled(w) for _ in range(n_l)]
    err, added = [0.0] * n_l, [set() for _ in range(n_l)]
    z = NormalDist().inv_cdf(0.5 + s["confidence_level"] / 2)

    def interval(acc, n):
        half = z * np.sqrt(acc * (1 - acc) / n)
        return max(0.0, acc - half), min(1.0, acc + half)

    def acc(m, rows):
        return float(np.mean([a == b for a, b in zip(m.label(w.X[[i for i, _ in rows]]), [v for _, v in rows])]))

    for _ in range(s["max_iter"]):
        ms = [w.ref(seeds[i], t) for i, t in enumerate(train)]
        weight = [sum(interval(acc(m, labelled(w)), w.n)) / 2 for m in ms]
        lab = [m.label(w.X[w.U]) for m in ms]
        low = float(np.mean([interval(acc(m, t), len(t))[0] for m, t in zip(ms, train)]))
        major = []
        for u in range(w.nu):
            vote = {}
            for i in range(n_l):
                vote.setdefault(lab[i][u], []).append(weight[i])
            tot = sorted(((sum(v), c) for c, v in vote.items()), reverse=True)
            if len(tot) > 1 and abs(tot[0][0] - tot[1][0]) < 1e-6:
                if sorted(vote[tot[0][1]]) != sorted(vote[tot[1][1]]):
                    raise Ambiguous
                major.append(None)
            else:
                major.append(tot[0][1] if tot[0][0] > 0 else None)
        changed = False
        new = []
        for i in range(n_l):
            js = [u for u in range(w.nu) if major[u] is not None and lab[i][u] != major[u] and u not in added[i]]
            new.append(js)
        for i, js in enumerate(new):
            if not js:
                continue
            n = len(train[i])
            q = n * (1 - 2 * err[i] / n) ** 2
            e2 = (1 - low) * len(js)
            q2 = (n + len(js)) * (1 - 2 * (err[i] + e2) / (n + len(js))) ** 2
            margin([q2 - q], 1e-7)
            if q2 > q:
                train[i] = train[i] + [(w.U[u], major[u]) for u in js]
                added[i] |= set(js)
                err[i] += e2
                changed = True
        if not changed:
            break
    return train


def s_n(w):
    return w.spec["n_learners"]


def democratic_proba(w, models, classes):
    from statistics import NormalDist

    z = NormalDist().inv_cdf(0.5 + w.spec["confidence_level"] / 2)
    weights = []
    for m in models:
        a = float(np.mean(m.label(w.X[w.L]) == w.y))
        half = z * np.sqrt(a * (1 - a) / w.n)
        weights.append((max(0.0, a - half) + min(1.0, a + half)) / 2)
    margin(np.array(weights) - w.spec["min_confidence"], 1e-7)
    use = [i for i in range(len(models)) if weights[i] > w.spec["min_confidence"]] or list(range(len(models)))
    labs = [m.label(w.X[w.T]) for m in models]
    out = np.zeros((len(w.T), len(classes)))
    for t in range(len(w.T)):
        for c, v in enumerate(classes):
            g = [weights[i] for i in use if labs[i][t] == v]
            if g:
                out[t, c] = np.mean(g) * (len(g) + 0.5) / (len(g) + 1)
    s = out.sum(axis=1, keepdims=True)
    return out / np.where(s == 0, 1, s)


def check_s4vm(w, spies, ctx):
    s = w.spec
    seeds = [p.model.seed for p in spies]
    base = w.ref(seeds[0], labelled(w))
    require(len(spies) == s["k_candidates"] + 1, "s4vm trains %d candidate models instead of %d", len(spies) - 1, s["k_candidates"])
    sc = base.scores(w.X[w.U])
    conf, lab = sc.max(axis=1), base.classes[sc.argmax(axis=1)]
    models = [base]
    flipped = 0
    for i in range(s["k_candidates"]):
        k = int(round(min(s["flip_rate"] * (i + 1), 0.5) * w.nu))
        flip = set(top(list(range(w.nu)), -conf, k))
        flipped += len(flip)
        other = {w.pal[0]: w.pal[1], w.pal[1]: w.pal[0]}
        train = labelled(w) + [(w.U[u], other[int(lab[u])] if u in flip else lab[u]) for u in range(w.nu)]
        same_training(w, spies[i + 1].fits[-1], train, "s4vm candidate %d" % i)
        models.append(w.ref(seeds[i + 1], train))
    accs = [float(np.mean(m.label(w.X[w.L]) == w.y)) for m in models]
    ctx.nontrivial(flipped > 0 and len(set(accs)) > 1)
    return models[int(np.argmax(accs))]


def same_training(w, got, want, what, X=None):
    g = sorted(zip(w.who(got[0]), (int(v) for v in got[1])))
    v = sorted((int(i), int(c)) for i, c in want)
    require(g == v, "%s: trained on %r but the algorithm adds up to %r (only here: %r, missing: %r)", what,
            g, v, [x for x in g if x not in v], [x for x in v if x not in g])


def algo_cases(*methods):
    return st.sampled_from(methods).flatmap(lambda m: st.fixed_dictionaries({
    "method": st.just(m), "backend": st.sampled_from(["numpy", "torch"]), "spec": cs.params_of(SPECS[m][1]),
    "k": st.sampled_from([3, 2, 4]), "n": st.integers(3, 12).map(lambda v: 15 - v), "nu": st.integers(1, 14).map(lambda v: 15 - v),
    "d": st.integers(1, 3).map(lambda v: 4 - v), "pal": st.sampled_from(INT_LABELS), "scale": st.sampled_from([0.3, 1.0, 0.05]),
    "spread": st.sampled_from([1.0, 0.5, 2.0]), "groups": st.booleans(), "offset": st.sampled_from([0, 0, 50, 1000]), "twins": st.sampled_from([0, 0, 1, 3]), "seed": st.integers(0, 2**31 - 10), "data": st.integers(0, 2**32 - 1)}))


@check("I08", algo_cases("setred"), quick=250)
def setred_edits_by_its_graph(case, ctx):
    """the final training sets contain pseudo-labelled rows"""
    follows_the_algorithm(case, ctx)


@st.composite
def many_rounds(draw):
    m = draw(st.sampled_from(["democratic_co_learning"] * 4 + ["self_training", "pseudo_label", "co_training", "tri_training", "setred"]))
    c = dict(draw(algo_cases(m)))
    c["n"], c["nu"], c["k"] = draw(st.sampled_from([8, 4, 6, 12, 20])), draw(st.sampled_from([40, 20, 60, 12])), draw(st.sampled_from([3, 2, 4]))
    c["spec"] = dict(c["spec"], max_iter=draw(st.sampled_from([8, 3, 5])))
    if m == "democratic_co_learning":
        c["spec"]["n_learners"] = draw(st.sampled_from([3, 5, 4]))
    c["d"], c["spread"] = draw(st.sampled_from([1, 2])), draw(st.sampled_from([1.0, 2.0, 0.5]))
    return c


@check("I08", many_rounds(), quick=700, shards=3)
def follows_the_algorithm_for_many_rounds(case, ctx):
    """the final training sets contain pseudo-labelled rows"""
    follows_the_algorithm(case, ctx)


@check("I08", algo_cases(*ALGOS), quick=700, shards=3)
def follows_the_algorithm(case, ctx):
    """the final training sets contain pseudo-labelled rows (for s4vm: labels are flipped and candidates differ in accuracy)"""
    spyclf.register()
    w = World(case)
    spyclf.CREATED.clear()
    path, _ = SPECS[case["method"]]
    spec = spec_class(path)(classifier_id="vt_spy", classifier_backend=case["backend"], classifier_params={"scale": case["scale"]}, **case["spec"])
    method = get_method_class(case["method"])(spec)
    method.fit(w.data(), device=CPU, seed=case["seed"])
    spies = list(spyclf.CREATED)
    seeds = [p.model.seed for p in spies]
    scored = [list(p.scored) for p in spies]
    proba, pred = cs.npy(method.predict_proba(w.test())), cs.npy(method.predict(w.test()))
    for p, s in zip(spies, scored):
        p.scored = s
    m = case["method"]
    ctx.label(m)
    try:
        if m == "s4vm":
            models, views = [check_s4vm(w, spies, ctx)], [w.X]
        else:
            n_models = {"co_training": 2, "tri_training": 3, "democratic_co_learning": s_n(w) if m == "democratic_co_learning" else 0}.get(m, 1)
            require(len(spies) == n_models, "%s builds %d classifiers instead of %d", m, len(spies), n_models)
            fn = {"pseudo_label": ref_pseudo_label, "self_training": ref_self_training, "co_training": ref_co_training,
                  "democratic_co_learning": ref_democratic}.get(m)
            want = fn(w, seeds) if fn else {"tri_training": ref_tri_training, "setred": ref_setred}[m](w, seeds, spies)
            views = [w.X, w.X2] if m == "co_training" else [w.X] * len(want)
            for i, t in enumerate(want):
                same_training(w, spies[i].fits[-1], t, "%s, classifier %d" % (m, i))
            models = [w.ref(seeds[i], t, views[i]) for i, t in enumerate(want)]
            ctx.nontrivial(any(r >= w.n for t in want for r, _ in t))
        if m == "tri_training":
            classes = sorted({int(c) for q in models for c in q.classes})
        else:
            classes = sorted({int(v) for v in w.y})
        if m == "democratic_co_learning":
            p = democratic_proba(w, models, classes)
        else:
            p = np.zeros((len(w.T), len(classes)))
            for q, X in zip(models, views):
                p[:, [classes.index(int(c)) for c in q.classes]] += q.scores(X[w.T]) / len(models)
    except Ambiguous:
        ctx.nontriv = False
        ctx.label("ambiguous")
        return
    require(proba.shape == p.shape and np.allclose(proba, p, atol=1e-5), "%s: probabilities %r instead of %r", m, proba.tolist(), p.tolist())
    srt = np.sort(p, axis=1)
    for t in range(len(w.T)):
        if p.shape[1] == 1 or srt[t, -1] - srt[t, -2] > 1e-5:
            require(int(pred[t]) == classes[int(p[t].argmax())], "%s predicts %r for probabilities %r over %r", m, int(pred[t]), p[t].tolist(), classes)


# ------------------------------------------------------------------ I09 graph inputs keep rows and edges together
from modssc.inductive.methods import deep_utils as du  # noqa: E402

graph_case = st.fixed_dictionaries({
    "n": st.integers(1, 9).map(lambda v: 10 - v), "e": st.integers(0, 14).map(lambda v: 14 - v), "square": st.booleans(), "weight": st.sampled_from([True, True, False]),
    "attr": st.booleans(), "per_node": st.booleans(), "index": st.sampled_from(["order", "mask", "shuffled", "slice"]), "take": st.integers(0, 2**20),
    "data": st.integers(0, 2**32 - 1), "parts": st.integers(2, 3)})


def graph_dict(case, rng, base=0, weight=None):
    n = case["n"]
    e = n if case["square"] else case["e"]
    g = {"x": torch.as_tensor(base + np.arange(n)[:, None] * np.ones((1, 2))), "edge_index": torch.as_tensor(rng.integers(0, n, size=(2, e)))}
    if case["weight"] if weight is None else weight:
        g["edge_weight"] = torch.as_tensor(rng.random(e))
    if case["attr"]:
        g["edge_attr"] = torch.as_tensor(rng.random((e, 2)))
    if case["per_node"]:
        g["mask"] = torch.as_tensor(rng.integers(0, 2, size=n).astype(bool))
        g["name"] = "graph"
    return g


def graph_edges(g):
    """edges by the identity of their endpoints, with everything attached to them"""
    x = g["x"][:, 0].tolist()
    u, v = g["edge_index"].tolist()
    m = len(u)
    w = g["edge_weight"].tolist() if "edge_weight" in g else [1.0] * m
    a = g["edge_attr"].tolist() if "edge_attr" in g else [None] * m
    require(len(w) == m and len(a) == m, "a graph with %d edges carries %d weights and %d attribute rows", m, len(w), len(a))
    return sorted((x[i], x[j], round(float(ww), 6), str(aa)) for i, j, ww, aa in zip(u, v, w, a))


@check("I09", graph_case, quick=500)
def slicing_graphs(case, ctx):
    """some edges remain and some are dropped"""
    rng = np.random.default_rng(case["data"])
    g, n = graph_dict(case, rng), case["n"]
    take = np.flatnonzero(np.random.default_rng(case["take"]).random(n) < 0.7)
    kind = case["index"]
    if kind == "shuffled":
        take = np.random.default_rng(case["take"] + 1).permutation(take)
    idx = torch.as_tensor(take)
    if kind == "mask":
        m = np.zeros(n, bool)
        m[take] = True
        idx = torch.as_tensor(m)
    if kind == "slice":
        a, b = sorted(np.random.default_rng(case["take"]).integers(0, n + 1, size=2).tolist())
        take, idx = np.arange(a, b), slice(a, b)
    before = cs.copy_data(g)
    out = du.slice_data(g, idx)
    d = diff(before, g)
    require(d is None, "slicing changes the graph it is given: %s", d)
    require(out["x"][:, 0].tolist() == [float(i) for i in take], "slicing rows %r gives rows %r", take.tolist(), out["x"][:, 0].tolist())
    keep = set(float(i) for i in take)
    want = [e for e in graph_edges(g) if e[0] in keep and e[1] in keep]
    got = graph_edges(out)
    require(got == want, "slicing rows %r keeps edges %r instead of %r", take.tolist(), got, want)
    if case["per_node"]:
        require(out["mask"].tolist() == g["mask"].numpy()[take].tolist() and out["name"] == "graph", "per-node values are not sliced with the rows")
    ctx.nontrivial(0 < len(want) < len(graph_edges(g)))


@check("I09", graph_case, quick=300)
def joining_graphs(case, ctx):
    """at least two parts with edges"""
    rng = np.random.default_rng(case["data"])
    partial = case["take"] % 3 == 0
    gs = [graph_dict(dict(case, n=1 + (case["n"] + i) % 9), rng, base=100 * i, weight=False if partial and i == case["take"] % case["parts"] else None)
          for i in range(case["parts"])]
    before = [cs.copy_data(g) for g in gs]
    out = du.concat_data(gs)
    d = diff(before, gs)
    require(d is None, "joining changes the graphs it is given: %s", d)
    require(out["x"][:, 0].tolist() == [v for g in gs for v in g["x"][:, 0].tolist()], "joining loses or reorders rows")
    want = sorted(e for g in gs for e in graph_edges(g))
    require(graph_edges(out) == want, "joining gives edges %r instead of %r", graph_edges(out), want)
    if case["per_node"]:
        require(out["mask"].tolist() == [v for g in gs for v in g["mask"].tolist()], "per-node values are not joined with the rows")
    ctx.nontrivial(sum(g["edge_index"].shape[1] > 0 for g in gs) >= 2)


class GraphSpy:
    def __init__(self, seed=None, n_jobs=None):
        self.inner, self.seen = spyclf.Model(seed, 0.5), []
        spyclf.CREATED.append(self)

    def fit(self, X, y):
        self.seen.append(("trains", X, y.numpy().copy()))
        self.inner.train(X["x"].numpy(), y.numpy())
        self.classes_ = self.inner.classes
        self.classes_t_ = torch.as_tensor(self.classes_)

    def predict_scores(self, X):
        self.seen.append(("scores", X, None))
        return torch.as_tensor(self.inner.scores(X["x"].numpy()))

    def predict(self, X):
        return torch.as_tensor(self.inner.label(X["x"].numpy()))


def register_graph_spy():
    from modssc.supervised import registry as r

    if "vt_graph_spy" not in r.list_classifiers():
        r.register_classifier(key="vt_graph_spy", description="recorded graph classifier", preferred_backends=("torch",))
        r.register_backend(classifier_id="vt_graph_spy", backend="torch", factory="vt.c_inductive:GraphSpy")


@check("I09", st.sampled_from(CLASSIC).flatmap(lambda m: st.fixed_dictionaries({
    "method": st.just(m), "spec": cs.params_of(SPECS[m][1]), "n": st.integers(3, 8).map(lambda v: 11 - v), "nu": st.integers(2, 8).map(lambda v: 10 - v),
    "square": st.booleans(), "data": st.integers(0, 2**32 - 1), "seed": st.integers(0, 2**31 - 10)})), quick=250)
def methods_keep_graphs_whole(case, ctx):
    """pseudo-labelled nodes were trained on and some training graph has edges"""
    register_graph_spy()
    spyclf.CREATED.clear()
    rng = np.random.default_rng(case["data"])
    known, rows = {}, {}

    def make(n, tag):
        x = rng.normal(size=(n, 2)) + np.repeat(rng.normal(size=(n, 1)) > 0, 2, axis=1)
        e = n if case["square"] else 3 * n
        ei, w = rng.integers(0, n, size=(2, e)), rng.random(e)
        key = [r.tobytes() for r in x]
        for i, k in enumerate(key):
            rows[k] = (tag, i)
        for (u, v), ww in zip(ei.T, w):
            known.setdefault((key[u], key[v]), set()).add(round(float(ww), 9))
        return {"x": torch.as_tensor(x), "edge_index": torch.as_tensor(ei), "edge_weight": torch.as_tensor(w)}

    n, nu, m = case["n"], case["nu"], case["method"]
    L, U = make(n, "l"), make(nu, "u")
    y = torch.as_tensor(np.arange(n) % 2)
    views = {"a": {"X_l": L, "X_u": U}, "b": {"X_l": make(n, "l"), "X_u": make(nu, "u")}} if m == "co_training" else None
    spec = spec_class(SPECS[m][0])(classifier_id="vt_graph_spy", classifier_backend="torch", **case["spec"])
    get_method_class(m)(spec).fit(InductiveDataset(X_l=L, y_l=y, X_u=U, views=views), device=CPU, seed=case["seed"])
    added = some = False
    for spy in spyclf.CREATED:
        for what, X, yy in spy.seen:
            key = [r.tobytes() for r in X["x"].numpy()]
            require(all(k in rows for k in key), "%s %s on rows that are not in the data", m, what)
            e = X["edge_index"].numpy()
            require(X["edge_weight"].shape[0] == e.shape[1], "%s %s on a graph with %d edges and %d edge weights", m, what, e.shape[1], X["edge_weight"].shape[0])
            require(e.size == 0 or 0 <= e.min() and e.max() < len(key), "%s %s on a graph whose edges leave its %d rows", m, what, len(key))
            for (u, v), w in zip(e.T, X["edge_weight"].tolist()):
                require(round(w, 9) in known.get((key[u], key[v]), ()), "%s %s on an edge between %r and %r of weight %r that the data do not have",
                        m, what, rows[key[u]], rows[key[v]], w)
            if what == "trains":
                added |= any(rows[k][0] == "u" for k in key)
                some |= e.size > 0
                for k, v in zip(key, yy.tolist()):
                    t, i = rows[k]
                    require(t == "u" or v == i % 2, "%s trains labelled row %d with label %r", m, i, v)
    ctx.nontrivial(added and some)
    ctx.label(m)


from . import c_deep  # noqa: E402,F401  (registers the checks of the deep methods)
