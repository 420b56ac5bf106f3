"""B04-B11: experiments run end to end through the benchmark's entry point."""
from __future__ import annotations

import contextlib
import copy
import hashlib
import json
import math
import os
import pathlib
import shutil
import subprocess
import sys

import numpy as np
import scipy.sparse as sp  # noqa: F401
import torch
import yaml

from .core import REPO, check, require, st
from .eq import diff
from . import fakeprov, spybench
from .c_bench import environ, seedv

import sklearn.ensemble  # noqa: F401
import sklearn.linear_model  # noqa: F401
import sklearn.neighbors  # noqa: F401
import sklearn.preprocessing  # noqa: F401
import bench.main as bmain
from bench.utils.hashing import derive_seed
from modssc.data_loader.types import LoadedDataset, Split
from modssc.inductive.registry import get_method_class as iclass
from modssc.sampling.api import sample
from modssc.sampling.plan import SamplingPlan
from modssc.transductive.registry import get_method_class as tclass

PYPROJECT = os.path.join(REPO, "pyproject.toml")


# ----------------------------------------------------------------------------- laboratory
def names_of(d):
    return {"int": np.arange(d["c"]), "gap": np.array([2, 5, 9, 14])[:d["c"]],
            "str": np.array(["red", "blue", "green", "amber"])[:d["c"]]}[d["labels"]]


def make_data(d):
    """Row i of the train split has feature 0 equal to i, of the test split 1000 + i; the last feature tells the class."""
    rng = np.random.default_rng(d["seed"])
    cls = names_of(d)

    def split(n, base):
        k = rng.permutation(np.arange(n) % d["c"]) if n else np.zeros(0, int)
        X = np.column_stack([base + np.arange(n), rng.normal(size=n), rng.normal(size=n), 3.0 * k + rng.normal(size=n) * d.get("noise", 0.3)])
        return X, cls[k]
    X, y = split(d["n"], 0)
    edges = masks = None
    if d.get("graph"):
        n = d["n"]
        a = rng.integers(0, n, size=(2, 3 * n))
        edges = np.unique(np.concatenate([a, a[::-1], np.stack([np.arange(n), (np.arange(n) + 1) % n]), np.stack([(np.arange(n) + 1) % n, np.arange(n)])], axis=1), axis=1)
        part = rng.permutation(n) % 4
        masks = {"train": part < 2, "val": part == 2, "test": part == 3} if d["graph"] == "masks" else None
    train = Split(X=X, y=y, edges=edges, masks=masks)
    test = None
    if d["m"] and not d.get("graph"):
        Xt, yt = split(d["m"], 1000)
        test = Split(X=Xt, y=yt)
    return LoadedDataset(train=train, test=test, meta={})


def ref_of(d):
    return "fake:" + hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


@contextlib.contextmanager
def lab(ctx):
    root = pathlib.Path(ctx.tmp())
    shutil.copy(PYPROJECT, root / "pyproject.toml")
    cwd = os.getcwd()
    os.chdir(root)
    spybench.reset()
    fakeprov.reset()
    try:
        with environ(MODSSC_CACHE_ROOT=str(root / "cache"), MODSSC_OUTPUT_DIR=None, MODSSC_CACHE_DIR=None, MODSSC_DATASET_CACHE_DIR=None,
                     MODSSC_GRAPH_CACHE_DIR=None, MODSSC_PREPROCESS_CACHE_DIR=None):
            yield Lab(root)
    finally:
        os.chdir(cwd)
        spybench.reset()
        fakeprov.reset()


class Lab:
    def __init__(self, root):
        self.root = root
        self.k = 0

    def cache(self, name):
        os.environ["MODSSC_CACHE_ROOT"] = str(self.root / name)

    def run(self, raw, data, num_runs=None, out="out", path=None):
        """-> (code or None, exception or None, folders that appeared)."""
        self.k += 1
        fakeprov.BUILD["fn"] = lambda: make_data(data)
        raw = copy.deepcopy(raw)
        if path is None:
            raw["run"]["output_dir"] = str(self.root / out)
            path = self.root / ("c%d.yaml" % self.k)
            path.write_text(yaml.safe_dump(raw, sort_keys=False, allow_unicode=True), encoding="utf-8")
        before = self.folders(out)
        code = exc = None
        try:
            code = bmain.run_experiment(pathlib.Path(path), num_runs=num_runs)
        except Exception as e:  # the benchmark raises whatever failed when fail_fast is on
            exc = e
        return code, exc, [f for f in self.folders(out) if f not in before]

    def folders(self, out="out"):
        p = self.root / out
        return sorted(p.iterdir()) if p.is_dir() else []


def tree(folder):
    """Every file below a folder with its bytes."""
    return {str(f.relative_to(folder)): f.read_bytes() for f in sorted(pathlib.Path(folder).rglob("*")) if f.is_file()}


def report(folder):
    return json.loads((folder / "run.json").read_text(encoding="utf-8"))


def seed_for(raw, section, override=None):
    return override if override is not None else derive_seed(raw["run"].get("seed", 0), section)


# ----------------------------------------------------------------------------- experiments
data_ = st.fixed_dictionaries({"n": st.integers(0, 20).map(lambda k: 32 - k), "m": st.sampled_from([8, 0, 13]), "c": st.sampled_from([3, 2, 4]),
                               "labels": st.sampled_from(["int", "gap", "str"]), "seed": st.integers(0, 10 ** 6)})
split_ = st.one_of(st.fixed_dictionaries({"kind": st.just("holdout"), "test_fraction": st.sampled_from([0.25, 0.0, 0.4]), "val_fraction": st.sampled_from([0.25, 0.4, 0.0]),
                                          "stratify": st.booleans(), "shuffle": st.sampled_from([True, False])}),
                   st.fixed_dictionaries({"kind": st.just("kfold"), "k": st.integers(2, 4), "fold": st.integers(0, 1), "stratify": st.booleans(),
                                          "shuffle": st.booleans(), "val_fraction": st.sampled_from([0.25, 0.0])}))
labeling_ = st.one_of(st.fixed_dictionaries({"mode": st.just("fraction"), "value": st.sampled_from([0.4, 0.2, 0.7]), "min_per_class": st.sampled_from([1, 0]),
                                             "strategy": st.sampled_from(["proportional", "balanced"])}),
                      st.fixed_dictionaries({"mode": st.just("count"), "value": st.integers(3, 9), "min_per_class": st.sampled_from([0, 1]),
                                             "strategy": st.sampled_from(["proportional", "balanced"])}),
                      st.fixed_dictionaries({"mode": st.just("per_class"), "value": st.integers(1, 3)}))
imbalance_ = st.sampled_from([{"kind": "none"}, {"kind": "none"}, {"kind": "subsample_max_per_class", "apply_to": "train", "max_per_class": 4},
                              {"kind": "long_tail", "apply_to": "labeled", "alpha": 0.5, "min_per_class": 1}])
plan_ = st.fixed_dictionaries({"split": split_, "labeling": labeling_, "imbalance": imbalance_,
                               "policy": st.sampled_from([{"respect_official_test": True, "allow_override_official": True}, {"respect_official_test": True},
                                                          {"respect_official_test": False, "allow_override_official": True}])})
oseed = st.none() | seedv


def rows(X, idx):
    return np.asarray(X)[np.asarray(idx, dtype=int)]


class Expected:
    """What the pieces of a generated experiment must be, computed without the benchmark."""

    def __init__(self, raw, data):
        self.data = data
        ds = make_data(data)
        self.ds = ds
        plan = SamplingPlan.from_dict(copy.deepcopy(raw["sampling"]["plan"]))
        self.error = None
        try:
            self.s, _ = sample(ds, plan=plan, seed=seed_for(raw, "sampling", raw["sampling"].get("seed")), dataset_fingerprint="x", save=False)
        except Exception as e:
            self.error = e
            return
        if self.s.is_graph():
            m = self.s.masks
            self.idx = {k: np.flatnonzero(m[v]) for k, v in (("train", "train"), ("val", "val"), ("test", "test"), ("train_labeled", "labeled"), ("train_unlabeled", "unlabeled"))}
            self.refs = {k: "train" for k in self.idx}
        else:
            self.idx = {k: np.asarray(v) for k, v in self.s.indices.items()}
            self.refs = {k: self.s.refs.get(k, "train") for k in self.idx}
        steps = [s["id"] for s in raw["preprocess"]["plan"].get("steps", [])]
        self.encoded = "labels.encode" in steps
        self.classes = np.unique(ds.train.y)
        self.X = {"train": np.asarray(ds.train.X, float), "test": None if ds.test is None else np.asarray(ds.test.X, float)}
        self.y = {"train": self.lab(ds.train.y), "test": None if ds.test is None else self.lab(ds.test.y)}
        for s in steps:
            if s == "tabular.standard_scaler":
                fit = self.idx[raw["preprocess"]["fit_on"]]
                self.fit_rows = fit
                F = self.X["train"][fit]
                mu, sd = F.mean(axis=0), F.std(axis=0)
                sd = np.where(sd == 0, 1.0, sd)
                self.X = {k: None if v is None else (v - mu) / sd for k, v in self.X.items()}

    def lab(self, y):
        return np.searchsorted(self.classes, y) if self.encoded else np.asarray(y)

    def split(self, name):
        ref = self.refs[name]
        return rows(self.X[ref], self.idx[name]), rows(self.y[ref], self.idx[name])


@st.composite
def experiment(draw, kind="inductive", method="vt_spy", params=None, views=None, aug=None, data=None, steps=None):
    d = draw(data_) if data is None else draw(data)
    pre = list(draw(st.sampled_from([["core.ensure_2d"], ["tabular.standard_scaler"], [], ["core.ensure_2d", "tabular.standard_scaler", "core.to_numpy"]]) if steps is None else steps))
    if d["labels"] == "str" or draw(st.booleans()):
        pre.insert(draw(st.integers(0, len(pre))), "labels.encode")
    if kind == "inductive" and method == "vt_spy" and draw(st.integers(0, 2)) == 2:
        if not any(p.startswith(("core", "tabular")) for p in pre):
            pre.append("core.ensure_2d")
        pre.append("core.to_torch")
    plan = draw(plan_)
    if d["m"] and plan["policy"] == {"respect_official_test": True} and draw(st.integers(0, 3)):
        plan["policy"] = {"respect_official_test": True, "allow_override_official": True}
    raw = {"run": {"name": "exp", "seed": draw(seedv), "fail_fast": False, "output_dir": "out"},
           "dataset": {"id": ref_of(d), "download": True},
           "sampling": {"plan": plan, "seed": draw(oseed)},
           "preprocess": {"plan": {"output_key": "features.X", "steps": [{"id": s} for s in pre]}, "seed": draw(oseed), "cache": draw(st.sampled_from([False, True])),
                          "fit_on": draw(st.sampled_from(["train_labeled", "train", "train_unlabeled"] if "tabular.standard_scaler" in pre else ["train", None]))},
           "method": {"kind": kind, "id": method, "device": {"device": "cpu"}, "params": params or {}},
           "evaluation": {"report_splits": draw(st.lists(st.sampled_from(["val", "test", "train"]), min_size=1, max_size=3, unique=True)),
                          "metrics": draw(st.lists(st.sampled_from(["accuracy", "macro_f1", "balanced_accuracy"]), min_size=1, max_size=3, unique=True))}}
    if views is not False and kind == "inductive" and draw(st.sampled_from([True, False])):
        raw["views"] = {"seed": draw(oseed), "plan": {"views": [{"name": "v1", "columns": {"mode": "indices", "indices": draw(st.sampled_from([[0, 1], [3, 0], [0]]))}},
                                                                {"name": "v2", "columns": {"mode": "complement", "complement_of": "v1"}}]}}
    if aug is not False and kind == "inductive" and draw(st.sampled_from([True, False])):
        raw["augmentation"] = {"enabled": True, "seed": draw(oseed), "mode": "fixed", "modality": "tabular",
                               "weak": {"steps": [{"id": "core.identity"}]}, "strong": {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 0.01}}]}}
    if kind == "transductive":
        raw["graph"] = {"enabled": True, "seed": draw(oseed), "cache": draw(st.booleans()),
                        "spec": {"scheme": "knn", "metric": "euclidean", "k": draw(st.integers(2, 5)), "symmetrize": "or", "weights": {"kind": "binary"}, "normalize": "none",
                                 "self_loops": False, "backend": "numpy", "feature_field": "features.X"}}
    return {"raw": raw, "data": d}


def ref_metrics(y, p):
    """accuracy, balanced accuracy and macro F1 over the classes of the truth, from first principles."""
    y, p = np.asarray(y), np.asarray(p)
    if not len(y):
        return dict(accuracy=math.nan, balanced_accuracy=math.nan, macro_f1=math.nan)
    rec, f1 = [], []
    for c in np.unique(y):
        tp = float(np.sum((y == c) & (p == c)))
        rec.append(tp / np.sum(y == c))
        f1.append(2 * tp / (np.sum(y == c) + np.sum(p == c)))
    return dict(accuracy=float(np.mean(y == p)), balanced_accuracy=float(np.mean(rec)), macro_f1=float(np.mean(f1)))


def same_metrics(got, want, what):
    require(set(got) == set(want), "%s: metrics %s, expected %s", what, sorted(got), sorted(want))
    for k in want:
        a, b = got[k], want[k]
        require((math.isnan(a) and math.isnan(b)) or abs(a - b) < 1e-9, "%s: %s is reported as %r, recomputed %r", what, k, a, b)


def npy(x):
    return x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def near(a, b):
    a, b = npy(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-4, atol=2e-4 * max(1.0, float(np.abs(b).max())))))


def ran(code, exc, new, exp, what="the run"):
    """Common outcome: True when the run must have succeeded and did."""
    require(len(new) == 1, "%s left %d new folders", what, len(new))
    rep = report(new[0])
    if exp.error is not None:
        require(code == 1 and rep["run"]["status"] == "failed", "the sampling plan is refused (%s) but %s says %r", exp.error, what, rep["run"]["status"])
        return None
    if code != 0:
        return rep
    require(exc is None and rep["run"]["status"] == "success", "%s: code %r, %r, status %r", what, code, exc, rep["run"]["status"])
    return rep


# ----------------------------------------------------------------------------- B08
@check("B08", experiment(), quick=60, thorough=2500, timeout=180)
def inductive_method_inputs(case, ctx):
    """The run reached the method with at least one labeled and one unlabeled row."""
    raw, d = case["raw"], case["data"]
    exp = Expected(raw, d)
    with lab(ctx) as L:
        code, exc, new = L.run(raw, d)
        rep = ran(code, exc, new, exp)
        if rep is None:
            ctx.label("plan refused")
            return
        if not len(exp.idx["train_labeled"]) or ("tabular.standard_scaler" in [s["id"] for s in raw["preprocess"]["plan"]["steps"]] and not len(exp.fit_rows)):
            ctx.label("nothing to learn from")
            return
        require(code == 0, "the run failed: %s", rep.get("error"))
        fits, preds = spybench.FITS, spybench.PREDS
        require(len(fits) == 1, "the method was fitted %d times", len(fits))
        f = fits[0]
        data = f["data"]
        l, u = exp.idx["train_labeled"], exp.idx["train_unlabeled"]
        Xl, yl = rows(exp.X["train"], l), rows(exp.y["train"], l)
        Xu = rows(exp.X["train"], u)
        ctx.nontrivial(len(l) > 0 and len(u) > 0)
        ctx.label("encoded" if exp.encoded else d["labels"])
        require(near(data.X_l, Xl), "labeled rows handed to the method are not the sampled ones")
        require(np.array_equal(npy(data.y_l), yl), "labels %r handed to the method, those of the labeled rows are %r", npy(data.y_l).tolist(), yl.tolist())
        if len(u):
            require(near(data.X_u, Xu), "unlabeled rows handed to the method are not the sampled ones")
        if data.meta and "idx_u" in data.meta and len(u):
            require(np.array_equal(npy(data.meta["idx_u"]), u), "row numbers of the unlabeled rows")
        require(f["seed"] == derive_seed(raw["run"]["seed"], "method"), "the method got seed %r", f["seed"])
        if "views" in raw:
            cols = raw["views"]["plan"]["views"][0]["columns"]["indices"]
            rest = [j for j in range(4) if j not in cols]
            require(set(data.views) == {"v1", "v2"}, "views %r", sorted(data.views))
            for name, cc in (("v1", cols), ("v2", rest)):
                got = data.views[name]
                order = sorted(cc)
                require(near(got["X_l"], Xl[:, cc]) or near(got["X_l"], Xl[:, order]), "view %s of the labeled rows", name)
                if len(u):
                    require(near(got["X_u"], Xu[:, cc]) or near(got["X_u"], Xu[:, order]), "view %s of the unlabeled rows", name)
            ctx.label("views")
        if "augmentation" in raw and len(u):
            require(near(data.X_u_w, Xu), "weakly augmented rows (identity) are not the unlabeled rows in order")
            s = npy(data.X_u_s)
            require(s.shape == Xu.shape and np.abs(s - Xu).max() < 0.2, "strongly augmented rows do not belong to the unlabeled rows in order")
            ctx.label("augmented")
        for name in raw["evaluation"]["report_splits"]:
            X, _ = exp.split(name)
            require(any(near(p["X"], X) for p in preds), "the rows of split %s were never scored", name)
        stats = rep["artifacts"]["sampling"]["stats"]
        require(rep["artifacts"]["sampling"]["seed"] == seed_for(raw, "sampling", raw["sampling"]["seed"]) and rep["artifacts"]["preprocess"]["seed"] == seed_for(raw, "preprocess", raw["preprocess"]["seed"]), "recorded section seeds")
        require(isinstance(stats, dict) and rep["run"]["seed"] == raw["run"]["seed"], "recorded seed")


gdata_ = st.fixed_dictionaries({"n": st.integers(0, 18).map(lambda k: 30 - k), "m": st.sampled_from([7, 0, 12]), "c": st.sampled_from([3, 2, 4]),
                                "labels": st.sampled_from(["int", "int", "gap", "str"]), "graph": st.sampled_from([None, None, "masks", "edges"]), "seed": st.integers(0, 10 ** 6)})


@check("B08", experiment(kind="transductive", method="vt_tspy", data=gdata_), quick=60, thorough=2500, timeout=180)
def transductive_method_inputs(case, ctx):
    """The run reached the method with labeled and unlabeled nodes."""
    raw, d = copy.deepcopy(case["raw"]), case["data"]
    if d["graph"]:
        raw["graph"]["enabled"] = False
    exp = Expected(raw, d)
    with lab(ctx) as L:
        code, exc, new = L.run(raw, d)
        rep = ran(code, exc, new, exp)
        if rep is None:
            ctx.label("plan refused")
            return
        if not len(exp.idx["train_labeled"]) or ("tabular.standard_scaler" in [s["id"] for s in raw["preprocess"]["plan"]["steps"]] and not len(exp.fit_rows)):
            ctx.label("nothing to learn from")
            return
        require(code == 0, "the run failed: %s", rep.get("error"))
        f, = spybench.FITS
        data = f["data"]
        use_test = exp.refs["test"] == "test"
        X = np.concatenate([exp.X["train"], exp.X["test"]]) if use_test else exp.X["train"]
        y = np.concatenate([exp.y["train"], exp.y["test"]]) if use_test else exp.y["train"]
        n = len(exp.X["train"])
        require(near(data.X, X), "the nodes handed to the method are not the dataset's rows in order")
        require(data.graph.n_nodes == len(X), "the graph has %d nodes, there are %d rows", data.graph.n_nodes, len(X))
        want = {}
        for mask, name in (("train_mask", "train_labeled"), ("labeled_mask", "train_labeled"), ("unlabeled_mask", "train_unlabeled"), ("val_mask", "val"), ("test_mask", "test"),
                           ("train_all_mask", "train")):
            m = np.zeros(len(X), bool)
            m[exp.idx[name] + (n if exp.refs[name] == "test" else 0)] = True
            want[name] = m
            if mask in data.masks:
                require(np.array_equal(np.asarray(data.masks[mask], bool), m), "%s marks nodes %r, sampled %r", mask, np.flatnonzero(data.masks[mask]).tolist(), np.flatnonzero(m).tolist())
        yy = f["y"]
        lm, um = want["train_labeled"], want["train_unlabeled"]
        ctx.nontrivial(lm.any() and um.any())
        ctx.label("official test" if use_test else "dataset graph" if d["graph"] else "split test")
        require(np.array_equal(yy[lm], y[lm]), "labels of the labeled nodes %r, true %r", yy[lm].tolist(), y[lm].tolist())
        require(bool((yy[um] == -1).all()), "labels of unlabeled nodes are visible to the method: %r", yy[um].tolist())
        if d["graph"]:
            e = make_data(d).train.edges
            require(np.array_equal(np.asarray(data.graph.edge_index), e), "the graph is not the dataset's")
        p, = spybench.PREDS
        for name in raw["evaluation"]["report_splits"]:
            m = want["train"] if name == "train" else want[name]
            same_metrics(rep["metrics"][name], {k: v for k, v in ref_metrics(y[m], p["labels"][m]).items() if k in raw["evaluation"]["metrics"]}, "split " + name)


# ----------------------------------------------------------------------------- B10
@contextlib.contextmanager
def capturing(cls):
    """Record every fitted object of a method class and everything it is asked to score."""
    got = []
    names = [n for n in ("fit", "predict_proba") if hasattr(cls, n)]
    own = {n: cls.__dict__.get(n) for n in names}
    fit, proba = cls.fit, cls.predict_proba
    depth = [0]

    def new_fit(self, *a, **k):
        entry = {"method": self, "data": a[0] if a else k.get("data"), "scored": []}
        got.append(entry)
        depth[0] += 1
        try:
            return fit(self, *a, **k)
        finally:
            depth[0] -= 1

    def new_proba(self, X, *a, **k):
        depth[0] += 1
        try:
            out = proba(self, X, *a, **k)
        finally:
            depth[0] -= 1
        if not depth[0]:
            for e in got:
                if e["method"] is self:
                    e["scored"].append((X, npy(out).copy()))
        return out
    cls.fit, cls.predict_proba = new_fit, new_proba
    try:
        yield got
    finally:
        for n in names:
            if own[n] is None:
                delattr(cls, n)
            else:
                setattr(cls, n, own[n])


def shipped(kind):
    base = pathlib.Path(REPO) / "bench" / "configs" / "best"
    out = {}
    for p in sorted(base.glob("*/%s/*/tabular/toy.yaml" % kind)):
        out.setdefault(p.parts[-3], p)
    return out


def small(node):
    """Shrink training budgets and widths of a shipped method block."""
    if isinstance(node, dict):
        out = {}
        for k, v in node.items():
            if k.endswith("epochs") or k in ("epochs", "patience"):
                v = min(v, 2) if isinstance(v, int) else v
            elif k in ("hidden_sizes",):
                v = [8]
            elif k in ("hidden_dim", "hidden_channels") and isinstance(v, int):
                v = 8
            elif k in ("max_iter", "n_iter", "num_iters") and isinstance(v, int):
                v = min(v, 30)
            elif k == "ulb_size":
                pass
            else:
                v = small(v)
            out[k] = v
        return out
    return [small(v) for v in node] if isinstance(node, list) else node


SHIPPED = {k: shipped(k) for k in ("inductive", "transductive")}
METHODS = {k: sorted(SHIPPED[k]) for k in SHIPPED}
CLASSIC = ("pseudo_label", "self_training", "setred", "tri_training", "democratic_co_learning", "co_training")
CLASSIFIERS = [("knn", "numpy"), ("knn", "sklearn"), ("knn", "torch"), ("logreg", "sklearn"), ("gaussian_nb", "sklearn"), ("random_forest", "sklearn")]


def method_block(kind, name):
    raw = yaml.safe_load(SHIPPED[kind][name].read_text(encoding="utf-8").replace("${", "$ {"))
    block = small(raw["method"])
    block["device"] = {"device": "cpu", "dtype": "float32"}
    return block, raw


@st.composite
def real_experiment(draw, kind):
    name = draw(st.sampled_from(METHODS[kind]))
    case = draw(experiment(kind=kind, method=name, views=False, aug=False, data=data_ if kind == "inductive" else gdata_))
    raw = case["raw"]
    block, ship = method_block(kind, name)
    steps = raw["preprocess"]["plan"]["steps"]
    if kind == "inductive" and name in CLASSIC:
        cid, be = draw(st.sampled_from(CLASSIFIERS))
        p = block.get("params") or {}
        block["params"] = {k: v for k, v in p.items() if k in ("max_iter", "confidence_threshold", "max_new_labels", "min_new_labels", "k_per_class", "theta", "graph_type")}
        block["params"].update(classifier_id=cid, classifier_backend=be, classifier_params={"k": 3} if cid == "knn" else {"n_estimators": 5} if cid == "random_forest" else {})
        if be == "torch":
            steps += [{"id": "core.ensure_2d"}, {"id": "core.to_torch"}]
        if name == "tri_training" and cid != "knn":
            block["params"].update(classifier_id="knn", classifier_params={"k": 3})
    elif kind == "inductive":
        raw["preprocess"]["plan"]["steps"] = [{"id": s} for s in ("labels.encode", "core.ensure_2d", "tabular.standard_scaler", "core.to_torch")]
        raw["preprocess"]["fit_on"] = draw(st.sampled_from(["train", "train_labeled"]))
    if kind == "inductive" and "augmentation" in ship:
        raw["augmentation"] = {"enabled": True, "seed": draw(oseed), "mode": "fixed", "modality": "tabular",
                               "weak": {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 0.01}}]}, "strong": {"steps": [{"id": "tabular.swap_noise", "params": {"p": 0.3}}]}}
    if kind == "inductive" and ("views" in ship or name == "co_training"):
        raw["views"] = {"plan": {"views": [{"name": "v1", "columns": {"mode": "indices", "indices": [3, 1]}}, {"name": "v2", "columns": {"mode": "indices", "indices": [3, 2]}}]}}
    if kind == "transductive" and case["data"]["labels"] != "int" and not any(s["id"] == "labels.encode" for s in steps):
        steps.insert(0, {"id": "labels.encode"})
    if draw(st.integers(0, 3)):
        raw["sampling"]["plan"]["labeling"] = draw(st.sampled_from([{"mode": "per_class", "value": 2}, {"mode": "count", "value": 6, "min_per_class": 0},
                                                                    {"mode": "fraction", "value": 0.5, "min_per_class": 0}]))
        raw["sampling"]["plan"]["imbalance"] = {"kind": "none"}
        for k in ("val_fraction", "test_fraction"):
            if raw["sampling"]["plan"]["split"].get(k) == 0:
                raw["sampling"]["plan"]["split"][k] = 0.25
    if name in ("tsvm", "lazy_random_walk", "graph_mincuts"):
        case["data"]["c"] = 2
        raw["dataset"]["id"] = ref_of(case["data"])
    raw["method"] = block
    return case


def learnable(exp, raw):
    """The labeled set has two labels and the other row sets the method needs exist."""
    l, u = exp.idx["train_labeled"], exp.idx["train_unlabeled"]
    return len(l) > 3 and len(u) > 1 and len(np.unique(rows(exp.y["train"], l))) > 1


@check("B10", real_experiment("inductive"), quick=70, thorough=2500, timeout=300, shards=3)
def reported_inductive_metrics(case, ctx):
    """The run trained a real method and some reported split has rows."""
    raw, d = case["raw"], case["data"]
    exp = Expected(raw, d)
    name = raw["method"]["id"]
    with lab(ctx) as L, capturing(iclass(name)) as got:
        code, exc, new = L.run(raw, d)
        rep = ran(code, exc, new, exp)
        if rep is None or not learnable(exp, raw):
            ctx.label("plan refused or too few rows")
            return
        ctx.label(name)
        if code != 0 and not all(len(exp.idx[s]) for s in raw["evaluation"]["report_splits"]):
            ctx.label("empty split refused")
            return
        require(code == 0, "%s: the run failed: %s", name, rep.get("error"))
        require(len(got) == 1, "%d methods fitted", len(got))
        m = got[0]["method"]
        known = np.unique(rows(exp.y["train"], exp.idx["train_labeled"]))
        for split in raw["evaluation"]["report_splits"]:
            want, y = exp.split(split)
            match = [p for p in got[0]["scored"] if near(getattr(p[0], "X_l", p[0]), want)]
            require(bool(match), "%s was never asked to score the rows of split %s", name, split)
            X, scores = match[0]
            if not len(y):
                require(all(math.isnan(v) for v in rep["metrics"][split].values()), "metrics of an empty split: %r", rep["metrics"][split])
                continue
            if name in CLASSIC + ("supervised",):
                pred = npy(m.predict(X))
            else:
                pred = scores.argmax(axis=1)
            ctx.nontrivial()
            if len(known) < d["c"] or not np.array_equal(known, np.arange(len(known))):
                ctx.label("labels are not 0..k-1")
            same_metrics(rep["metrics"][split], {k: v for k, v in ref_metrics(y, pred).items() if k in raw["evaluation"]["metrics"]}, "%s, split %s" % (name, split))


@check("B10", real_experiment("transductive"), quick=60, thorough=2500, timeout=300, shards=3)
def reported_transductive_metrics(case, ctx):
    """The run trained a real method and some reported split has nodes."""
    raw, d = copy.deepcopy(case["raw"]), case["data"]
    if d["graph"]:
        raw["graph"]["enabled"] = False
    exp = Expected(raw, d)
    name = raw["method"]["id"]
    with lab(ctx) as L, capturing(tclass(name)) as got:
        code, exc, new = L.run(raw, d)
        rep = ran(code, exc, new, exp)
        if rep is None or not learnable(exp, raw):
            ctx.label("plan refused or too few rows")
            return
        ctx.label(name)
        if code != 0 and name == "laplace_learning" and "nonsingular" in rep["error"]:
            ctx.label("no unique solution")
            return
        if code != 0 and name in ("poisson_learning", "poisson_mbo", "graphhop", "p_laplace_learning") and len(np.unique(rows(exp.y["train"], exp.idx["train_labeled"]))) < d["c"]:
            ctx.label("needs a labeled node of every class")
            return
        require(code == 0, "%s: the run failed: %s", name, rep.get("error"))
        require(len(got) == 1 and got[0]["scored"], "%d methods fitted", len(got))
        pred = got[0]["scored"][0][1].argmax(axis=1)
        n = len(exp.X["train"])
        for split in raw["evaluation"]["report_splits"]:
            _, y = exp.split(split)
            if len(y):
                ctx.nontrivial()
            p = pred[exp.idx[split] + (n if exp.refs[split] == "test" else 0)]
            same_metrics(rep["metrics"][split], {k: v for k, v in ref_metrics(y, p).items() if k in raw["evaluation"]["metrics"]}, "%s, split %s" % (name, split))


# ----------------------------------------------------------------------------- B04
def broken(raw, how):
    """Damage a working experiment so that it fails at a chosen stage."""
    raw = copy.deepcopy(raw)
    if how == "dataset":
        raw["dataset"]["id"] = "no_such_dataset"
    elif how == "sampling":
        raw["sampling"]["plan"] = {"split": {"kind": "holdout", "test_fraction": 3.0}}
    elif how == "plan":
        raw["sampling"]["plan"] = {"split": {"kind": "sideways"}}
    elif how == "step":
        raw["preprocess"]["plan"]["steps"] = [{"id": "core.no_such_step"}]
    elif how == "steps":
        raw["preprocess"]["plan"]["steps"] = {"id": "core.ensure_2d"}
    elif how == "fit":
        raw["preprocess"]["plan"]["steps"] = [{"id": "tabular.standard_scaler"}]
        raw["preprocess"]["fit_on"] = "nowhere"
    elif how == "method":
        raw["method"]["params"] = {"fail": True}
    elif how == "params":
        raw["method"]["params"] = {"no_such_parameter": 1}
    elif how == "method_id":
        raw["method"]["id"] = "no_such_method"
    elif how == "metric":
        raw["evaluation"]["metrics"] = ["no_such_metric"]
    elif how == "views":
        raw["views"] = {"plan": {"views": [{"name": "v1", "columns": {"mode": "indices", "indices": [99]}}]}}
    elif how == "views_null":
        raw["views"] = {"plan": {"views": None}}
    elif how == "views_text":
        raw["views"] = {"plan": {"views": "v1"}}
    elif how == "view_steps":
        raw["views"] = {"plan": {"views": [{"name": "v1", "preprocess": {"steps": 3}}]}}
    elif how == "augmentation":
        raw["augmentation"] = {"enabled": True, "mode": "fixed", "modality": "tabular", "weak": {"steps": [{"id": "core.identity"}]}, "strong": {"steps": [{"id": "tabular.no_such"}]}}
    elif how == "trial":
        raw["search"] = {"enabled": True, "kind": "grid", "seed": 0, "n_trials": 3, "repeats": 1, "space": {"method": {"params": {"fail": [None, True]}}}, "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}}
    elif how == "graph":
        raw["graph"] = {"enabled": True, "spec": {"scheme": "knn", "k": 3, "feature_field": "features.X", "backend": "no_such"}}
    elif how == "no_spec":
        raw["graph"] = {"enabled": True, "spec": {}}
    elif how == "transductive":
        raw["method"] = {"kind": "transductive", "id": "vt_tspy", "device": {"device": "cpu"}}
    return raw


BROKEN = ["dataset", "sampling", "plan", "step", "steps", "fit", "method", "params", "method_id", "metric", "views", "views_null", "views_text", "view_steps", "augmentation",
          "trial", "graph", "no_spec", "transductive"]
op_ = st.fixed_dictionaries({"name": st.sampled_from(["exp", "exp", "exp-sweep", "other"]), "seed": st.sampled_from([0, 0, 1, 7]),
                             "how": st.sampled_from([None] * 3 + ["hpo"]) | st.sampled_from(BROKEN), "fail_fast": st.sampled_from([False, False, True]),
                             "sweep": st.sampled_from([None, None, None, ("num_runs", 2), ("seeds", [0, 1]), ("num_runs", 1)]), "again": st.booleans()})


def plain_experiment(data, **run):
    return {"run": dict({"name": "exp", "seed": 0, "fail_fast": False, "output_dir": "out"}, **run),
            "dataset": {"id": ref_of(data), "download": True},
            "sampling": {"plan": {"split": {"kind": "holdout", "test_fraction": 0.25, "val_fraction": 0.25}, "labeling": {"mode": "per_class", "value": 2}}},
            "preprocess": {"plan": {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}]}, "cache": False},
            "method": {"kind": "inductive", "id": "vt_spy", "device": {"device": "cpu"}, "params": {}},
            "evaluation": {"report_splits": ["val", "test"], "metrics": ["accuracy"]}}


SMALL = {"n": 24, "m": 0, "c": 3, "labels": "int", "seed": 5}


def subset_of(small_, big, path=""):
    """Every value of a configuration is in another one."""
    for k, v in small_.items():
        require(k in big, "the saved configuration lacks %s%s", path, k)
        if isinstance(v, dict) and isinstance(big[k], dict):
            subset_of(v, big[k], path + k + ".")
        else:
            require(big[k] == v, "the saved configuration has %s%s=%r, the run was given %r", path, k, big[k], v)


def check_run_folder(folder, raw, failed, what, hpo=False):
    files = {p.name for p in folder.iterdir()}
    require({"config.yaml", "run.json"} <= files, "%s: folder has only %s", what, sorted(files))
    rep = report(folder)
    saved = yaml.safe_load((folder / "config.yaml").read_text(encoding="utf-8"))
    want = copy.deepcopy(raw)
    want["run"].pop("seeds", None)
    if hpo:
        want["method"].pop("params")
    if "search" in want:
        want["search"].pop("seed", None)
    want["run"].pop("output_dir")
    subset_of(want, saved)
    require(rep["run"]["status"] == ("failed" if failed else "success"), "%s: recorded as %r", what, rep["run"]["status"])
    require(rep["run"]["name"] == raw["run"]["name"] and rep["run"]["seed"] == raw["run"]["seed"], "%s: recorded as %r, seed %r", what, rep["run"]["name"], rep["run"]["seed"])
    require(folder.name.startswith("%s-%s-" % (rep["run"]["name"], rep["run"]["run_id"])), "%s: run id %s in folder %s", what, rep["run"]["run_id"], folder.name)
    if failed:
        require(bool(rep["error"]) and "error.txt" in files and "Traceback" in (folder / "error.txt").read_text(encoding="utf-8"), "%s: no error record", what)
        require(rep["metrics"] is None, "%s: metrics of a failed run", what)
    else:
        require(rep["error"] is None and "error.txt" not in files and isinstance(rep["metrics"], dict), "%s: error record of a successful run", what)
    return rep


@check("B04", st.fixed_dictionaries({"ops": st.lists(op_, min_size=2, max_size=5)}), quick=60, thorough=2500, timeout=180, shards=2)
def run_histories(case, ctx):
    """At least one run failed or two runs share a name."""
    data = SMALL
    ops = []
    for op in case["ops"]:
        ops += [op, op] if op["again"] else [op]
    fails = sum(op["how"] in BROKEN for op in ops)
    ctx.nontrivial(fails > 0 or len({op["name"] for op in ops}) < len(ops))
    with lab(ctx) as L:
        seen = {}
        for op in ops:
            raw = plain_experiment(data, name=op["name"], seed=op["seed"], fail_fast=op["fail_fast"])
            if op["how"] == "hpo":
                raw["search"] = {"enabled": True, "kind": "grid", "seed": 0, "n_trials": 3, "repeats": 1, "space": {"method": {"params": {"a": [1, 2]}}}, "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}}
            elif op["how"]:
                raw = broken(raw, op["how"])
            failing = op["how"] in BROKEN
            ctx.label(str(op["how"]))
            num, seeds = None, None
            if op["sweep"]:
                if op["sweep"][0] == "num_runs":
                    num, seeds = op["sweep"][1], [op["seed"] + i for i in range(op["sweep"][1])]
                else:
                    seeds = raw["run"]["seeds"] = list(op["sweep"][1])
                ctx.label("sweep")
            code, exc, new = L.run(raw, data, num_runs=num)
            what = "run of %s (%s)" % (op["name"], op["how"])
            for folder, files in seen.items():
                require(folder.is_dir(), "%s removed the folder of an earlier run", what)
                d = diff(files, tree(folder))
                require(d is None, "%s changed the files of an earlier run: %s", what, d)
            require(len(new) == 1, "%s left %d new folders", what, len(new))
            if failing and op["fail_fast"]:
                require(exc is not None, "%s: fail_fast is on but the failure was not raised (code %r)", what, code)
            else:
                require(exc is None and code == (1 if failing else 0), "%s: code %r, exception %r", what, code, exc)
            if seeds is None:
                check_run_folder(new[0], raw, failing, what, hpo=op["how"] == "hpo")
            else:
                subs = sorted(p for p in new[0].iterdir() if p.is_dir())
                done = 1 if failing and op["fail_fast"] else len(seeds)
                require(len(subs) == done, "%s: sweep over %r left run folders %r", what, seeds, [s.name for s in subs])
                got = []
                for s in subs:
                    rep = report(s)
                    r = copy.deepcopy(raw)
                    r["run"].update(seed=rep["run"]["seed"], name="%s-seed%d" % (op["name"], rep["run"]["seed"]))
                    check_run_folder(s, r, failing, what, hpo=op["how"] == "hpo")
                    got.append(rep["run"]["seed"])
                require(sorted(got) == sorted(seeds[:done]), "%s: seeds %r were run, asked %r", what, got, seeds)
                if not (failing and op["fail_fast"]):
                    require((new[0] / "aggregate.json").is_file(), "%s: no sweep summary", what)
            seen[new[0]] = tree(new[0])


# ----------------------------------------------------------------------------- B05
@check("B05", st.fixed_dictionaries({"seed": st.integers(0, 50), "how": st.sampled_from(["num_runs", "seeds"]), "seeds": st.lists(st.integers(0, 30), min_size=1, max_size=4, unique=True),
                                     "bad": st.lists(st.integers(0, 3), max_size=2, unique=True), "empty": st.sampled_from([False, False, True]), "data": data_,
                                     "fail_fast": st.sampled_from([False, False, False, True])}), quick=40, thorough=1500, timeout=180)
def sweep_of_runs(case, ctx):
    """The sweep has at least two runs."""
    d = dict(case["data"], labels="int", noise=3.0)
    raw = plain_experiment(d, seed=case["seed"], fail_fast=case["fail_fast"])
    raw["sampling"]["plan"]["policy"] = {"respect_official_test": False, "allow_override_official": True}
    raw["evaluation"]["metrics"] = ["accuracy", "macro_f1"]
    if case["empty"]:
        raw["sampling"]["plan"]["split"]["val_fraction"] = 0.0
    num = None
    seeds = case["seeds"]
    if case["how"] == "num_runs":
        num = len(seeds)
        seeds = [case["seed"] + i for i in range(num)]
        raw["run"]["seeds"] = [90, 91] if case["empty"] else None
        if raw["run"]["seeds"] is None:
            del raw["run"]["seeds"]
    else:
        raw["run"]["seeds"] = seeds
    bad = {seeds[i % len(seeds)] for i in case["bad"]}
    raw["method"]["params"] = {"fail": sorted(derive_seed(s, "method") for s in bad)} if bad else {}
    ctx.nontrivial(len(seeds) > 1)
    ctx.label("%s of %d fail" % ("some" if 0 < len(bad) < len(seeds) else "all" if bad else "none", len(seeds)))
    with lab(ctx) as L:
        code, exc, new = L.run(raw, d, num_runs=num)
        require(len(new) == 1, "%d folders", len(new))
        if bad and case["fail_fast"]:
            require(exc is not None, "a failed run of a fail_fast sweep was not raised")
            return
        require(exc is None and code == (1 if bad else 0), "code %r, %r", code, exc)
        agg = json.loads((new[0] / "aggregate.json").read_text(encoding="utf-8"))
        require([r["seed"] for r in agg["runs"]] == seeds, "runs of seeds %r listed, asked %r", [r["seed"] for r in agg["runs"]], seeds)
        s = agg["sweep"]
        require((s["requested_seeds"], s["requested_run_count"], s["completed_run_count"], s["successful_run_count"], s["failed_run_count"]) ==
                (seeds, len(seeds), len(seeds), len(seeds) - len(bad), len(bad)), "counts %r", s)
        require(s["status"] == ("success" if not bad else "failed" if len(bad) == len(seeds) else "partial_failure"), "status %r with %d of %d failed", s["status"], len(bad), len(seeds))
        vals = {}
        for r in agg["runs"]:
            require((r["status"] == "failed") == (r["seed"] in bad), "seed %r is listed as %r", r["seed"], r["status"])
            rep = report(pathlib.Path(r["run_dir"]))
            require(rep["run"]["seed"] == r["seed"] and rep["run"]["status"] == r["status"] and diff(rep["metrics"], r["metrics"]) is None, "entry of seed %r is not what its run reported", r["seed"])
            if r["status"] == "success":
                one = dict(raw, run=dict(raw["run"], seed=r["seed"]))
                require(rep["artifacts"]["sampling"]["seed"] == r["seed"], "the sampling seed of sweep run %r is %r", r["seed"], rep["artifacts"]["sampling"]["seed"])
                del one
                for split, ms in rep["metrics"].items():
                    for k, v in ms.items():
                        vals.setdefault((split, k), []).append(v)
        require({(a, b) for a in agg["metrics"] for b in agg["metrics"][a]} == set(vals), "metrics summarised")
        for (a, b), vs in vals.items():
            got = agg["metrics"][a][b]
            vs = np.array(vs)
            want = dict(count=len(vs), mean=vs.mean(), std=vs.std(), min=vs.min(), max=vs.max())
            for k, w in want.items():
                require((math.isnan(got[k]) and math.isnan(w)) or abs(got[k] - w) < 1e-9, "%s of %s.%s is %r, recomputed %r from %r", k, a, b, got[k], w, vs.tolist())


# ----------------------------------------------------------------------------- B06
def outcome(rep):
    art = copy.deepcopy(rep["artifacts"])
    art.get("preprocess", {}).pop("cache_dir", None)
    info = art.get("dataset", {}).get("info")
    if isinstance(info, dict):
        info.pop("cache_dir", None)
    out = {"status": rep["run"]["status"], "error": rep["error"], "run_id": rep["run"]["run_id"], "metrics": rep["metrics"], "artifacts": art, "hpo": rep["hpo"], "protocol": rep["protocol"],
           "resolution": rep["resolution"], "hashes": rep["hashes"]}
    return json.loads(json.dumps(out))


def scramble(k):
    import random
    random.seed(k)
    np.random.seed(k % 2 ** 32)
    torch.manual_seed(k)


def repeat_runs(case, ctx, build):
    raw, d = case["raw"], case["data"]
    raw["preprocess"]["cache"] = True
    with lab(ctx) as L:
        scramble(1)
        L.cache("cacheA")
        code, exc, new = L.run(raw, d)
        require(exc is None and len(new) == 1, "first run: %r", exc)
        first = outcome(report(new[0]))
        if "nonsingular" in str(first["error"]):
            first["error"] = None
        ctx.nontrivial(code == 0)
        ctx.label("%s: %s" % (raw["method"]["id"], "succeeds" if code == 0 else "fails"))
        if code and os.environ.get("VT_WHY"):
            print(raw["method"]["id"], first["error"], flush=True)
        for what, cache in (("with warm caches", "cacheA"), ("with fresh caches", "cacheB"), ("after another experiment filled the caches", "cacheC")):
            L.cache(cache)
            if cache == "cacheC":
                other, od = build(copy.deepcopy(raw), copy.deepcopy(d))
                L.run(other, od, out="elsewhere")
                spybench.reset()
            scramble(case["rng"])
            c2, e2, new = L.run(raw, d)
            require(e2 is None and len(new) == 1, "%s: %r", what, e2)
            again = outcome(report(new[0]))
            if "nonsingular" in str(again["error"]):
                again["error"] = None
            dd = diff({k: v for k, v in first.items() if k != "config"}, again)
            require(dd is None, "running the same configuration %s gives another result: %s", what, dd)


def neighbour(kind):
    def build(raw, d):
        """An experiment that shares everything but one setting."""
        kind_, v = kind
        if kind_ == "seed":
            raw["run"]["seed"] = raw["run"]["seed"] + 1
            for k in ("sampling", "preprocess", "views", "graph", "augmentation"):
                if isinstance(raw.get(k), dict) and raw[k].get("seed") is not None and v:
                    raw[k]["seed"] += 1
        elif kind_ == "policy":
            p = raw["sampling"]["plan"].get("policy", {})
            raw["sampling"]["plan"]["policy"] = {"respect_official_test": not p.get("respect_official_test", True), "allow_override_official": True}
        elif kind_ == "labeling":
            raw["sampling"]["plan"]["labeling"] = {"mode": "per_class", "value": 4 + v}
        elif kind_ == "split":
            raw["sampling"]["plan"]["split"] = {"kind": "holdout", "test_fraction": 0.3, "val_fraction": 0.15}
        elif kind_ == "fit_on":
            raw["preprocess"]["fit_on"] = {"train": "train_labeled", "train_labeled": "train"}.get(raw["preprocess"].get("fit_on"), "train")
        elif kind_ == "steps":
            raw["preprocess"]["plan"]["steps"] = raw["preprocess"]["plan"]["steps"][:-1] if v else raw["preprocess"]["plan"]["steps"] + [{"id": "core.ensure_2d"}]
        elif kind_ == "params":
            for s in raw["preprocess"]["plan"]["steps"]:
                if s["id"] == "core.pca" or s["id"] == "core.random_projection":
                    s["params"] = {"n_components": 3 if s["params"]["n_components"] == 2 else 2}
        elif kind_ == "graph" and "graph" in raw:
            raw["graph"]["spec"]["k"] += 1
        elif kind_ == "method":
            raw["method"]["params"] = {}
        elif kind_ == "data":
            d = dict(d, seed=d["seed"] + 1)
            raw["dataset"]["id"] = ref_of(d)
        return raw, d
    return build


NEIGHBOURS = st.sampled_from(["seed", "policy", "labeling", "split", "fit_on", "steps", "params", "graph", "method", "data"])


@st.composite
def repeated(draw, kind, real):
    case = draw(real_experiment(kind)) if real else draw(experiment(kind=kind, method="vt_spy" if kind == "inductive" else "vt_tspy", data=data_ if kind == "inductive" else gdata_))
    raw = case["raw"]
    if not real and draw(st.sampled_from([True, False])):
        steps = raw["preprocess"]["plan"]["steps"]
        at = next((i for i, s in enumerate(steps) if s["id"] == "core.to_torch"), len(steps))
        steps[at:at] = [{"id": "core.ensure_2d"}, {"id": draw(st.sampled_from(["core.random_projection", "core.pca"])), "params": {"n_components": draw(st.sampled_from([2, 3]))}}]
        raw["preprocess"]["fit_on"] = raw["preprocess"]["fit_on"] or "train"
        raw.pop("views", None)
    if "graph" in raw:
        raw["graph"]["cache"] = True
        if case["data"].get("graph"):
            raw["graph"]["enabled"] = False
    if draw(st.integers(0, 3)) == 3:
        raw["search"] = {"enabled": True, "kind": draw(st.sampled_from(["random", "grid"])), "seed": 3, "n_trials": 2, "repeats": 1,
                         "space": {"method": {"params": {"a": [1, 2]}}} if not real else None, "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}}
        if raw["search"]["space"] is None:
            del raw["search"]
    case["other"] = [draw(NEIGHBOURS), draw(st.integers(0, 1))]
    case["rng"] = draw(st.integers(2, 10 ** 6))
    return case


@check("B06", repeated("inductive", False), quick=25, thorough=1000, timeout=300)
def inductive_pipeline_repeats(case, ctx):
    """The run succeeded."""
    repeat_runs(case, ctx, neighbour(case["other"]))


@check("B06", repeated("transductive", False), quick=40, thorough=1500, timeout=300)
def transductive_pipeline_repeats(case, ctx):
    """The run succeeded."""
    repeat_runs(case, ctx, neighbour(case["other"]))


@check("B06", repeated("inductive", True), quick=30, thorough=1200, timeout=400, shards=2)
def inductive_methods_repeat(case, ctx):
    """The run trained the method and succeeded."""
    repeat_runs(case, ctx, neighbour(case["other"]))


@check("B06", repeated("transductive", True), quick=30, thorough=1200, timeout=400, shards=2)
def transductive_methods_repeat(case, ctx):
    """The run trained the method and succeeded."""
    repeat_runs(case, ctx, neighbour(case["other"]))


TOYS = sorted((pathlib.Path(REPO) / "bench" / "configs" / "experiments").glob("toy_*.yaml"))
OWN = sorted(SHIPPED["inductive"].values()) + sorted(SHIPPED["transductive"].values())


@check("B06", st.fixed_dictionaries({"i": st.integers(0, 10 ** 6), "own": st.sampled_from([False, True]), "seed": st.integers(0, 1000), "hash": st.integers(1, 10 ** 6), "fail": st.sampled_from([False, False, True])}),
       quick=4, thorough=150, timeout=400, shards=2)
def shipped_experiments_from_the_command_line(case, ctx):
    """The shipped experiment (budget reduced) ran to completion."""
    pool = OWN if case["own"] else TOYS
    src = pool[case["i"] % len(pool)]
    raw = small(yaml.safe_load(src.read_text(encoding="utf-8")))
    raw["run"].pop("seeds", None)
    raw["run"]["seed"] = case["seed"]
    raw["run"]["fail_fast"] = True
    raw["run"]["output_dir"] = "runs"
    for k in ("sampling", "preprocess"):
        raw[k]["seed"] = case["seed"] + 1
    if case["fail"]:
        raw["sampling"]["plan"]["split"] = {"kind": "kfold", "k": 3, "fold": 7}
    ctx.label(src.stem if not case["own"] else raw["method"]["id"])
    outs = []
    with lab(ctx) as L:
        raw["run"]["output_dir"] = str(L.root / "out")
        path = L.root / "exp.yaml"
        path.write_text(yaml.safe_dump(raw, sort_keys=False), encoding="utf-8")
        scramble(case["hash"])
        L.cache("c0")
        code, exc, new = L.run(raw, SMALL, path=path)
        require(len(new) == 1 and (exc is not None) == case["fail"], "in-process run: %r, %r", code, exc)
        outs.append(outcome(report(new[0])))
        ctx.nontrivial(code == 0)
        (L.root / "c0").rename(L.root / "c1")
        before = L.folders()
        env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]), PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), REPO]))
        p = subprocess.run([sys.executable, "-m", "bench.main", "--config", str(path)], env=env, cwd=L.root, capture_output=True, text=True, timeout=300)
        require((p.returncode != 0) == case["fail"], "the command exits with %d: %s", p.returncode, p.stderr[-300:])
        new = [f for f in L.folders() if f not in before]
        require(len(new) == 1, "the command left %d folders", len(new))
        d = diff(outs[0], outcome(report(new[0])))
        require(d is None, "a fresh process reports another result: %s", d)


# ----------------------------------------------------------------------------- B09
OPTS = {"a": [[1, 2, 3], [2, 1], [0]], "b": [["x", "y"], [None, "z"]], "batch_size": [[4, 64], [128, 2, 32]], "opts": [[{"k": 1}, {"k": 2, "m": 3}], [{}, {"q": 1}]]}
DISTS = [{"dist": "uniform", "low": 0.0, "high": 1.0}, {"dist": "log_uniform", "low": 0.001, "high": 1.0}, {"dist": "randint", "low": 1, "high": 9}]
score_ = st.sampled_from([0.5, 0.25, 0.75, 0.1, 0.9, -0.3] * 3 + [float("nan"), 0.5, -1.0, 1e300, float("inf"), float("-inf"), 0.0, 0.25])


@st.composite
def searches(draw):
    kind = draw(st.sampled_from(["grid", "random"]))
    keys = draw(st.lists(st.sampled_from(sorted(OPTS)), min_size=1, max_size=3, unique=True))
    space = {k: draw(st.sampled_from(OPTS[k])) for k in keys}
    repeats = draw(st.sampled_from([1, 1, 2, 3]))
    return {"kind": kind, "space": space, "seed": draw(seedv), "n_trials": draw(st.integers(1, 6)), "repeats": repeats, "direction": draw(st.sampled_from(["maximize", "minimize"])),
            "scores": draw(st.sampled_from([[], [math.nan] * repeats, [], [math.nan] * (2 * repeats), [math.inf], []])) + draw(st.lists(score_, min_size=3, max_size=14)), "limit": draw(st.sampled_from([None, None, 16, 3])), "base": draw(st.sampled_from([{}, {"b": "base"}, {"batch_size": 100}, {"opts": {"k": 9, "z": 9}}])),
            "method": draw(st.sampled_from(["inductive", "inductive", "transductive"])), "run_seed": draw(st.integers(0, 99)), "split": draw(st.sampled_from(["val", "train"]))}


def merged(a, b):
    out = copy.deepcopy(a)
    for k, v in b.items():
        out[k] = merged(out[k], v) if isinstance(out.get(k), dict) and isinstance(v, dict) else copy.deepcopy(v)
    return out


@check("B09", searches(), quick=160, thorough=5000, timeout=120, shards=2)
def searches_report_the_best_trial(case, ctx):
    """At least two trials ran."""
    d = SMALL
    raw = plain_experiment(d, seed=case["run_seed"])
    if case["method"] == "transductive":
        raw["method"].update(kind="transductive", id="vt_tspy")
        raw["graph"] = {"enabled": True, "cache": False, "spec": {"scheme": "knn", "metric": "euclidean", "k": 3, "symmetrize": "or", "weights": {"kind": "binary"}, "normalize": "none",
                                                                    "self_loops": False, "backend": "numpy", "feature_field": "features.X"}}
    raw["method"]["params"] = copy.deepcopy(case["base"])
    raw["evaluation"]["metrics"] = ["accuracy"]
    raw["search"] = {"enabled": True, "kind": case["kind"], "seed": case["seed"], "n_trials": case["n_trials"], "repeats": case["repeats"], "space": {"method": {"params": copy.deepcopy(case["space"])}},
                     "objective": {"split": case["split"], "metric": "vt_score", "direction": case["direction"], "aggregate": "mean"}}
    if case["limit"]:
        raw["limits"] = {"max_method_batch_size": case["limit"]}
    given = {}

    def fn(fit):
        v = case["scores"][len(given) % len(case["scores"])]
        return given.setdefault(id(fit), v)
    with lab(ctx) as L:
        spybench.TABLE["fn"] = fn
        code, exc, new = L.run(raw, d)
        require(code == 0 and exc is None, "the search failed: %s %s", exc, new and report(new[0])["error"])
        rep = report(new[0])
        hpo = rep["hpo"]
        trials = [json.loads(line) for line in (new[0] / hpo["trials_path"]).read_text(encoding="utf-8").splitlines()]
        fits = spybench.FITS
        k = case["repeats"]
        ctx.nontrivial(len(trials) > 1)
        if case["kind"] == "grid":
            want = [{}]
            for key in sorted(case["space"]):
                want = [dict(w, **{key: v}) for w in want for v in case["space"][key]]
            require(len(trials) == len(want), "%d trials for a grid of %d points", len(trials), len(want))
            plain = [flat(t) for t in trials]
            require(sorted(map(repr_, plain)) == sorted(map(repr_, want)), "the trials %r are not the grid", plain)
        else:
            require(len(trials) == case["n_trials"], "%d trials, asked %d", len(trials), case["n_trials"])
            for t in trials:
                p = flat(t)
                require(set(p) == set(case["space"]) and all(p[q] in case["space"][q] for q in p), "trial %r is outside the space", p)
        require(hpo["n_trials"] == len(trials) and hpo["repeats"] == k and [t["index"] for t in trials] == list(range(len(trials))), "announced %r trials, indices %r", hpo["n_trials"], [t["index"] for t in trials])
        require(len(fits) == len(trials) * k + 1, "%d fits for %d trials of %d repeats and a final run", len(fits), len(trials), k)
        require(len({f["seed"] for f in fits}) == len(fits), "two fits share a seed")

        def spec_of(params):
            p = merged(case["base"], params)
            b = p.get("batch_size", 16)
            if case["limit"] and "batch_size" in p:
                b = min(b, case["limit"])
            return {"a": p.get("a", 0), "b": p.get("b", 0), "opts": p.get("opts", {}), "batch_size": b}

        def check_spec(fit, params, what):
            s = fit["spec"]
            got = {"a": s.a, "b": s.b, "opts": s.opts, "batch_size": s.batch_size}
            require(diff(got, spec_of(params)) is None, "%s ran with %r, its parameters ask for %r", what, got, spec_of(params))
        values = []
        for i, t in enumerate(trials):
            for f in fits[i * k:(i + 1) * k]:
                check_spec(f, flat(t), "trial %d" % i)
            want = [given[id(f)] for f in fits[i * k:(i + 1) * k]]
            require(diff(t["objective"]["values"], want) is None, "trial %d recorded %r, its scores are %r", i, t["objective"]["values"], want)
            m = float(np.mean(want))
            values.append(m)
            require(diff(t["objective"]["value"], m) is None or abs(t["objective"]["value"] - m) < 1e-9 * abs(m), "trial %d recorded mean %r of %r", i, t["objective"]["value"], want)
        sign = 1 if case["direction"] == "maximize" else -1
        key = [-math.inf if math.isnan(v) else sign * v for v in values]
        best = max(range(len(key)), key=lambda i: (key[i], -i))
        if math.isnan(values[best]) and any(v in (math.inf, -math.inf) for v in values):
            return
        if not math.isfinite(key[best]):
            ctx.label("no finite score")
        require(hpo["best_index"] == best, "trial %d (score %r) is reported as the best, trial %d has %r (%s)", hpo["best_index"], values[hpo["best_index"]], best, values[best], case["direction"])
        require(diff(hpo["best_score"], values[best]) is None or abs(hpo["best_score"] - values[best]) < 1e-9 * abs(values[best]), "best score %r", hpo["best_score"])
        require(diff(hpo["best_params"], trials[best]["params"]) is None, "best parameters %r, those of the trial %r", hpo["best_params"], trials[best]["params"])
        check_spec(fits[-1], flat(trials[best]), "the final run")
        require(fits[-1]["seed"] == derive_seed(case["run_seed"], "method"), "seed of the final run")
        saved = yaml.safe_load((new[0] / "config.yaml").read_text(encoding="utf-8"))
        p = merged(case["base"], flat(trials[best]))
        if case["limit"] and "batch_size" in p:
            p["batch_size"] = min(p["batch_size"], case["limit"])
        require(diff(saved["method"]["params"], p) is None and diff(rep["config"]["method"]["params"], p) is None, "the saved configuration has parameters %r, the final run used %r", saved["method"]["params"], p)


def flat(trial):
    return trial["patch"]["method"]["params"]


def repr_(p):
    return json.dumps(p, sort_keys=True)


# ----------------------------------------------------------------------------- B11
def strict_base(kind, cache):
    raw = plain_experiment(SMALL, benchmark_mode=True, fail_fast=True)
    raw["dataset"].update(download=False, cache_dir=cache)
    raw["evaluation"]["split_for_model_selection"] = "val"
    raw["preprocess"]["fit_on"] = "train"
    if kind == "transductive":
        raw["method"].update(kind="transductive", id="vt_tspy")
        raw["graph"] = {"enabled": True, "cache": False, "spec": {"scheme": "knn", "metric": "euclidean", "k": 3, "symmetrize": "or", "weights": {"kind": "binary"}, "normalize": "none",
                                                                    "self_loops": False, "backend": "numpy", "feature_field": "features.X"}}
    elif kind == "backend":
        raw["method"].update(kind="transductive", id="poisson_learning", params={"backend": "numpy"})
        raw["graph"] = strict_base("transductive", cache)["graph"]
    elif kind == "classic":
        raw["method"].update(id="pseudo_label", params={"classifier_id": "knn", "classifier_backend": "numpy", "max_iter": 2})
    elif kind == "torch":
        raw["preprocess"]["plan"]["steps"] = [{"id": "labels.encode"}, {"id": "core.ensure_2d"}, {"id": "labels.to_torch"}, {"id": "core.to_torch"}]
        raw["method"].update(id="pi_model", params={"max_epochs": 1, "batch_size": 8},
                             model={"classifier_id": "mlp", "classifier_backend": "torch", "classifier_params": {"hidden_sizes": [4], "max_epochs": 1}})
        raw["method"]["device"] = {"device": "cpu", "dtype": "float32"}
        raw["augmentation"] = {"enabled": True, "mode": "fixed", "modality": "tabular", "weak": {"steps": [{"id": "core.identity"}]}, "strong": {"steps": [{"id": "core.identity"}]}}
    return raw


def auto_word(k):
    return ["auto", "AUTO", " auto ", "Auto"][k % 4]


def violate(raw, how, k):
    """-> the codes one of which must be reported, or None when the rule does not concern this experiment."""
    A = {"E_BENCH_AUTO_FORBIDDEN"}
    m = raw["method"]
    if how == "download":
        raw["dataset"]["download"] = True
        return {"E_BENCH_DOWNLOAD_FORBIDDEN"}
    if how == "cache_dir":
        del raw["dataset"]["cache_dir"]
        return {"E_BENCH_CACHE_DIR_REQUIRED"}
    if how == "device":
        m["device"]["device"] = "auto"
        return A
    if how == "profile":
        raw["limits"] = {"profile": "auto"}
        return A
    if how == "graph" and "graph" in raw:
        raw["graph"]["spec"]["backend"] = auto_word(k) if k % 4 in (0, 1) else "auto"
        return A
    if how == "split":
        del raw["evaluation"]["split_for_model_selection"]
        return {"E_BENCH_SPLIT_MODEL_SELECTION_REQUIRED"}
    if how == "split_other":
        raw["evaluation"]["split_for_model_selection"] = "train"
        return {"E_BENCH_SPLIT_MODEL_SELECTION_INVALID"}
    if how == "search" and m["id"].startswith("vt_"):
        raw["search"] = {"enabled": True, "kind": "grid", "seed": 0, "n_trials": 2, "repeats": 1, "space": {"method": {"params": {"a": [1, 2]}}},
                         "objective": {"split": "test", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}}
        return {"E_BENCH_SPLIT_MODEL_SELECTION_CONFLICT"}
    if how == "no_backend" and "backend" in m["params"]:
        del m["params"]["backend"]
        return {"E_BENCH_BACKEND_REQUIRED"}
    if how == "backend" and "backend" in m["params"]:
        m["params"]["backend"] = auto_word(k)
        return A
    if how == "classifier" and "classifier_backend" in m["params"]:
        m["params"]["classifier_backend"] = auto_word(k)
        return A
    if how == "space" and "classifier_backend" in m["params"]:
        raw["search"] = {"enabled": True, "kind": "grid", "seed": 0, "n_trials": 2, "repeats": 1, "space": {"method": {"params": {"classifier_backend": ["numpy", "auto"] if k % 2 else ["auto"]}}},
                         "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}}
        return A
    if how == "classifier" and "model" in m:
        m["model"]["classifier_backend"] = "auto"
        return A
    if how == "nested":
        where = m["params"].setdefault("opts", {}) if m["id"].startswith("vt_") and k % 2 else raw["preprocess"]["plan"]["steps"][0].setdefault("params", {})
        where[["device", "backend", "classifier_backend", "profile"][k % 4]] = auto_word(k // 4)
        return A
    if how == "fit_on":
        raw["preprocess"]["plan"]["steps"].insert(1, {"id": "tabular.standard_scaler"})
        raw["preprocess"].pop("fit_on", None)
        return {"E_BENCH_FIT_ON_REQUIRED"}
    if how == "view_fit_on" and m["id"] == "vt_spy":
        raw["views"] = {"plan": {"views": [{"name": "v", "preprocess": {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "tabular.standard_scaler"}]}}, {"name": "w"}]}}
        raw["preprocess"].pop("fit_on", None)
        return {"E_BENCH_FIT_ON_REQUIRED"}
    if how == "to_torch" and "model" in m:
        raw["preprocess"]["plan"]["steps"] = [{"id": "labels.encode"}, {"id": "core.ensure_2d"}]
        return {"E_BENCH_PREPROCESS_TO_TORCH_REQUIRED"}
    if how == "space" and "backend" in m["params"]:
        raw["search"] = {"enabled": True, "kind": "grid", "seed": 0, "n_trials": 2, "repeats": 1, "space": {"method": {"params": {"backend": ["numpy", "auto"] if k % 2 else ["auto"]}}},
                         "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}}
        return A
    return None


RULES = ["download", "cache_dir", "device", "profile", "graph", "split", "split_other", "search", "no_backend", "backend", "classifier", "nested", "fit_on", "view_fit_on", "to_torch", "space"]


@check("B11", st.fixed_dictionaries({"kind": st.sampled_from(["inductive", "transductive", "backend", "torch", "classic"]), "how": st.lists(st.sampled_from(RULES), min_size=0, max_size=3, unique=True), "k": st.integers(0, 11)}),
       quick=120, thorough=3000, timeout=180, shards=2)
def benchmark_mode_refuses_unpinned_choices(case, ctx):
    """The configuration breaks at least one rule of the benchmark contract."""
    with lab(ctx) as L:
        warm = plain_experiment(SMALL)
        warm["dataset"]["cache_dir"] = str(L.root / "data")
        code, exc, _ = L.run(warm, SMALL, out="warm")
        require(code == 0, "filling the cache: %r", exc)
        spybench.reset()
        raw = strict_base(case["kind"], str(L.root / "data"))
        codes = set()
        for how in case["how"]:
            c = violate(raw, how, case["k"])
            if c:
                codes |= c
                ctx.label(how)
        ctx.nontrivial(bool(codes))
        with capturing(tclass("poisson_learning")) as f1, capturing(iclass("pi_model")) as f2, capturing(iclass("pseudo_label")) as f3:
            code, exc, new = L.run(raw, SMALL)
        fitted = len(f1) + len(f2) + len(f3) + len(spybench.FITS)
        if not codes:
            require(code == 0 and exc is None, "a fully pinned experiment is refused: %r", exc)
            require(fitted > 0, "nothing was trained")
            ctx.label("pinned")
            return
        require(exc is not None, "the run goes ahead (code %r) although it breaks %r", code, sorted(codes))
        require(fitted == 0 or "space" in case["how"], "a method was trained although the configuration breaks %r", sorted(codes))
        got = getattr(exc, "code", None)
        require(got in codes, "refused with %r (%s), the configuration breaks %r", got, exc, sorted(codes))
        if new:
            rep = report(new[0])
            require(rep["run"]["status"] == "failed" and rep["run"]["error_code"] == got and rep["run"]["benchmark_mode"] is True, "recorded as %r, code %r", rep["run"]["status"], rep["run"]["error_code"])


# ----------------------------------------------------------------------------- B12
@st.composite
def pinned(draw, kind, real):
    case = draw(repeated(kind, real))
    raw = case["raw"]
    case.pop("other")
    case.pop("rng")
    raw["run"]["fail_fast"] = True
    ev = raw["evaluation"]
    if "val" not in ev["report_splits"]:
        ev["report_splits"].append("val")
    ev["split_for_model_selection"] = draw(st.sampled_from(ev["report_splits"]))
    if raw.get("search"):
        raw["search"]["objective"]["split"] = ev["split_for_model_selection"]
        raw["search"]["objective"]["metric"] = ev["metrics"][0]
    raw["preprocess"]["fit_on"] = raw["preprocess"]["fit_on"] or "train"
    steps = raw["preprocess"]["plan"]["steps"]
    ids = [s["id"] for s in steps]
    if "core.to_torch" in ids and draw(st.sampled_from([True, False])) and "labels.encode" in ids:
        steps.append({"id": "labels.to_torch"})
    if "core.to_torch" in ids:   # every conversion is declared
        for v in raw.get("views", {}).get("plan", {}).get("views", []):
            v["preprocess"] = {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "core.to_torch"}]}
    m = raw["method"]
    if kind == "transductive" and hasattr(getattr(tclass(m["id"])(), "spec", None), "backend"):
        m["params"] = dict(m.get("params") or {}, backend="numpy")
    return case


def either_way(case, ctx):
    raw, d = copy.deepcopy(case["raw"]), case["data"]
    with lab(ctx) as L:
        warm = plain_experiment(d)
        warm["dataset"] = dict(raw["dataset"], cache_dir=str(L.root / "data"))
        L.run(warm, d, out="warm")
        raw["dataset"].update(download=False, cache_dir=str(L.root / "data"))
        got = []
        for strict in (False, True):
            spybench.reset()
            raw["run"]["benchmark_mode"] = strict
            L.cache("cache%d" % strict)
            scramble(7)
            code, exc, new = L.run(raw, d)
            require(len(new) == 1, "benchmark_mode=%s left %d folders (%r)", strict, len(new), exc)
            got.append((exc, report(new[0])))
        (e0, r0), (e1, r1) = got
        ctx.label("%s: %s" % (raw["method"]["id"], "succeeds" if e0 is None else "fails"))
        require((e0 is None) == (e1 is None), "the same pinned experiment ends with %r in normal mode and with %r in benchmark mode", e0, e1)
        require(r1["config"]["run"]["benchmark_mode"] is True, "benchmark_mode is not recorded")
        if e0 is not None:
            return
        ctx.nontrivial()
        a, b = outcome(r0), outcome(r1)
        for k in ("metrics", "hpo", "artifacts"):
            dd = diff(a[k], b[k])
            require(dd is None, "benchmark mode changes %s: %s", k, dd)


@check("B12", pinned("inductive", False), quick=40, thorough=1500, timeout=300)
def benchmark_mode_keeps_inductive_inputs(case, ctx):
    """The experiment succeeded."""
    either_way(case, ctx)


@check("B12", pinned("inductive", True), quick=60, thorough=2000, timeout=300, shards=2)
def benchmark_mode_keeps_inductive_results(case, ctx):
    """The experiment succeeded."""
    either_way(case, ctx)


@check("B12", pinned("transductive", True), quick=50, thorough=1500, timeout=300)
def benchmark_mode_keeps_transductive_results(case, ctx):
    """The experiment succeeded."""
    either_way(case, ctx)
