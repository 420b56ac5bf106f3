"""P01..P07: preprocessing plans and the step cache."""
from __future__ import annotations

import copy
import os
import random
import shutil
from pathlib import Path

import itertools

import numpy as np
import yaml

from . import crash
from .core import check, fail, probe, require, st
from .eq import diff

import torch
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import preprocess
from modssc.preprocess.plan import PreprocessPlan, StepConfig, dump_plan, load_plan
from modssc.preprocess.registry import step_info
from modssc.preprocess.services.pipeline import resolve_plan

torch.set_num_threads(1)

# ---------------------------------------------------------------- datasets
WORDS = ["ant", "Bee", "cat", "dog", "eel", "fox", "gnu", "hen", "x", "I", "fox,", "\u00e9t\u00e9"]
CATS = ["red", "green", "blue", "?", "", "nan", "7", None]


def _text(rng, n):
    return [" ".join(rng.choice(WORDS, size=int(rng.integers(0, 6)))) for _ in range(n)]


def _mixed(rng, n, d, style):
    """Object table: column 0 categorical, column 1 numeric, further ones alternate."""
    out = np.empty((n, d), dtype=object)
    for j in range(d):
        for i in range(n):
            if j % 2 == 0:
                out[i, j] = CATS[int(rng.integers(0, 3 if style == "clean" else len(CATS)))]
            else:
                v = int(rng.integers(-4, 5)) / 2
                out[i, j] = [v, str(v), "?", None][int(rng.integers(0, 2 if style == "clean" else 4))]
    return out


def make_X(c, rng, n):
    k, d = c["xkind"], c["d"]
    if k in ("num", "num32", "numint", "numnan", "num1d", "num3d", "numlist", "numtorch"):
        shape = (n,) if k == "num1d" else (n, d, 2) if k == "num3d" else (n, d)
        a = rng.integers(-8, 9, size=shape) / 4
        if k == "numint":
            return rng.integers(-8, 9, size=shape)
        if k == "num32":
            return a.astype(np.float32)
        if k == "numnan":
            a[rng.random(shape) < 0.2] = np.nan
        if k == "numlist":
            return a.tolist()
        if k == "numtorch":
            return torch.as_tensor(a, dtype=torch.float32)
        return a
    if k in ("mixed", "mixedclean"):
        return _mixed(rng, n, d, "clean" if k == "mixedclean" else "dirty")
    if k == "mixedlist":
        return _mixed(rng, n, d, "dirty").tolist()
    if k == "textlist":
        return _text(rng, n)
    if k == "textobj":
        a = np.empty(n, dtype=object)
        a[:] = _text(rng, n)
        return a
    if k == "textstr":
        return np.asarray(_text(rng, n), dtype="<U40")
    if k == "textcol":
        a = np.empty((n, 1), dtype=object)
        a[:, 0] = _text(rng, n)
        return a
    h, w, ch = c["h"], c["w"], c["c"]
    if k == "nhwc":
        a = rng.integers(0, 256, size=(n, h, w, ch))
    elif k == "nchw":
        a = rng.integers(0, 256, size=(n, ch, h, w))
    elif k == "gray":
        a = rng.integers(0, 256, size=(n, h, w))
    else:
        raise KeyError(k)
    return a.astype(np.uint8 if not c.get("imgfloat") else np.float32)


def make_y(c, rng, n):
    k = c["ykind"]
    v = rng.integers(0, c["classes"], size=n)
    if k == "int":
        return v.astype(np.int64)
    if k == "gap":
        return (v * 3 - 2).astype(np.int32)
    if k == "str":
        a = np.empty(n, dtype=object)
        a[:] = [("k%d" % i) for i in v]
        return a
    if k == "list":
        return [int(i) for i in v]
    if k == "torch":
        return torch.as_tensor(v)
    if k == "unl":
        v = v.astype(np.int64)
        v[rng.random(n) < 0.3] = -1
        return v
    raise KeyError(k)


def make_split(c, rng, n):
    X, y = make_X(c, rng, n), make_y(c, rng, n)
    edges = masks = None
    if c["mod"] == "graph":
        e = rng.integers(0, n, size=(2, c["e"])).astype(np.int64)
        edges = e.T.copy() if c.get("eT") and c["e"] != 2 else e
        masks = {"train": rng.random(n) < 0.5}
    return Split(X=X, y=y, edges=edges, masks=masks)


def make_ds(c):
    rng = np.random.default_rng([c["seed"], 11])
    tr = make_split(c, rng, c["n"])
    te = make_split(c, np.random.default_rng([c["seed"], 12]), c["nt"]) if c["nt"] else None
    meta = {"modality": c["mod"]}
    if c["fp"]:
        meta["dataset_fingerprint"] = "fp-%s" % "-".join(str(c[k]) for k in sorted(c))
    return LoadedDataset(train=tr, test=te, meta=meta)


XK = {"tabular": ["num", "num", "num32", "numint", "numnan", "numnan", "num1d", "num3d", "numlist", "numtorch", "mixed", "mixedclean",
                  "mixedlist"],
      "text": ["textlist", "textlist", "textobj", "textstr", "textcol"],
      "vision": ["nhwc", "nchw", "gray"],
      "graph": ["num", "num32", "numint", "numtorch"]}


@st.composite
def ds_case(draw, mods=("tabular", "tabular", "text", "vision", "graph"), need_test=None):
    mod = draw(st.sampled_from(mods))
    c = {"mod": mod, "xkind": draw(st.sampled_from(XK[mod])), "n": draw(st.integers(5, 12)), "seed": draw(st.integers(0, 9999)),
         "nt": draw(st.integers(5, 9)) if need_test or draw(st.booleans()) else 0, "d": draw(st.integers(1, 5)),
         "ykind": draw(st.sampled_from(["int", "int", "gap", "str", "list", "torch", "unl"])), "classes": draw(st.integers(1, 4)),
         "fp": draw(st.booleans())}
    if mod == "vision":
        c["h"], c["w"] = draw(st.integers(5, 8)), draw(st.integers(5, 8))
        c["c"] = draw(st.sampled_from([1, 3, 4]))
        c["imgfloat"] = draw(st.booleans())
    if mod == "graph":
        c["e"] = draw(st.integers(3, 30))
        c["eT"] = draw(st.booleans())
    if mod == "graph" and need_test is None and draw(st.booleans()):
        c["nt"] = 0
    return c


# ---------------------------------------------------------------- plans
@st.composite
def step_params(draw, sid):
    p = {}
    if sid == "core.cast_dtype":
        p = {"dtype": draw(st.sampled_from(["float32", "float64", "float16"]))}
    elif sid == "core.to_torch":
        p = {"dtype": draw(st.sampled_from(["float32", "float64", "auto", "int64"]))}
        if draw(st.integers(0, 3)) == 0:
            p["input_key"] = draw(st.sampled_from(["raw.X", "features.X", "tokens.input_ids"]))
    elif sid == "core.pca":
        p = {"n_components": draw(st.integers(1, 4)), "center": draw(st.booleans())}
    elif sid == "core.random_projection":
        p = {"n_components": draw(st.integers(1, 4)), "normalize": draw(st.booleans())}
    elif sid == "tabular.impute":
        s = draw(st.sampled_from(["mean", "median", "most_frequent", "constant"]))
        p = {"strategy": s, "add_indicator": draw(st.booleans())}
        if s == "constant":
            p["fill_value"] = draw(st.sampled_from([0.0, -1.5]))
    elif sid == "tabular.standard_scaler":
        p = {"with_mean": draw(st.booleans()), "with_std": draw(st.booleans())}
    elif sid == "text.hash_tokenizer":
        p = {"vocab_size": draw(st.sampled_from([3, 10, 20000])), "max_length": draw(st.integers(1, 6)), "lowercase": draw(st.booleans())}
    elif sid == "text.vocab_tokenizer":
        p = {"vocab_size": draw(st.sampled_from([2, 4, 20, 20000])), "max_length": draw(st.integers(1, 6)),
             "min_freq": draw(st.integers(1, 3))}
    elif sid == "text.tfidf":
        p = {"max_features": draw(st.sampled_from([None, 3, 100])), "ngram_range": draw(st.sampled_from([[1, 1], [1, 2]]))}
    elif sid == "vision.channels_order":
        p = {"order": draw(st.sampled_from(["NCHW", "NHWC"]))}
    elif sid == "vision.ensure_num_channels":
        p = {"num_channels": draw(st.sampled_from([1, 3, 4]))}
    elif sid == "vision.resize":
        p = {"height": draw(st.integers(5, 9)), "width": draw(st.integers(5, 9))}
    elif sid == "vision.normalize":
        p = {"mean": [draw(st.sampled_from([0.0, 0.5, 100.0]))], "std": [draw(st.sampled_from([1.0, 0.25]))]}
    elif sid == "vision.squeeze":
        p = {"as_list": draw(st.booleans())}
    elif sid == "vision.zca_whitening":
        p = {"eps": draw(st.sampled_from([0.01, 1.0]))}
    elif sid == "graph.attach_edge_weight":
        p = {"weight": draw(st.sampled_from([1.0, 0.5]))}
    elif sid == "graph.edge_sparsify":
        p = {"keep_fraction": draw(st.sampled_from([0.3, 0.6, 1.0]))}
    elif sid == "graph.node2vec":
        p = {"embedding_dim": 3, "num_walks": 1, "walk_length": 4}
    elif sid == "graph.dgi":
        p = {"embedding_dim": 3, "hidden_dim": 4, "unsup_epochs": 2, "dropout": draw(st.sampled_from([0.0, 0.5]))}
    elif sid == "labels.to_torch":
        p = {"dtype": draw(st.sampled_from(["int64", "float32"]))}
    elif sid == "labels.ensure_onehot":
        p = {"dtype": draw(st.sampled_from(["float32", "int64"]))}
    return p


def _is_num(xk):
    return xk.startswith("num")


@st.composite
def plan_case(draw, ds, max_steps=5, trans=True, outkeys=True):
    """Mostly valid plans: a small abstract state tracks what the store holds."""
    mod, xk = ds["mod"], ds["xkind"]
    F = None            # None | num | sparse | torch | dict | ids | obj | nd
    raw = "num" if _is_num(xk) else "mixed" if xk.startswith("mixed") else mod
    ystate = "raw"
    chans = ds.get("c", 1)
    ew = False
    steps = []
    n = draw(st.integers(1, max_steps))
    tries = 0
    while len(steps) < n and tries < 30:
        tries += 1
        pool = []
        if draw(st.integers(0, 3)) == 0:
            pool = ["labels.encode", "labels.ensure_onehot", "labels.to_numpy", "labels.to_torch"]
            if ds["ykind"] == "str":
                pool = ["labels.encode", "labels.encode", "labels.to_numpy"] if ystate != "enc" else ["labels.to_torch", "labels.encode"]
        elif mod == "text":
            pool = ["text.ensure_strings", "text.hash_tokenizer", "text.vocab_tokenizer", "text.tfidf", "embeddings.auto"]
            if F in ("ids", "num"):
                pool += ["core.to_torch", "core.random_projection", "core.cast_dtype", "core.pca", "core.to_numpy"] * 2
            if F == "sparse":
                pool += ["core.to_numpy"] * 2
        elif mod == "vision":
            if F is None:
                pool = ["vision.channels_order", "vision.ensure_num_channels", "vision.resize", "vision.normalize",
                        "vision.zca_whitening", "core.copy_raw", "core.ensure_2d", "embeddings.auto"]
                if chans == 1:
                    pool.append("vision.squeeze")
            else:
                pool = ["core.ensure_2d", "core.to_numpy", "core.cast_fp16", "core.to_torch"]
                if F == "num":
                    pool += ["core.pca", "core.random_projection"]
        elif raw == "mixed":
            pool = ["tabular.one_hot"] if F is None else ["core.ensure_2d", "tabular.impute", "tabular.standard_scaler", "core.pca",
                                                          "core.to_torch", "core.to_numpy", "core.cast_dtype"]
        else:
            pool = ["core.ensure_2d", "core.copy_raw", "embeddings.auto"]
            if F is not None and F != "dict":
                pool = ["core.to_numpy", "core.cast_dtype", "core.cast_fp16", "core.pca", "core.random_projection", "core.to_torch",
                        "core.ensure_2d", "core.copy_raw", "embeddings.auto"]
            if mod == "tabular" and xk not in ("num1d", "num3d") or mod == "tabular" and F == "num":
                pool += ["tabular.impute", "tabular.standard_scaler"]
            if mod == "tabular" and F is None:
                pool += ["tabular.one_hot"]
            if mod == "graph":
                pool += ["graph.attach_edge_weight", "graph.sparse_adjacency"]
                if ew:
                    pool += ["graph.edge_sparsify"] * 2
                elif draw(st.booleans()):
                    pool += ["graph.edge_sparsify"]
                if trans and F != "dict":
                    pool += ["graph.node2vec", "graph.dgi"]
            if F == "dict":
                pool = ["core.to_torch", "core.copy_raw", "graph.attach_edge_weight"]
        sid = draw(st.sampled_from(pool))
        p = draw(step_params(sid))
        if sid == "vision.normalize":
            p["mean"] = p["mean"] * chans
            p["std"] = p["std"] * chans
        if p.get("input_key") == "tokens.input_ids" and not any(s["id"].endswith("tokenizer") for s in steps):
            p.pop("input_key")
        steps.append({"id": sid, "params": p})
        if sid.startswith("labels."):
            ystate = "enc" if sid == "labels.encode" else ystate
        elif sid == "text.tfidf":
            F = "sparse"
        elif sid == "text.vocab_tokenizer":
            F = "ids"
        elif sid in ("core.ensure_2d", "core.pca", "core.random_projection", "tabular.one_hot", "tabular.impute",
                     "tabular.standard_scaler", "graph.node2vec", "graph.dgi", "embeddings.auto"):
            F = "num"
        elif sid == "core.copy_raw":
            F = "nd" if mod == "vision" or xk in ("num1d", "num3d") else "num"
        elif sid == "graph.sparse_adjacency":
            F = "dict"
        elif sid == "vision.ensure_num_channels":
            chans = p["num_channels"]
        elif sid in ("graph.attach_edge_weight",):
            ew = True
        elif sid == "core.to_torch" and F is None:
            F = "num"
    out = "features.X"
    if outkeys and draw(st.integers(0, 4)) == 0:
        out = draw(st.sampled_from(["raw.X", "tokens.input_ids", "features.X", "nothing.here"]))
    return {"steps": steps, "output_key": out}


def make_plan(p):
    return PreprocessPlan(steps=tuple(StepConfig(step_id=s["id"], params=copy.deepcopy(s["params"]),
                                                 modalities=tuple(s.get("modalities", ())),
                                                 requires_fields=tuple(s.get("requires_fields", ())),
                                                 enabled=s.get("enabled", True)) for s in p["steps"]),
                          output_key=p["output_key"])


def fit_idx(n, f):
    """f: [seed, fraction-in-tenths] -> sorted indices into the training part (never empty)."""
    rng = np.random.default_rng([f[0], 7])
    k = max(2, min(n, int(round(n * f[1] / 10))))
    return np.sort(rng.choice(n, size=k, replace=False)).astype(np.int64)


FIT = st.tuples(st.integers(0, 50), st.sampled_from([3, 5, 8, 10, 10])).map(list)


def run(ds, plan, seed, fit, **kw):
    """(status, result-or-error-name)"""
    try:
        return "ok", preprocess(ds, plan, seed=seed, fit_indices=fit, **kw)
    except Exception as e:  # noqa: BLE001
        return "error", "%s: %s" % (type(e).__name__, str(e)[:200])


def split_sig(s):
    return None if s is None else {"X": s.X, "y": s.y, "edges": s.edges, "masks": s.masks}


def sig(res, artifacts=True):
    o = {"train": split_sig(res.dataset.train), "test": split_sig(res.dataset.test)}
    if artifacts:
        o["art"] = dict(res.train_artifacts.data)
        o["art_test"] = dict(res.test_artifacts.data) if res.test_artifacts is not None else None
        o["fp"] = res.preprocess_fingerprint
    return o


def same(a, b, what):
    """a, b: run() results; both must fail, or both succeed with the same outputs."""
    require(a[0] == b[0], "%s: %s vs %s", what, a if a[0] == "error" else "ok", b if b[0] == "error" else "ok")
    if a[0] == "ok":
        d = diff(sig(a[1]), sig(b[1]))
        require(d is None, "%s: outputs differ: %s", what, d)


# ---------------------------------------------------------------- P01
@st.composite
def p01_case(draw):
    ds = draw(ds_case())
    plan = draw(plan_case(ds))
    reqs = [{"ds": ds, "plan": plan, "seed": draw(st.integers(0, 3)), "fit": draw(FIT)}]
    for _ in range(draw(st.integers(1, 3))):
        r = copy.deepcopy(draw(st.sampled_from(reqs)))
        for _ in range(draw(st.integers(0, 2))):
            how = draw(st.sampled_from(["content", "content", "plan", "step", "step", "param", "drop", "swap", "seed", "fit", "test", "fp", "ykind"]))
            S = r["plan"]["steps"]
            i = draw(st.integers(0, len(S) - 1)) if S else 0
            if how == "content":
                r["ds"]["seed"] = draw(st.integers(0, 9999))
            elif how == "plan":
                r["plan"] = draw(plan_case(r["ds"]))
            elif how == "step" and S:
                alt = draw(plan_case(r["ds"], max_steps=2))["steps"]
                S[i] = draw(st.sampled_from(alt))
            elif how == "param" and S:
                S[i]["params"] = draw(step_params(S[i]["id"]))
            elif how == "drop" and len(S) > 1:
                S.pop(i)
            elif how == "swap" and len(S) > 1:
                j = draw(st.integers(0, len(S) - 1))
                S[i], S[j] = S[j], S[i]
            elif how == "seed":
                r["seed"] = draw(st.integers(0, 3))
            elif how == "fit":
                r["fit"] = draw(FIT)
            elif how == "test":
                r["ds"]["nt"] = 0 if r["ds"]["nt"] else 6
            elif how == "fp":
                r["ds"]["fp"] = not r["ds"]["fp"]
            elif how == "ykind":
                r["ds"]["ykind"] = draw(st.sampled_from(["int", "gap", "str"]))
        reqs.append(r)
    return {"reqs": reqs, "repeat": draw(st.booleans())}


@check("P01", p01_case(), quick=520, timeout=60, shards=2)
def cache_transparent(case, ctx):
    """A history of 2-6 requests over one cache folder (requests derived from one another by small
    changes); non-trivial when at least one later request succeeds and at least one step ran."""
    cd = ctx.tmp()
    reqs = list(case["reqs"])
    if case["repeat"]:
        reqs = reqs + reqs
    for k, r in enumerate(reqs):
        plan = make_plan(r["plan"])
        fit = fit_idx(r["ds"]["n"], r["fit"])
        a = run(make_ds(r["ds"]), plan, r["seed"], fit, cache=False)
        b = run(make_ds(r["ds"]), plan, r["seed"], fit, cache=True, cache_dir=cd)
        if k:
            ctx.nontrivial(a[0] == "ok" and len(a[1].plan.steps) > 0)
        ctx.label(a[0])
        for s in r["plan"]["steps"]:
            ctx.label(s["id"])
        same(a, b, "request %d, cached vs uncached" % k)


# ---------------------------------------------------------------- P02
LABEL_FREE_ROWWISE = {"graph.node2vec", "graph.dgi"}


@st.composite
def p02_case(draw):
    ds = draw(ds_case(need_test=True))
    return {"ds": ds, "plan": draw(plan_case(ds, trans=False)), "seed": draw(st.integers(0, 3)), "fit": draw(FIT),
            "which": draw(st.sampled_from(["test", "train", "labels"])), "pseed": draw(st.integers(0, 999)),
            "rows": draw(st.integers(1, 5))}


@st.composite
def p02_odd_case(draw):
    ds = draw(ds_case(("tabular",), need_test=True).map(lambda d: dict(d, xkind={"num1d": "num", "num3d": "numnan", "numtorch": "numnan",
                                                                                "numlist": "num", "mixedlist": "mixed", "numint": "num"}.get(d["xkind"], d["xkind"]))))
    steps = []
    if ds["xkind"].startswith("mixed"):
        steps.append({"id": "tabular.one_hot", "params": draw(step_params("tabular.one_hot"))})
    tail = draw(st.lists(st.sampled_from(["tabular.impute", "tabular.impute", "tabular.standard_scaler", "core.ensure_2d", "core.pca"]), min_size=1, max_size=3))
    for sid in tail:
        steps.append({"id": sid, "params": draw(step_params(sid))})
    plan = {"steps": steps, "output_key": "features.X"}
    return {"ds": ds, "plan": plan, "seed": draw(st.integers(0, 3)), "fit": draw(st.tuples(st.integers(0, 50), st.sampled_from([3, 5, 8])).map(list)), "which": draw(st.sampled_from(["train", "train", "test"])),
            "pseed": draw(st.integers(0, 999)), "rows": draw(st.integers(1, 5)), "odd": draw(st.sampled_from(["blank", "constant"])),
            "col": draw(st.integers(0, 4))}


def _spoil_fit_rows(ds, fit, odd, col):
    """One column of the fitted rows carries no information: all missing, or a single value; the other rows keep theirs."""
    X = ds.train.X
    if not isinstance(X, np.ndarray) or X.ndim != 2 or X.dtype.kind not in "fO":
        return ds
    X, j = X.copy(), col % X.shape[1]
    if odd == "constant":
        X[fit, j] = X[fit[0], j]
    elif not isinstance(X[fit[0], j], str):
        X[fit, j] = np.nan
    return LoadedDataset(train=Split(X=X, y=ds.train.y, edges=ds.train.edges, masks=ds.train.masks), test=ds.test, meta=dict(ds.meta))


def _rows(v):
    """Per-row view of a features value."""
    if isinstance(v, dict):
        return {k: v[k] for k in v if k == "x"}["x"]
    if hasattr(v, "tocsr"):
        return v.toarray()
    if hasattr(v, "detach"):
        return v.detach().numpy()
    return v


def _replace_rows(ds, other, rows, part):
    a, b = getattr(ds, part), getattr(other, part)
    X = a.X
    if isinstance(X, list):
        X = list(X)
        for i in rows:
            X[i] = b.X[i]
    elif hasattr(X, "detach"):
        X = X.clone()
        X[rows] = b.X[rows]
    else:
        X = X.copy()
        X[rows] = b.X[rows]
    new = Split(X=X, y=a.y, edges=a.edges, masks=a.masks)
    return LoadedDataset(train=new if part == "train" else ds.train, test=new if part == "test" else ds.test, meta=dict(ds.meta))


@check("P02", p02_case(), quick=900, timeout=60, shards=2)
def no_leakage(case, ctx):
    """Change test rows, training rows outside the fit subset, or labels, and compare every other
    row; non-trivial when a fitted step ran (rows case) or the labels really changed."""
    leakage(case, ctx)


@check("P02", p02_odd_case(), quick=500, timeout=60, shards=2)
def no_leakage_past_empty_columns(case, ctx):
    """As above on data whose fitted rows leave one column without any information, while other
    rows have values there; non-trivial when a fitted step ran."""
    leakage(case, ctx)


def leakage(case, ctx):
    c = case["ds"]
    ds = make_ds(c)
    fit = fit_idx(c["n"], case["fit"])
    if case.get("odd"):
        ds = _spoil_fit_rows(ds, fit, case["odd"], case["col"])
    plan = make_plan(case["plan"])
    a = run(ds, plan, case["seed"], fit, cache=False)
    if a[0] != "ok":
        ctx.label("error")
        return
    fitted = any(s.spec.kind == "fittable" for s in a[1].plan.steps)
    rng = np.random.default_rng(case["pseed"])
    which = case["which"]
    for s in a[1].plan.steps:
        ctx.label(which + ":" + s.step_id)
    if which == "labels":
        c2 = dict(c, seed=c["seed"])
        ds2 = make_ds(c2)
        perm = rng.permutation(c["n"])

        def shuf(y):
            return [y[i] for i in perm[perm < len(y)]] if isinstance(y, list) else y[perm[perm < len(y)]]
        y2 = shuf(ds2.train.y)
        ctx.nontrivial(diff(ds2.train.y, y2) is not None)
        ds2 = LoadedDataset(train=Split(X=ds2.train.X, y=y2, edges=ds2.train.edges, masks=ds2.train.masks), test=ds2.test, meta=ds2.meta)
        b = run(ds2, plan, case["seed"], fit, cache=False)
        require(b[0] == "ok", "permuted labels make preprocessing fail: %s", b[1])
        for part in ("train", "test"):
            d = diff(getattr(a[1].dataset, part).X, getattr(b[1].dataset, part).X)
            require(d is None, "features of the %s part changed with the labels: %s", part, d)
        for art in ("train_artifacts", "test_artifacts"):
            for k, v in getattr(a[1], art).data.items():
                if not k.startswith("labels.") and k != "raw.y":
                    d = diff(v, getattr(b[1], art).data.get(k))
                    require(d is None, "%s %s changed with the labels: %s", art, k, d)
        return
    other = make_ds(dict(c, seed=c["seed"] + 777))
    if which == "test":
        cand = np.arange(c["nt"])
    else:
        cand = np.setdiff1d(np.arange(c["n"]), fit)
        if not len(cand):
            ctx.label("no row outside the fit subset")
            return
    rows = rng.choice(cand, size=min(len(cand), case["rows"]), replace=False)
    ds2 = _replace_rows(ds, other, rows, which)
    b = run(ds2, plan, case["seed"], fit, cache=False)
    if b[0] != "ok":
        ctx.label("changed rows invalid")
        return
    ctx.nontrivial(fitted)
    for part in ("train", "test"):
        xa, xb = _rows(getattr(a[1].dataset, part).X), _rows(getattr(b[1].dataset, part).X)
        n = c["n"] if part == "train" else c["nt"]
        require(len(xa) == n and len(xb) == n, "%s part has %s rows for %s inputs", part, len(xa), n)
        keep = [i for i in range(n) if part != which or i not in set(rows.tolist())]
        for i in keep:
            va, vb = xa[i], xb[i]
            if isinstance(va, np.ndarray) and va.dtype.kind == "f" and not np.array_equal(va, vb, equal_nan=True):
                # bit differences of blocked float kernels are not leakage
                ok = va.shape == vb.shape and np.allclose(np.asarray(va, float), np.asarray(vb, float), rtol=1e-3, atol=1e-4, equal_nan=True)
                require(ok, "row %s of the %s part changed when only %s rows %s changed: %s -> %s", i, part, which, rows, va, vb)
            else:
                d = diff(np.asarray(va) if not isinstance(va, str) else va, np.asarray(vb) if not isinstance(vb, str) else vb)
                require(d is None, "row %s of the %s part changed when only %s rows %s changed: %s", i, part, which, rows, d)


# ---------------------------------------------------------------- P03
@st.composite
def p03_case(draw):
    ds = draw(ds_case())
    return {"ds": ds, "plan": draw(plan_case(ds)), "seed": draw(st.integers(0, 5)), "fit": draw(FIT), "pre": draw(st.integers(0, 3)),
            "other": draw(plan_case(ds))}


@check("P03", p03_case(), quick=600, timeout=60, shards=2)
def deterministic(case, ctx):
    """Same request under different global random states and after unrelated runs; non-trivial when
    the request succeeds."""
    c = case["ds"]
    fit = fit_idx(c["n"], case["fit"])
    res = []
    for k in range(2):
        torch.manual_seed(17 * k + case["pre"])
        np.random.seed(3 + 5 * k)
        random.seed(k)
        if k:
            run(make_ds(dict(c, seed=c["seed"] + 5)), make_plan(case["other"]), case["seed"] + 1, fit, cache=False)
        ds, ref = make_ds(c), make_ds(c)
        fcopy = fit.copy()
        plan = make_plan(case["plan"])
        res.append(run(ds, plan, case["seed"], fcopy, cache=False))
        for part in ("train", "test"):
            d = diff(split_sig(getattr(ref, part)), split_sig(getattr(ds, part)))
            require(d is None, "the input dataset changed (%s): %s", part, d)
        require(diff(fcopy, fit) is None, "fit_indices changed")
        require(diff(dict(ref.meta), dict(ds.meta)) is None, "dataset.meta changed")
        require(plan == make_plan(case["plan"]), "the plan object changed")
    ctx.nontrivial(res[0][0] == "ok")
    for s in case["plan"]["steps"]:
        ctx.label(s["id"])
    same(res[0], res[1], "second run")


# ---------------------------------------------------------------- P05
@check("P05", p03_case(), quick=900, timeout=60, shards=2)
def purge_is_invisible(case, ctx):
    """Run with and without dropping unused artifacts; non-trivial when the plain run succeeds and the
    purge really dropped an artifact."""
    c = case["ds"]
    fit = fit_idx(c["n"], case["fit"])
    plan = make_plan(case["plan"])
    a = run(make_ds(c), plan, case["seed"], fit, cache=False)
    b = run(make_ds(c), plan, case["seed"], fit, cache=False, purge_unused_artifacts=True)
    cd = ctx.tmp()
    b2 = run(make_ds(c), plan, case["seed"], fit, cache=True, cache_dir=cd, purge_unused_artifacts=bool(case["pre"] % 2))
    b3 = run(make_ds(c), plan, case["seed"], fit, cache=True, cache_dir=cd, purge_unused_artifacts=not case["pre"] % 2)
    for nm, r in (("purged", b), ("cached 1", b2), ("cached 2, other purge option", b3)):
        if a[0] == "error":
            require(r[0] == "error", "%s: fails without purge (%s) but not with it", nm, a[1])
            continue
        require(r[0] == "ok", "%s: %s (succeeds when everything is kept)", nm, r[1])
        d = diff(sig(a[1], False), sig(r[1], False))
        require(d is None, "%s: final result differs: %s", nm, d)
        require(a[1].preprocess_fingerprint == r[1].preprocess_fingerprint, "fingerprint differs")
    if a[0] == "ok":
        ctx.nontrivial(len(b[1].train_artifacts) < len(a[1].train_artifacts))
    for s in case["plan"]["steps"]:
        ctx.label(s["id"])


# ---------------------------------------------------------------- P06
SCAL = st.one_of(st.none(), st.booleans(), st.integers(-5, 10**6), st.floats(-5, 5, allow_nan=False).map(lambda v: round(v, 3)),
                 st.sampled_from(["a", "NCHW", "yes", "1", "null", "1e3", "0x10", "2020-01-01", "a: b", "- x", "é", " lead", "", "#c"]))
PVAL = st.one_of(SCAL, st.lists(SCAL, max_size=3), st.dictionaries(st.sampled_from(["k", "a.b", "on"]), SCAL, max_size=2))
IDS = ["core.ensure_2d", "core.copy_raw", "core.pca", "tabular.one_hot", "text.tfidf", "vision.resize", "graph.attach_edge_weight",
       "graph.edge_sparsify", "labels.encode", "labels.ensure_onehot", "core.to_torch", "text.hash_tokenizer"]
FIELDS = ["raw.X", "raw.y", "features.X", "labels.y", "graph.edge_index", "graph.edge_weight", "tokens.input_ids", "graph.mask.train"]


@st.composite
def p06_case(draw):
    steps = []
    for _ in range(draw(st.integers(0, 6))):
        steps.append({"id": draw(st.sampled_from(IDS)),
                      "params": draw(st.dictionaries(st.sampled_from(["dtype", "n_components", "center", "x", "y-z"]), PVAL, max_size=3)),
                      "modalities": draw(st.lists(st.sampled_from(["tabular", "text", "vision", "graph"]), max_size=2, unique=True)),
                      "requires_fields": draw(st.lists(st.sampled_from(FIELDS), max_size=2, unique=True)) if draw(st.booleans()) else [],
                      "enabled": draw(st.sampled_from([True, True, True, False]))})
    plan = {"steps": steps, "output_key": draw(st.sampled_from(["features.X", "raw.X", "tokens.input_ids", "yes"]))}
    return {"plan": plan, "mod": draw(st.sampled_from(["tabular", "text", "vision", "graph", ""])), "test": draw(st.booleans()),
            "how": draw(st.sampled_from(["param", "id", "swap", "drop", "enable", "out", "mods", "fields"])), "i": draw(st.integers(0, 5)),
            "j": draw(st.integers(0, 5))}


def _ds_for(mod, test):
    g = mod == "graph"
    sp = Split(X=np.zeros((3, 2)), y=np.zeros(3, int), edges=np.zeros((2, 2), int) if g else None, masks={"train": np.ones(3, bool)} if g else None)
    return LoadedDataset(train=sp, test=sp if test else None, meta={"modality": mod, "dataset_fingerprint": "x"})


def _expect_resolved(plan, mod):
    have = {"raw.X", "raw.y"} | ({"graph.edge_index", "graph.mask.train"} if mod == "graph" else set())
    kept = []
    for i, s in enumerate(plan["steps"]):
        info = step_info(s["id"])
        allowed = s["modalities"] or info["modalities"]
        if not s["enabled"] or (allowed and mod and mod not in allowed) or not set(s["requires_fields"]) <= have:
            continue
        kept.append((i, s["id"], s["params"]))
        have |= set(info["produces"])
    return kept


def _shuffle_yaml(plan, seed):
    """The same plan as text with keys in another order and other formatting."""
    r = random.Random(seed)

    def shuf(o):
        if isinstance(o, dict):
            ks = list(o)
            r.shuffle(ks)
            return {k: shuf(o[k]) for k in ks}
        return [shuf(v) for v in o] if isinstance(o, list) else o
    return yaml.safe_dump(shuf(make_plan(plan).to_dict()), sort_keys=False, default_flow_style=bool(seed % 2), indent=2 + seed % 5,
                          allow_unicode=True)


@check("P06", p06_case(), quick=1500, timeout=20)
def plans_round_trip(case, ctx):
    """Dump and load a plan, reformat it, resolve it and change one element; non-trivial with at
    least one step."""
    p = case["plan"]
    plan = make_plan(p)
    ds = _ds_for(case["mod"], case["test"])
    d = Path(ctx.tmp())
    dump_plan(plan, d / "p.yaml")
    back = load_plan(d / "p.yaml")
    require(back == plan, "round trip changed the plan: %s -> %s", plan, back)
    require(diff(plan.to_dict(), back.to_dict()) is None, "round trip changed a value's type: %s", diff(plan.to_dict(), back.to_dict()))
    require(back.fingerprint() == plan.fingerprint(), "round trip changed the identity")
    (d / "q.yaml").write_text(_shuffle_yaml(p, case["i"]), encoding="utf-8")
    q = load_plan(d / "q.yaml")
    require(q == plan and q.fingerprint() == plan.fingerprint(), "identity depends on key order or formatting")
    res = resolve_plan(ds, plan)
    got = [(s.index, s.step_id, dict(s.params)) for s in res.steps]
    exp = _expect_resolved(p, case["mod"])
    require(diff(got, exp) is None, "resolved steps %s, expected %s", got, exp)
    allidx = sorted([s.index for s in res.steps] + [s.index for s in res.skipped])
    require(allidx == list(range(len(p["steps"]))), "resolved+skipped do not partition the plan: %s", allidx)
    require(resolve_plan(ds, q).fingerprint == res.fingerprint, "resolved identity depends on formatting")
    ctx.nontrivial(len(p["steps"]) > 0)
    # a change is a new identity
    p2 = copy.deepcopy(p)
    S, how = p2["steps"], case["how"]
    i, j = (case["i"] % len(S), case["j"] % len(S)) if S else (0, 0)
    if how == "out":
        p2["output_key"] += "2"
    elif not S:
        S.append({"id": "core.ensure_2d", "params": {}, "modalities": [], "requires_fields": [], "enabled": True})
    elif how == "param":
        S[i]["params"]["x"] = [S[i]["params"].get("x"), 1]
    elif how == "id":
        S[i]["id"] = "labels.to_numpy"
    elif how == "swap":
        S[i], S[j] = S[j], S[i]
    elif how == "drop":
        S.pop(i)
    elif how == "enable":
        S[i]["enabled"] = not S[i]["enabled"]
    elif how == "mods":
        S[i]["modalities"] = S[i]["modalities"] + ["audio"]
    elif how == "fields":
        S[i]["requires_fields"] = S[i]["requires_fields"] + ["nothing"]
    if diff(p, p2) is None:
        return
    plan2 = make_plan(p2)
    require(plan2.fingerprint() != plan.fingerprint(), "different plans share one identity (%s)", how)
    require(resolve_plan(ds, plan2).fingerprint != res.fingerprint, "different plans resolve to one identity (%s)", how)
    ctx.label(how)


@st.composite
def p06b_case(draw):
    ds = draw(ds_case())
    plan = draw(plan_case(ds, max_steps=3))
    ins = []
    for _ in range(draw(st.integers(1, 2))):
        alt = draw(st.sampled_from(["disabled", "modality", "fields"]))
        other = draw(st.sampled_from(["core.ensure_2d", "core.cast_fp16", "labels.encode", "core.copy_raw"]))
        ins.append({"at": draw(st.integers(0, 3)), "how": alt, "id": other})
    return {"ds": ds, "plan": plan, "ins": ins, "seed": draw(st.integers(0, 3)), "fit": draw(FIT)}


DET = {"core.random_projection", "graph.edge_sparsify", "graph.node2vec", "graph.dgi"}


@check("P06", p06b_case(), quick=500, timeout=40)
def skipped_steps_change_nothing(case, ctx):
    """Append or insert steps that must be left out and compare outputs; non-trivial when the plain
    plan succeeds.  (Seeds are derived from positions, so insertions before a random step are made after it.)"""
    c = case["ds"]
    p2 = copy.deepcopy(case["plan"])
    last_random = max([i for i, s in enumerate(p2["steps"]) if s["id"] in DET], default=-1)
    for k in case["ins"]:
        at = max(min(k["at"], len(p2["steps"])), last_random + 1)
        s = {"id": k["id"], "params": {}}
        if k["how"] == "disabled":
            s["enabled"] = False
        elif k["how"] == "modality":
            s["modalities"] = ["audio"]
        else:
            s["requires_fields"] = ["graph.mask.never"]
        p2["steps"].insert(at, s)
    fit = fit_idx(c["n"], case["fit"])
    a = run(make_ds(c), make_plan(case["plan"]), case["seed"], fit, cache=False)
    b = run(make_ds(c), make_plan(p2), case["seed"], fit, cache=False)
    require(a[0] == b[0], "skipped steps change the outcome: %s vs %s", a[1], b[1])
    if a[0] == "ok":
        ctx.nontrivial()
        da, db = sig(a[1]), sig(b[1])
        da.pop("fp"), db.pop("fp")
        d = diff(da, db)
        require(d is None, "skipped steps changed the outputs: %s", d)
        require([s.step_id for s in b[1].plan.steps] == [s.step_id for s in a[1].plan.steps], "a skipped step ran")


# ---------------------------------------------------------------- P07
@st.composite
def p07_case(draw):
    ds = draw(ds_case())
    return {"ds": ds, "plan": draw(plan_case(ds, max_steps=3)), "seed": draw(st.integers(0, 3)), "fit": draw(FIT),
            "torn": draw(st.sampled_from([None, 0.0, 0.4, 0.8])), "at": draw(st.integers(0, 10**6)),
            "damage": draw(st.sampled_from(["none", "truncate", "truncate", "delete", "garbage"])), "which": draw(st.integers(0, 10**6)),
            "frac": draw(st.sampled_from([0.0, 0.3, 0.9]))}


@check("P07", p07_case(), quick=130, thorough=1200, timeout=120, shards=3)
def crash_while_caching(case, ctx):
    """Kill the process before each (quick: up to 12) file-system operation of a cached run, optionally
    cutting the last written file short, then rerun; non-trivial when at least one kill happened after the first write."""
    c = case["ds"]
    fit = fit_idx(c["n"], case["fit"])
    plan = make_plan(case["plan"])
    a = run(make_ds(c), plan, case["seed"], fit, cache=False)
    if a[0] != "ok":
        ctx.label("error")
        return

    def go(cd):
        preprocess(make_ds(c), plan, seed=case["seed"], fit_indices=fit, cache=True, cache_dir=cd)
    d0 = ctx.tmp()
    status, n, msg = crash.run(lambda: go(d0))
    require(status == "done", "a cached run fails: %s", msg)
    ks = list(range(1, n))
    if len(ks) > 12:
        r = random.Random(case["at"])
        ks = sorted(r.sample(ks, 12))
    for k in ks:
        cd = ctx.tmp()
        status, _, msg = crash.run(lambda: go(cd), kill_at=k, torn=case["torn"])
        if status != "crashed":
            continue
        ctx.nontrivial()
        for rep in range(2):
            b = run(make_ds(c), plan, case["seed"], fit, cache=True, cache_dir=cd)
            same(a, b, "rerun %d after a crash before operation %d of %d" % (rep, k, n))
        shutil.rmtree(cd, ignore_errors=True)


def _parses(f):
    import json
    try:
        json.loads(Path(f).read_text(encoding="utf-8"))
        return True
    except ValueError:
        return False


@check("P07", p07_case(), quick=400, thorough=4000, timeout=60, shards=2)
def damaged_cache(case, ctx):
    """Cut short, remove or overwrite one cache file and rerun; non-trivial when a file was damaged."""
    c = case["ds"]
    fit = fit_idx(c["n"], case["fit"])
    plan = make_plan(case["plan"])
    a = run(make_ds(c), plan, case["seed"], fit, cache=False)
    if a[0] != "ok":
        ctx.label("error")
        return
    cd = ctx.tmp()
    b = run(make_ds(c), plan, case["seed"], fit, cache=True, cache_dir=cd)
    same(a, b, "first cached run")
    files = sorted(str(p) for p in Path(cd).rglob("*") if p.is_file())
    if not files:
        return
    f = files[case["which"] % len(files)]
    how = case["damage"]
    if how == "none":
        return
    if how == "truncate":
        os.truncate(f, int(os.path.getsize(f) * case["frac"]))
        if f.endswith(".json") and os.path.getsize(f) and _parses(f):
            os.truncate(f, 0)          # a cut that is still valid JSON cannot be told from data
    elif how == "delete":
        os.unlink(f)
    else:
        Path(f).write_bytes(b"\x00garbage{")
    ctx.nontrivial()
    ctx.label(how + ":" + os.path.splitext(f)[1])
    for rep in range(2):
        b = run(make_ds(c), plan, case["seed"], fit, cache=True, cache_dir=cd)
        same(a, b, "rerun %d after %s of %s" % (rep, how, os.path.basename(f)))


# ---------------------------------------------------------------- P04
def _close(a, b, what, rtol=2e-4, atol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    require(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True), "%s: got %s, expected %s", what, a.reshape(-1)[:10], b.reshape(-1)[:10])


def _exact(a, b, what):
    d = diff(a, b)
    require(d is None, "%s: %s", what, d)


def _step(ds, sid, params, seed=0, fit=None, pre=()):
    steps = tuple(StepConfig(step_id=i, params=p) for i, p in [*pre, (sid, params)])
    return preprocess(ds, PreprocessPlan(steps=steps), seed=seed, fit_indices=fit, cache=False)


def _parts(ds, res):
    out = [("train", ds.train, res.dataset.train, res.train_artifacts)]
    if ds.test is not None:
        out.append(("test", ds.test, res.dataset.test, res.test_artifacts))
    return out


def _flat(x):
    a = x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)
    return a.reshape(-1, 1) if a.ndim == 1 else a.reshape(a.shape[0], -1)


@st.composite
def p04_num(draw):
    sid = draw(st.sampled_from(["core.ensure_2d", "core.copy_raw", "core.to_numpy", "core.to_torch", "core.cast_dtype", "core.cast_fp16",
                                "core.pca", "core.random_projection", "tabular.impute", "tabular.standard_scaler", "embeddings.auto"]))
    ds = draw(ds_case(mods=("tabular",)))
    ds["xkind"] = draw(st.sampled_from(["num", "num32", "numint", "numnan", "num1d", "num3d", "numlist", "numtorch"]))
    ds["n"] = draw(st.integers(2, 14))
    if sid == "core.pca" and draw(st.integers(0, 30)) == 0:
        ds["nt"] = 8200
    return {"ds": ds, "sid": sid, "params": draw(step_params(sid)), "fit": draw(FIT), "seed": draw(st.integers(0, 9)),
            "direct": draw(st.booleans())}


@check("P04", p04_num(), quick=1500, timeout=40, shards=2)
def numeric_steps(case, ctx):
    """Numeric core and tabular steps against references written with plain numpy; non-trivial when the
    step's output was compared with one (not an input it rejects)."""
    c, sid, P = case["ds"], case["sid"], dict(case["params"])
    P.pop("input_key", None)
    ds = make_ds(c)
    fit = fit_idx(c["n"], case["fit"])
    two_d = c["xkind"] not in ("num1d", "num3d")
    pre = []
    if sid in ("core.to_numpy", "core.to_torch", "core.cast_dtype", "core.cast_fp16"):
        pre = [("core.copy_raw", {})]
    elif sid in ("core.pca", "core.random_projection") or not (case["direct"] and two_d):
        pre = [("core.ensure_2d", {})]
    if sid in ("core.ensure_2d", "core.copy_raw", "embeddings.auto"):
        pre = []
    if sid == "tabular.impute" and c["xkind"] in ("numint", "numlist"):
        return          # nothing to impute; scikit-learn rejects a float fill value for integer columns
    if sid == "embeddings.auto" and c["xkind"] in ("num3d", "numlist"):
        return          # taken for images / audio by documented type inference
    res = _step(ds, sid, P, case["seed"], fit, pre)
    ctx.label(sid)
    F = _flat(ds.train.X).astype(np.float64)[fit]
    for part, sp, out, art in _parts(ds, res):
        X, got = sp.X, out.X
        what = "%s %s" % (sid, part)
        flat = _flat(X)
        _exact(out.y, sp.y, what + " y")
        ctx.nontrivial()
        if sid == "core.ensure_2d":
            _exact(got, flat, what)
        elif sid == "core.copy_raw":
            _exact(got, X, what)
        elif sid == "core.to_numpy":
            _exact(got, X.numpy() if hasattr(X, "detach") else np.asarray(X), what)
        elif sid == "core.cast_fp16" or sid == "core.cast_dtype":
            _exact(got, (X.numpy() if hasattr(X, "detach") else np.asarray(X)).astype("float16" if sid == "core.cast_fp16" else P["dtype"]), what)
        elif sid == "core.to_torch":
            a = X if hasattr(X, "detach") else torch.as_tensor(np.asarray(X))
            require(hasattr(got, "detach"), "%s: not a tensor", what)
            if P["dtype"] != "auto":
                a = a.to(getattr(torch, P["dtype"]))
            elif isinstance(X, list):
                a = a.to(torch.float32)
            _exact(got, a, what)
        elif sid == "embeddings.auto":
            _exact(got, flat.astype(np.float32), what)
        elif sid == "tabular.standard_scaler":
            with np.errstate(all="ignore"):
                mu = np.array([np.mean(col[~np.isnan(col)]) if (~np.isnan(col)).any() else np.nan for col in F.T])
                sd = np.array([np.std(col[~np.isnan(col)]) if (~np.isnan(col)).any() else np.nan for col in F.T])
            exp = flat.astype(np.float64)
            if P.get("with_mean", True):
                exp = exp - mu
            if P.get("with_std", True):
                exp = exp / np.where(sd == 0, 1.0, sd)
            require(got.dtype == np.float32, "%s dtype %s", what, got.dtype)
            allnan = np.isnan(F).all(axis=0)
            _close(got[:, ~allnan], exp[:, ~allnan], what)
        elif sid == "tabular.impute":
            _close(got, _impute_ref(F, flat.astype(np.float64), P), what)
        elif sid == "core.random_projection":
            require(got.dtype == np.float32 and got.shape == (len(flat), P["n_components"]), "%s: %s %s", what, got.dtype, got.shape)
            basis = LoadedDataset(train=ds.train, test=Split(X=np.eye(flat.shape[1]) if two_d else np.eye(flat.shape[1]).reshape((-1, *np.asarray(X).shape[1:])), y=np.zeros(flat.shape[1], int)),
                                  meta=ds.meta)
            W = _step(basis, sid, P, case["seed"], fit, pre).dataset.test.X
            if flat.shape[1] == len(W):
                with np.errstate(all="ignore"):
                    exp = flat.astype(np.float64) @ W.astype(np.float64)
                ok = np.isfinite(exp)
                require((np.isfinite(got) == ok).all(), "%s: finite pattern", what)
                _close(np.where(ok, got, 0), np.where(ok, exp, 0), what, 1e-3, 1e-4)
            W2 = _step(basis, sid, dict(P, normalize=not P["normalize"]), case["seed"], fit, pre).dataset.test.X
            k = np.sqrt(P["n_components"])
            _close(W * k if P["normalize"] else W, W2 * k if not P["normalize"] else W2, what + " normalisation", 1e-4)
            require(len(np.unique(W)) == W.size, "%s: projection entries repeat: %s", what, W)
        elif sid == "core.pca":
            _pca_ref(F, flat.astype(np.float64), got, P, what)


def _impute_ref(F, X, P):
    keep, fills = [], []
    for j in range(F.shape[1]):
        v = F[:, j][~np.isnan(F[:, j])]
        s = P["strategy"]
        if s == "constant":
            keep.append(j), fills.append(P["fill_value"])
        elif len(v):
            keep.append(j)
            if s == "mean":
                fills.append(v.mean())
            elif s == "median":
                fills.append(np.median(v))
            else:
                u, n = np.unique(v, return_counts=True)
                fills.append(u[n == n.max()].min())
    out = X[:, keep].copy()
    for k, f in enumerate(fills):
        out[np.isnan(out[:, k]), k] = f
    if P.get("add_indicator"):
        ind = [j for j in range(F.shape[1]) if np.isnan(F[:, j]).any()]
        if ind:
            out = np.hstack([out, np.isnan(X[:, ind]).astype(float)])
    return out


def _pca_ref(F, X, got, P, what):
    imp = np.array([c[np.isfinite(c)].mean() if np.isfinite(c).any() else 0.0 for c in F.T])
    Fi = np.where(np.isfinite(F), F, imp)
    Xi = np.where(np.isfinite(X), X, imp)
    mu = Fi.mean(axis=0) if P["center"] else np.zeros(F.shape[1])
    k = max(1, min(P["n_components"], F.shape[0], F.shape[1]))
    require(got.shape == (len(X), k) and got.dtype == np.float32, "%s: %s %s, expected %s columns", what, got.shape, got.dtype, k)
    w, V = np.linalg.eigh((Fi - mu).T @ (Fi - mu))
    w, V = w[::-1], V[:, ::-1]
    ref = (Xi - mu) @ V
    scale = max(1.0, abs(w[0]))
    for j in range(k):
        others = np.delete(w, j)
        if w[j] > 1e-6 * scale and (not len(others) or np.min(np.abs(others - w[j])) > 1e-3 * scale):
            _close(np.abs(got[:, j]), np.abs(ref[:, j]), what + " component %d (up to sign)" % j, 2e-3, 2e-3 * np.sqrt(scale))
            s = np.sign(got[:, j] * ref[:, j])
            s = s[np.abs(ref[:, j]) > 1e-2 * np.sqrt(scale)]
            require((s == s[0]).all() if len(s) else True, "%s: component %d mixes signs", what, j)


@st.composite
def p04_onehot(draw):
    ds = draw(ds_case(mods=("tabular",), need_test=draw(st.booleans()) or None))
    ds["xkind"] = draw(st.sampled_from(["mixed", "mixed", "mixedclean", "mixedlist", "numnan", "num1d"]))
    return {"ds": ds, "fit": draw(FIT)}


MISSING = {"", "?", "nan", "NaN", "NA", "N/A", "null", "None"}


def _miss(v):
    return v is None or isinstance(v, float) and np.isnan(v) or isinstance(v, str) and v.strip() in MISSING


def _floaty(v):
    try:
        float(v)
        return True
    except (TypeError, ValueError):
        return False


@check("P04", p04_onehot(), quick=500, timeout=30)
def one_hot_table(case, ctx):
    """tabular.one_hot against category membership in the fit subset (unknown categories give zeros,
    numeric columns pass through); non-trivial when a categorical column with 2 or more categories exists."""
    c = case["ds"]
    ds = make_ds(c)
    fit = fit_idx(c["n"], case["fit"])
    rows = {}
    for part in ("train", "test"):
        sp = getattr(ds, part)
        if sp is not None:
            rows[part] = [list(r) if isinstance(r, (list, np.ndarray)) else [r] for r in (sp.X if isinstance(sp.X, list) else list(sp.X))]
    d = len(rows["train"][0])
    num = [j for j in range(d) if all(_miss(rows["train"][i][j]) or _floaty(rows["train"][i][j]) for i in fit)]
    cat = [j for j in range(d) if j not in num]
    bad = any(not _miss(r[j]) and not _floaty(r[j]) for p in rows for r in rows[p] for j in num)
    try:
        res = _step(ds, "tabular.one_hot", {}, 0, fit)
    except ValueError:
        require(bad, "tabular.one_hot rejects a valid table")
        ctx.label("text in a numeric column rejected")
        return
    require(not bad, "text in a numeric column accepted")
    name = lambda v: "__missing__" if _miss(v) else str(v)   # noqa: E731
    levels = {j: sorted({name(rows["train"][i][j]) for i in fit}) for j in cat}
    ctx.nontrivial(any(len(v) > 1 for v in levels.values()))
    for part, sp, out, art in _parts(ds, res):
        exp = []
        for r in rows[part]:
            e = [np.nan if _miss(r[j]) else float(r[j]) for j in num]
            for j in cat:
                e += [1.0 if name(r[j]) == lv else 0.0 for lv in levels[j]]
                if name(r[j]) not in levels[j]:
                    ctx.label("unknown category")
            exp.append(e)
        _close(out.X, np.asarray(exp, float).reshape(len(rows[part]), -1), "one_hot " + part, 1e-6)
        require(out.X.dtype == np.float32, "one_hot dtype")


@st.composite
def p04_labels(draw):
    ds = draw(ds_case(mods=("tabular",), need_test=draw(st.booleans()) or None))
    ds["xkind"] = "num"
    ds["n"] = draw(st.integers(2, 12))
    ds["nt"] = draw(st.integers(1, 6)) if ds["nt"] else 0
    ds["classes"] = draw(st.integers(1, 6))
    sid = draw(st.sampled_from(["labels.encode", "labels.encode", "labels.ensure_onehot", "labels.to_numpy", "labels.to_torch"]))
    return {"ds": ds, "sid": sid, "dt": draw(st.sampled_from(["int64", "int32", "float32", "float64"])), "cached": draw(st.booleans())}


@check("P04", p04_labels(), quick=600, timeout=30)
def label_steps(case, ctx):
    """Label steps against the input labels: one code per class, the same code in the train and test
    parts; non-trivial when both parts exist or the labels hold 2 or more classes."""
    c, sid = case["ds"], case["sid"]
    if c["ykind"] == "str" and sid not in ("labels.encode", "labels.to_numpy"):
        c = dict(c, ykind="gap")
    ds = make_ds(c)
    P = {"dtype": case["dt"]} if sid == "labels.to_torch" else {}
    plan = PreprocessPlan(steps=(StepConfig(step_id=sid, params=P),), output_key="raw.X")
    cd = ctx.tmp()
    for _ in range(2 if case["cached"] else 1):
        res = preprocess(ds, plan, cache=case["cached"], cache_dir=cd)
    ctx.label(sid)
    vals = {p: [getattr(v, "item", lambda v=v: v)() for v in list(s.y)] for p, s, _, _ in _parts(ds, res)}
    ctx.nontrivial(len(vals) == 2 or len(set(vals["train"])) > 1)
    codes, width = {}, set()
    for part, sp, out, art in _parts(ds, res):
        what = "%s %s" % (sid, part)
        v = vals[part]
        if sid == "labels.to_numpy":
            _exact(out.y, sp.y.numpy() if hasattr(sp.y, "detach") else np.asarray(sp.y), what)
        elif sid == "labels.to_torch":
            _exact(out.y, torch.as_tensor(np.asarray(v)).to(getattr(torch, case["dt"])), what)
        elif sid == "labels.encode":
            require(out.y.dtype == np.int64 and out.y.shape == (len(v),), "%s: %s %s", what, out.y.dtype, out.y.shape)
            cl = list(np.asarray(art.get("labels.classes")).tolist())
            require([cl[int(k)] for k in out.y] == v, "%s: codes %s over classes %s do not decode to %s", what, out.y, cl, v)
            if part == "train":
                require(cl == sorted(set(v)) and set(out.y.tolist()) == set(range(len(cl))), "%s: codes not contiguous", what)
            for k, lab in zip(out.y.tolist(), v):
                require(codes.setdefault(lab, k) == k, "labels.encode: class %r is %s in one part and %s in the other (train %s, test %s)",
                        lab, codes.get(lab), k, vals["train"], vals.get("test"))
            inv = {}
            for lab, k in codes.items():
                require(inv.setdefault(k, lab) == lab, "labels.encode: code %s means %r and %r", k, inv[k], lab)
        else:
            oh, lab = np.asarray(art.get("labels.y_onehot")), np.asarray(art.get("labels.is_labeled"))
            _exact(lab, np.asarray([x != -1 for x in v], bool), what + " mask")
            require(((oh == 0) | (oh == 1)).all() and (oh.sum(axis=1) == lab).all(), "%s: rows are not one-hot on labelled rows: %s", what, oh)
            width.add(oh.shape[1])
            for i, x in enumerate(v):
                if x != -1:
                    k = int(np.argmax(oh[i]))
                    require(codes.setdefault(x, k) == k, "labels.ensure_onehot: class %r has column %s and %s (train %s, test %s)", x,
                            codes.get(x), k, vals["train"], vals.get("test"))
            inv = {}
            for x, k in codes.items():
                require(inv.setdefault(k, x) == x, "labels.ensure_onehot: column %s means %r and %r", k, inv[k], x)


@st.composite
def p04_text(draw):
    ds = draw(ds_case(mods=("text",)))
    sid = draw(st.sampled_from(["text.ensure_strings", "text.hash_tokenizer", "text.vocab_tokenizer", "text.tfidf"]))
    return {"ds": ds, "sid": sid, "params": draw(step_params(sid)), "fit": draw(FIT)}


def _strs(X):
    if isinstance(X, np.ndarray):
        return [str(v) for v in X.reshape(-1)]
    return [str(v) for v in X]


@check("P04", p04_text(), quick=700, timeout=30)
def text_steps(case, ctx):
    """Text steps against a reference vocabulary, token positions and a hand-written TF-IDF;
    non-trivial when at least two different tokens occur."""
    import re
    from collections import Counter
    c, sid, P = case["ds"], case["sid"], case["params"]
    if sid != "text.ensure_strings":
        c = dict(c, xkind=c["xkind"] if c["xkind"] != "textcol" else "textobj")
    ds = make_ds(c)
    fit = fit_idx(c["n"], case["fit"])
    docs = {"train": _strs(ds.train.X), "test": _strs(ds.test.X) if ds.test is not None else None}
    words = {t for v in docs.values() if v for s in v for t in s.split()}
    ctx.nontrivial(len(words) > 1)
    ctx.label(sid)
    if sid == "text.tfidf" and not any(re.findall(r"\b\w\w+\b", docs["train"][i]) for i in fit):
        return
    res = _step(ds, sid, P, 0, fit)
    ids_of, seen, both = {}, Counter(), None
    if sid == "text.vocab_tokenizer":
        for i in fit:
            seen.update(docs["train"][i].lower().split())
    for part, sp, out, art in _parts(ds, res):
        D = docs[part]
        what = "%s %s" % (sid, part)
        if sid == "text.ensure_strings":
            _exact(art.get("raw.X"), D, what)
        elif sid == "text.tfidf":
            got = out.X.toarray()
            both = got if both is None else np.vstack([both, got])
        else:
            ids, mask = art.get("tokens.input_ids"), art.get("tokens.attention_mask")
            L = P["max_length"]
            require(ids.shape == mask.shape == (len(D), L), "%s: shapes %s %s", what, ids.shape, mask.shape)
            low = sid == "text.vocab_tokenizer" or P["lowercase"]
            for i, s in enumerate(D):
                toks = (s.lower() if low else s).split()[:L]
                require(mask[i].tolist() == [1] * len(toks) + [0] * (L - len(toks)), "%s row %s: mask %s for %s", what, i, mask[i], toks)
                require((ids[i, len(toks):] == 0).all(), "%s row %s: padding is not 0", what, i)
                for t, k in zip(toks, ids[i].tolist()):
                    require(ids_of.setdefault(t, k) == k, "%s: token %r has ids %s and %s", what, t, ids_of[t], k)
            if sid == "text.vocab_tokenizer":
                _exact(out.X, ids, what + " features")
    V = P.get("vocab_size")
    if sid == "text.tfidf":
        exps = _tfidf_ref([docs["train"][i] for i in fit], docs["train"] + (docs["test"] or []), P)
        dense = _step(ds, "core.to_numpy", {}, 0, fit, [(sid, P)])
        for (part, _, out, _), (_, _, dn, _) in zip(_parts(ds, res), _parts(ds, dense)):
            _exact(dn.X, out.X.toarray(), "core.to_numpy after text.tfidf, " + part)
        require(any(e.shape == both.shape and np.allclose(e, both, rtol=1e-6, atol=1e-9) for e in exps),
                "text.tfidf: got %s, expected %s", both, exps[0])
    if sid == "text.hash_tokenizer":
        require(all(2 <= k < V for k in ids_of.values()), "hash ids out of range: %s", ids_of)
        if V == 20000 and len(ids_of) > 3:
            require(len(set(ids_of.values())) > len(ids_of) // 2, "hash ids collapse: %s", ids_of)
    elif sid == "text.vocab_tokenizer":
        elig = {t: n for t, n in seen.items() if n >= P["min_freq"]}
        known = {t: k for t, k in ids_of.items() if k != 1}
        require(set(known) <= set(elig), "tokens outside the fit vocabulary have ids: %s", set(known) - set(elig))
        require(all(2 <= k < V for k in known.values()) and len(set(known.values())) == len(known), "vocabulary ids: %s", known)
        if len(elig) <= V - 2:
            require(all(ids_of[t] != 1 for t in elig if t in ids_of), "a known token is unknown: %s", {t: ids_of[t] for t in elig if t in ids_of})
        for t in set(elig) & set(ids_of):
            if t not in known:
                require(all(elig[u] >= elig[t] for u in known), "a rarer token was kept instead of %r", t)
        require(res.train_artifacts.get("metadata.vocab_size") == 2 + min(len(elig), V - 2), "vocab_size %s", res.train_artifacts.get("metadata.vocab_size"))


def _tfidf_ref(fit_docs, docs, P):
    import re
    lo, hi = P["ngram_range"]

    def grams(s):
        t = re.findall(r"\b\w\w+\b", s.lower())
        return [" ".join(t[i:i + n]) for n in range(lo, hi + 1) for i in range(len(t) - n + 1)]
    G = [grams(s) for s in fit_docs]
    vocab = sorted({g for d in G for g in d})
    k = P["max_features"]
    choices = [vocab]
    if k is not None and k < len(vocab):
        # the k most frequent terms; which of the terms tied for the last places stay is not specified
        tf = {v: sum(d.count(v) for d in G) for v in vocab}
        cut = sorted(tf.values(), reverse=True)[k - 1]
        sure, tied = [v for v in vocab if tf[v] > cut], [v for v in vocab if tf[v] == cut]
        choices = [sorted(sure + list(t)) for t in itertools.islice(itertools.combinations(tied, k - len(sure)), 3000)]
    return [_tfidf_table(G, [grams(s) for s in docs], v) for v in choices]


def _tfidf_table(G, docs, vocab):
    n = len(G)
    idf = np.array([np.log((1 + n) / (1 + sum(v in d for d in G))) + 1 for v in vocab])
    out = np.zeros((len(docs), len(vocab)))
    for i, g in enumerate(docs):
        row = np.array([g.count(v) for v in vocab]) * idf
        nr = np.linalg.norm(row)
        out[i] = row / nr if nr else row
    return out


@st.composite
def p04_vision(draw):
    ds = draw(ds_case(mods=("vision",)))
    sid = draw(st.sampled_from(["vision.channels_order", "vision.ensure_num_channels", "vision.resize", "vision.normalize",
                                "vision.squeeze", "vision.zca_whitening"]))
    return {"ds": ds, "sid": sid, "params": draw(step_params(sid)), "fit": draw(FIT)}


@check("P04", p04_vision(), quick=700, timeout=30)
def vision_steps(case, ctx):
    """Vision steps against a per-pixel reference in channels-last layout; non-trivial when the output
    differs from the input."""
    c, sid, P = case["ds"], case["sid"], dict(case["params"])
    ds = make_ds(c)
    fit = fit_idx(c["n"], case["fit"])
    nhwc = c["xkind"] == "nhwc"
    if sid == "vision.normalize":
        ch = 1 if c["xkind"] == "gray" else c["c"]
        P = {"mean": [P["mean"][0] + i for i in range(ch)], "std": [P["std"][0] * (i + 1) for i in range(ch)]}
    res = _step(ds, sid, P, 0, fit)
    ctx.label(sid + ":" + c["xkind"])
    cov = None
    for part, sp, out, art in _parts(ds, res):
        X, got = sp.X, art.get("raw.X")
        what = "%s %s %s" % (sid, c["xkind"], part)
        last = X if nhwc else X[..., None] if c["xkind"] == "gray" else np.moveaxis(X, 1, -1)
        cur_nhwc = nhwc
        if sid == "vision.channels_order":
            want = P["order"] == "NHWC"
            exp = last if want else np.moveaxis(last, -1, 1)
            _exact(np.ascontiguousarray(got), np.ascontiguousarray(exp), what)
        elif sid == "vision.ensure_num_channels":
            k, C = P["num_channels"], last.shape[-1]
            if C == 1:
                exp = np.concatenate([last] * k, axis=-1)
            elif k <= C:
                exp = last[..., :k]
            else:
                exp = np.concatenate([last, np.zeros((*last.shape[:-1], k - C), last.dtype)], axis=-1)
            _exact(np.ascontiguousarray(got), np.ascontiguousarray(exp if cur_nhwc else np.moveaxis(exp, -1, 1)), what)
        elif sid == "vision.resize":
            H, W = P["height"], P["width"]
            h, w = last.shape[1:3]
            g = got if cur_nhwc else np.moveaxis(got, 1, -1)
            require(g.shape == (len(X), H, W, last.shape[-1]), "%s: shape %s", what, got.shape)
            exp = np.zeros(g.shape)
            for i in range(H):
                for j in range(W):
                    a = i * (h - 1) / (H - 1)
                    b = j * (w - 1) / (W - 1)
                    exp[:, i, j] = last[:, int(np.floor(a + 1e-9)), int(np.floor(b + 1e-9))]
            _close(g, exp, what, 0, 0)
        elif sid == "vision.normalize":
            exp = (last.astype(np.float64) - np.asarray(P["mean"])) / np.asarray(P["std"])
            _close(got, exp if cur_nhwc else np.moveaxis(exp, -1, 1), what, 1e-5, 1e-4)
            require(got.dtype == np.float32, "%s: dtype %s", what, got.dtype)
        elif sid == "vision.squeeze":
            exp = X[..., 0] if X.ndim == 4 and X.shape[-1] == 1 else X
            if P["as_list"] and X.ndim == 4 and X.shape[-1] == 1:
                require(isinstance(got, list), "%s: not a list", what)
            _exact(np.asarray(got), exp, what)
        else:
            F = ds.train.X[fit].reshape(len(fit), -1).astype(np.float64)
            mu = F.mean(axis=0)
            # W = (cov + eps)^(-1/2) through the thin SVD of the centred fit rows
            _, s, vt = np.linalg.svd(F - mu, full_matrices=True)
            full = np.zeros(vt.shape[0])
            full[:len(s)] = s ** 2 / len(fit)
            Wm = (vt.T / np.sqrt(full + P["eps"])) @ vt
            exp = ((X.reshape(len(X), -1) - mu) @ Wm).reshape(X.shape)
            _close(got, exp, what, 1e-3, 1e-2 * np.abs(exp).max())
            require(got.dtype == np.float32, "%s: dtype %s", what, got.dtype)
        _exact(out.y, sp.y, what + " y")
        if not isinstance(got, list):
            ctx.nontrivial(got.shape != X.shape or not np.array_equal(got, X))


@st.composite
def p04_graph(draw):
    ds = draw(ds_case(mods=("graph",)))
    ds["e"] = draw(st.one_of(st.integers(3, 20), st.just(600)))
    sid = draw(st.sampled_from(["graph.attach_edge_weight", "graph.edge_sparsify", "graph.edge_sparsify", "graph.sparse_adjacency",
                                "graph.node2vec", "graph.dgi"]))
    return {"ds": ds, "sid": sid, "params": draw(step_params(sid)), "weights": draw(st.booleans()), "feat": draw(st.booleans()),
            "seed": draw(st.integers(0, 99))}


@check("P04", p04_graph(), quick=500, timeout=30)
def graph_steps(case, ctx):
    """Graph steps: attached weights cover every edge, sparsified edges are a sub-list carrying their own
    weights, adjacency packing keeps features and edges; non-trivial with 3 or more edges."""
    c, sid, P = case["ds"], case["sid"], case["params"]
    ds = make_ds(c)
    pre = []
    if case["feat"] and sid != "graph.edge_sparsify":
        pre.append(("core.ensure_2d", {}))
    if case["weights"] and sid != "graph.attach_edge_weight":
        pre.append(("graph.attach_edge_weight", {"weight": 2.5}))
    res = _step(ds, sid, P, case["seed"], None, pre)
    ctx.nontrivial()
    ctx.label(sid)
    for part, sp, out, art in _parts(ds, res):
        what = "%s %s" % (sid, part)
        n = len(sp.X)
        X = _flat(sp.X)
        eT = sp.edges if sp.edges.shape[0] == 2 else sp.edges.T
        if sid == "graph.attach_edge_weight":
            _close(art.get("graph.edge_weight"), np.full(eT.shape[1], P["weight"]), what, 0, 0)
            _exact(out.edges["edge_index"], sp.edges, what)
            _exact(out.edges["edge_weight"], art.get("graph.edge_weight"), what)
        elif sid == "graph.edge_sparsify":
            ei = art.get("graph.edge_index")
            e2 = ei if sp.edges.shape[0] == 2 else ei.T
            orig, kept = list(map(tuple, eT.T.tolist())), list(map(tuple, e2.T.tolist()))
            it = iter(orig)
            require(all(k in it for k in kept), "%s: kept edges %s are not a sub-list of %s", what, kept, orig)
            require(len(kept) >= 1, "%s: every edge was dropped", what)
            if P["keep_fraction"] == 1.0:
                require(len(kept) == len(orig), "%s: keep_fraction=1 dropped edges", what)
            if len(orig) == 600:
                m, sd = 600 * P["keep_fraction"], np.sqrt(600 * P["keep_fraction"] * (1 - P["keep_fraction"]))
                require(abs(len(kept) - m) <= 6 * sd + 1e-9, "%s: kept %s of 600 at fraction %s", what, len(kept), P["keep_fraction"])
            if case["weights"]:
                _close(art.get("graph.edge_weight"), np.full(len(kept), 2.5), what + " weights", 0, 0)
        elif sid == "graph.sparse_adjacency":
            exp = {"x": X if pre and pre[0][0] == "core.ensure_2d" else (sp.X.numpy() if hasattr(sp.X, "detach") else sp.X), "edge_index": sp.edges}
            if case["weights"]:
                exp["edge_weight"] = np.full(eT.shape[1], 2.5, np.float32)
            _exact(out.X, exp, what)
        else:
            require(out.X.shape == (n, 3) and out.X.dtype == np.float32 and np.isfinite(out.X).all(), "%s: %s %s", what, out.X.shape, out.X.dtype)
        _exact(out.y, sp.y, what + " y")


@check("P04", st.fixed_dictionaries({"seed": st.integers(0, 10**6), "e": st.integers(3, 25), "frac": st.sampled_from([0.3, 0.6]),
                                     "T": st.booleans()}), quick=150, timeout=20)
def sparsify_keeps_weights_aligned(case, ctx):
    """graph.edge_sparsify on distinct edge weights: every kept edge keeps its own weight; non-trivial
    when some but not all edges are kept."""
    from modssc.preprocess.steps.graph.edge_sparsify import EdgeSparsifyStep
    from modssc.preprocess.store import ArtifactStore
    rng = np.random.default_rng(case["seed"])
    e = np.vstack([np.arange(case["e"]), rng.integers(0, 9, case["e"])])
    w = np.arange(case["e"], dtype=float) + 0.5
    store = ArtifactStore()
    store.set("graph.edge_index", e.T.copy() if case["T"] else e)
    store.set("graph.edge_weight", w)
    out = EdgeSparsifyStep(keep_fraction=case["frac"]).transform(store, rng=np.random.default_rng(case["seed"]))
    ei = out["graph.edge_index"].T if case["T"] else out["graph.edge_index"]
    _exact(out["graph.edge_weight"], w[ei[0]], "weights of kept edges")
    _exact(ei, e[:, ei[0]], "kept edges")
    ctx.nontrivial(0 < ei.shape[1] < case["e"])
