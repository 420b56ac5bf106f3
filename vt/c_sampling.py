"""S01-S05: sampling."""
from __future__ import annotations

import copy
import json
import math
import os
import random
from pathlib import Path

import numpy as np

from .core import check, fail, probe, require, st  # noqa: F401

from modssc.data_loader.types import LoadedDataset, Split
from modssc.sampling.errors import SamplingValidationError
from modssc.sampling import (
    HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan, SamplingPolicy,
    load_split, sample, save_split,
)

PALETTES = {
    "range": [0, 1, 2, 3, 4, 5, 6],
    "gaps": [0, 3, 7, 20, 21, 500, 999],
    "neg": [-5, -1, 0, 2, 9, 10, 11],
    "huge": [3, 2_000_000, 5_000_000, 7_000_000, 8, 9, 10],
    "str": ["b", "a", "zz", "c", "", "d", "e e"],
    "float": [0.5, -1.0, 2.0, 3.25, 7.0, 8.0, 9.0],
}


def frac(zero=True):
    vals = [0.0, 0.01, 0.05, 0.1, 0.2, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9, 1.0]
    return st.one_of(st.sampled_from(vals if zero else vals[1:]),
                     st.floats(0.0 if zero else 0.001, 1.0, allow_nan=False).map(lambda v: round(v, 4) or (0.0 if zero else 0.01)))


def labels_case(max_classes=6, max_count=40, min_total=0):
    return st.fixed_dictionaries({
        "counts": st.lists(st.one_of(st.integers(0, 4), st.integers(1, max_count)), min_size=1, max_size=max_classes)
        .filter(lambda c: sum(c) >= max(min_total, 1)),
        "palette": st.sampled_from(sorted(PALETTES)),
        "order": st.integers(0, 10**6),
        "block": st.booleans(),
    })


def mk_labels(c):
    pal = PALETTES[c["palette"]]
    y = [pal[i] for i, n in enumerate(c["counts"]) for _ in range(n)]
    idx = np.arange(len(y))
    if not c["block"]:
        idx = np.random.default_rng(c["order"]).permutation(len(y))
    arr = np.asarray(y)
    return arr[idx]


split_case = st.one_of(
    st.fixed_dictionaries({"kind": st.just("holdout"), "test_fraction": frac(), "val_fraction": frac(),
                           "stratify": st.booleans(), "shuffle": st.booleans()}),
    st.fixed_dictionaries({"kind": st.just("kfold"), "k": st.integers(2, 7), "fold": st.integers(0, 6),
                           "stratify": st.booleans(), "shuffle": st.booleans(), "val_fraction": frac()})
    .map(lambda d: {**d, "fold": d["fold"] % d["k"]}),
)
labeling_case = st.one_of(
    st.fixed_dictionaries({"mode": st.just("fraction"), "value": frac(zero=False), "min_per_class": st.integers(0, 4),
                           "strategy": st.sampled_from(["proportional", "balanced"])}),
    st.fixed_dictionaries({"mode": st.just("count"), "value": st.integers(0, 60), "min_per_class": st.integers(0, 4),
                           "strategy": st.sampled_from(["proportional", "balanced"])}),
    st.fixed_dictionaries({"mode": st.just("per_class"), "value": st.integers(0, 12), "min_per_class": st.integers(0, 4),
                           "strategy": st.sampled_from(["proportional", "balanced"])}),
)
imb_none = st.just({"kind": "none"})
imb_case = st.one_of(
    imb_none,
    st.fixed_dictionaries({"kind": st.just("subsample_max_per_class"), "apply_to": st.sampled_from(["train", "labeled"]),
                           "max_per_class": st.integers(1, 12)}),
    st.fixed_dictionaries({"kind": st.just("long_tail"), "apply_to": st.sampled_from(["train", "labeled"]),
                           "alpha": st.floats(0.05, 0.95).map(lambda v: round(v, 3)), "min_per_class": st.integers(0, 3)}),
)
policy_case = st.fixed_dictionaries({"respect_official_test": st.booleans(), "use_official_graph_masks": st.booleans(),
                                     "allow_override_official": st.booleans()})
plan_case = st.fixed_dictionaries({"split": split_case, "labeling": labeling_case, "imbalance": imb_case,
                                   "policy": policy_case})
seed_case = st.one_of(st.integers(0, 50), st.integers(0, 2**31 - 1))


def ds_strategy(graph=None):
    g = st.booleans() if graph is None else st.just(graph)
    return st.fixed_dictionaries({
        "labels": labels_case(), "graph": g,
        "test": st.one_of(st.none(), labels_case(max_count=15)),
        "masks": st.sampled_from([None, None, "full", "partial"]),
        "mask_seed": st.integers(0, 1000),
    })


def mk_dataset(c, feature_seed=0):
    y = mk_labels(c["labels"])
    n = len(y)
    X = np.random.default_rng(feature_seed).normal(size=(n, 3))
    if c["graph"]:
        rng = np.random.default_rng(c["mask_seed"])
        edges = np.stack([np.arange(n), (np.arange(n) + 1) % n])
        masks = None
        if c["masks"]:
            part = rng.integers(0, 4 if c["masks"] == "partial" else 3, size=n)
            masks = {"train": part == 0, "val": part == 1, "test": part == 2}
        return LoadedDataset(train=Split(X=X, y=y, edges=edges, masks=masks), test=None,
                             meta={"dataset_fingerprint": "fp"})
    test = None
    if c["test"] is not None:
        yt = mk_labels({**c["test"], "palette": c["labels"]["palette"]})
        test = Split(X=np.zeros((len(yt), 3)), y=yt)
    return LoadedDataset(train=Split(X=X, y=y), test=test, meta={"dataset_fingerprint": "fp"})


def mk_plan(p, spec=None):
    return SamplingPlan.from_dict(p)


def parts(res):
    if res.is_graph():
        d = {k: np.flatnonzero(np.asarray(v)) for k, v in res.masks.items()}
        return {"train": d["train"], "val": d["val"], "test": d["test"], "labeled": d["labeled"],
                "unlabeled": d["unlabeled"]}
    return {"train": np.asarray(res.train_idx), "val": np.asarray(res.val_idx), "test": np.asarray(res.test_idx),
            "labeled": np.asarray(res.labeled_idx), "unlabeled": np.asarray(res.unlabeled_idx)}


def uses_official_masks(c, plan):
    return c["graph"] and bool(c["masks"]) and plan["policy"]["use_official_graph_masks"]


def uses_official_test(c, plan):
    return (not c["graph"] and c["test"] is not None and plan["policy"]["respect_official_test"]
            and not plan["policy"]["allow_override_official"])


@check("S01", st.fixed_dictionaries({"ds": ds_strategy(), "plan": plan_case, "seed": seed_case}), quick=1500, shards=3)
def partition(case, ctx):
    """the dataset has at least two classes and at least two of train/val/test are non-empty"""
    ds = mk_dataset(case["ds"])
    y = np.asarray(ds.train.y)
    n = len(y)
    res, path = sample(ds, plan=mk_plan(case["plan"]), seed=case["seed"])
    require(path is None, "no path without save")
    p = parts(res)
    off_test = uses_official_test(case["ds"], case["plan"])
    for k, v in p.items():
        lim = len(ds.test.y) if (off_test and k == "test") else n
        require(v.dtype.kind in "iu", "%s indices are not integers", k)
        require(len(np.unique(v)) == len(v), "%s has duplicates", k)
        require(v.size == 0 or (v.min() >= 0 and v.max() < lim), "%s out of range", k)
    S = {k: set(map(int, v)) for k, v in p.items()}
    require(not S["train"] & S["val"], "train and val overlap")
    if not off_test:
        require(not S["train"] & S["test"] and not S["val"] & S["test"], "test overlaps train or val")
    require(not S["labeled"] & S["unlabeled"], "labeled and unlabeled overlap")
    require(S["labeled"] <= S["train"] and S["unlabeled"] <= S["train"], "labeled/unlabeled outside train")
    imb = case["plan"]["imbalance"]
    if imb["kind"] == "none":
        require(S["labeled"] | S["unlabeled"] == S["train"], "labeled+unlabeled != train")
        if uses_official_masks(case["ds"], case["plan"]):
            pass
        else:
            cover = S["train"] | S["val"] | (set() if off_test else S["test"])
            require(cover == set(range(n)), "train+val+test do not cover the %d rows", n)
    elif imb["apply_to"] == "labeled" or imb["apply_to"] == "train":
        require(S["labeled"] | S["unlabeled"] == S["train"], "labeled+unlabeled != train")
    if case["ds"]["graph"]:
        require(res.is_graph(), "graph dataset must give masks")
        for k, m in res.masks.items():
            m = np.asarray(m)
            require(m.shape == (n,) and m.dtype == bool, "mask %s has shape %s dtype %s", k, m.shape, m.dtype)
        for k, attr in (("train", "train_idx"), ("val", "val_idx"), ("test", "test_idx"), ("labeled", "labeled_idx"),
                        ("unlabeled", "unlabeled_idx")):
            require(np.array_equal(np.sort(getattr(res, attr)), p[k]), "%s disagrees with its mask", attr)
    ctx.nontrivial(sum(1 for c in case["ds"]["labels"]["counts"] if c) >= 2
                   and sum(1 for k in ("train", "val", "test") if len(p[k])) >= 2)
    ctx.label("graph" if case["ds"]["graph"] else "arrays")
    ctx.label(case["plan"]["split"]["kind"])

SPOIL = ["dup", "negative", "high", "float", "train-val", "train-test", "val-test", "both", "lost", "foreign", "missing", "ref"]
SPOIL_MASK = ["train-val", "train-test", "val-test", "shape", "dtype", "missing", "extra", "labeled-out", "unlabeled-out", "both", "lost"]


def spoil_arrays(kind, ix, refs, n, nt, r):
    """(indices, refs) with one thing wrong, or None when the split is too small for it"""
    ix, refs = {k: np.asarray(v).copy() for k, v in ix.items()}, dict(refs)
    own_test = refs.get("test", "train") == "train"
    size = lambda k: n if refs.get(k, "train") == "train" else nt
    any_ = lambda: r.choice(sorted(ix))
    if kind == "dup":
        k = any_()
        if not ix[k].size:
            return None
        ix[k] = np.append(ix[k], r.choice(ix[k].tolist()))
    elif kind in ("negative", "high"):
        k = any_()
        if not ix[k].size:
            return None
        ix[k][r.randrange(ix[k].size)] = -1 if kind == "negative" else size(k) + r.randrange(3)
    elif kind == "float":
        k = any_()
        ix[k] = ix[k].astype(float)
    elif kind in ("train-val", "train-test", "val-test"):
        a, b = kind.split("-")
        if ("test" in (a, b) and not own_test) or not ix[a].size:
            return None
        ix[b] = np.append(ix[b], r.choice(ix[a].tolist())).astype(np.int64)
    elif kind == "both":
        if not ix["train_labeled"].size:
            return None
        ix["train_unlabeled"] = np.append(ix["train_unlabeled"], r.choice(ix["train_labeled"].tolist())).astype(np.int64)
    elif kind == "lost":
        k = r.choice(["train_labeled", "train_unlabeled"])
        if not ix[k].size:
            return None
        ix[k] = np.delete(ix[k], r.randrange(ix[k].size))
    elif kind == "foreign":
        out = sorted(set(range(n)) - set(ix["train"].tolist()))
        if not out:
            return None
        k = r.choice(["train_labeled", "train_unlabeled"])
        ix[k] = np.append(ix[k], r.choice(out)).astype(np.int64)
    elif kind == "missing":
        del ix[any_()]
    elif kind == "ref":
        refs[r.choice(["train", "val"])] = "test"
    return ix, refs


def spoil_masks(kind, ms, n, r):
    ms = {k: np.asarray(v).copy() for k, v in ms.items()}
    on = lambda k: np.flatnonzero(ms[k]).tolist()
    if kind in ("train-val", "train-test", "val-test"):
        a, b = kind.split("-")
        if not on(a):
            return None
        ms[b][r.choice(on(a))] = True
    elif kind == "shape":
        k = r.choice(sorted(ms))
        ms[k] = ms[k][:-1] if r.random() < 0.5 else ms[k][None]
    elif kind == "dtype":
        k = r.choice(sorted(ms))
        ms[k] = ms[k].astype(np.int64)
    elif kind == "missing":
        del ms[r.choice(sorted(ms))]
    elif kind == "extra":
        ms["other"] = np.zeros(n, bool)
    elif kind in ("labeled-out", "unlabeled-out"):
        out = np.flatnonzero(~ms["train"]).tolist()
        if not out:
            return None
        ms[kind[:-4]][r.choice(out)] = True
    elif kind == "both":
        if not on("labeled"):
            return None
        ms["unlabeled"][r.choice(on("labeled"))] = True
    elif kind == "lost":
        k = r.choice(["labeled", "unlabeled"])
        if not on(k):
            return None
        ms[k][r.choice(on(k))] = False
    return ms


@check("S01", st.fixed_dictionaries({"ds": ds_strategy(), "plan": plan_case, "seed": seed_case, "array": st.sampled_from(SPOIL),
                                     "mask": st.sampled_from(SPOIL_MASK), "pick": st.integers(0, 10**6)}), quick=800, shards=2)
def spoiled_splits_are_rejected(case, ctx):
    """every split drawn is accepted by its own validation; the same split with one index repeated, moved into
    another part, lost, out of range or of the wrong type, or with a part missing, is rejected.
    Non-trivial when the split was large enough for the damage."""
    import dataclasses

    ds = mk_dataset(case["ds"])
    res, _ = sample(ds, plan=mk_plan(case["plan"]), seed=case["seed"])
    n = len(np.asarray(ds.train.y))
    nt = len(np.asarray(ds.test.y)) if ds.test is not None else None
    size = {"n_train": n, "n_test": nt, "n_nodes": n if case["ds"]["graph"] else None}
    res.validate(**size)
    r = random.Random(case["pick"])
    if res.is_graph():
        kind = case["mask"]
        bad = spoil_masks(kind, res.masks, n, r)
        bad = None if bad is None else dataclasses.replace(res, masks=bad)
    else:
        kind = case["array"]
        bad = spoil_arrays(kind, res.indices, res.refs, n, nt, r)
        bad = None if bad is None else dataclasses.replace(res, indices=bad[0], refs=bad[1])
    if bad is None:
        return
    try:
        bad.validate(**size)
    except SamplingValidationError:
        ctx.nontrivial()
        ctx.label(kind)
        return
    fail("validation accepts a split with damage %r: %s", kind, {k: np.asarray(v).tolist() for k, v in (bad.masks or bad.indices).items()})


def cnt(y, idx, classes):
    return np.array([int(np.sum(y[idx] == c)) for c in classes])


@check("S02", st.fixed_dictionaries({
    "ds": ds_strategy(),
    "plan": st.fixed_dictionaries({"split": split_case, "labeling": labeling_case, "imbalance": imb_none, "policy": policy_case}),
    "seed": seed_case}), quick=1500, shards=3)
def sizes(case, ctx):
    """at least two classes are present and the split leaves a non-empty train part with a positive label budget"""
    ds = mk_dataset(case["ds"])
    y = np.asarray(ds.train.y)
    n = len(y)
    plan = case["plan"]
    res, _ = sample(ds, plan=mk_plan(plan), seed=case["seed"])
    p = parts(res)
    sp = plan["split"]
    classes, counts = np.unique(y, return_counts=True)
    eps = 1e-6
    off_t, off_m = uses_official_test(case["ds"], plan), uses_official_masks(case["ds"], plan)
    if not off_m:
        if sp["kind"] == "holdout":
            tf = 0.0 if off_t else sp["test_fraction"]
            if not off_t:
                require(abs(len(p["test"]) - tf * n) <= 0.5 + eps, "test size %d for fraction %s of %d", len(p["test"]), tf, n)
                if sp["stratify"]:
                    share = counts * (len(p["test"]) / n)
                    require(np.all(np.abs(cnt(y, p["test"], classes) - share) <= 1 + eps),
                            "stratified test counts %s for shares %s", cnt(y, p["test"], classes), share)
            pool = np.concatenate([p["train"], p["val"]])
            vf = sp["val_fraction"]
            require(abs(len(p["val"]) - vf * len(pool)) <= 0.5 + eps, "val size %d for fraction %s of %d", len(p["val"]), vf, len(pool))
            if sp["stratify"] and len(pool):
                share = cnt(y, pool, classes) * (len(p["val"]) / len(pool))
                require(np.all(np.abs(cnt(y, p["val"], classes) - share) <= 1 + eps),
                        "stratified val counts %s for shares %s", cnt(y, p["val"], classes), share)
        else:
            fold = p["val"] if off_t else p["test"]
            k = sp["k"]
            if sp["stratify"]:
                c = cnt(y, fold, classes)
                require(np.all((c >= counts // k) & (c <= -(-counts // k))), "fold counts %s of %s over %d folds", c, counts, k)
            else:
                require(n // k <= len(fold) <= -(-n // k), "fold size %d of %d over %d", len(fold), n, k)
            if not off_t:
                pool = np.concatenate([p["train"], p["val"]])
                require(abs(len(p["val"]) - sp["val_fraction"] * len(pool)) <= 0.5 + eps, "kfold val size")
                if sp["stratify"] and len(pool):
                    share = cnt(y, pool, classes) * (len(p["val"]) / len(pool))
                    require(np.all(np.abs(cnt(y, p["val"], classes) - share) <= 1 + eps), "kfold stratified val counts")
    # labels
    lab = plan["labeling"]
    tr = p["train"]
    if len(tr) == 0:
        require(len(p["labeled"]) == 0, "labels without train rows")
        return
    tc, tn = np.unique(y[tr], return_counts=True)
    got = cnt(y, p["labeled"], tc)
    m = lab["min_per_class"]
    ok = tn >= m
    require(np.all(got[ok] >= m), "min_per_class %d not met: %s of %s", m, got, tn)
    if lab["mode"] == "per_class":
        v = lab["value"]
        if np.all(tn >= max(v, m)):
            require(np.all(got == max(v, m)), "per_class=%d gave %s of %s (min %d)", v, got, tn, m)
            ctx.label("per_class-enough")
        else:  # short classes: the total is kept as close as possible, at least the minimum guarantee
            size, N = len(p["labeled"]), len(tr)
            floor = int(np.sum(np.where(ok, m, 0)))
            require(size == max(min(N, v * len(tc)), floor), "per_class=%d gave %s of %s (min %d)", v, got, tn, m)
            if m <= v:
                require(np.all(got >= np.minimum(tn, v)), "per_class=%d gave %s of %s", v, got, tn)
    else:
        N = len(tr)
        if lab["mode"] == "fraction":
            lo, hi = lab["value"] * N - 0.5 - eps, lab["value"] * N + 0.5 + eps
        else:
            lo = hi = min(lab["value"], N)
        floor = int(np.sum(np.where(ok, m, 0)))
        size = len(p["labeled"])
        require(max(lo, floor) <= size <= max(hi, floor), "labeled size %d, wanted %s..%s, floor %d", size, lo, hi, floor)
        if m == 0:
            if lab["strategy"] == "balanced":
                q = size / len(tc)
                if np.all(tn >= math.ceil(q)):
                    require(np.all((got >= math.floor(q)) & (got <= math.ceil(q))), "balanced labels %s", got)
            else:
                require(np.all(np.abs(got - tn * (size / N)) <= 1 + eps), "proportional labels %s of %s", got, tn)
    ctx.label(lab["mode"])
    ctx.nontrivial(len(classes) >= 2 and len(p["labeled"]) > 0)


@check("S02", st.fixed_dictionaries({"labels": labels_case(max_count=30), "k": st.integers(2, 7), "stratify": st.booleans(),
                                     "shuffle": st.booleans(), "seed": seed_case, "graph": st.booleans()}), quick=300)
def kfold_covers_once(case, ctx):
    """at least k rows"""
    dc = {"labels": case["labels"], "graph": case["graph"], "test": None, "masks": None, "mask_seed": 0}
    ds = mk_dataset(dc)
    n = len(ds.train.y)
    hits = np.zeros(n, int)
    for f in range(case["k"]):
        plan = SamplingPlan(split=KFoldSplitSpec(k=case["k"], fold=f, stratify=case["stratify"], shuffle=case["shuffle"]),
                            labeling=LabelingSpec(mode="count", value=1))
        res, _ = sample(ds, plan=plan, seed=case["seed"])
        hits[parts(res)["test"]] += 1
    require(np.all(hits == 1), "rows tested %s times over the folds", sorted(set(hits.tolist())))
    ctx.nontrivial(n >= case["k"])


@check("S02", st.fixed_dictionaries({"ds": ds_strategy(), "split": split_case, "labeling": labeling_case,
                                     "imb": imb_case.filter(lambda d: d["kind"] != "none"), "seed": seed_case}), quick=700)
def imbalance_counts(case, ctx):
    """the transform actually removes samples"""
    ds = mk_dataset(case["ds"])
    y = np.asarray(ds.train.y)
    base = {"split": case["split"], "labeling": case["labeling"], "imbalance": {"kind": "none"},
            "policy": {"respect_official_test": True, "use_official_graph_masks": False, "allow_override_official": False}}
    r0, _ = sample(ds, plan=mk_plan(base), seed=case["seed"])
    r1, _ = sample(ds, plan=mk_plan({**base, "imbalance": case["imb"]}), seed=case["seed"])
    key = "train" if case["imb"]["apply_to"] == "train" else "labeled"
    a, b = parts(r0)[key], parts(r1)[key]
    require(set(map(int, b)) <= set(map(int, a)), "imbalance added rows to %s", key)
    for k in ("val", "test"):
        require(np.array_equal(np.sort(parts(r0)[k]), np.sort(parts(r1)[k])), "imbalance changed %s", k)
    if len(a) == 0:
        require(len(b) == 0, "rows out of nothing")
        return
    classes, counts = np.unique(y[a], return_counts=True)
    got = cnt(y, b, classes)
    if case["imb"]["kind"] == "subsample_max_per_class":
        want = np.minimum(counts, case["imb"]["max_per_class"])
        require(np.array_equal(got, want), "capped counts %s, wanted %s", got, want)
    else:
        alpha, m = case["imb"]["alpha"], case["imb"]["min_per_class"]
        mx = counts.max()
        order = np.sort(counts)[::-1]
        wants = sorted(min(max(int(round(mx * alpha**r)), m), c) for r, c in enumerate(order))
        # classes of equal size may take either rank
        require(sorted(got.tolist()) == wants, "long tail counts %s, wanted %s (of %s)", sorted(got.tolist()), wants, counts)
    ctx.nontrivial(len(b) < len(a))
    ctx.label(case["imb"]["kind"] + "/" + key)


@check("S02", st.fixed_dictionaries({"ds": ds_strategy(), "split": split_case, "seed": seed_case, "pick": st.lists(st.integers(0, 10**6), max_size=12),
                                     "bad": st.sampled_from(["none", "none", "dup", "outside"])}), quick=400)
def fixed_indices(case, ctx):
    """at least one fixed index is given"""
    from modssc.sampling import SamplingValidationError
    ds = mk_dataset(case["ds"])
    base = {"split": case["split"], "policy": {"use_official_graph_masks": False}}
    r0, _ = sample(ds, plan=mk_plan({**base, "labeling": {"mode": "count", "value": 1}}), seed=case["seed"])
    p0 = parts(r0)
    tr = p0["train"]
    if len(tr) == 0:
        return
    fixed = list(dict.fromkeys(int(tr[i % len(tr)]) for i in case["pick"]))
    bad = case["bad"]
    if bad == "dup" and fixed:
        fixed = fixed + [fixed[0]]
    elif bad == "outside":
        out = sorted(set(range(len(ds.train.y) + 1)) - set(map(int, tr)))
        fixed = fixed + [out[0]]
    else:
        bad = "none"
    plan = mk_plan({**base, "labeling": {"fixed_indices": fixed}})
    if bad != "none":
        try:
            sample(ds, plan=plan, seed=case["seed"])
        except (SamplingValidationError, ValueError):
            ctx.nontrivial()
            return
        fail("fixed indices %s accepted although invalid (%s)", fixed, bad)
    r, _ = sample(ds, plan=plan, seed=case["seed"])
    require(sorted(parts(r)["labeled"].tolist()) == sorted(fixed), "labeled %s, fixed %s", parts(r)["labeled"], fixed)
    ctx.nontrivial(len(fixed) > 0)


@check("S03", st.fixed_dictionaries({"ds": ds_strategy(), "plan": plan_case, "seed": seed_case, "other": st.integers(0, 10**6),
                                     "gseed": st.integers(0, 10**6), "dplan": plan_case, "np_seed": st.booleans()}), quick=600, shards=2)
def pure(case, ctx):
    """train is non-empty and there are labels to choose from"""
    ds = mk_dataset(case["ds"])
    before = (np.array(ds.train.X), np.array(ds.train.y))
    plan = mk_plan(case["plan"])
    pd = copy.deepcopy(plan.as_dict())
    seed = case["seed"]
    random.seed(case["gseed"]); np.random.seed(case["gseed"] % 2**32)
    a, _ = sample(ds, plan=plan, seed=np.int64(seed) if case["np_seed"] else seed)
    np.random.seed((case["gseed"] + 1) % 2**32); random.random()
    sample(ds, plan=mk_plan(case["dplan"]), seed=case["other"])  # history
    ds2 = mk_dataset(case["ds"], feature_seed=case["other"])
    b, _ = sample(ds2, plan=mk_plan(case["plan"]), seed=seed)
    pa, pb = parts(a), parts(b)
    for k in pa:
        require(np.array_equal(pa[k], pb[k]), "%s differs between identical calls", k)
    require(a.split_fingerprint == b.split_fingerprint, "split fingerprint differs")
    require(np.array_equal(before[0], ds.train.X) and np.array_equal(before[1], ds.train.y), "dataset modified")
    require(plan.as_dict() == pd, "plan modified")
    # equal plans (through JSON, other key order) give the same split
    j = json.loads(json.dumps(plan.as_dict()))
    j = {k: (dict(reversed(list(v.items())))) for k, v in reversed(list(j.items()))}
    c, _ = sample(ds, plan=mk_plan(j), seed=seed)
    require(c.split_fingerprint == a.split_fingerprint, "fingerprint depends on key order")
    require(all(np.array_equal(pa[k], parts(c)[k]) for k in pa), "split depends on key order of plan")
    d, _ = sample(ds, plan=plan, seed=seed + 1)
    require(d.split_fingerprint != a.split_fingerprint, "seed not part of fingerprint")
    if plan != mk_plan(case["dplan"]) and plan.as_dict() != mk_plan(case["dplan"]).as_dict():
        e, _ = sample(ds, plan=mk_plan(case["dplan"]), seed=seed)
        require(e.split_fingerprint != a.split_fingerprint, "plan not part of fingerprint")
    f, _ = sample(ds, plan=plan, seed=seed, dataset_fingerprint="other")
    require(f.split_fingerprint != a.split_fingerprint, "dataset not part of fingerprint")
    require(all(np.array_equal(pa[k], parts(f)[k]) for k in pa), "indices depend on the dataset's name")
    ctx.nontrivial(len(pa["train"]) > 1 and len(pa["labeled"]) > 0)


@check("S03", st.fixed_dictionaries({"labels": labels_case(min_total=60), "seed": st.integers(0, 10**6), "delta": st.integers(1, 1000),
                                     "kind": st.sampled_from(["holdout", "kfold"]), "stratify": st.booleans(), "graph": st.booleans()}), quick=150)
def seed_matters(case, ctx):
    """always (at least 60 rows, so two seeds agree with negligible probability)"""
    dc = {"labels": case["labels"], "graph": case["graph"], "test": None, "masks": None, "mask_seed": 0}
    if max(case["labels"]["counts"]) < 25:
        return
    ds = mk_dataset(dc)
    sp = HoldoutSplitSpec(test_fraction=0.5, val_fraction=0.3, stratify=case["stratify"]) if case["kind"] == "holdout" \
        else KFoldSplitSpec(k=2, fold=0, stratify=case["stratify"], val_fraction=0.3)
    plan = SamplingPlan(split=sp, labeling=LabelingSpec(mode="fraction", value=0.5))
    a = parts(sample(ds, plan=plan, seed=case["seed"])[0])
    b = parts(sample(ds, plan=plan, seed=case["seed"] + case["delta"])[0])
    require(not np.array_equal(a["test"], b["test"]), "test part independent of the seed")
    require(not np.array_equal(a["labeled"], b["labeled"]), "labeled part independent of the seed")
    ctx.nontrivial()


@check("S04", st.fixed_dictionaries({"ds": ds_strategy().filter(lambda d: (d["graph"] and d["masks"]) or (not d["graph"] and d["test"])),
                                     "plan": st.fixed_dictionaries({"split": split_case, "labeling": labeling_case, "imbalance": imb_none,
                                                                    "policy": policy_case}), "seed": seed_case}), quick=800, shards=2)
def official(case, ctx):
    """the provider part is non-empty (always) and the policy branch is reached; labels count each branch"""
    ds = mk_dataset(case["ds"])
    plan = case["plan"]
    res, _ = sample(ds, plan=mk_plan(plan), seed=case["seed"])
    p = parts(res)
    if case["ds"]["graph"]:
        if plan["policy"]["use_official_graph_masks"]:
            for k in ("train", "val", "test"):
                require(np.array_equal(np.asarray(res.masks[k]), ds.train.masks[k]), "official %s mask not used", k)
            ctx.label("masks-used")
        else:
            require(sum(len(p[k]) for k in ("train", "val", "test")) == len(ds.train.y), "own split must cover all nodes")
            ctx.label("masks-ignored")
        ctx.nontrivial()
        return
    n, nt = len(ds.train.y), len(ds.test.y)
    if uses_official_test(case["ds"], plan):
        require(res.refs["test"] == "test", "test part must refer to the provider test split")
        require(np.array_equal(np.sort(p["test"]), np.arange(nt)), "test part is not the whole provider test split")
        require(len(p["train"]) + len(p["val"]) == n, "all provider train rows must be used")
        require(res.stats["test"]["n"] == nt, "test statistics")
        ctx.label("respected")
    else:
        require(res.refs["test"] == "train", "test part must refer to provider train rows")
        require(len(p["train"]) + len(p["val"]) + len(p["test"]) == n, "own split must cover provider train")
        ctx.label("overridden")
    for k in ("train", "val"):
        require(res.refs[k] == "train", "%s refers to %s", k, res.refs[k])
    require(bool(res.stats["policy"]["has_official_test"]), "policy record")
    ctx.nontrivial()


def hist(y, idx):
    return {str(c): int(np.sum(y[idx] == c)) for c in np.unique(y[idx])}


@check("S05", st.fixed_dictionaries({"ds": ds_strategy(), "plan": plan_case, "seed": seed_case, "ds2": ds_strategy(), "plan2": plan_case,
                                     "overwrite": st.booleans()}), quick=400, shards=2)
def storage(case, ctx):
    """the split has a non-empty labeled part; with overwrite, an older different split was there first"""
    ds = mk_dataset(case["ds"])
    res, _ = sample(ds, plan=mk_plan(case["plan"]), seed=case["seed"])
    out = Path(ctx.tmp()) / "x" / "split"
    old = None
    if case["overwrite"]:
        old, _ = sample(mk_dataset(case["ds2"]), plan=mk_plan(case["plan2"]), seed=case["seed"] + 1)
        save_split(old, out)
        try:
            save_split(res, out)
            fail("saving over an existing split must be refused without overwrite")
        except FileExistsError:
            pass
        kept = load_split(out)
        require(kept.split_fingerprint == old.split_fingerprint, "refused save changed the stored split")
        same_result(old, kept)
    save_split(res, out, overwrite=case["overwrite"])
    back = load_split(out)
    same_result(res, back)
    # statistics
    y = np.asarray(ds.train.y)
    p = parts(back)
    s = back.stats
    if back.is_graph():
        require(s["nodes"] == len(y), "nodes statistic")
        for k in ("train", "val", "test", "labeled", "unlabeled"):
            require(s[k] == len(p[k]), "%s statistic", k)
        require(s["labeled_class_dist"] == {"n": len(p["labeled"]), "classes": hist(y, p["labeled"])}, "labeled class statistic")
    else:
        yt = np.asarray(ds.test.y) if uses_official_test(case["ds"], case["plan"]) else y
        for k, kk in (("train", "train"), ("val", "val"), ("train_labeled", "labeled")):
            require(s[k] == {"n": len(p[kk]), "classes": hist(y, p[kk])}, "%s statistic %s", k, s[k])
        require(s["train_unlabeled"]["n"] == len(p["unlabeled"]), "unlabeled statistic")
        require(s["test"] == {"n": len(p["test"]), "classes": hist(yt, p["test"])}, "test statistic %s", s["test"])
    # save through the sampling call itself
    root = Path(ctx.tmp())
    r2, path = sample(ds, plan=mk_plan(case["plan"]), seed=case["seed"], save=True, cache_root=root)
    require(path is not None and str(Path(path).resolve()).startswith(str(root.resolve())), "saved outside the cache root")
    same_result(r2, load_split(path))
    ctx.nontrivial(len(p["labeled"]) > 0)


def same_result(a, b):
    require(set(a.indices) == set(b.indices) and set(a.masks) == set(b.masks), "stored parts differ")
    for k in a.indices:
        require(np.array_equal(a.indices[k], b.indices[k]) and b.indices[k].dtype.kind == "i", "index set %s differs", k)
    for k in a.masks:
        require(np.array_equal(a.masks[k], b.masks[k]) and b.masks[k].dtype == bool, "mask %s differs", k)
    for k in ("schema_version", "created_at", "dataset_fingerprint", "split_fingerprint"):
        require(getattr(a, k) == getattr(b, k), "%s differs", k)
    require(json.loads(json.dumps(dict(a.plan))) == b.plan, "plan differs")
    require(SamplingPlan.from_dict(b.plan).as_dict() == dict(a.plan), "stored plan does not rebuild")
    require(dict(a.refs) == dict(b.refs), "refs differ")
    require(json.loads(json.dumps(dict(a.stats))) == b.stats, "stats differ")
