"""V01: feature views."""
from __future__ import annotations

import copy

import numpy as np

from .core import check, fail, require, st

from modssc.data_loader.types import LoadedDataset, Split
from modssc.views import generate_views
from modssc.views.errors import ViewsValidationError
from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan, two_view_random_feature_split

NAMES = ["a", "b", "view_c", "d d"]


@st.composite
def plan_case(draw):
    d = draw(st.integers(1, 12))
    views = []
    for i in range(draw(st.integers(2, 4))):
        mode = draw(st.sampled_from(["all", "indices", "random", "random", "complement", "none"]))
        v = {"name": NAMES[i], "mode": mode}
        if mode == "indices":
            v["indices"] = draw(st.lists(st.integers(0, d - 1), min_size=1, max_size=d, unique=True))
        if mode == "random":
            v["fraction"] = draw(st.sampled_from([0.01, 0.2, 0.25, 0.5, 0.5, 0.7, 0.99, 1.0]))
            v["seed_offset"] = draw(st.integers(0, 3))
        if mode == "complement":
            if not views:
                v["mode"] = "all"
            else:
                v["of"] = draw(st.sampled_from([x["name"] for x in views]))
        views.append(v)
    return {"d": d, "views": views, "n": draw(st.integers(1, 8)), "nt": draw(st.one_of(st.none(), st.integers(1, 5))),
            "form": draw(st.sampled_from(["array", "array", "dict", "torch", "tdict", "3d"])), "seed": draw(st.integers(0, 2**31 - 1)),
            "meta": draw(st.booleans()), "g": draw(st.integers(0, 1000)), "edges": draw(st.booleans())}


def spec(v):
    m = v["mode"]
    if m == "none":
        return ViewSpec(name=v["name"])
    kw = {"mode": m}
    if m == "indices":
        kw["indices"] = tuple(v["indices"])
    if m == "random":
        kw.update(fraction=v["fraction"], seed_offset=v["seed_offset"])
    if m == "complement":
        kw["complement_of"] = v["of"]
    return ViewSpec(name=v["name"], columns=ColumnSelectSpec(**kw), meta={"k": 1} if m == "random" else None)


def build(case, n):
    d = case["d"]
    X = (np.arange(n * d, dtype=float) + 1).reshape(n, d) * 0.5
    if case["form"] == "3d":
        X = np.stack([X, -X], axis=2)
    if case["form"] == "torch":
        import torch
        return torch.tensor(X), X
    if case["form"] == "tdict":
        import torch
        return {"x": torch.tensor(X, dtype=torch.float32), "edge_index": torch.zeros((2, 1), dtype=torch.int64)}, X
    if case["form"] == "dict":
        return {"x": X, "edge_index": np.zeros((2, 1), int)}, X
    return X, X


def feats(x):
    if isinstance(x, dict):
        x = x["x"]
    return x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)


@check("V01", plan_case(), quick=1200, shards=2)
def columns(case, ctx):
    """at least one random or index view leaves out a column"""
    Xtr, ref_tr = build(case, case["n"])
    Xte, ref_te = build(case, case["nt"]) if case["nt"] else (None, None)
    ref_tr, ref_te = copy.deepcopy(ref_tr), copy.deepcopy(ref_te)
    y = np.arange(case["n"]) % 3
    edges = np.array([[0], [0]]) if case["edges"] else None
    ds = LoadedDataset(train=Split(X=Xtr, y=y, edges=edges), test=Split(X=Xte, y=np.zeros(case["nt"], int)) if case["nt"] else None,
                       meta={"dataset_fingerprint": "f", **({"views": {"old": 1}} if case["meta"] else {})})
    meta0 = copy.deepcopy(ds.meta)
    plan = ViewsPlan(views=tuple(spec(v) for v in case["views"]))
    # expected outcome of complement views
    full = set(range(case["d"]))
    np.random.seed(case["g"])
    try:
        res = generate_views(ds, plan=plan, seed=case["seed"])
    except ViewsValidationError as e:
        # only an empty complement may be refused; find out by dropping complements
        plain = ViewsPlan(views=tuple(spec(v) if v["mode"] != "complement" else ViewSpec(name=v["name"]) for v in case["views"]))
        cols = generate_views(ds, plan=plain, seed=case["seed"]).columns
        resolved = {}
        for v in case["views"]:
            c = set(map(int, cols[v["name"]]))
            if v["mode"] == "complement":
                c = full - resolved[v["of"]]
                if not c:
                    ctx.label("empty-complement-refused")
                    return
            resolved[v["name"]] = c
        raise e
    np.random.seed(case["g"] + 1)
    res2 = generate_views(ds, plan=plan, seed=case["seed"])
    require(ds.meta == meta0, "dataset metadata modified: %s", ds.meta)
    require(np.array_equal(feats(Xtr), ref_tr), "dataset modified")
    require(list(res.views) == [v["name"] for v in case["views"]], "views missing")
    nt = False
    for v in case["views"]:
        nm = v["name"]
        cols = np.asarray(res.columns[nm])
        require(np.array_equal(cols, res2.columns[nm]), "view %s is not deterministic", nm)
        require(len(set(cols.tolist())) == len(cols) and set(cols.tolist()) <= full, "columns %s invalid", cols)
        if v["mode"] in ("all", "none"):
            require(set(cols.tolist()) == full, "view of all columns has %s", cols)
        elif v["mode"] == "indices":
            require(sorted(cols.tolist()) == sorted(v["indices"]), "view has %s, requested %s", cols, v["indices"])
        elif v["mode"] == "random":
            k = v["fraction"] * case["d"]
            require(len(cols) >= 1 and (abs(len(cols) - k) <= 0.5 + 1e-9 or (k < 1 and len(cols) == 1)), "random view has %d columns of %s", len(cols), k)
        else:
            o = set(np.asarray(res.columns[v["of"]]).tolist())
            require(not o & set(cols.tolist()) and o | set(cols.tolist()) == full, "complement %s of %s", cols, sorted(o))
        nt = nt or (v["mode"] in ("indices", "random") and len(cols) < case["d"])
        dv = res.views[nm]
        require(np.array_equal(feats(dv.train.X), ref_tr[:, cols]), "train columns of view %s", nm)
        require(np.array_equal(dv.train.y, y), "labels of view %s", nm)
        for part in [dv.train.X] + ([dv.test.X] if case["nt"] else []):
            part, src = (p["x"] if isinstance(p, dict) else p for p in (part, Xtr))
            require(type(part) is type(src) and part.dtype == src.dtype, "view %s holds %s of %s, the dataset %s of %s", nm, type(part), part.dtype, type(src), src.dtype)
        if case["form"] in ("dict", "tdict"):
            require(isinstance(dv.train.X, dict) and np.array_equal(dv.train.X["edge_index"], Xtr["edge_index"]), "other entries lost")
        require((dv.train.edges is None) == (edges is None), "edges lost")
        if case["nt"]:
            require(np.array_equal(feats(dv.test.X), ref_te[:, cols]), "test columns of view %s", nm)
            require(len(dv.test.y) == case["nt"], "test labels of view %s", nm)
        else:
            require(dv.test is None, "test part invented")
        require(dv.meta["views"][nm]["columns"] == cols.tolist(), "recorded columns of view %s", nm)
    ctx.nontrivial(nt)


@check("V01", st.fixed_dictionaries({"d": st.integers(2, 14), "fraction": st.sampled_from([0.1, 0.3, 0.5, 0.8]), "seed": st.integers(0, 10**6),
                                     "off": st.integers(0, 5)}), quick=300)
def two_views(case, ctx):
    """always"""
    d = case["d"]
    if case["fraction"] * d >= d - 0.5:
        return
    ds = LoadedDataset(train=Split(X=np.arange(3.0 * d).reshape(3, d), y=np.arange(3)), meta={"dataset_fingerprint": "f"})
    plan = two_view_random_feature_split(fraction=case["fraction"], seed_offset=case["off"])
    res = generate_views(ds, plan=plan, seed=case["seed"])
    a, b = [set(np.asarray(c).tolist()) for c in res.columns.values()]
    require(not a & b and a | b == set(range(d)) and a and b, "two-view split %s / %s", a, b)
    if d >= 12 and case["fraction"] == 0.5:
        others = {tuple(generate_views(ds, plan=plan, seed=case["seed"] + 1 + i).columns["view_a"].tolist()) for i in range(6)}
        require(len(others) > 1, "random views do not depend on the seed")
    ctx.nontrivial()


def _bad(kind, d):
    A, V = ColumnSelectSpec, ViewSpec
    ok = V(name="ok", columns=A(mode="all"))
    return {
        "one": (ok,),
        "dup-names": (ok, ok),
        "out": (ok, V(name="x", columns=A(mode="indices", indices=(d,)))),
        "negative": (ok, V(name="x", columns=A(mode="indices", indices=(-1,)))),
        "dup-cols": (ok, V(name="x", columns=A(mode="indices", indices=(0, 0)))),
        "no-cols": (ok, V(name="x", columns=A(mode="indices"))),
        "frac0": (ok, V(name="x", columns=A(mode="random", fraction=0.0))),
        "frac2": (ok, V(name="x", columns=A(mode="random", fraction=1.5))),
        "unknown-mode": (ok, V(name="x", columns=A(mode="what"))),
        "forward": (V(name="x", columns=A(mode="complement", complement_of="ok")), ok),
        "self": (ok, V(name="x", columns=A(mode="complement", complement_of="x"))),
        "missing": (ok, V(name="x", columns=A(mode="complement", complement_of="zz"))),
        "no-target": (ok, V(name="x", columns=A(mode="complement"))),
        "empty-complement": (ok, V(name="x", columns=A(mode="complement", complement_of="ok"))),
        "no-name": (ok, V(name=" ")),
    }[kind]


@check("V01", st.fixed_dictionaries({"d": st.integers(1, 6), "kind": st.sampled_from([
    "one", "dup-names", "out", "negative", "dup-cols", "no-cols", "frac0", "frac2", "unknown-mode", "forward", "self", "missing", "no-target",
    "empty-complement", "no-name"])}), quick=100)
def invalid(case, ctx):
    """always"""
    ds = LoadedDataset(train=Split(X=np.ones((3, case["d"])), y=np.arange(3)), meta={"dataset_fingerprint": "f"})
    try:
        generate_views(ds, plan=ViewsPlan(views=_bad(case["kind"], case["d"])), seed=0)
    except ViewsValidationError:
        ctx.nontrivial()
        return
    fail("invalid view plan %s accepted", case["kind"])


OWN = {
    "none": None,
    "scale": [("core.ensure_2d", {}), ("tabular.standard_scaler", {})],
    "pca": [("core.ensure_2d", {}), ("core.pca", {"n_components": 2})],
    "project": [("core.ensure_2d", {}), ("core.random_projection", {"n_components": 3})],
    "cast": [("core.ensure_2d", {}), ("core.cast_dtype", {"dtype": "float32"})],
}


@st.composite
def own_case(draw):
    d = draw(st.integers(3, 6))
    views = []
    for i in range(draw(st.integers(2, 4))):
        own = draw(st.sampled_from(["none", "none", "none", "scale", "scale", "pca", "project", "cast"]))
        wide = {"pca": 2, "project": 3}.get(own, d)
        v = {"own": own, "mode": draw(st.sampled_from(["all", "indices", "random", "random", "complement"]))}
        same = [j for j, x in enumerate(views) if x["wide"] == wide and x["mode"] != "all"]
        if v["mode"] == "complement" and not same:
            v["mode"] = "indices"
        if v["mode"] == "complement":
            v["of"] = draw(st.sampled_from(same))
        if v["mode"] == "indices":
            v["indices"] = draw(st.lists(st.integers(0, wide - 1), min_size=1, max_size=max(1, wide - 1), unique=True))
        views.append({**v, "wide": wide})
    return {"d": d, "views": views, "n": draw(st.integers(4, 9)), "nt": draw(st.sampled_from([None, 1, 3])), "seed": draw(st.integers(0, 10**6)),
            "fit": draw(st.sampled_from([None, 3, 4])), "cache": draw(st.sampled_from([False, True])), "rng": draw(st.integers(0, 10**6))}


@check("V01", own_case(), quick=240, shards=2)
def own_preprocessing(case, ctx):
    """a view without preprocessing, or with other preprocessing, follows a view that has some"""
    from unittest import mock

    from modssc.preprocess import preprocess
    from modssc.preprocess.plan import PreprocessPlan, StepConfig

    rng = np.random.default_rng(case["rng"])
    n, d = case["n"], case["d"]

    def data():
        r = np.random.default_rng(case["rng"])
        X = r.normal(3, 2, (n, d))
        Xt = r.normal(3, 2, (case["nt"], d)) if case["nt"] else None
        return LoadedDataset(train=Split(X=X, y=np.arange(n) % 3), test=Split(X=Xt, y=np.zeros(case["nt"], int)) if case["nt"] else None,
                             meta={"dataset_fingerprint": f"f{case['rng']}-{n}-{d}-{case['nt']}"})

    def own(name):
        return None if OWN[name] is None else PreprocessPlan(steps=tuple(StepConfig(step_id=s, params=dict(p)) for s, p in OWN[name]))

    fit = np.sort(rng.permutation(n)[:case["fit"]]) if case["fit"] else None
    specs = []
    for i, v in enumerate(case["views"]):
        kw = {"mode": v["mode"]}
        if v["mode"] == "indices":
            kw["indices"] = tuple(v["indices"])
        if v["mode"] == "random":
            kw["fraction"] = 0.5
        if v["mode"] == "complement":
            kw["complement_of"] = f"v{v['of']}"
        specs.append(ViewSpec(name=f"v{i}", preprocess=own(v["own"]), columns=ColumnSelectSpec(**kw)))
    with mock.patch.dict("os.environ", {"MODSSC_PREPROCESS_CACHE_DIR": str(ctx.tmp()) + "/steps"}):
        ds = data()
        kept = copy.deepcopy(ds)
        try:
            res = generate_views(ds, plan=ViewsPlan(views=tuple(specs)), seed=case["seed"], cache=case["cache"], fit_indices=fit)
        except ViewsValidationError:
            # a complement of everything is empty
            require(any(v["mode"] == "complement" for v in case["views"]), "views refused")
            ctx.label("empty-complement-refused")
            return
        require(np.array_equal(ds.train.X, kept.train.X), "dataset modified")
        for i, v in enumerate(case["views"]):
            src = data()
            if v["own"] != "none":
                src = preprocess(src, own(v["own"]), seed=case["seed"], fit_indices=fit if fit is not None else np.arange(n), cache=False).dataset
            cols = np.asarray(res.columns[f"v{i}"])
            require(src.train.X.shape[1] == v["wide"], "preprocessing gives %s columns", src.train.X.shape[1])
            if v["mode"] == "all":
                require(sorted(cols.tolist()) == list(range(v["wide"])), "view %d has columns %s of %d", i, cols, v["wide"])
            if v["mode"] == "indices":
                require(sorted(cols.tolist()) == sorted(v["indices"]), "view %d has columns %s", i, cols)
            got = res.views[f"v{i}"]
            for part in ("train", "test"):
                a, b = getattr(got, part), getattr(src, part)
                require((a is None) == (b is None), "view %d: %s part", i, part)
                if a is not None:
                    require(np.array_equal(np.asarray(a.X), np.asarray(b.X)[:, cols]), "view %d (%s after %s): %s features are not the columns %s of its own preprocessing",
                            i, v["own"], [x["own"] for x in case["views"][:i]], part, cols)
                    require(np.array_equal(a.y, b.y), "view %d: labels", i)
            if v["own"] == "scale":
                X = kept.train.X
                F = X if fit is None else X[fit]
                want = ((X - F.mean(0)) / F.std(0))[:, cols]
                require(np.allclose(got.train.X, want, atol=1e-4), "view %d is not standardised by the fitting rows", i)
    owns = [v["own"] for v in case["views"]]
    ctx.nontrivial(any(a != "none" and a != b for a, b in zip(owns, owns[1:])))
