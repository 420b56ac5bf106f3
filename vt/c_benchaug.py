"""B13: the augmented rows a run hands to its method."""
from __future__ import annotations

import numpy as np
import torch

from .core import check, fail, require, st
from .c_augment import COMPAT, OPS, WORDS, snap
from .eq import diff

from bench.orchestrators import augmentation as aug
from modssc.data_augmentation.api import build_pipeline
from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
from modssc.data_augmentation.types import AugmentationContext

MODS = {"vision": COMPAT["vision"], "text": COMPAT["text"], "tabular": COMPAT["tabular"] + ["core.ensure_float32"],
        "tokens": ["text.token_mask", "text.token_swap"], "audio": ["audio.add_noise", "audio.time_shift"],
        "graph": ["graph.edge_dropout", "graph.feature_mask"]}


@st.composite
def steps(draw, mod, lo):
    out = []
    for op in draw(st.lists(st.sampled_from(MODS[mod]), min_size=lo, max_size=3)):
        p = {k: draw(v) for k, v in OPS[op][1].items()}
        out.append({draw(st.sampled_from(["id", "op_id"])): op, "params": p})
    return {"steps": out}


@st.composite
def aug_case(draw):
    mod = draw(st.sampled_from(["tabular", "tabular", "vision", "text", "tokens", "audio", "graph"]))
    n = draw(st.sampled_from([5, 3, 8, 1, 2]))
    return {"mod": mod, "n": n, "weak": draw(steps(mod, 0)), "strong": draw(steps(mod, 1)), "seed": draw(st.integers(0, 10**6)),
            "ids": draw(st.none() | st.lists(st.integers(0, 5000), min_size=n, max_size=n)), "views": draw(st.sampled_from([1, 2])),
            "torch": draw(st.booleans()), "f32": draw(st.booleans()), "int": draw(st.sampled_from([False, False, True])), "v": draw(st.integers(0, 10**6)), "named": draw(st.booleans()),
            "size": draw(st.sampled_from([[8, 11], [6, 6], [3, 10, 7], [10, 7, 3]])), "g": draw(st.integers(0, 1000))}


def rows_of(c):
    r = np.random.default_rng(c["v"])
    n, dt = c["n"], np.float32 if c["f32"] else np.float64
    if c["mod"] == "text":
        return np.array([" ".join(r.choice(WORDS, size=int(r.integers(1, 7)))) for _ in range(n)], dtype=object if c["f32"] else None)
    if c["mod"] == "graph":
        e = int(r.integers(3, 12))
        g = {"x": r.normal(size=(n, 3)).astype(np.float32), "edge_index": r.integers(0, n, size=(2, e)), "edge_weight": r.uniform(0.1, 1, e).astype(np.float32)}
        return {k: torch.from_numpy(v) for k, v in g.items()} if c["torch"] else g
    if c["mod"] == "tokens":
        a = r.integers(0, 9, size=(n, 7))
    elif c["mod"] == "vision":
        a = r.normal(size=[n] + c["size"]).astype(dt)
    else:
        a = r.normal(size=(n, 9)).astype(dt)
    if c["int"] and not c["torch"] and c["mod"] in ("tabular", "vision"):
        a = np.clip(np.round(a * 20 + 60), 0, 200).astype(np.uint8 if c["f32"] else np.int64)
    return torch.from_numpy(a) if c["torch"] else a


def take(X, idx):
    return X[torch.as_tensor(np.asarray(idx))] if isinstance(X, torch.Tensor) else X[np.asarray(idx)]


def stack(rows, like):
    return torch.stack(rows) if isinstance(like, torch.Tensor) else np.stack(rows)


def plain(v):
    a = np.asarray(v)
    return a.tolist() if a.dtype.kind in "UO" else a


@check("B13", aug_case(), quick=700, shards=3)
def rows_are_augmented_one_by_one(case, ctx):
    """at least two rows, and the strong view differs from the rows themselves"""
    X = rows_of(case)
    n, mod = case["n"], case["mod"]
    before = snap(X)
    ids = None if case["ids"] is None else np.asarray(case["ids"], dtype=np.int64)
    modality = {"tokens": "text"}.get(mod, mod) if case["named"] or mod == "graph" else None
    kw = dict(weak_plan=case["weak"], strong_plan=case["strong"], seed=case["seed"], mode="fixed", modality=modality, strong_views=case["views"])
    np.random.seed(case["g"])
    torch.manual_seed(case["g"])
    w, s, s1 = aug.run(X, sample_ids=ids, **kw)
    require(snap(X) == before, "augmenting a dataset changed its rows")
    require((s1 is None) == (case["views"] == 1), "%s strong views asked, second view is %s", case["views"], type(s1))

    def pipe(plan):
        return build_pipeline(AugmentationPlan(steps=tuple(StepConfig(op_id=t.get("id") or t["op_id"], params=dict(t["params"])) for t in plan["steps"])))
    weak, strong = pipe(case["weak"]), pipe(case["strong"])
    con = lambda i: AugmentationContext(seed=case["seed"], sample_id=int(i), epoch=0, modality=modality)
    if mod == "graph":
        sid = 0 if ids is None else ids[0]
        for got, p, what in ((w, weak, "weak"), (s, strong, "strong")):
            require(snap(got) == snap(p.apply(rows_of(case), ctx=con(sid))), "the %s view of the graph is not the plan applied to the graph", what)
    else:
        rid = np.arange(n) if ids is None else ids
        for got, p, what in ((w, weak, "weak"), (s, strong, "strong")):
            one = [p.apply(X[i], ctx=con(rid[i])) for i in range(n)]
            want = stack(one, one[0])
            require(isinstance(got, torch.Tensor) == isinstance(X, torch.Tensor), "the %s view of %s rows is a %s", what, type(X).__name__, type(got).__name__)
            d = diff(plain(got), plain(want))
            require(d is None, "the %s view is not the plan applied to every row with its own id: %s", what, d)
            if mod not in ("text",):
                require(got.dtype == want.dtype, "the %s view has dtype %s, the augmented rows %s", what, got.dtype, want.dtype)
    again = aug.run(X, sample_ids=ids, **kw)
    require(snap(list(again)) == snap([w, s, s1]), "augmenting the same rows again gives something else")
    if case["views"] == 2:
        other = aug.run(X, sample_ids=ids, **dict(kw, weak_plan={"steps": []}))[2]
        require(snap(other) == snap(s1), "the second strong view depends on the weak plan")
        std = [t["params"].get("std", 0) for t in case["strong"]["steps"]]
        last = case["strong"]["steps"][-1]["params"]
        if mod != "graph" and std and max(std) > 0.05 and last.get("std", 0) > 0.05:
            require(snap(s1) != snap(s), "the second strong view repeats the first")
            same = [i for i in range(n) if snap(s1[i]) == snap(s[i])]
            require(not same, "the second strong view repeats the first in rows %s", same)
    if mod != "graph" and n > 1:
        r = np.random.default_rng(case["v"] + 1)
        part = r.permutation(n)[: int(r.integers(1, n + 1))]
        pid = (np.arange(n) if ids is None else ids)[part]
        for full, cut, what in zip((w, s, s1), aug.run(take(X, part), sample_ids=pid, **kw), ("weak", "strong", "second strong")):
            if full is not None:
                d = diff(plain(take(full, part)), plain(cut))
                require(d is None, "the %s view of a row depends on the rows it is augmented with: %s", what, d)
    ctx.nontrivial(n > 1 and snap(s) != before)
    ctx.label(mod)
