"""A01-A02: data augmentation."""
from __future__ import annotations

import copy
import random
from collections import Counter

import numpy as np
import torch

from .core import check, fail, require, st

from modssc.data_augmentation.api import available_ops, build_pipeline, build_strategy, get_op, make_context_rng
from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
from modssc.data_augmentation.types import AugmentationContext, GraphSample

prob = st.sampled_from([0.0, 0.05, 0.3, 0.5, 0.9, 1.0])
pos = st.sampled_from([0.0, 0.01, 0.1, 1.0, 3.0])
OPS = {
    "audio.add_noise": ("audio", {"std": pos}),
    "audio.time_shift": ("audio", {"max_frac": prob}),
    "core.ensure_float32": ("any", {}),
    "core.identity": ("any", {}),
    "graph.edge_dropout": ("graph", {"p": prob}),
    "graph.feature_mask": ("graph", {"p": prob}),
    "tabular.feature_dropout": ("tabular", {"p": prob}),
    "tabular.gaussian_noise": ("tabular", {"std": pos}),
    "tabular.swap_noise": ("tabular", {"p": prob}),
    "text.lowercase": ("text", {}),
    "text.random_swap": ("text", {"n_swaps": st.integers(0, 5)}),
    "text.token_mask": ("tokens", {"p": prob, "mask_token_id": st.sampled_from([1, 7, 99]), "pad_token_id": st.sampled_from([0, 0, 3])}),
    "text.token_swap": ("tokens", {"n_swaps": st.integers(0, 4), "pad_token_id": st.sampled_from([0, 0, 3])}),
    "text.word_dropout": ("text", {"p": prob}),
    "vision.cutout": ("vision", {"n_holes": st.integers(1, 3), "length": st.integers(1, 12), "fill": st.sampled_from([0.0, 1.0])}),
    "vision.cutout#frac": ("vision", {"frac": prob}),
    "vision.gaussian_noise": ("vision", {"std": pos}),
    "vision.random_crop_pad": ("vision", {"padding": st.sampled_from([0, 1, 2, 3, 5])}),
    "vision.random_horizontal_flip": ("vision", {"p": prob}),
}
WORDS = ["a", "bb", "Hello", "world", "x", "É", "42", "a"]

data = {
    "audio": st.fixed_dictionaries({"shape": st.sampled_from([[1], [7], [16], [2, 10], [1, 25]]), "v": st.integers(0, 10**6)}),
    "tabular": st.fixed_dictionaries({"shape": st.sampled_from([[1], [8], [3, 4], [5, 1], [6, 9]]), "v": st.integers(0, 10**6)}),
    "vision": st.fixed_dictionaries({"shape": st.sampled_from([[6, 6], [8, 11], [10, 7, 3], [3, 10, 7], [1, 9, 9], [12, 8, 1], [3, 8, 12], [9, 6, 4]]),
                                     "v": st.integers(0, 10**6)}),
    "tokens": st.fixed_dictionaries({"rows": st.one_of(st.lists(st.integers(0, 9), min_size=1, max_size=12).map(lambda r: [r]),
                                                       st.integers(1, 8).flatmap(lambda w: st.lists(st.lists(st.integers(0, 9), min_size=w, max_size=w), min_size=1, max_size=4))),
                                     "flat": st.booleans()}),
    "text": st.fixed_dictionaries({"texts": st.lists(st.lists(st.sampled_from(WORDS), max_size=8).map(" ".join), min_size=1, max_size=4), "many": st.booleans()}),
    "graph": st.fixed_dictionaries({"n": st.integers(1, 8), "f": st.integers(1, 4), "edges": st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)), max_size=30),
                                    "w": st.booleans(), "kind": st.sampled_from(["sample", "dict", "attr"]), "v": st.integers(0, 10**6)}),
}
data["any"] = data["tabular"]
ctx_case = st.fixed_dictionaries({"seed": st.integers(0, 10**6), "sample_id": st.integers(0, 10**5), "epoch": st.integers(0, 300)})


def op_case(names=None):
    def one(nm):
        mod, ps = OPS[nm]
        return st.fixed_dictionaries({"op": st.just(nm), "params": st.fixed_dictionaries(ps), "data": data[mod], "ctx": ctx_case,
                                      "torch": st.booleans(), "f32": st.booleans(), "g": st.integers(0, 10**6)})
    return st.sampled_from(sorted(names or OPS)).flatmap(one)


class Attr:
    pass


def mk(case):
    op = case["op"].split("#")[0]
    mod, _ = OPS[case["op"]]
    d = case["data"]
    tt = case["torch"]
    dt = np.float32 if case["f32"] else np.float64
    if mod in ("audio", "tabular", "vision", "any"):
        a = np.random.default_rng(d["v"]).normal(size=d["shape"]).astype(dt) + 0.0
        a[a == 0] = 0.5
        return torch.from_numpy(a) if tt else a
    if mod == "tokens":
        rows = d["rows"]
        a = np.asarray(rows[0] if d["flat"] else rows, dtype=np.int64)
        return torch.from_numpy(a) if tt else a
    if mod == "text":
        return list(d["texts"]) if d["many"] else d["texts"][0]
    rng = np.random.default_rng(d["v"])
    x = rng.normal(size=(d["n"], d["f"])).astype(np.float32)
    ei = np.asarray([[a % d["n"], b % d["n"]] for a, b in d["edges"]], dtype=np.int64).reshape(-1, 2).T
    if ei.shape[1] == 2:  # a 2x2 edge list is ambiguous between both layouts
        ei = ei[:, :1]
    w = (np.arange(ei.shape[1]) + 1).astype(np.float32) if d["w"] else None
    if tt:
        x, ei, w = torch.from_numpy(x), torch.from_numpy(ei.copy()), None if w is None else torch.from_numpy(w)
    if d["kind"] == "dict":
        g = {"x": x, "edge_index": ei, "other": "keep"}
        if w is not None:
            g["edge_weight"] = w
        return g
    if d["kind"] == "attr":
        g = Attr()
        g.x, g.edge_index, g.other = x, ei, "keep"
        if w is not None:
            g.edge_weight = w
        return g
    return GraphSample(x=x, edge_index=ei, edge_weight=w, meta={"other": "keep"})


def snap(v):
    """Comparable deep copy."""
    if isinstance(v, torch.Tensor):
        return ("t", str(v.dtype), tuple(v.shape), v.detach().clone().numpy().tobytes())
    if isinstance(v, np.ndarray):
        return ("n", str(v.dtype), v.shape, np.ascontiguousarray(v).tobytes())
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    if isinstance(v, (GraphSample, Attr)):
        return snap(dict(v.__dict__))
    return v


def context(c, **kw):
    return AugmentationContext(**{**c, **kw})


def pipe(case):
    return build_pipeline(AugmentationPlan(steps=(StepConfig(op_id=case["op"].split("#")[0], params=dict(case["params"])),)))


RANDOM_CONT = {"audio.add_noise", "tabular.gaussian_noise", "vision.gaussian_noise"}


@check("A01", op_case(), quick=2500, shards=3)
def pure(case, ctx):
    """the output differs from the input"""
    x = mk(case)
    x0 = snap(x)
    c = context(case["ctx"])
    p = pipe(case)
    np.random.seed(case["g"]); torch.manual_seed(case["g"]); random.seed(case["g"])
    a = snap(p(x, ctx=c))
    require(snap(x) == x0, "%s modified its input", case["op"])
    np.random.seed(case["g"] + 1); torch.manual_seed(case["g"] + 1); random.seed(case["g"] + 1)
    p(mk(case), ctx=context(case["ctx"], sample_id=case["ctx"]["sample_id"] + 1))
    p(mk(case), ctx=context(case["ctx"], epoch=case["ctx"]["epoch"] + 1))
    b = snap(p(mk(case), ctx=context(case["ctx"])))
    require(a == b, "%s is not a function of its context", case["op"])
    d = snap(pipe(case).apply(mk(case), ctx=c))
    require(a == d, "%s differs for a rebuilt pipeline", case["op"])
    ps = case["params"]
    if ps.get("p") == 0.0 or ps.get("std") == 0.0 or ps.get("max_frac") == 0.0 or ps.get("padding") == 0 or ps.get("frac") == 0.0 \
            or (case["op"] == "text.token_swap" and ps["n_swaps"] == 0) or case["op"] == "core.identity":
        if case["op"] == "text.word_dropout":  # whitespace is normalised
            pass
        else:
            require(a == x0, "%s with zero strength changed the sample", case["op"])
    if case["op"] in RANDOM_CONT and ps["std"] > 0:
        for kw in ({"seed": case["ctx"]["seed"] + 1}, {"sample_id": case["ctx"]["sample_id"] + 1}, {"epoch": case["ctx"]["epoch"] + 1}):
            require(snap(p(mk(case), ctx=context(case["ctx"], **kw))) != a, "noise does not depend on %s", sorted(kw))
    ctx.nontrivial(a != x0)
    ctx.label(case["op"])


COMPAT = {"vision": ["vision.cutout", "vision.gaussian_noise", "vision.random_crop_pad", "vision.random_horizontal_flip", "core.ensure_float32"],
          "text": ["text.lowercase", "text.random_swap", "text.word_dropout"],
          "tabular": ["tabular.feature_dropout", "tabular.gaussian_noise", "tabular.swap_noise", "core.identity"]}


@check("A01", st.sampled_from(sorted(COMPAT)).flatmap(lambda m: st.fixed_dictionaries({
    "mod": st.just(m), "weak": st.lists(st.sampled_from(COMPAT[m]), max_size=2), "strong": st.lists(st.sampled_from(COMPAT[m]), min_size=1, max_size=3),
    "data": data[m], "ctx": ctx_case, "torch": st.booleans(), "f32": st.booleans(), "g": st.integers(0, 1000)})), quick=500)
def strategy(case, ctx):
    """the strong plan has at least two steps"""
    def plan(ops):
        return AugmentationPlan(steps=tuple(StepConfig(op_id=o, params={}) for o in ops), modality=case["mod"])
    c = {**case, "op": COMPAT[case["mod"]][0]}
    weak, strong = plan(case["weak"]), plan(case["strong"])
    s = build_strategy(weak=weak, strong=strong)
    x = mk(c)
    x0 = snap(x)
    torch.manual_seed(case["g"]); np.random.seed(case["g"])
    w, t = s.apply(x, ctx=context(case["ctx"]))
    w, t = snap(w), snap(t)
    require(snap(x) == x0, "strategy modified its input")
    torch.manual_seed(case["g"] + 1); np.random.seed(case["g"] + 1)
    require(snap(build_pipeline(weak)(mk(c), ctx=context(case["ctx"]))) == w, "weak branch is not the weak pipeline")
    require(snap(build_pipeline(strong)(mk(c), ctx=context(case["ctx"]))) == t, "strong branch is not the strong pipeline")
    # steps run in order on the context's generator
    rng = make_context_rng(context(case["ctx"]))
    out = mk(c)
    for o in case["strong"]:
        out = get_op(o)(out, rng=rng, ctx=context(case["ctx"]))
    require(snap(out) == t, "pipeline is not its steps in order")
    ctx.nontrivial(len(case["strong"]) >= 2)


def arr(v):
    return v.detach().numpy() if isinstance(v, torch.Tensor) else np.asarray(v)


def hw(shape):
    if len(shape) == 2:
        return 0, 1
    return (1, 2) if shape[0] in (1, 3) and shape[2] > 4 else (0, 1)


@check("A02", op_case(), quick=3000, shards=3)
def valid(case, ctx):
    """the output differs from the input"""
    op = case["op"].split("#")[0]
    ps = case["params"]
    x = mk(case)
    x0 = copy.deepcopy(x) if not isinstance(x, Attr) else mk(case)
    out = pipe(case)(x, ctx=context(case["ctx"]))
    mod = OPS[case["op"]][0]
    ctx.label(op)
    if mod in ("audio", "tabular", "vision", "tokens", "any"):
        a, b = arr(x0), arr(out)
        require(isinstance(out, torch.Tensor) == isinstance(x0, torch.Tensor), "container changed")
        require(a.shape == b.shape, "%s changed the shape %s -> %s", op, a.shape, b.shape)
        if op == "core.ensure_float32":
            require(b.dtype == np.float32 and np.array_equal(a.astype(np.float32), b), "ensure_float32 values")
            ctx.nontrivial(a.dtype != b.dtype)
            return
        require(a.dtype == b.dtype, "%s changed the dtype %s -> %s", op, a.dtype, b.dtype)
        ctx.nontrivial(not np.array_equal(a, b))
        if op == "core.identity":
            require(np.array_equal(a, b), "identity changed the sample")
        elif op in ("tabular.gaussian_noise", "audio.add_noise", "vision.gaussian_noise"):
            d = (b.astype(float) - a.astype(float))
            require(np.all(np.isfinite(d)) and np.abs(d).max() <= 8 * ps["std"] + 1e-5, "noise of std %s moved a value by %s", ps["std"], np.abs(d).max())
            if ps["std"] > 0 and d.size >= 50:
                require(0.4 * ps["std"] < d.std() < 1.9 * ps["std"], "noise of std %s has std %s", ps["std"], d.std())
        elif op == "tabular.feature_dropout":
            require(np.all((b == a) | (b == 0)), "dropout produced other values")
            if ps["p"] == 1.0:
                require(np.all(b == 0), "p=1 kept features")
        elif op == "tabular.swap_noise":
            ch = b != a
            require(np.all(np.isfinite(b)) and np.abs(b[ch]).max(initial=0) < 8, "swap noise is not standard normal")
            if ps["p"] == 1.0:
                require(np.all(ch), "p=1 kept features")
        elif op == "audio.time_shift":
            L = a.shape[-1]
            m = int(round(ps["max_frac"] * L))
            require(any(np.array_equal(b, np.roll(a, s, axis=-1)) for s in range(-m, m + 1)), "output is no circular shift within %d", m)
        elif op == "vision.random_horizontal_flip":
            fl = np.flip(a, axis=hw(a.shape)[1])
            require(np.array_equal(b, a) or np.array_equal(b, fl), "output is neither the image nor its mirror image")
            if ps["p"] == 1.0:
                require(np.array_equal(b, fl), "p=1 did not flip")
        elif op == "vision.cutout":
            h, w = hw(a.shape)
            H, W = a.shape[h], a.shape[w]
            fill = ps.get("fill", 0.0)
            holes = ps.get("n_holes", 1)
            L = ps["length"] if "frac" not in ps else (max(1, int(round(ps["frac"] * min(H, W)))) if ps["frac"] > 0 else 0)
            ch = b != a
            require(np.all(b[ch] == fill), "cutout wrote other values than the fill")
            other = tuple(i for i in range(a.ndim) if i not in (h, w))
            m = ch.any(axis=other) if other else ch
            if other:
                require(np.array_equal(m, ch.all(axis=other)), "cutout hole differs between channels")
            hh, ww = min(L, H), min(L, W)
            require(m.sum() <= holes * hh * ww, "cutout changed %d pixels, at most %d allowed", m.sum(), holes * hh * ww)
            if L > 0:
                require(m.sum() >= hh * ww, "cutout hole smaller than asked")
            if holes == 1 and L > 0:
                r, c = np.flatnonzero(m.any(axis=1)), np.flatnonzero(m.any(axis=0))
                require(r[-1] - r[0] + 1 == hh and c[-1] - c[0] + 1 == ww, "hole is not a %dx%d rectangle", hh, ww)
        elif op == "vision.random_crop_pad":
            h, w = hw(a.shape)
            p = ps["padding"]
            pw = [(0, 0)] * a.ndim
            pw[h] = pw[w] = (p, p)
            pad = np.pad(a, pw, mode="reflect")
            ok = False
            for t in range(2 * p + 1):
                for l in range(2 * p + 1):
                    s = [slice(None)] * a.ndim
                    s[h], s[w] = slice(t, t + a.shape[h]), slice(l, l + a.shape[w])
                    ok = ok or np.array_equal(pad[tuple(s)], b)
            require(ok, "output is no crop of the padded image")
        elif op == "text.token_mask":
            ch = a != b
            require(np.all(b[ch] == ps["mask_token_id"]), "masked tokens must become the mask id")
            require(not np.any(ch & (a == ps["pad_token_id"])), "padding was masked")
            if ps["p"] == 1.0:
                require(np.all(b[a != ps["pad_token_id"]] == ps["mask_token_id"]), "p=1 kept tokens")
        elif op == "text.token_swap":
            aa, bb = np.atleast_2d(a), np.atleast_2d(b)
            for r, s in zip(aa, bb):
                require(Counter(r.tolist()) == Counter(s.tolist()), "swap changed the tokens of a row: %s -> %s", r, s)
                require(np.array_equal(r == ps["pad_token_id"], s == ps["pad_token_id"]), "swap moved padding")
                require((r != s).sum() <= 2 * ps["n_swaps"], "more than %d swaps", ps["n_swaps"])
        return
    if mod == "text":
        A = x0 if isinstance(x0, list) else [x0]
        require(isinstance(out, list) == isinstance(x0, list), "container changed")
        B = out if isinstance(out, list) else [out]
        require(len(A) == len(B), "number of texts changed")
        for a, b in zip(A, B):
            ta, tb = a.split(), b.split()
            if op == "text.lowercase":
                require(b == a.lower(), "lowercase")
            elif op == "text.random_swap":
                require(Counter(ta) == Counter(tb), "swap changed the words")
                require(sum(u != v for u, v in zip(ta, tb)) <= 2 * ps["n_swaps"], "more than %d swaps", ps["n_swaps"])
            else:
                it = iter(ta)
                require(all(w in it for w in tb), "dropout output is not a subsequence: %r -> %r", a, b)
                require(bool(tb) or not ta, "dropout returned an empty text")
                if ps["p"] == 0.0:
                    require(tb == ta, "p=0 dropped words")
                if ps["p"] == 1.0 and ta:
                    require(len(tb) == 1, "p=1 keeps one word")
        ctx.nontrivial(A != B)
        return
    # graph
    def parts(g):
        if isinstance(g, dict):
            return g["x"], g["edge_index"], g.get("edge_weight"), g["other"]
        if isinstance(g, Attr):
            return g.x, g.edge_index, getattr(g, "edge_weight", None), g.other
        return g.x, g.edge_index, g.edge_weight, g.meta["other"]
    require(type(out) is type(x0), "graph container changed")
    x1, e1, w1, o1 = parts(x0)
    x2, e2, w2, o2 = parts(out)
    require(o2 == "keep", "other entries of the graph lost")
    require(isinstance(x2, torch.Tensor) == isinstance(x1, torch.Tensor) and isinstance(e2, torch.Tensor) == isinstance(e1, torch.Tensor), "container changed")
    x1, x2, e1, e2 = arr(x1), arr(x2), arr(e1), arr(e2)
    require((w1 is None) == (w2 is None), "edge weights appeared or vanished")
    if op == "graph.feature_mask":
        require(x2.shape == x1.shape and x2.dtype == x1.dtype and np.all((x2 == x1) | (x2 == 0)), "feature mask values")
        require(np.array_equal(e1, e2) and (w1 is None or np.array_equal(arr(w1), arr(w2))), "feature mask changed the edges")
        if ps["p"] == 1.0:
            require(np.all(x2 == 0), "p=1 kept features")
        ctx.nontrivial(not np.array_equal(x1, x2))
    else:
        require(np.array_equal(x1, x2), "edge dropout changed the features")
        require(e2.ndim == 2 and e2.shape[0] == 2, "edge list shape %s", e2.shape)
        E1 = [tuple(c) for c in e1.T.tolist()]
        E2 = [tuple(c) for c in e2.T.tolist()]
        if w1 is not None:
            W1, W2 = arr(w1).tolist(), arr(w2).tolist()
            require(len(W2) == len(E2), "weights do not match the edges")
            E1, E2 = list(zip(E1, W1)), list(zip(E2, W2))
        it = iter(E1)
        require(all(e in it for e in E2), "kept edges (with weights) are not a subsequence of the given edges")
        if ps["p"] == 1.0:
            require(len(E2) == 0, "p=1 kept edges")
        if ps["p"] == 0.0:
            require(len(E2) == len(E1), "p=0 dropped edges")
        ctx.nontrivial(len(E2) < len(E1))


@check("A02", st.fixed_dictionaries({"op": st.sampled_from(["tabular.feature_dropout", "tabular.swap_noise", "graph.edge_dropout", "graph.feature_mask",
                                                            "text.word_dropout", "text.token_mask", "vision.cutout", "vision.random_horizontal_flip"]),
                                     "p": st.sampled_from([0.1, 0.25, 0.5, 0.75]), "seed": st.integers(0, 10**6), "torch": st.booleans()}), quick=160)
def rates(case, ctx):
    """always (400 trials; 7 standard deviations)"""
    op, p, n = case["op"], case["p"], 400
    c = context({"seed": case["seed"], "sample_id": 0, "epoch": 0})
    if op.startswith("tabular") or op == "graph.feature_mask":
        a = np.full((20, 20), 9.0)
        x = torch.from_numpy(a.copy()) if case["torch"] else a.copy()
        if op.startswith("graph"):
            out = get_op(op, p=p)(GraphSample(x=x, edge_index=np.zeros((2, 0), int)), rng=make_context_rng(c), ctx=c).x
        else:
            out = get_op(op, p=p)(x, rng=make_context_rng(c), ctx=c)
        k = int((arr(out) != 9.0).sum())
    elif op == "graph.edge_dropout":
        ei = np.zeros((2, n), dtype=np.int64)
        g = get_op(op, p=p)(GraphSample(x=np.ones((1, 1)), edge_index=torch.from_numpy(ei) if case["torch"] else ei), rng=make_context_rng(c), ctx=c)
        k = n - g.edge_index.shape[1]
    elif op == "text.word_dropout":
        k = n - len(get_op(op, p=p)(" ".join(["w"] * n), rng=make_context_rng(c), ctx=c).split())
    elif op == "text.token_mask":
        t = np.full((n,), 5)
        k = int((arr(get_op(op, p=p, mask_token_id=1)(torch.from_numpy(t) if case["torch"] else t, rng=make_context_rng(c), ctx=c)) == 1).sum())
    elif op == "vision.random_horizontal_flip":
        img = np.arange(30.0).reshape(5, 6)
        k = 0
        for i in range(n):
            ci = context({"seed": case["seed"], "sample_id": i, "epoch": 0})
            k += int(arr(get_op(op, p=p)(torch.from_numpy(img) if case["torch"] else img, rng=make_context_rng(ci), ctx=ci))[0, 0] != 0)
    else:
        tops = set()
        for i in range(60):
            ci = context({"seed": case["seed"], "sample_id": i, "epoch": 0})
            m = arr(get_op("vision.cutout", length=4)(torch.ones(12, 12) if case["torch"] else np.ones((12, 12)), rng=make_context_rng(ci), ctx=ci)) == 0
            tops.add((int(np.flatnonzero(m.any(axis=1))[0]), int(np.flatnonzero(m.any(axis=0))[0])))
        require(len(tops) > 10, "cutout always hits the same place")
        ctx.nontrivial()
        return
    sd = (n * p * (1 - p)) ** 0.5
    require(abs(k - n * p) <= 7 * sd, "%s with p=%s hit %d of %d", op, p, k, n)
    ctx.nontrivial()


@check("A02", st.just({}), quick=1)
def all_ops_covered(case, ctx):
    """every registered operation has a validator here"""
    from .core import HarnessError
    del case
    builtin = [o for o in available_ops()]
    missing = [o for o in OPS if o.split("#")[0] not in builtin]
    require(not missing, "operations vanished: %s", missing)
    ctx.nontrivial()
