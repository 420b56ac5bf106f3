"""E01: evaluation metrics."""
from __future__ import annotations

import math

import numpy as np

from .core import check, fail, require, st

from modssc.evaluation import evaluate, list_metrics
from modssc.evaluation.metrics import compute_metrics

METRICS = ["accuracy", "macro_f1", "balanced_accuracy"]


def ref_metrics(y, p):
    y, p = list(map(int, y)), list(map(int, p))
    n = len(y)
    acc = sum(a == b for a, b in zip(y, p)) / n
    rec, f1 = [], []
    for c in sorted(set(y)):
        tp = sum(a == c and b == c for a, b in zip(y, p))
        pos, pred = sum(a == c for a in y), sum(b == c for b in p)
        r, q = tp / pos, (tp / pred if pred else 0.0)
        rec.append(r)
        f1.append(2 * q * r / (q + r) if q + r else 0.0)
    return {"accuracy": acc, "macro_f1": sum(f1) / len(f1), "balanced_accuracy": sum(rec) / len(rec)}


def close(a, b):
    return all(math.isclose(a[k], b[k], rel_tol=1e-9, abs_tol=1e-12) for k in b)


PALS = {"range": list(range(8)), "gaps": [0, 2, 3, 9, 50, 51, 1000, 7], "neg": [-7, -1, 0, 3, 4, 5, 6, 8]}
lab_case = st.integers(1, 8).flatmap(lambda k: st.fixed_dictionaries({
    "k": st.just(k),
    "pairs": st.one_of(
        st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)), min_size=1, max_size=60),
        st.lists(st.integers(0, k - 1).flatmap(lambda c: st.tuples(st.just(c), st.sampled_from([c, c, c, (c + 1) % k]))), min_size=1, max_size=60)),
    "pal": st.sampled_from(sorted(PALS)), "perm": st.integers(0, 10**6), "dtype": st.sampled_from(["int64", "int32", "uint8", "list", "torch"]),
}))


def conv(vals, dtype):
    if dtype == "list":
        return [int(v) for v in vals]
    if dtype == "torch":
        import torch
        return torch.tensor([int(v) for v in vals])
    if dtype == "uint8" and (min(vals) < 0 or max(vals) > 255):
        dtype = "int64"
    return np.asarray(vals, dtype=dtype)


@check("E01", lab_case, quick=1500, shards=2)
def definitions(case, ctx):
    """at least two true classes and at least one wrong and one right prediction"""
    pal = PALS[case["pal"]]
    y = [pal[a] for a, _ in case["pairs"]]
    p = [pal[b] for _, b in case["pairs"]]
    want = ref_metrics(y, p)
    require(set(METRICS) <= set(list_metrics()), "metrics missing")
    got = evaluate(conv(y, case["dtype"]), conv(p, case["dtype"]), METRICS)
    require(set(got) == set(METRICS), "metric names %s", sorted(got))
    require(close(got, want), "metrics %s, reference %s", got, want)
    for k in METRICS:
        require(0.0 <= got[k] <= 1.0 + 1e-12, "%s out of range", k)
        one = evaluate(conv(y, case["dtype"]), conv(p, case["dtype"]), [k])
        require(set(one) == {k} and one[k] == got[k], "%s alone differs", k)
        require((abs(got[k] - 1) < 1e-12) == (y == p), "%s is %s for %s predictions", k, got[k], "perfect" if y == p else "imperfect")
    require(close(compute_metrics(np.asarray(y), np.asarray(p), METRICS), want), "metric core differs")
    idx = np.random.default_rng(case["perm"]).permutation(len(y))
    require(close(evaluate(np.asarray(y)[idx], np.asarray(p)[idx], METRICS), want), "row order matters")
    ren = np.random.default_rng(case["perm"] + 1).permutation(100)[:len(pal)]
    m = dict(zip(pal, ren.tolist()))
    require(close(evaluate(np.asarray([m[v] for v in y]), np.asarray([m[v] for v in p]), METRICS), want), "class names matter")
    extra = {k: v for k, v in got.items()}
    for other in list_metrics():
        if other not in METRICS:
            evaluate(np.asarray(y), np.asarray(p), [other])
    ctx.nontrivial(len(set(y)) >= 2 and any(a == b for a, b in zip(y, p)) and any(a != b for a, b in zip(y, p)))
    del extra


@check("E01", st.fixed_dictionaries({"k": st.integers(2, 6), "y": st.lists(st.integers(0, 5), min_size=1, max_size=40),
                                     "p": st.lists(st.integers(0, 5), min_size=40, max_size=40), "noise": st.integers(0, 10**6),
                                     "scale": st.sampled_from([1e-6, 1.0, 1e6]), "neg": st.booleans()}), quick=600)
def encodings(case, ctx):
    """two or more distinct predicted classes"""
    k = case["k"]
    y = np.array(case["y"]) % k
    p = (np.array(case["p"]) % k)[: len(y)]
    want = ref_metrics(y, p)
    rng = np.random.default_rng(case["noise"])
    sc = rng.random((len(y), k)) * case["scale"]
    sc[np.arange(len(y)), p] = sc.max(axis=1) + 0.5 * case["scale"]
    if case["neg"]:
        sc -= 3 * case["scale"]
    oh_y, oh_p = np.eye(k)[y], np.eye(k, dtype=int)[p]
    import torch
    for a in (y, oh_y, torch.tensor(oh_y), oh_y.astype(int)):
        for b in (p, oh_p, sc, torch.tensor(sc)):
            got = evaluate(a, b, METRICS)
            require(close(got, want), "encodings disagree: %s vs %s", got, want)
    ctx.nontrivial(len(set(p.tolist())) >= 2)


@check("E01", st.fixed_dictionaries({"n": st.integers(1, 12), "m": st.integers(1, 12), "k": st.integers(2, 4), "enc": st.sampled_from(["labels", "scores"]),
                                     "metric": st.sampled_from(METRICS + ["nope", "Accuracy", ""])}), quick=300)
def rejects(case, ctx):
    """lengths differ or the metric is unknown"""
    y = np.arange(case["n"]) % case["k"]
    p = np.arange(case["m"]) % case["k"]
    if case["enc"] == "scores":
        p = np.eye(case["k"])[p]
    bad = case["n"] != case["m"] or case["metric"] not in METRICS
    try:
        out = evaluate(y, p, [case["metric"]])
    except ValueError:
        require(bad, "valid input rejected")
        ctx.nontrivial()
        return
    require(not bad, "accepted %d labels with %d predictions, metric %r: %s", case["n"], case["m"], case["metric"], out)
