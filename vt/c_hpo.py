"""H01-H03: hyper-parameter spaces."""
from __future__ import annotations

import copy
import itertools
import json
import math
import random

import numpy as np

from .core import check, fail, require, st

from modssc.hpo import Space, deep_merge
from modssc.hpo.types import HpoError

scalar = st.one_of(st.integers(-5, 5), st.sampled_from([0.1, 1e-3, 2.5]), st.sampled_from(["a", "b", ""]), st.booleans(), st.none())
value = st.one_of(scalar, scalar, st.lists(scalar, max_size=2), st.dictionaries(st.sampled_from(["p", "q"]), scalar, min_size=1, max_size=2))
KEYS = ["lr", "params", "method", "alpha", "b", "z9"]
leaf_list = st.lists(value, min_size=1, max_size=4)
leaf_choice = leaf_list.map(lambda v: {"dist": "choice", "values": v})


def tree(leaf, depth=3, max_keys=3):
    s = leaf
    for _ in range(depth):
        s = st.one_of(leaf, st.dictionaries(st.sampled_from(KEYS), s, min_size=1, max_size=max_keys))
    return st.dictionaries(st.sampled_from(KEYS), s, min_size=1, max_size=max_keys)


def leaves(node, prefix=()):
    if isinstance(node, list) or "dist" in node:
        yield prefix, node
        return
    for k in node:
        yield from leaves(node[k], prefix + (k,))


def get(d, path):
    for k in path:
        d = d[k]
    return d


def tree_paths(patch, paths):
    """Every path in the patch that is not inside a tuned leaf."""
    out = []

    def walk(n, pre):
        if pre in paths:
            out.append(pre)
            return
        if not isinstance(n, dict):
            out.append(pre)
            return
        for k in n:
            walk(n[k], pre + (k,))
    walk(patch, ())
    return sorted(out)


def key(v):
    return json.dumps(v, sort_keys=True)


def ref_flat(patch):
    out = {}

    def walk(n, pre):
        for k, v in n.items():
            if isinstance(v, dict) and v:
                walk(v, pre + (k,))
            else:
                out[".".join(pre + (k,))] = v
    walk(patch, ())
    return out


@check("H01", tree(st.one_of(leaf_list, leaf_choice)).filter(
    lambda t: math.prod(len(v if isinstance(v, list) else v["values"]) for _, v in leaves(t)) <= 600), quick=600, shards=2)
def grid(case, ctx):
    """at least two tuned parameters and four combinations"""
    orig = copy.deepcopy(case)
    lv = list(leaves(case))
    vals = {p: (n if isinstance(n, list) else n["values"]) for p, n in lv}
    trials = list(Space.from_dict(case).iter_grid())
    again = list(Space.from_dict(json.loads(json.dumps(case))).iter_grid())
    rev = list(Space.from_dict(json.loads(json.dumps(case, sort_keys=True))).iter_grid())
    require(case == orig, "search space modified")
    total = math.prod(len(v) for v in vals.values())
    require(len(trials) == total, "%d trials for %d combinations", len(trials), total)
    require([t.index for t in trials] == list(range(total)), "trial numbering")
    paths = sorted(vals)
    for t in trials:
        require(tree_paths(t.patch, set(paths)) == paths, "trial sets %s instead of %s", tree_paths(t.patch, set(paths)), paths)
        require(t.params == ref_flat(t.patch), "flat parameters disagree with the patch")
    want = sorted(key([key(v) for v in combo]) for combo in itertools.product(*[vals[p] for p in paths]))
    got = sorted(key([key(get(t.patch, p)) for p in paths]) for t in trials)
    require(got == want, "combinations differ from the Cartesian product")
    for o in (again, rev):
        require([key(t.patch) for t in o] == [key(t.patch) for t in trials], "grid order is not reproducible")
    ctx.nontrivial(len(paths) >= 2 and total >= 4)


num = st.one_of(st.integers(-50, 50), st.floats(-1e3, 1e3, allow_nan=False).map(lambda v: round(v, 3)))
leaf_rand = st.one_of(
    leaf_list, leaf_choice,
    st.tuples(num, st.floats(1e-3, 1e3)).map(lambda t: {"dist": "uniform", "low": t[0], "high": t[0] + round(t[1], 3)}),
    st.tuples(st.floats(1e-8, 1.0), st.floats(1.01, 1e6)).map(lambda t: {"dist": "loguniform", "low": t[0], "high": t[0] * t[1]}),
    st.tuples(st.integers(-20, 20), st.integers(1, 6)).map(lambda t: {"dist": "randint", "low": t[0], "high": t[0] + t[1]}),
)


def in_domain(spec, v):
    if isinstance(spec, list):
        return any(key(v) == key(x) for x in spec)
    d = spec["dist"]
    if d == "choice":
        return any(key(v) == key(x) for x in spec["values"])
    lo, hi = spec["low"], spec["high"]
    if d == "randint":
        return isinstance(v, int) and not isinstance(v, bool) and lo <= v < hi
    tol = 1e-12 * max(abs(lo), abs(hi))
    return isinstance(v, float) and lo - tol <= v <= hi + tol


@check("H02", st.fixed_dictionaries({"space": tree(leaf_rand), "seed": st.integers(0, 2**31 - 1), "n": st.integers(1, 12), "more": st.integers(1, 10),
                                     "g": st.integers(0, 1000)}), quick=800, shards=2)
def random_search(case, ctx):
    """at least two tuned parameters, one of them a distribution, and at least three trials"""
    sp = case["space"]
    orig = copy.deepcopy(sp)
    lv = dict(leaves(sp))
    paths = sorted(lv)
    np.random.seed(case["g"]); random.seed(case["g"])
    a = list(Space.from_dict(sp).iter_random(seed=case["seed"], n_trials=case["n"]))
    np.random.seed(case["g"] + 1)
    s = Space.from_dict(json.loads(json.dumps(sp, sort_keys=True)))
    list(s.iter_random(seed=case["seed"] + 1, n_trials=2))
    b = list(s.iter_random(seed=case["seed"], n_trials=case["n"] + case["more"]))
    require(sp == orig, "search space modified")
    require(len(a) == case["n"] and len(b) == case["n"] + case["more"], "number of trials")
    require([t.index for t in b] == list(range(len(b))), "trial numbering")
    require([key(t.patch) for t in a] == [key(t.patch) for t in b[: len(a)]], "more trials change the first ones")
    for t in b:
        require(tree_paths(t.patch, set(paths)) == paths, "trial sets %s instead of %s", t.patch, paths)
        require(t.params == ref_flat(t.patch), "flat parameters disagree with the patch")
        for p in paths:
            require(in_domain(lv[p], get(t.patch, p)), "value %r outside of %r", get(t.patch, p), lv[p])
    ctx.nontrivial(len(paths) >= 2 and len(b) >= 3 and any(isinstance(v, dict) for v in lv.values()))


@check("H02", st.fixed_dictionaries({"leaf": leaf_rand, "seed": st.integers(0, 2**31 - 1)}), quick=200)
def random_covers(case, ctx):
    """the domain has more than one value"""
    leaf = case["leaf"]
    n = 400
    vals = [t.patch["x"] for t in Space.from_dict({"x": leaf, "y": [1, 2]}).iter_random(seed=case["seed"], n_trials=n)]
    if isinstance(leaf, list) or leaf["dist"] == "choice":
        dom = leaf if isinstance(leaf, list) else leaf["values"]
        require({key(v) for v in vals} == {key(v) for v in dom}, "some listed values are never drawn: %s of %s", set(map(key, vals)), dom)
        ctx.nontrivial(len({key(v) for v in dom}) > 1)
    elif leaf["dist"] == "randint":
        require(set(vals) == set(range(leaf["low"], leaf["high"])), "integers never drawn: %s of %s", sorted(set(vals)), leaf)
        ctx.nontrivial(leaf["high"] - leaf["low"] > 1)
    else:
        f = math.log if leaf["dist"] == "loguniform" else float
        lo, hi = f(leaf["low"]), f(leaf["high"])
        u = [(f(v) - lo) / (hi - lo) for v in vals]
        # quartiles of 400 uniform draws: 100 +- 8.7; allow more than 6 sigma
        for q in range(4):
            c = sum(q / 4 <= x < (q + 1) / 4 + (q == 3) for x in u)
            require(45 <= c <= 160, "quarter %d of the range has %d of %d draws (%s)", q, c, n, leaf)
        ctx.nontrivial()


bad_leaf = st.sampled_from([
    [], {}, {"dist": "uniform", "low": 1.0}, {"dist": "uniform", "low": 2.0, "high": 1.0}, {"dist": "loguniform", "low": 0, "high": 1},
    {"dist": "loguniform", "low": -1, "high": 1}, {"dist": "randint", "low": 1, "high": 1}, {"dist": "randint", "low": 0.5, "high": 3},
    {"dist": "choice", "values": []}, {"dist": "choice"}, {"dist": "nope", "low": 0, "high": 1}, {"dist": "uniform", "low": 0, "high": 1, "q": 2},
    {"dist": "uniform", "low": "a", "high": 1}, 3, "x", None, {"dist": "choice", "values": [1], "low": 0}, {"dist": "uniform", "low": True, "high": 3},
    {"dist": "randint", "low": 0, "high": 3, "values": [1]},
])


@check("H02", st.fixed_dictionaries({"tree": tree(leaf_rand, depth=2), "bad": bad_leaf, "key": st.sampled_from(KEYS)}), quick=200)
def invalid_spaces(case, ctx):
    """always"""
    t = {**case["tree"], case["key"]: case["bad"]}
    try:
        list(Space.from_dict(t).iter_random(seed=0, n_trials=1))
    except HpoError:
        ctx.nontrivial()
        return
    fail("invalid space accepted: %s", t)


cfg_tree = st.recursive(value, lambda c: st.dictionaries(st.sampled_from(KEYS), c, max_size=3), max_leaves=12)
cfg = st.dictionaries(st.sampled_from(KEYS), cfg_tree, max_size=4)


def ref_merge(a, b):
    out = {k: copy.deepcopy(v) for k, v in a.items()}
    for k, v in b.items():
        out[k] = ref_merge(a[k], v) if isinstance(a.get(k), dict) and isinstance(v, dict) else copy.deepcopy(v)
    return out


def scribble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x["__scribble__"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append("__scribble__")


@check("H03", st.fixed_dictionaries({"base": cfg, "patch": cfg, "patch2": cfg}), quick=1500, shards=2)
def merge(case, ctx):
    """base and patch share a key whose values are both mappings"""
    base, patch = copy.deepcopy(case["base"]), copy.deepcopy(case["patch"])
    want = ref_merge(case["base"], case["patch"])
    got = deep_merge(base, patch)
    require(got == want, "merge %s, wanted %s", got, want)
    require(base == case["base"] and patch == case["patch"], "merge modified its inputs")
    require(deep_merge(got, patch) == want, "merging twice differs")
    require(deep_merge(base, {}) == case["base"], "empty patch changes the configuration")
    scribble(got)
    require(base == case["base"] and patch == case["patch"], "result shares mutable state with its inputs")
    got2 = deep_merge(base, patch)
    scribble(patch)
    require(got2 == want, "later changes of the patch leak into the result")
    scribble(base)
    require(got2 == want, "later changes of the base leak into the result")
    # two patches one after the other behave like the reference
    b3 = deep_merge(deep_merge(case["base"], case["patch"]), case["patch2"])
    require(b3 == ref_merge(want, case["patch2"]), "sequence of patches")
    ctx.nontrivial(any(isinstance(case["base"].get(k), dict) and isinstance(v, dict) and v for k, v in case["patch"].items()))


@check("H03", st.fixed_dictionaries({"base": cfg, "space": tree(leaf_list, depth=2).filter(
    lambda t: math.prod(len(v) for _, v in leaves(t)) <= 60)}), quick=300)
def trials_do_not_leak(case, ctx):
    """at least two trials"""
    base = copy.deepcopy(case["base"])
    outs = []
    for t in Space.from_dict(case["space"]).iter_grid():
        outs.append((copy.deepcopy(t.patch), deep_merge(base, t.patch)))
    require(base == case["base"], "trials modified the base configuration")
    for patch, m in outs:
        require(m == ref_merge(case["base"], patch), "trial result leaked from another trial")
    ctx.nontrivial(len(outs) >= 2)
