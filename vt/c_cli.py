"""L01: the command line gives the library's answers.

Every command runs through the real Typer application against the same files, caches and
options as the library call it stands for.  "No traceback" means: the only exception that
reaches the top of the command is the SystemExit the command line framework ends with.
"""
from __future__ import annotations

import copy
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np
import yaml
from typer.testing import CliRunner

from . import c_preprocess as cp
from . import c_sampling as csam
from . import fakeprov
from .core import REPO, check, fail, require, st
from .eq import diff

from modssc.cli.app import app
from modssc.data_augmentation.registry import available_ops, op_info
from modssc.data_loader import api, load_dataset
from modssc.evaluation import evaluate, list_metrics
from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, build_graph, graph_to_views
from modssc.graph.artifacts import NodeDataset
from modssc.inductive import registry as ireg
from modssc.preprocess import available_models, available_steps, model_info, preprocess, step_info
from modssc.preprocess.errors import PreprocessError
from modssc.preprocess.plan import load_plan
from modssc.sampling.api import load_split, sample
from modssc.sampling.plan import SamplingPlan
from modssc.supervised import available_classifiers, classifier_info
from modssc.transductive import registry as treg

RUNNER = CliRunner()


def cli(*args, outage=False):
    r = RUNNER.invoke(app, [str(a) for a in args])
    if outage:
        require(r.exit_code != 0, "the command %s reports success although the library failed", " ".join(map(str, args)))
    elif r.exception is not None and not isinstance(r.exception, SystemExit):
        fail("the command %s ends in a traceback: %s: %s", " ".join(map(str, args)), type(r.exception).__name__, str(r.exception)[:300])
    return r


def good(*args):
    r = cli(*args)
    require(r.exit_code == 0, "the command %s must succeed, exit %s: %s", " ".join(map(str, args)), r.exit_code, r.output[-300:])
    return r.stdout


def refused(*args):
    r = cli(*args)
    require(r.exit_code != 0, "the command %s must be refused, printed %s", " ".join(map(str, args)), r.output[-300:])
    require(r.output.strip() != "", "the command %s is refused without a message", " ".join(map(str, args)))
    return r


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:  # noqa: BLE001
        return False, e


def jsoned(x):
    return json.loads(json.dumps(x))


def same_json(text, want, what):
    try:
        got = json.loads(text)
    except ValueError:
        fail("%s: output is not JSON: %s", what, text[:300])
    d = diff(got, jsoned(want), what)
    require(d is None, "%s", d)


# ---------------------------------------------------------------- evaluation
ARR = st.fixed_dictionaries({
    "kind": st.sampled_from(["int", "int", "int", "float", "scores", "onehot", "col", "bool", "str"]),
    "n": st.sampled_from([8, 5, 3, 2, 1, 0]), "c": st.integers(1, 5), "seed": st.integers(0, 10**6),
    "dtype": st.sampled_from(["int64", "int32", "uint8", "float64"])})


def make_arr(c, n=None):
    rng = np.random.default_rng(c["seed"])
    n = c["n"] if n is None else n
    k = c["kind"]
    if k == "int":
        return rng.integers(0, c["c"], n).astype(c["dtype"])
    if k == "float":
        return rng.integers(0, c["c"], n).astype("float64")
    if k == "scores":
        return rng.random((n, c["c"]))
    if k == "onehot":
        return np.eye(c["c"])[rng.integers(0, c["c"], n)]
    if k == "col":
        return rng.integers(0, c["c"], (n, 1))
    if k == "bool":
        return rng.random(n) < 0.5
    return np.array(["c%d" % i for i in rng.integers(0, c["c"], n)], dtype="<U4")


METRICS = st.lists(st.sampled_from(["accuracy", "macro_f1", "balanced_accuracy"]), max_size=4)


@check("L01", st.fixed_dictionaries({"t": ARR, "p": ARR, "same_n": st.sampled_from([True, True, True, False]), "metrics": METRICS,
                                     "bad": st.sampled_from([None, None, None, None, "acc", "Accuracy", ""]),
                                     "json": st.booleans()}), quick=250)
def evaluation_scores(case, ctx):
    """both files hold at least two samples and the library scores them"""
    d = Path(ctx.tmp())
    a = make_arr(case["t"])
    b = make_arr(case["p"], n=len(a) if case["same_n"] else None)
    np.save(d / "t.npy", a)
    np.save(d / "p.npy", b)
    metrics = list(case["metrics"])
    if case["bad"] is not None:
        metrics.append(case["bad"])
    args = ["evaluation", "compute", "--y-true", d / "t.npy", "--y-pred", d / "p.npy"]
    for i, m in enumerate(metrics):
        args += ["--metric" if i % 2 else "-m", m]
    if case["json"]:
        args.append("--json")
    ok, want = attempt(lambda: evaluate(a, b, metrics or ["accuracy", "macro_f1", "balanced_accuracy"]))
    if not ok:
        refused(*args)
        ctx.label("refused")
        return
    out = good(*args)
    if case["json"]:
        same_json(out, want, "scores")
    else:
        got = dict(l.split(": ") for l in out.strip().splitlines())
        d2 = diff({k: float(v) for k, v in got.items()}, {k: float(v) for k, v in want.items()}, "scores")
        require(d2 is None, "%s", d2)
    ctx.nontrivial(len(a) > 1)


@check("L01", st.fixed_dictionaries({"a": ARR, "which": st.sampled_from(["true", "pred"]),
                                     "how": st.sampled_from(["text", "empty", "cut", "pickle", "suffix", "missing", "folder", "npz", "header"]),
                                     "cut": st.integers(0, 200)}), quick=150)
def evaluation_bad_files(case, ctx):
    """the broken file is one numpy would otherwise start reading"""
    d = Path(ctx.tmp())
    a = make_arr({**case["a"], "kind": "int"}, n=8)
    np.save(d / "ok.npy", a)
    f = d / ("x.npy" if case["how"] != "suffix" else "x.txt")
    raw = (d / "ok.npy").read_bytes()
    how = case["how"]
    if how == "text":
        f.write_text("1 2 3\n")
    elif how == "empty":
        f.write_bytes(b"")
    elif how == "cut":
        f.write_bytes(raw[: min(case["cut"], len(raw) - 1)])
    elif how == "pickle":
        np.save(f, np.array([{"a": 1}, None], dtype=object), allow_pickle=True)
    elif how == "suffix":
        f.write_bytes(raw)
    elif how == "folder":
        f.mkdir()
    elif how == "npz":
        with open(f, "wb") as fh:
            np.savez(fh, a=a)
    elif how == "header":
        bad = bytearray(raw)
        bad[case["cut"] % 75] ^= 1 + case["cut"] % 31
        f.write_bytes(bytes(bad))
        if attempt(lambda: np.load(f))[0]:
            return
    ab = (f, d / "ok.npy") if case["which"] == "true" else (d / "ok.npy", f)
    refused("evaluation", "compute", "--y-true", ab[0], "--y-pred", ab[1])
    ctx.label(how)
    ctx.nontrivial(how in ("cut", "pickle", "npz", "header", "empty"))


# ---------------------------------------------------------------- sampling
def scratch(ctx, build=None):
    """A fresh data cache served by the fake provider; returns its folder."""
    fakeprov.reset()
    fakeprov.BUILD["fn"] = build
    return Path(ctx.tmp())


def write_obj(path, obj, style):
    if style == "json":
        path = path.with_suffix(".json")
        path.write_text(json.dumps(obj))
    else:
        path = path.with_suffix(".yaml")
        path.write_text(yaml.safe_dump(obj, sort_keys=style == "yaml"))
    return path


STYLE = st.sampled_from(["json", "yaml", "yml-order"])


def same_split(a, b, what):
    d = diff({"i": a.indices, "m": a.masks, "refs": dict(a.refs), "stats": jsoned(dict(a.stats)), "plan": jsoned(dict(a.plan)),
              "fp": a.split_fingerprint, "dfp": a.dataset_fingerprint, "v": a.schema_version},
             {"i": b.indices, "m": b.masks, "refs": dict(b.refs), "stats": jsoned(dict(b.stats)), "plan": jsoned(dict(b.plan)),
              "fp": b.split_fingerprint, "dfp": b.dataset_fingerprint, "v": b.schema_version}, what)
    require(d is None, "%s", d)


def snapshot(folder):
    return {str(p.relative_to(folder)): p.read_bytes() for p in sorted(Path(folder).rglob("*")) if p.is_file()}


@check("L01", st.fixed_dictionaries({"ds": csam.ds_strategy(), "plan": csam.plan_case, "plan2": csam.plan_case, "seed": csam.seed_case, "style": STYLE,
                                     "drop": st.lists(st.sampled_from(["split", "labeling", "imbalance", "policy"]), max_size=2),
                                     "over": st.booleans()}), quick=90, shards=3)
def sampling_commands(case, ctx):
    """a split is created and shown, validated and created again over itself"""
    build = lambda: csam.mk_dataset(case["ds"])  # noqa: E731
    cache = scratch(ctx, build)
    d = Path(ctx.tmp())
    ds = load_dataset("fake:set", cache_dir=cache)
    plan = {k: v for k, v in case["plan"].items() if k not in case["drop"]}
    f = write_obj(d / "plan", plan, case["style"])
    out = d / "out" / "split"
    base = ["--dataset", "fake:set", "--dataset-cache-dir", cache]
    args = ["sampling", "create", *base, "--plan", f, "--out", out, "--seed", case["seed"]]
    ok, res = attempt(lambda: sample(ds, plan=SamplingPlan.from_dict(plan), seed=case["seed"],
                                     dataset_fingerprint=ds.meta["dataset_fingerprint"])[0])
    if not ok:
        refused(*args)
        require(not out.exists(), "a refused plan leaves a split behind")
        refused("sampling", "show", out)
        ctx.label("refused")
        return
    text = good(*args)
    back = load_split(out)
    same_split(back, res, "created split")
    same_json(text, {"output_dir": str(out), "dataset_fingerprint": res.dataset_fingerprint, "split_fingerprint": res.split_fingerprint,
                     "stats": dict(res.stats)}, "create")
    same_json(good("sampling", "show", out), {"plan": dict(res.plan), "stats": dict(res.stats)}, "show")
    n, nt = len(ds.train.y), None if ds.test is None else len(ds.test.y)
    graph = ds.train.edges is not None or ds.train.masks is not None
    vok, _ = attempt(lambda: back.validate(n_train=n, n_test=nt, n_nodes=n if graph else None))
    require(vok, "a fresh split does not validate")
    require(good("sampling", "validate", out, *base).strip() == "OK", "validate")
    # a second create over it
    f2 = write_obj(d / "plan2", case["plan2"], case["style"])
    before = snapshot(out)
    args2 = ["sampling", "create", *base, "--plan", f2, "--out", out, "--seed", case["seed"] + 1]
    refused(*args2)
    require(snapshot(out) == before, "a refused overwrite changed the split")
    if case["over"]:
        ok2, res2 = attempt(lambda: sample(ds, plan=SamplingPlan.from_dict(case["plan2"]), seed=case["seed"] + 1,
                                           dataset_fingerprint=ds.meta["dataset_fingerprint"])[0])
        if ok2:
            good(*args2, "--overwrite")
            same_split(load_split(out), res2, "overwritten split")
        else:
            refused(*args2, "--overwrite")
            require(snapshot(out) == before, "a refused overwrite changed the split")
    # a split of this dataset judged against another one
    small = lambda: csam.mk_dataset({**case["ds"], "labels": {**case["ds"]["labels"], "counts": [1]}, "test": None})  # noqa: E731
    fakeprov.BUILD["fn"] = small
    load_dataset("fake:small", cache_dir=cache)
    now = load_split(out)
    o = load_dataset("fake:small", cache_dir=cache, download=False)
    g2 = o.train.edges is not None or o.train.masks is not None
    fits, _ = attempt(lambda: now.validate(n_train=1, n_test=None, n_nodes=1 if g2 else None))
    b2 = ["--dataset", "fake:small", "--dataset-cache-dir", cache]
    (good if fits else refused)("sampling", "validate", out, *b2)
    ctx.label("fits" if fits else "misfit")
    ctx.nontrivial(not fits)


BADPLAN = ["unknown", "unknown_in", "kind", "number", "list", "scalar", "text", "syntax", "empty_map", "mode", "nested"]


@check("L01", st.fixed_dictionaries({"ds": csam.ds_strategy(), "plan": csam.plan_case, "style": STYLE, "how": st.sampled_from(BADPLAN),
                                     "at": st.integers(0, 10**6)}), quick=120)
def sampling_bad_plans(case, ctx):
    """the library refuses the plan"""
    build = lambda: csam.mk_dataset(case["ds"])  # noqa: E731
    cache = scratch(ctx, build)
    d = Path(ctx.tmp())
    plan = copy.deepcopy(case["plan"])
    secs = sorted(plan)
    sec = secs[case["at"] % len(secs)]
    keys = sorted(plan[sec])
    key = keys[(case["at"] // 7) % len(keys)]
    how = case["how"]
    raw = None
    if how == "unknown":
        plan["splits"] = {}
    elif how == "unknown_in":
        plan[sec]["fractoin"] = 1
    elif how == "kind":
        plan["split"]["kind"] = "loo"
    elif how == "number":
        plan[sec][key] = "many"
    elif how == "nested":
        plan[sec][key] = [plan[sec][key]]
    elif how == "list":
        plan = [plan]
    elif how == "scalar":
        plan[sec] = "yes"
    elif how == "text":
        plan = "holdout"
    elif how == "mode":
        plan["labeling"]["mode"] = "percent"
    elif how == "empty_map":
        plan[sec] = None
    elif how == "syntax":
        raw = "{split: [" if case["style"] != "json" else '{"split": '
    f = write_obj(d / "plan", plan, case["style"])
    if raw:
        f.write_text(raw)
    ds = load_dataset("fake:set", cache_dir=cache)

    def lib():
        obj = json.loads(f.read_text()) if f.suffix == ".json" else yaml.safe_load(f.read_text())
        if not isinstance(obj, dict):
            raise ValueError("not a mapping")
        return sample(ds, plan=SamplingPlan.from_dict(obj), seed=3, dataset_fingerprint=ds.meta["dataset_fingerprint"])[0]
    ok, res = attempt(lib)
    out = d / "out"
    args = ["sampling", "create", "--dataset", "fake:set", "--dataset-cache-dir", cache, "--plan", f, "--out", out, "--seed", "3"]
    if ok:
        good(*args)
        same_split(load_split(out), res, "created split")
    else:
        refused(*args)
        require(not out.exists(), "a refused plan leaves a split behind")
    ctx.label("%s:%s" % (how, "ok" if ok else "refused"))
    ctx.nontrivial(not ok)


@check("L01", st.fixed_dictionaries({"ds": csam.ds_strategy(), "seed": st.integers(0, 99),
                                     "how": st.sampled_from(["missing", "no_json", "no_npz", "cut_json", "cut_npz", "empty_json", "not_map", "no_key", "file"]),
                                     "cut": st.integers(0, 300)}), quick=80)
def sampling_bad_folders(case, ctx):
    """the folder holds a damaged split"""
    cache = scratch(ctx, lambda: csam.mk_dataset(case["ds"]))
    d = Path(ctx.tmp())
    ds = load_dataset("fake:set", cache_dir=cache)
    (d / "plan.json").write_text("{}")
    out = d / "out"
    ok, _ = attempt(lambda: sample(ds, plan=SamplingPlan(), seed=0, dataset_fingerprint="x"))
    base = ["--dataset", "fake:set", "--dataset-cache-dir", cache]
    args = ["sampling", "create", *base, "--plan", d / "plan.json", "--out", out]
    if not ok:
        refused(*args)
        return
    good(*args)
    j, z = out / "split.json", out / "arrays.npz"
    how = case["how"]
    if how == "missing":
        shutil.rmtree(out)
    elif how == "no_json":
        j.unlink()
    elif how == "no_npz":
        z.unlink()
    elif how == "cut_json":
        j.write_text(j.read_text()[: case["cut"] % (len(j.read_text()) - 2)])
    elif how == "cut_npz":
        z.write_bytes(z.read_bytes()[: case["cut"] % (len(z.read_bytes()) - 1)])
    elif how == "empty_json":
        j.write_text("")
    elif how == "not_map":
        j.write_text("[1, 2]")
    elif how == "no_key":
        m = json.loads(j.read_text())
        m.pop(sorted(["schema_version", "created_at", "dataset_fingerprint", "split_fingerprint", "plan"])[case["cut"] % 5])
        j.write_text(json.dumps(m))
    elif how == "file":
        shutil.rmtree(out)
        out.write_text("hello")
    refused("sampling", "show", out)
    refused("sampling", "validate", out, *base)
    refused("sampling", "validate", d / "nowhere", *base)
    refused("sampling", "validate", out, "--dataset", "fake:never", "--dataset-cache-dir", cache)
    ctx.label(how)
    ctx.nontrivial()


# ---------------------------------------------------------------- preprocessing
@st.composite
def prep_case(draw):
    ds = draw(cp.ds_case(mods=("tabular", "tabular", "text", "vision", "graph")))
    return {"ds": ds, "plan": draw(cp.plan_case(ds)), "seed": draw(st.integers(0, 99)), "no_cache": draw(st.booleans()),
            "purge": draw(st.booleans()), "bad": draw(st.sampled_from([None, None, None, "step", "param", "root", "steps", "syntax", "noid"]))}


@check("L01", prep_case(), quick=150, shards=2)
def preprocess_run(case, ctx):
    """the plan has at least two steps and runs"""
    cache = scratch(ctx, lambda: cp.make_ds(case["ds"]))
    d = Path(ctx.tmp())
    p = copy.deepcopy(case["plan"])
    bad = case["bad"]
    if bad == "step":
        p["steps"].append({"id": "core.nope", "params": {}})
    elif bad == "param" and p["steps"]:
        p["steps"][-1]["params"]["no_such_parameter"] = 1
    elif bad == "root":
        p = [p]
    elif bad == "steps":
        p["steps"] = 3
    elif bad == "noid":
        p["steps"].append({"params": {}})
    f = d / "plan.yaml"
    f.write_text(yaml.safe_dump(p) if bad != "syntax" else "steps: [")
    got_ds, ds = attempt(lambda: [load_dataset("fake:set", cache_dir=cache) for _ in range(2)][1])
    if not got_ds:
        return

    def lib():
        return preprocess(ds, load_plan(f), seed=case["seed"], fit_indices=np.arange(ds.train.y.shape[0], dtype=np.int64),
                          cache=not case["no_cache"], purge_unused_artifacts=case["purge"])
    args = ["preprocess", "run", "--plan", f, "--dataset", "fake:set", "--dataset-cache-dir", cache, "--seed", case["seed"]]
    args += ["--no-cache"] if case["no_cache"] else []
    args += ["--purge-unused"] if case["purge"] else []
    ok, res = attempt(lib)
    if bad == "noid":
        require(not ok, "a step without an id runs")
    if not ok and not isinstance(res, (PreprocessError, ValueError, TypeError, OSError, yaml.YAMLError)):
        cli(*args, outage=True)  # a step that gives way on unsuitable data
        return
    if not ok:
        refused(*args)
        ctx.label("refused %s" % res)
        return
    same_json(good(*args), {"dataset": "fake:set", "output_key": load_plan(f).output_key,
                            "train_X_shape": list(s) if (s := getattr(res.dataset.train.X, "shape", None)) is not None else None,
                            "preprocess_fingerprint": res.preprocess_fingerprint, "cache_dir": res.cache_dir}, "preprocess run")
    ctx.nontrivial(len(case["plan"]["steps"]) > 1)


# ---------------------------------------------------------------- datasets
OPS = st.one_of(
    st.tuples(st.just("get"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("purge"), st.integers(0, 3), st.sampled_from(["name", "fp", "fpbad", "uri"])),
    st.tuples(st.just("gc"), st.integers(0, 1), st.booleans()),
    st.tuples(st.just("version"), st.integers(0, 3), st.integers(0, 1)),
    st.tuples(st.just("fail"), st.integers(0, 3), st.booleans()),
).map(list)


@check("L01", st.fixed_dictionaries({"ops": st.lists(OPS, min_size=1, max_size=8)}), quick=40)
def dataset_commands(case, ctx):
    """something was cached and then purged or collected"""
    a, b = scratch(ctx), Path(ctx.tmp())
    cli_gen, did, cached = {}, set(), False
    uris = ["fake:a", "fake:b", "fake:b@2", "fake:c"]

    def contents(root):
        rows = api.cache.index_list(api._layout(root))
        return sorted((r["fingerprint"], r["canonical_uri"], r.get("size_bytes", 0)) for r in rows)

    for op in case["ops"]:
        u = uris[op[1] % 4]
        if op[0] == "get":
            ok, _ = attempt(lambda: api.download_dataset(u, cache_dir=b, force=op[2]))
            (good if ok else refused)("datasets", "download", "--dataset", u, "--cache-dir", a, *(["--force"] if op[2] else []))
            cached |= ok
        elif op[0] == "fail":
            fakeprov.FAIL["on"] = True
            try:
                ok, _ = attempt(lambda: api.download_dataset(u, cache_dir=b, force=op[2]))
                args = ("datasets", "download", "--dataset", u, "--cache-dir", a, *(["--force"] if op[2] else []))
                good(*args) if ok else cli(*args, outage=True)
                did.add("fail")
            finally:
                fakeprov.FAIL["on"] = False
        elif op[0] == "purge":
            have = contents(b)
            if op[2] in ("fp", "fpbad"):
                fp = have[op[1] % len(have)][0] if have and op[2] == "fp" else "0" * 64
                ok, _ = attempt(lambda: api.cache.purge_fingerprint(api._layout(b), fp))
                (good if ok else refused)("datasets", "cache", "purge", fp, "--fingerprint", "--cache-dir", a)
            else:
                name = u if op[2] == "uri" else u.split(":")[1]
                ok, n = attempt(lambda: api.cache.purge_dataset(api._layout(b), name))
                if ok:
                    out = good("datasets", "cache", "purge", name, "--cache-dir", a)
                    require(out.strip() == "Purged variants: %d" % len(n), "purge says %s, the library removed %d", out, len(n))
                else:
                    refused("datasets", "cache", "purge", name, "--cache-dir", a)
            did.add("purge")
        elif op[0] == "gc":
            if op[2]:
                removed = api.cache.gc_keep_latest(api._layout(b))
                out = good("datasets", "cache", "gc", "--cache-dir", a)
                require(out.strip() == "Removed: %d" % len(removed), "gc says %s, the library removed %d", out, len(removed))
            else:
                good("datasets", "cache", "gc", "--no-keep-latest", "--cache-dir", a)
            did.add("gc")
        la, lb = [x[:2] for x in contents(a)], [x[:2] for x in contents(b)]
        require(la == lb, "after %s the command's cache holds %s, the library's %s", op, la, lb)
        listed = sorted(good("datasets", "cache", "ls", "--cache-dir", a).split("\n"))
        require([x for x in listed if x] == sorted("%s %s %s" % r for r in contents(a)), "cache ls lists %s", listed)
    for u in uris:
        ok, want = attempt(lambda: load_dataset(u, cache_dir=b, download=False))
        ok2, got = attempt(lambda: load_dataset(u, cache_dir=a, download=False))
        require(ok == ok2, "%s: cached for one and not for the other", u)
        if ok:
            d = diff({"X": got.train.X, "y": got.train.y}, {"X": want.train.X, "y": want.train.y}, u)
            require(d is None, "%s", d)
    ctx.nontrivial(cached and did & {"purge", "gc"})


# ---------------------------------------------------------------- graphs
GSPEC = st.fixed_dictionaries({}, optional={
    "scheme": st.sampled_from(["knn", "epsilon", "anchor"]), "metric": st.sampled_from(["cosine", "euclidean"]), "k": st.integers(1, 6),
    "radius": st.sampled_from([0.3, 0.5, 1.5]), "symmetrize": st.sampled_from(["none", "or", "mutual"]),
    "normalize": st.sampled_from(["none", "rw"]), "self_loops": st.booleans(), "backend": st.sampled_from(["auto", "numpy", "sklearn"]),
    "chunk_size": st.integers(1, 20), "n_anchors": st.integers(1, 4), "anchors_k": st.integers(1, 3), "candidate_limit": st.integers(2, 30),
    "anchors_method": st.sampled_from(["random", "kmeans"])})
GBAD = {"scheme": "mesh", "metric": "l1", "k": 0, "radius": -1.0, "symmetrize": "max", "normalize": "col", "backend": "gpu", "chunk_size": 0,
        "n_anchors": 0, "anchors_k": "x", "weights": None, "candidate_limit": [3], "kk": 3, "feature_field": "features.X"}


@check("L01", st.fixed_dictionaries({"n": st.integers(4, 15), "seed": st.integers(0, 99), "spec": GSPEC, "style": STYLE,
                                     "weights": st.sampled_from([{}, {"kind": "binary"}, {"kind": "heat", "sigma": 0.7}, {"kind": "heat"}, {"kind": "cosine"}]),
                                     "file": st.booleans(), "bad": st.sampled_from([None, None, None] + sorted(GBAD)),
                                     "text": st.sampled_from([False, False, False, True]), "shard": st.sampled_from([None, None, 5, 0]),
                                     "cache": st.booleans()}), quick=150, shards=2)
def graph_build(case, ctx):
    """a graph with edges is built"""
    def build():
        rng = np.random.default_rng(case["seed"])
        X = rng.normal(size=(case["n"], 3)) if not case["text"] else np.array(["t%d" % i for i in range(case["n"])], dtype=object)
        return csam.LoadedDataset(train=csam.Split(X=X, y=rng.integers(0, 2, case["n"])), test=None, meta={})
    cache, d = scratch(ctx, build), Path(ctx.tmp())
    ds = load_dataset("fake:set", cache_dir=cache)
    spec = dict(case["spec"])
    if case["bad"]:
        spec[case["bad"]] = GBAD[case["bad"]]
    args = ["graph", "build", "--dataset", "fake:set", "--dataset-cache-dir", cache, "--seed", case["seed"], "--cache-dir", d / "one"]
    args += [] if case["cache"] else ["--no-cache"]
    if case["shard"] is not None:
        args += ["--edge-shard-size", case["shard"]]
    if case["file"]:
        if case["weights"] and "weights" not in spec:
            spec["weights"] = case["weights"]
        f = write_obj(d / "spec", spec, case["style"])
        args += ["--spec", f]
    else:
        flags = ("scheme", "metric", "k", "radius", "backend", "chunk_size", "n_anchors", "anchors_k", "candidate_limit", "anchors_method")
        spec = {k: v for k, v in spec.items() if k in flags and not isinstance(v, (list, dict)) and v is not None}
        for k, v in spec.items():
            args += ["--" + k.replace("_", "-"), v]

    def lib():
        if case["file"]:
            if set(spec) - set(GraphBuilderSpec().to_dict()):
                raise ValueError("unknown keys")
            if "weights" in spec and spec["weights"] is None:
                raise ValueError("weights")
            s = GraphBuilderSpec.from_dict(spec)
        else:
            s = GraphBuilderSpec(**{"scheme": "knn", "metric": "cosine", "k": 30, "radius": 0.5, **spec})
        s.validate()
        return build_graph(ds.train.X, spec=s, seed=case["seed"], cache=case["cache"], cache_dir=str(d / "two"), edge_shard_size=case["shard"])
    ok, g = attempt(lib)
    if not ok:
        refused(*args)
        ctx.label("refused %s" % type(g).__name__)
        return
    same_json(good(*args), {"fingerprint": g.meta.get("fingerprint"), "n_nodes": g.n_nodes, "n_edges": int(g.edge_index.shape[1])}, "graph build")
    if case["cache"]:
        from modssc.graph.cache import GraphCache
        one, two = GraphCache(d / "one"), GraphCache(d / "two")
        require(list(one.list()) == list(two.list()) and len(list(one.list())) == 1, "stored graphs differ")
        x, y = one.load(g.meta["fingerprint"])[0], two.load(g.meta["fingerprint"])[0]
        q = diff({"e": x.edge_index, "w": x.edge_weight}, {"e": y.edge_index, "w": y.edge_weight}, "stored graph")
        require(q is None, "%s", q)
    ctx.nontrivial(g.edge_index.shape[1] > 0)


def mostly(good, bad):
    """A value drawn from good eight times in nine."""
    return st.sampled_from([*good * (1 + 11 // len(good)), *bad])


VIEWOPT = st.fixed_dictionaries({}, optional={
    "diffusion_steps": mostly([1, 3, 0, 2], [-1]), "diffusion_alpha": mostly([0.5, 0.0, 0.1, 1.0], [1.5]),
    "struct_method": mostly(["deepwalk", "node2vec"], ["line"]), "struct_dim": mostly([2, 3, 4], [0]),
    "walk_length": mostly([3, 5, 2], [1]), "num_walks_per_node": mostly([1, 2], [0]), "window_size": mostly([1, 2], [0]),
    "p": mostly([1.0, 0.5], [0.0]), "q": mostly([1.0, 2.0], [-1.0])})


@check("L01", st.fixed_dictionaries({"n": st.integers(4, 12), "seed": st.integers(0, 99),
                                     "views": st.lists(mostly(["attr", "diffusion", "struct", "diffusion", "struct"], ["nope"]), min_size=1, max_size=3, unique=True),
                                     "opt": VIEWOPT, "g": st.fixed_dictionaries({"k_graph": mostly([3, 2, 1, 5], [0])},
                                                                                optional={"scheme": mostly(["knn", "epsilon"], ["mesh"]),
                                                                                          "radius": mostly([0.5, 2.0], [0.0]), "metric": st.sampled_from(["cosine", "euclidean"])}),
                                     "cache": st.booleans()}), quick=80)
def graph_views(case, ctx):
    """at least one computed view is built"""
    def build():
        rng = np.random.default_rng(case["seed"])
        return csam.LoadedDataset(train=csam.Split(X=rng.normal(size=(case["n"], 3)), y=rng.integers(0, 2, case["n"])), test=None, meta={})
    cache, d = scratch(ctx, build), Path(ctx.tmp())
    ds = load_dataset("fake:set", cache_dir=cache)
    args = ["graph", "views", "build", "--dataset", "fake:set", "--dataset-cache-dir", cache, "--seed", case["seed"], "--cache-dir", d / "one"]
    for v in case["views"]:
        args += ["--views", v]
    for k, v in {**case["opt"], **case["g"]}.items():
        args += ["--" + k.replace("_", "-"), v]
    args += [] if case["cache"] else ["--no-cache"]

    def lib():
        gk = {("k" if k == "k_graph" else k): v for k, v in case["g"].items()}
        g = build_graph(ds.train.X, spec=GraphBuilderSpec(**{"scheme": "knn", "metric": "cosine", "k": 30, "radius": 0.5, **gk}), seed=case["seed"], cache=False)
        fs = GraphFeaturizerSpec(views=tuple(case["views"] or ["attr"]), **{"struct_dim": 64, **case["opt"]}, cache=case["cache"])
        return graph_to_views(NodeDataset(X=ds.train.X, y=ds.train.y, graph=g, masks={}), spec=fs, seed=case["seed"], cache_dir=str(d / "two"))
    ok, res = attempt(lib)
    if not ok:
        refused(*args)
        ctx.label("refused %s" % res)
        return
    same_json(good(*args), {"fingerprint": res.meta.get("fingerprint"), "views": list(res.views.keys())}, "graph views build")
    ctx.label("+".join(sorted(case["views"])))
    ctx.nontrivial(set(case["views"]) & {"diffusion", "struct"})


# ---------------------------------------------------------------- catalogues
def catalogues():
    return {
        "steps": (["preprocess", "steps"], available_steps, step_info, []),
        "models": (["preprocess", "models"], available_models, model_info, []),
        "ops": (["augmentation"], available_ops, op_info, ["--as-json"]),
        "classifiers": (["supervised"], lambda: [c["key"] for c in available_classifiers()], classifier_info, []),
        "inductive": (["inductive", "methods"], lambda: ireg.available_methods(available_only=False), None, []),
        "transductive": (["transductive", "methods"], lambda: treg.available_methods(available_only=False), None, []),
        "datasets": (["datasets"], api.available_datasets, lambda k: api.dataset_info(k).as_dict(), None),
    }


def near(name, how, at):
    i = at % max(1, len(name))
    return {"drop": name[:i] + name[i + 1:], "dup": name[:i] + name[i:i + 1] + name[i:], "upper": name.upper(), "space": name + " ",
            "prefix": name[: max(1, len(name) // 2)], "dash": name.replace("_", "-"), "dot": name + ".x", "unicode": name + "é"}[how]


@check("L01", st.fixed_dictionaries({"cat": st.sampled_from(["steps", "models", "ops", "classifiers", "inductive", "transductive", "datasets"]),
                                     "i": st.integers(0, 10**4), "mutate": st.sampled_from([None, None, "drop", "dup", "upper", "space", "prefix", "dash", "dot", "unicode"]),
                                     "at": st.integers(0, 40)}), quick=250)
def catalogue_commands(case, ctx):
    """the entry is described, or a near miss of it is refused"""
    cmd, names, info, extra = catalogues()[case["cat"]]
    ids = sorted(names())
    name = ids[case["i"] % len(ids)]
    listing = good(*cmd, "list")
    if case["cat"] == "classifiers":
        got = sorted(l.split(":")[0] for l in listing.splitlines() if l and not l.startswith(" "))
    else:
        got = sorted(l for l in listing.splitlines() if l)
    require(got == ids, "%s list prints %s", " ".join(cmd), got)
    q = near(name, case["mutate"], case["at"]) if case["mutate"] else name
    if q.startswith("-") or not q:
        return
    args = [*cmd, "info", *(["--dataset", q] if extra is None else [q, *extra])]
    if q in ids:
        if info is None:
            reg = ireg if case["cat"] == "inductive" else treg
            ok, mi = attempt(lambda: reg.get_method_info(q))
            r = cli(*args)
            require((r.exit_code == 0) == ok, "%s: exit %s", q, r.exit_code)
            p = json.loads(r.stdout)
            require(p["method_id"] == q and p["import_path"] == reg._debug_registry()[q], "%s described as %s", q, p)
            if ok:
                from dataclasses import asdict
                dd = diff(p["info"], jsoned(asdict(mi)), q)
                require(dd is None, "%s", dd)
        else:
            same_json(good(*args), info(q), q)
        ctx.nontrivial()
    else:
        if case["cat"] == "datasets" and attempt(lambda: info(q))[0]:
            return
        r = refused(*args)
        require(q.strip() in r.output or ascii(q.strip())[1:-1] in r.output, "%s is refused without naming it: %s", q, r.output[-200:])
        ctx.label("refused")
        ctx.nontrivial()


# ---------------------------------------------------------------- the real process
@check("L01", st.fixed_dictionaries({"cmd": st.sampled_from(["metrics", "compute", "badplan", "unknown", "version", "create", "loglevel"]), "seed": st.integers(0, 3)}), quick=25)
def real_process(case, ctx):
    """the command really ran in its own process"""
    d = Path(ctx.tmp())
    y = np.random.default_rng(case["seed"]).integers(0, 3, 9)
    np.save(d / "t.npy", y)
    np.save(d / "p.npy", y[::-1])
    (d / "bad.yaml").write_text("split: {kind: loo}\n")
    (d / "ok.yaml").write_text("split: {kind: holdout}\n")
    cmd = {"metrics": ["evaluation", "list"], "compute": ["evaluation", "compute", "--y-true", d / "t.npy", "--y-pred", d / "p.npy", "--json"],
           "badplan": ["sampling", "create", "--dataset", "toy", "--plan", d / "bad.yaml", "--out", d / "o"],
           "create": ["sampling", "create", "--dataset", "toy", "--plan", d / "ok.yaml", "--out", d / "o", "--seed", case["seed"]],
           "unknown": ["preprocess", "steps", "info", "core.nope"], "version": ["--version"], "loglevel": ["--log-level", "shout", "evaluation", "list"]}[case["cmd"]]
    env = {**os.environ, "PYTHONPATH": os.path.join(REPO, "src"), "PYTHONDONTWRITEBYTECODE": "1"}
    r = subprocess.run([sys.executable, "-c", "from modssc.cli.app import app; app()", *map(str, cmd)], capture_output=True, text=True, env=env, cwd=d, timeout=100)
    require("Traceback" not in r.stderr and "Traceback" not in r.stdout, "traceback: %s", r.stderr[-400:])
    bad = case["cmd"] in ("badplan", "unknown", "loglevel")
    require((r.returncode != 0) == bad, "%s ends with %d: %s", case["cmd"], r.returncode, r.stderr[-300:])
    if case["cmd"] == "metrics":
        require(r.stdout.split() == list(list_metrics()), "metrics %s", r.stdout)
    if case["cmd"] == "compute":
        same_json(r.stdout, evaluate(y, y[::-1], ["accuracy", "macro_f1", "balanced_accuracy"]), "scores")
    ctx.nontrivial()
