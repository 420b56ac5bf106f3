"""B01-B11: the benchmark runner (seeds, configuration, limits, slicing, search, end-to-end runs)."""
from __future__ import annotations

import contextlib
import copy
import dataclasses
import hashlib
import json
import logging
import math
import os
import pathlib
import shutil
import statistics
import subprocess
import sys
import zlib

import numpy as np
import scipy.sparse as sp
import torch
import yaml

from .core import REPO, HarnessError, check, fail, require, st
from .eq import diff
from . import fakeprov, spybench

import sklearn.linear_model  # noqa: F401  (first imports draw from global generators)
import bench.main as bmain
from bench.context import next_available_run_dir
from bench.errors import extract_error_code
from bench.limits import apply_limits, resolve_limits
from bench.orchestrators.reporting import write_seed_sweep_summary
from bench.orchestrators.slicing import select_rows
from bench.schema import BenchConfigError, ExperimentConfig
from bench.seed_sweep import apply_global_seed, sweep_run_name
from bench.utils.hashing import derive_seed, hash_any, stable_hash
from bench.utils.io import dump_yaml, load_yaml
from modssc.data_loader.types import LoadedDataset, Split

logging.getLogger("bench").setLevel(logging.CRITICAL)
logging.getLogger("modssc").setLevel(logging.CRITICAL)

SECTIONS = ("sampling", "preprocess", "views", "graph", "augmentation", "search")

# ----------------------------------------------------------------------------- configurations
word = st.sampled_from(["alpha", "b-1", "run_x", "T", "zz", "a.b", "ü"])
anyval = st.recursive(st.one_of(st.integers(-9, 9), st.booleans(), st.none(), word, st.sampled_from([0.5, 1e-4])),
                      lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(word, c, max_size=3)), max_leaves=6)
anymap = st.dictionaries(st.sampled_from(["p", "q", "max_iter", "batch_size", "k"]), anyval, max_size=3)
somemap = st.dictionaries(st.sampled_from(["steps", "views", "split", "labeling"]), anyval, min_size=1, max_size=3)
seedv = st.integers(0, 2 ** 32 - 1) | st.integers(0, 20)
oseed = st.none() | seedv


def opt(**kw):
    return st.fixed_dictionaries({}, optional=kw)


leaf = st.one_of(st.lists(st.integers(0, 5) | st.sampled_from([0.1, "a", True]), min_size=1, max_size=3),
                 st.fixed_dictionaries({"dist": st.just("choice"), "values": st.lists(st.integers(0, 5), min_size=1, max_size=3)}))
space = st.dictionaries(st.sampled_from(["k", "lr", "opts"]),
                        leaf | st.dictionaries(st.sampled_from(["x", "y"]), leaf, min_size=1, max_size=2), min_size=1, max_size=2
                        ).map(lambda p: {"method": {"params": p}})
objective = st.fixed_dictionaries({"split": st.sampled_from(["train", "val", "test"]),
                                   "metric": st.sampled_from(["accuracy", "macro_f1", "balanced_accuracy"]),
                                   "direction": st.sampled_from(["maximize", "minimize"]), "aggregate": st.just("mean")})


@st.composite
def config(draw):
    raw = {
        "run": {"name": draw(word), **draw(opt(seed=seedv, output_dir=st.sampled_from(["out", "/tmp/x y"]),
                                              seeds=st.lists(seedv, min_size=1, max_size=3, unique=True) | st.none(),
                                              fail_fast=st.just(True), log_level=st.sampled_from(["basic", None]),
                                              benchmark_mode=st.booleans(), allow_custom_factories=st.booleans()))},
        "dataset": {"id": draw(st.sampled_from(["toy", "cora", "openml:31"])),
                    **draw(opt(options=anymap | st.none(), download=st.booleans(), cache_dir=st.sampled_from([None, "c"])))},
        "sampling": {"plan": draw(somemap), **draw(opt(seed=oseed))},
        "preprocess": {"plan": draw(somemap), **draw(opt(seed=oseed, fit_on=st.sampled_from([None, "train"]), cache=st.booleans(),
                                                         cache_dir=st.sampled_from([None, "pc"])))},
        "method": {"kind": draw(st.sampled_from(["inductive", "transductive"])), "id": draw(word),
                   **draw(opt(device=opt(device=st.sampled_from(["cpu", "auto"]), dtype=st.just("float64"),
                                         resolved_device=st.sampled_from([None, "cpu"])), params=anymap | st.none()))},
        "evaluation": {"report_splits": draw(st.lists(st.sampled_from(["train", "val", "test"]), min_size=1, max_size=3)),
                       "metrics": draw(st.lists(st.sampled_from(["accuracy", "macro_f1"]), min_size=1, max_size=2)),
                       **draw(opt(split_for_model_selection=st.sampled_from([None, "val"])))},
    }
    if draw(st.booleans()):
        raw["limits"] = draw(st.none() | opt(profile=st.sampled_from([None, "auto", "v100", "h100"]),
                                             **{k: st.none() | st.integers(1, 2000) for k in LIMIT_KEYS}))
    if draw(st.booleans()):
        raw["views"] = {"plan": draw(somemap), **draw(opt(seed=oseed))}
    if draw(st.booleans()):
        raw["graph"] = draw(opt(enabled=st.booleans(), seed=oseed, cache=st.booleans(), cache_dir=st.sampled_from([None, "g"]), spec=anymap))
    if draw(st.booleans()):
        raw["augmentation"] = draw(opt(enabled=st.booleans(), seed=oseed, mode=st.sampled_from(["fixed", "online"]), weak=anymap,
                                       strong=anymap, modality=st.sampled_from([None, "tabular"])))
    if draw(st.booleans()):
        raw["search"] = {"enabled": draw(st.booleans()), "kind": draw(st.sampled_from(["grid", "random"])), "objective": draw(objective),
                         "space": draw(space), "seed": draw(seedv), "n_trials": draw(st.integers(1, 30)),
                         **draw(opt(repeats=st.none() | st.integers(1, 3)))}
        if raw["search"]["kind"] == "grid":
            for k in draw(st.lists(st.sampled_from(["seed", "n_trials"]), unique=True)):
                del raw["search"][k]
    m = draw(st.sampled_from(["none", "clf", "factory"]))
    if m == "clf":
        raw["method"]["model"] = {"classifier_id": draw(word), **draw(opt(classifier_backend=word, classifier_params=anymap,
                                                                          ema=st.none() | st.booleans()))}
    elif m == "factory":
        raw["run"]["allow_custom_factories"] = True
        raw["method"]["model"] = {"factory": "a.b:c", **draw(opt(params=anymap))}
    return raw


LIMIT_KEYS = ("max_preprocess_batch_size", "max_method_batch_size", "max_method_sup_batch_size", "max_graph_chunk_size",
              "max_train_samples", "max_test_samples")


# ----------------------------------------------------------------------------- B01
labels_ = st.one_of(st.sampled_from(list(SECTIONS) + ["method"]), st.builds("hpo-trial-{}-repeat-{}".format, st.integers(0, 40), st.integers(0, 4)))


@check("B01", st.fixed_dictionaries({"seeds": st.lists(seedv, min_size=1, max_size=6, unique=True), "labels": st.lists(labels_, min_size=2, max_size=12, unique=True)}),
       quick=250, thorough=6000)
def section_seeds(case, ctx):
    """At least two labels and two master seeds."""
    ctx.nontrivial(len(case["seeds"]) > 1)
    seen = {}
    for s in case["seeds"]:
        for l in case["labels"]:
            v = derive_seed(s, l)
            require(isinstance(v, int) and 0 <= v < 2 ** 32, "derived seed %r is outside what numpy accepts", v)
            np.random.RandomState(v)
            require(derive_seed(s, l) == v, "deriving twice differs")
            require(v not in seen, "sections %r and %r get the same seed %d", seen.get(v), (s, l), v)
            seen[v] = (s, l)


@check("B01", st.fixed_dictionaries({"seeds": st.lists(seedv, min_size=2, max_size=6), "labels": st.lists(labels_, min_size=2, max_size=8),
                                     "raw": config(), "hs": st.integers(0, 4)}), quick=5, thorough=40)
def seeds_and_hashes_across_processes(case, ctx):
    """A second interpreter with another hash seed was asked the same questions."""
    code = ("import sys,json\nsys.path[:0]=%r\nfrom bench.utils.hashing import derive_seed,hash_any\nc=json.load(sys.stdin)\n"
            "print(json.dumps([[derive_seed(s,l) for s in c['seeds'] for l in c['labels']],hash_any(c['raw'])]))" % [REPO + "/src", REPO])
    env = dict(os.environ, PYTHONHASHSEED=str(case["hs"] + 1))
    p = subprocess.run([sys.executable, "-c", code], input=json.dumps(case), capture_output=True, text=True, env=env, cwd="/")
    require(p.returncode == 0, "%s", p.stderr[-800:])
    got = json.loads(p.stdout)
    require(got[0] == [derive_seed(s, l) for s in case["seeds"] for l in case["labels"]], "another process derives other seeds")
    require(got[1] == hash_any(case["raw"]), "another process hashes the same configuration differently")
    ctx.nontrivial()


@check("B01", st.fixed_dictionaries({"raw": config(), "seed": seedv, "name": st.none() | word}), quick=150, thorough=4000)
def sweep_seed_alignment(case, ctx):
    """The configuration has at least one optional seeded section."""
    raw = case["raw"]
    before = copy.deepcopy(raw)
    out = apply_global_seed(raw, seed=case["seed"], run_name=case["name"])
    d = diff(raw, before, "config")
    require(d is None, "preparing a sweep run changed the base configuration: %s", d)
    ctx.nontrivial(any(s in raw for s in ("views", "graph", "augmentation", "search")))
    want = copy.deepcopy(before)
    want["run"].pop("seeds", None)
    want["run"]["seed"] = case["seed"]
    if case["name"] is not None:
        want["run"]["name"] = case["name"]
    for s in SECTIONS:
        if isinstance(want.get(s), dict):
            want[s]["seed"] = case["seed"]
    d = diff(out, want, "config")
    require(d is None, "sweep configuration: %s", d)
    for path in (["dataset"], ["method"], ["sampling", "plan"]):
        a, b = out, raw
        for k in path:
            a, b = a[k], b[k]
        require(a is not b, "the sweep configuration shares %s with the base configuration", path)
    ExperimentConfig.from_dict(out)


@check("B01", st.fixed_dictionaries({"a": config(), "key": st.integers(0, 999)}), quick=100, thorough=2500)
def configuration_hash(case, ctx):
    """The configuration was changed in one leaf."""
    raw = case["a"]
    h = hash_any(raw)

    def rev(x):
        if isinstance(x, dict):
            return {k: rev(x[k]) for k in reversed(list(x))}
        return [rev(v) for v in x] if isinstance(x, list) else x
    require(hash_any(rev(raw)) == h and stable_hash(rev(raw)) == stable_hash(raw), "key order changes the hash of a configuration")
    leaves = []

    def walk(x, p):
        if isinstance(x, dict):
            for k in x:
                walk(x[k], p + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                walk(v, p + [i])
        else:
            leaves.append(p)
    walk(raw, [])
    p = leaves[case["key"] % len(leaves)]
    other = copy.deepcopy(raw)
    n = other
    for k in p[:-1]:
        n = n[k]
    n[p[-1]] = "changed!" if n[p[-1]] != "changed!" else "again"
    require(hash_any(other) != h, "configurations that differ at %s have one hash", p)
    ctx.nontrivial()


# ----------------------------------------------------------------------------- B02
NAMES = ["VT_A", "VT_B", "_VT", "VT_A1", "VT_UNSET", "VT_GONE"]
piece = st.one_of(st.sampled_from(["$", "$$", "\\", "\\$", "{", "}", "${", "${}", "$1", "${1A}", " ", "x", "/", "é", "$ ", "${VT_A", "$VT-A", "VT_A"]),
                  st.sampled_from(NAMES[:4] * 3 + NAMES).map("${%s}".__mod__), st.sampled_from(NAMES[:4] * 3 + NAMES).map("$%s".__mod__),
                  st.sampled_from(["${MODSSC_OUTPUT_DIR}", "$MODSSC_CACHE_DIR", "${MODSSC_GRAPH_CACHE_DIR}", "${MODSSC_DATASET_CACHE_DIR}"]))
text = st.lists(piece, max_size=6).map("".join)
tree = st.recursive(st.one_of(text, text, text, st.integers(-3, 3), st.booleans(), st.none(), st.just(1.5)),
                    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.one_of(word, st.just("$VT_A")), c, max_size=3)), max_leaves=8)
value_ = st.sampled_from(["", "v", "/a b", "$VT_B", "${VT_UNSET}", "$$", "\\1", "é\\g<0>"])
START = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_")
CONT = START | set("0123456789")


def scan(s):
    """Reference scanner: list of literal strings and (name,) placeholders."""
    out, i = [], 0
    while i < len(s):
        if s[i] == "$" and not (i and s[i - 1] in "$\\"):
            j = i + 1
            brace = j < len(s) and s[j] == "{"
            j += brace
            k = j
            if k < len(s) and s[k] in START:
                k += 1
                while k < len(s) and s[k] in CONT:
                    k += 1
                if not brace or (k < len(s) and s[k] == "}"):
                    out.append((s[j:k],))
                    i = k + brace
                    continue
        out.append(s[i])
        i += 1
    return out


@contextlib.contextmanager
def environ(**kw):
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@check("B02", st.fixed_dictionaries({"tree": st.dictionaries(word, tree, min_size=1, max_size=4),
                                     "env": st.fixed_dictionaries({n: value_ for n in NAMES[:4]}), "over": st.booleans()}),
       quick=300, thorough=8000)
def yaml_expansion(case, ctx):
    """Some string of the document holds a placeholder."""
    d = ctx.tmp()
    p = pathlib.Path(d) / "c.yaml"
    p.write_text(yaml.safe_dump(case["tree"], sort_keys=False, allow_unicode=True), encoding="utf-8")
    if yaml.safe_load(p.read_text(encoding="utf-8")) != case["tree"]:
        raise HarnessError("yaml does not carry the document")
    root = os.path.join(d, "root")
    env = dict(case["env"], VT_UNSET=None, VT_GONE=None, MODSSC_CACHE_ROOT=root, MODSSC_CACHE_DIR=os.path.join(d, "ds") if case["over"] else None,
               MODSSC_OUTPUT_DIR=None, MODSSC_GRAPH_CACHE_DIR=None, MODSSC_DATASET_CACHE_DIR=None)
    known = {k: v for k, v in env.items() if v is not None}
    ds = env["MODSSC_CACHE_DIR"] or root + "/datasets"
    known.update(MODSSC_OUTPUT_DIR=root + "/output", MODSSC_CACHE_DIR=ds, MODSSC_DATASET_CACHE_DIR=ds, MODSSC_GRAPH_CACHE_DIR=root + "/graphs")
    missing = []
    count = [0]

    def ref(x, path):
        if isinstance(x, dict):
            return {k: ref(v, path + (k,)) for k, v in x.items()}
        if isinstance(x, list):
            return [ref(v, path + (i,)) for i, v in enumerate(x)]
        if not isinstance(x, str):
            return x
        out = []
        gone = set()
        for t in scan(x):
            if isinstance(t, tuple):
                count[0] += 1
                if t[0] in known:
                    out.append(known[t[0]])
                else:
                    gone.add(t[0])
            else:
                out.append(t)
        if gone:
            missing.append((path, gone))
        return "".join(out)
    want = ref(case["tree"], ())
    ctx.nontrivial(count[0] > 0)
    with environ(**env):
        try:
            got = load_yaml(p)
        except ValueError as e:
            require(missing, "loading failed although every variable is set: %s", e)
            ctx.label("missing")
            msg = str(e)
            ok = any(all(n in msg for n in gone) and all(str(k) in msg for k in path) for path, gone in missing)
            require(ok, "the error names neither the place nor the variables of any of %r: %s", missing, msg)
            return
    require(not missing, "a configuration with unset variables %r was loaded", missing)
    dd = diff(got, want, "config")
    require(dd is None, "%s", dd)
    with environ(**env):
        dump_yaml(case["tree"], p)
        dd = diff(load_yaml(p), want, "config")
    require(dd is None, "a written configuration loads differently: %s", dd)


@check("B02", st.fixed_dictionaries({"doc": st.sampled_from(["", "# only a comment\n", "[1, 2]", "3", "text", "- a: 1", "null", "{}", "a: 1"])}), quick=9, thorough=9)
def yaml_root(case, ctx):
    """Each kind of document root."""
    p = pathlib.Path(ctx.tmp()) / "c.yaml"
    p.write_text(case["doc"])
    ref = yaml.safe_load(case["doc"])
    ctx.nontrivial()
    try:
        got = load_yaml(p)
    except ValueError:
        require(not (ref is None or isinstance(ref, dict)), "a mapping was refused")
        return
    require(got == (ref or {}) and (ref is None or isinstance(ref, dict)), "root %r was loaded as %r", ref, got)


# ----------------------------------------------------------------------------- B03
DEFAULTS = {
    "run": dict(seed=0, output_dir="modssc_cache/output", seeds=None, fail_fast=True, log_level=None, benchmark_mode=False, allow_custom_factories=False),
    "limits": dict(profile=None, **{k: None for k in LIMIT_KEYS}),
    "dataset": dict(options={}, download=True, cache_dir=None), "sampling": dict(seed=None),
    "preprocess": dict(seed=None, fit_on=None, cache=True, cache_dir=None), "views": dict(seed=None),
    "graph": dict(enabled=False, seed=None, cache=True, cache_dir=None, spec={}),
    "augmentation": dict(enabled=True, seed=None, mode="fixed", weak={}, strong={}, modality=None),
    "method": dict(params={}, model=None), "evaluation": dict(split_for_model_selection=None),
    "search": dict(seed=None, n_trials=None, repeats=1),
}


def expected(raw):
    out = {}
    for s in DEFAULTS:
        block = raw.get(s)
        if block is None:
            out[s] = dict(DEFAULTS[s]) if s == "limits" and s in raw else None
            continue
        b = {**copy.deepcopy(DEFAULTS[s]), **copy.deepcopy(block)}
        if s == "method":
            b["method_id"] = b.pop("id")
            b["device"] = {"device": "cpu", "dtype": "float32", "resolved_device": None, **(b.get("device") or {})}
            if b.get("model") is not None:
                m = b["model"]
                b["model"] = {"factory": None, "params": {}, "classifier_id": None, "classifier_params": {}, "ema": None,
                              "classifier_backend": None if "factory" in m else "torch", **m}
        for k in ("options", "params"):
            if k in b and b[k] is None:
                b[k] = {}
        if s == "search" and b["repeats"] is None:
            b["repeats"] = 1
        out[s] = b
    return out


def back(cfg):
    """The configuration document of a parsed configuration."""
    d = dataclasses.asdict(cfg)
    raw = {k: v for k, v in d.items() if v is not None}
    m = raw["method"]
    m["id"] = m.pop("method_id")
    if m["model"] is None:
        del m["model"]
    elif m["model"]["factory"] is not None:
        m["model"] = {k: m["model"][k] for k in ("factory", "params")}
    else:
        m["model"] = {k: m["model"][k] for k in ("classifier_id", "classifier_backend", "classifier_params", "ema")}
    return raw


@check("B03", config(), quick=250, thorough=6000)
def accepted_configurations(case, ctx):
    """The configuration has an optional section."""
    raw = case
    if raw["run"].get("benchmark_mode") and raw["run"].get("fail_fast") is False:
        return
    before = copy.deepcopy(raw)
    cfg = ExperimentConfig.from_dict(raw)
    dd = diff(raw, before, "config")
    require(dd is None, "reading a configuration changed it: %s", dd)
    ctx.nontrivial(len(raw) > 6)
    want = expected(raw)
    got = dataclasses.asdict(cfg)
    for s in want:
        dd = diff(got[s], want[s], s)
        require(dd is None, "parsed configuration: %s", dd)
    again = ExperimentConfig.from_dict(back(cfg))
    require(again == cfg, "converting back and reading again gives another configuration")


def typed(raw):
    """(path, kind) of every leaf whose type the schema fixes."""
    out = []

    def add(path, kind):
        out.append((path, kind))
    for s in raw:
        add([s], "section")
    r = raw["run"]
    add(["run", "name"], "rstr")
    for k in ("seed",):
        add(["run", k], "rint")
    add(["run", "seeds"], "ilist")
    add(["run", "output_dir"], "str_")
    for k in ("fail_fast", "benchmark_mode", "allow_custom_factories"):
        add(["run", k], "bool")
    add(["run", "log_level"], "ostr")
    add(["dataset", "id"], "rstr")
    add(["dataset", "options"], "map")
    add(["dataset", "download"], "bool")
    add(["dataset", "cache_dir"], "ostr")
    for s in ("sampling", "preprocess", "views"):
        if s in raw:
            add([s, "plan"], "rmap")
            add([s, "seed"], "int")
    add(["preprocess", "fit_on"], "ostr")
    add(["preprocess", "cache"], "bool")
    add(["preprocess", "cache_dir"], "ostr")
    if "graph" in raw:
        out.extend([(["graph", "enabled"], "bool"), (["graph", "seed"], "int"), (["graph", "cache"], "bool"), (["graph", "cache_dir"], "ostr"), (["graph", "spec"], "map")])
    if "augmentation" in raw:
        out.extend([(["augmentation", "enabled"], "bool"), (["augmentation", "seed"], "int"), (["augmentation", "weak"], "map"),
                    (["augmentation", "strong"], "map"), (["augmentation", "modality"], "ostr"), (["augmentation", "mode"], "str_")])
    out.extend([(["method", "kind"], "rstr"), (["method", "id"], "rstr"), (["method", "params"], "map"), (["method", "device"], "dmap"),
                (["method", "device", "device"], "str_"), (["method", "device", "dtype"], "str_"), (["method", "device", "resolved_device"], "ostr")])
    if "model" in raw["method"]:
        m = raw["method"]["model"]
        if "factory" in m:
            out.extend([(["method", "model", "factory"], "rstr"), (["method", "model", "params"], "map")])
        else:
            out.extend([(["method", "model", "classifier_id"], "rstr"), (["method", "model", "classifier_backend"], "rstr_"),
                        (["method", "model", "classifier_params"], "map"), (["method", "model", "ema"], "obool")])
    out.extend([(["evaluation", "report_splits"], "list"), (["evaluation", "metrics"], "list"), (["evaluation", "split_for_model_selection"], "ostr")])
    if raw.get("limits") is not None:
        for k in LIMIT_KEYS:
            add(["limits", k], "pint")
        add(["limits", "profile"], "profile")
    if "search" in raw:
        out.extend([(["search", "enabled"], "rbool"), (["search", "kind"], "enum"), (["search", "seed"], "int"), (["search", "n_trials"], "pint"),
                    (["search", "repeats"], "pint"), (["search", "objective"], "rmap"), (["search", "space"], "rmap"),
                    (["search", "objective", "split"], "enum"), (["search", "objective", "metric"], "enum"),
                    (["search", "objective", "direction"], "enum"), (["search", "objective", "aggregate"], "enum")])
    return out


WRONG = {
    "section": [3, "x", [1], True], "rstr": [3, None, "", "  ", [], {"a": 1}, True], "rstr_": [3, None, "", "  ", [], True],
    "rint": [1.5, "x", [1], {"a": 1}, None, "1.5", True], "int": [1.5, "x", [1], {"a": 1}, "3", True],
    "ilist": [[], [1, 1], [1.5], ["a"], [True], 3, "12", {"a": 1}], "bool": [1, 0, "true", None, [], 1.0], "rbool": [1, 0, "true", None],
    "obool": [1, "yes", []], "ostr": [3, "", " ", [], {"a": 1}, False], "map": [3, "x", [1], True], "rmap": [3, "x", [1], {}, None],
    "dmap": [3, "x", [1], {"devicee": "cpu"}, None], "list": [[], None, 3, "val", {"a": 1}], "pint": [0, -3, 1.5, "x", [1], True],
    "enum": ["neither", "", 3, None, ["val"]], "profile": ["a100", "", 3, ["v100"]], "str_": [None, 3, [1], {"a": 1}, ""],
}
REQUIRED = [["run"], ["run", "name"], ["dataset"], ["dataset", "id"], ["sampling"], ["sampling", "plan"], ["preprocess"], ["preprocess", "plan"],
            ["method"], ["method", "kind"], ["method", "id"], ["evaluation"], ["evaluation", "report_splits"], ["evaluation", "metrics"],
            ["views", "plan"], ["search", "enabled"], ["search", "kind"], ["search", "objective"], ["search", "space"], ["search", "objective", "split"],
            ["search", "objective", "metric"], ["search", "objective", "direction"], ["search", "objective", "aggregate"],
            ["method", "model", "classifier_id"], ["method", "model", "factory"]]
STRICT = [[], ["run"], ["limits"], ["dataset"], ["sampling"], ["preprocess"], ["views"], ["graph"], ["augmentation"], ["method"], ["method", "device"],
          ["method", "model"], ["evaluation"], ["search"], ["search", "objective"]]
BADSPACE = [{"method": {"paramz": {"k": [1]}}}, {"run": {"seed": [1]}}, {"method": {"params": [1]}}, {"method": {"params": {"k": []}}},
            {"method": {"params": {"k": {}}}}, {"method": {"params": {"k": 3}}}, {"method": {"params": {"k": {"dist": "nope"}}}},
            {"method": {"params": {"k": {"dist": "uniform", "low": 2, "high": 1}}}}, {"method": {"params": {"k": [1]}}, "dataset": {"id": ["toy"]}},
            {"method": {"params": {"k": {"dist": "choice", "values": 3}}}}]


def at(d, path):
    for k in path:
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


@check("B03", st.fixed_dictionaries({"raw": config(), "how": st.sampled_from(["type"] * 4 + ["drop", "unknown", "unknown", "space", "rule"]),
                                     "i": st.integers(0, 9999), "j": st.integers(0, 99)}), quick=500, thorough=12000)
def rejected_configurations(case, ctx):
    """One leaf of an acceptable configuration was made invalid."""
    raw = copy.deepcopy(case["raw"])
    how = case["how"]
    if how == "type":
        opts = typed(raw)
        path, kind = opts[case["i"] % len(opts)]
        node = raw
        for k in path[:-1]:
            node = node.setdefault(k, {})
        v = WRONG[kind][case["j"] % len(WRONG[kind])]
        node[path[-1]] = v
        what = "%s = %r" % (".".join(path), v)
        ctx.label(kind)
    elif how == "drop":
        opts = [p for p in REQUIRED if at(raw, p[:-1]) is not None and p[-1] in at(raw, p[:-1])]
        path = opts[case["i"] % len(opts)]
        del at(raw, path[:-1])[path[-1]]
        what = "no " + ".".join(path)
    elif how == "unknown":
        opts = [p for p in STRICT if isinstance(at(raw, p), dict)]
        node = at(raw, opts[case["i"] % len(opts)])
        keys = ["seeed", "extra", 3, None, "Name"]
        node[keys[case["j"] % 5]] = 1
        if case["j"] >= 50:
            node["other"] = 2
        what = "unknown key %r at %s" % (keys[case["j"] % 5], opts[case["i"] % len(opts)])
    elif how == "space":
        raw["search"] = {"enabled": bool(case["j"] % 2), "kind": "grid", "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                         "space": BADSPACE[case["i"] % len(BADSPACE)]}
        what = "space %r" % raw["search"]["space"]
    else:
        rule = case["i"] % 6
        if rule == 0:
            raw["run"]["allow_custom_factories"] = False
            raw["method"]["model"] = {"factory": "a:b"}
        elif rule == 1:
            raw["run"].update(allow_custom_factories=True)
            raw["method"]["model"] = {"factory": "a:b", "classifier_id": "mlp"}
        elif rule == 2:
            raw["run"].update(benchmark_mode=True, fail_fast=False)
        elif rule == 3:
            raw["method"]["kind"] = "semi"
        elif rule == 4:
            raw["method"]["model"] = {}
        else:
            raw["search"] = {"enabled": True, "kind": "random", "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"},
                             "space": {"method": {"params": {"k": [1]}}}, **({"seed": 1} if case["j"] % 2 else {"n_trials": 2})}
        what = "rule %d" % rule
    ctx.label(how)
    ctx.nontrivial()
    try:
        ExperimentConfig.from_dict(raw)
    except BenchConfigError as e:
        require(str(e.code).startswith("E_BENCH_") and extract_error_code(e) == e.code, "error code %r", e.code)
        if how == "rule" and case["i"] % 6 == 0:
            require(e.code == "E_BENCH_CUSTOM_FACTORY_DISABLED", "error code %r", e.code)
        return
    fail("accepted: %s", what)


def _files():
    base = pathlib.Path(REPO) / "bench" / "configs"
    return sorted(str(p.relative_to(base)) for p in base.rglob("*.yaml") if p.name != "regime_manifest.yaml")


@check("B03", st.fixed_dictionaries({"i": st.integers(0, 9999)}), quick=20, thorough=400)
def shipped_configurations(case, ctx):
    """A configuration file of the repository."""
    files = _files()
    if not files:
        raise HarnessError("no configuration files")
    f = files[case["i"] * 7919 % len(files)]
    with environ(MODSSC_CACHE_ROOT="/nonexistent/cache"):
        raw = load_yaml(pathlib.Path(REPO) / "bench" / "configs" / f)
        cfg = ExperimentConfig.from_dict(raw)
    want = expected(raw)
    got = dataclasses.asdict(cfg)
    for s in want:
        dd = diff(got[s], want[s], s)
        require(dd is None, "%s: %s", f, dd)
    ctx.nontrivial()


# ----------------------------------------------------------------------------- B05
mval = st.one_of(st.floats(0, 1, allow_nan=False), st.sampled_from([0.0, 1.0, 0.5, 1 / 3]), st.integers(0, 3), st.booleans(), st.none(), st.just("n/a"),
                 st.just(float("nan")))
metrics_ = st.dictionaries(st.sampled_from(["train", "val", "test"]), st.dictionaries(st.sampled_from(["accuracy", "macro_f1", "x"]), mval, max_size=3), max_size=3)
full = st.fixed_dictionaries({"val": st.fixed_dictionaries({"accuracy": mval}, optional={"macro_f1": mval, "x": mval})}, optional={"test": st.fixed_dictionaries({"accuracy": mval})})
report = st.fixed_dictionaries({"status": st.sampled_from(["success", "success", "success", "failed"]), "metrics": full | full | full | metrics_ | st.none(),
                                "code": st.sampled_from(["E_BENCH_RUNTIME", "E_BENCH_CONFIG"])})


def leaves_of(m):
    return {(s, k): float(v) for s, b in (m or {}).items() for k, v in b.items() if isinstance(v, (int, float)) and not isinstance(v, bool)}


@check("B05", st.fixed_dictionaries({"runs": st.lists(report, min_size=1, max_size=7), "extra": st.integers(0, 2), "seed0": st.integers(0, 99)}), quick=250, thorough=8000)
def sweep_statistics(case, ctx):
    """Two successful runs share a numeric metric."""
    d = pathlib.Path(ctx.tmp())
    runs, paths, seeds = case["runs"], [], []
    for i, r in enumerate(runs):
        s = case["seed0"] + 3 * i
        seeds.append(s)
        ok = r["status"] == "success"
        (d / ("r%d" % i)).mkdir()
        p = d / ("r%d" % i) / "run.json"
        p.write_text(json.dumps({"run": {"seed": s, "name": "n%d" % s, "run_id": "id%d" % i, "status": r["status"], "error_code": None if ok else r["code"]},
                                 "metrics": r["metrics"], "error": None if ok else "boom %d" % i}))
        paths.append(p)
    asked = seeds + [1000 + i for i in range(case["extra"])]
    out = write_seed_sweep_summary(output_dir=d / "agg", config_path=d / "c.yaml", base_name="base", requested_seeds=list(asked), run_json_paths=list(paths))
    rep = json.loads(pathlib.Path(out).read_text())
    good = [r for r in runs if r["status"] == "success" and r["metrics"] is not None]
    bad = len(runs) - len(good)
    sw = rep["sweep"]
    require(sw["requested_seeds"] == asked and sw["requested_run_count"] == len(asked) and sw["completed_run_count"] == len(runs)
            and sw["successful_run_count"] == len(good) and sw["failed_run_count"] == bad, "sweep counts: %r", sw)
    require(sw["status"] == ("success" if not bad else "partial_failure" if good else "failed"), "sweep status %r", sw["status"])
    require(len(rep["runs"]) == len(runs), "%d runs listed for %d", len(rep["runs"]), len(runs))
    for i, (e, r) in enumerate(zip(rep["runs"], runs)):
        require(e["seed"] == seeds[i] and e["name"] == "n%d" % seeds[i] and e["run_id"] == "id%d" % i and e["status"] == r["status"]
                and pathlib.Path(e["run_json"]) == paths[i] and pathlib.Path(e["run_dir"]) == paths[i].parent, "entry %d: %r", i, e)
        require(diff(e["metrics"], json.loads(json.dumps(r["metrics"])), "m") is None, "entry %d metrics %r", i, e["metrics"])
        require((e["error_code"] is None) == (r["status"] == "success") and (e["error"] is None) == (r["status"] == "success"), "entry %d error", i)
    vals = {}
    for r in good:
        for k, v in leaves_of(r["metrics"]).items():
            vals.setdefault(k, []).append(v)
    got = {(s, k): a for s, b in rep["metrics"].items() for k, a in b.items()}
    require(set(got) == set(vals), "metrics %s aggregated, expected %s", sorted(got), sorted(vals))
    for k, v in vals.items():
        a = got[k]
        ctx.nontrivial(len(v) > 1)
        require(a["count"] == len(v), "%s: count %r of %d values", k, a["count"], len(v))
        require(diff(a["values"], v, "values", types=False) is None, "%s: values %r, expected %r", k, a["values"], v)
        if any(math.isnan(x) for x in v):
            ctx.label("nan")
            require(math.isnan(a["mean"]), "%s: the mean of %r is %r", k, v, a["mean"])
            continue
        mean = sum(v) / len(v)
        std = math.sqrt(sum((x - mean) ** 2 for x in v) / len(v))
        require(abs(a["mean"] - mean) < 1e-9 and abs(a["std"] - std) < 1e-7 and a["min"] == min(v) and a["max"] == max(v), "%s: %r for %r", k, a, v)


# ----------------------------------------------------------------------------- B07
def sub(**kw):
    """Mapping whose keys are present unless drawn away (small draws keep them)."""
    keys = sorted(kw)
    return st.tuples(st.fixed_dictionaries(kw), st.integers(0, 2 ** len(keys) - 1), st.integers(0, 2)).map(
        lambda t: {k: v for i, k in enumerate(keys) for v in [t[0][k]] if t[2] != 2 or not t[1] >> i & 1})


num = st.one_of(st.integers(1, 3000), st.integers(1, 3000), st.sampled_from(["64", "1000", 128.0, 2048.0, True, None, "all"]))
step = st.fixed_dictionaries({"id": st.sampled_from(["core.pca", "text.x"])}, optional={"params": opt(batch_size=num, other=anyval, sup_batch_size=num) | st.none()})
step = step | st.fixed_dictionaries({"id": st.just("text.x"), "params": st.fixed_dictionaries({"batch_size": num})})
pplan = st.fixed_dictionaries({"steps": st.lists(step, max_size=3) | st.none()}, optional={"output_key": word})
lim = sub(profile=st.sampled_from(["auto", "v100", "h100", None]), **{k: st.none() | st.integers(1, 1500) | st.integers(1, 1500) for k in LIMIT_KEYS})
limraw = sub(dataset=sub(id=st.just("toy"), options=st.none() | sub(max_train_samples=num, max_test_samples=num, n=anyval)),
             preprocess=sub(plan=pplan, batch_size=num),
             views=sub(plan=st.fixed_dictionaries({"views": st.lists(st.fixed_dictionaries({"name": word}, optional={"preprocess": pplan | st.none(), "columns": anymap}), max_size=2)})),
             method=sub(params=sub(batch_size=num, sup_batch_size=num, lr=st.just(0.1), classifier_params=sub(batch_size=num, hidden=num, chunk_size=num)),
                        model=sub(classifier_params=sub(batch_size=num, sup_batch_size=num), classifier_id=word)),
             graph=sub(spec=sub(chunk_size=num, k=num, batch_size=num), batch_size=num), evaluation=anymap, sampling=anymap, augmentation=opt(batch_size=num))
PRESET = {"v100": dict(max_preprocess_batch_size=32, max_method_batch_size=128, max_method_sup_batch_size=64, max_graph_chunk_size=512),
          "h100": dict(max_preprocess_batch_size=64, max_method_batch_size=512, max_method_sup_batch_size=256, max_graph_chunk_size=1024)}


def capped(raw):
    """(path, limit name, filled in when absent) of every setting a limit names."""
    out = []
    if isinstance(raw.get("dataset"), dict):
        for k in ("max_train_samples", "max_test_samples"):
            out.append((["dataset", "options", k], k, True))

    def steps(pl, base):
        for i, s in enumerate((pl or {}).get("steps") or []):
            if isinstance(s.get("params"), dict):
                out.append((base + ["steps", i, "params", "batch_size"], "max_preprocess_batch_size", False))
    if isinstance(raw.get("preprocess", {}).get("plan"), dict):
        steps(raw["preprocess"]["plan"], ["preprocess", "plan"])
    for i, v in enumerate(raw.get("views", {}).get("plan", {}).get("views", [])):
        if isinstance(v.get("preprocess"), dict):
            steps(v["preprocess"], ["views", "plan", "views", i, "preprocess"])
    m = raw.get("method", {})
    if isinstance(m.get("params"), dict):
        out += [(["method", "params", "batch_size"], "max_method_batch_size", False), (["method", "params", "sup_batch_size"], "max_method_sup_batch_size", False)]
        if isinstance(m["params"].get("classifier_params"), dict):
            out.append((["method", "params", "classifier_params", "batch_size"], "max_method_batch_size", False))
    if isinstance(m.get("model", {}).get("classifier_params"), dict):
        out.append((["method", "model", "classifier_params", "batch_size"], "max_method_batch_size", False))
    if isinstance(raw.get("graph", {}).get("spec"), dict):
        out.append((["graph", "spec", "chunk_size"], "max_graph_chunk_size", True))
    return out


def as_number(v):
    if isinstance(v, bool) or v is None:
        return None
    try:
        return int(v)
    except ValueError:
        return None


@check("B07", st.fixed_dictionaries({"raw": limraw, "limits": lim}), quick=400, thorough=12000)
def limits_only_reduce(case, ctx):
    """Some setting was reduced or filled in."""
    cfg = ExperimentConfig.from_dict({"run": {"name": "n"}, "dataset": {"id": "toy"}, "sampling": {"plan": {"a": 1}}, "preprocess": {"plan": {"a": 1}},
                                      "method": {"kind": "inductive", "id": "x"}, "evaluation": {"report_splits": ["val"], "metrics": ["accuracy"]},
                                      "limits": case["limits"]}).limits
    eff = dict(case["limits"])
    profile = eff.pop("profile", None)
    eff = {k: v for k, v in eff.items() if v is not None}
    if profile == "auto":
        if torch.cuda.is_available():
            raise HarnessError("a GPU is present")
        profile = "v100"
    for k, v in PRESET.get(profile, {}).items():
        eff.setdefault(k, v)
    raw = copy.deepcopy(case["raw"])
    out, changes, resolved = apply_limits(copy.deepcopy(raw), limits=cfg)
    want = copy.deepcopy(raw)
    touched = 0
    for path, name, fill in capped(raw):
        if name not in eff:
            continue
        node = want
        for k in path[:-1]:
            if isinstance(node, dict) and node.get(k) is None:
                node[k] = {}
            node = node[k]
        v = node.get(path[-1])
        if v is None:
            if fill:
                node[path[-1]] = eff[name]
                touched += 1
            continue
        n = as_number(v)
        if n is not None and n > eff[name]:
            node[path[-1]] = eff[name]
            touched += 1
    if isinstance(want.get("dataset"), dict) and want["dataset"].get("options") in ({}, None) and isinstance(out.get("dataset"), dict) and out["dataset"].get("options") in ({}, None):
        want["dataset"].pop("options", None)
        out = copy.deepcopy(out)
        out["dataset"].pop("options", None)
    dd = diff(out, want, "config")
    require(dd is None, "limits %r: %s", eff, dd)
    require(len(changes) == touched, "%d changes reported, %d made: %r", len(changes), touched, changes)
    ctx.nontrivial(touched > 0)
    again, ch2, _ = apply_limits(copy.deepcopy(out), limits=cfg)
    again = copy.deepcopy(again)
    if again.get("dataset", {}).get("options", 1) in ({}, None):
        again["dataset"].pop("options")
    require(not ch2 and diff(again, want, "config") is None, "applying limits again changes the configuration: %r", ch2)
    if resolved is not None:
        r = dataclasses.asdict(resolved)
        for k in LIMIT_KEYS:
            require(r[k] == eff.get(k), "reported limit %s is %r, in force %r", k, r[k], eff.get(k))
        require(r["profile"] == profile, "profile %r", r["profile"])
    else:
        require(not eff, "limits %r were not resolved", eff)


@check("B07", st.fixed_dictionaries({"limits": lim, "strict": st.sampled_from([True, False])}), quick=60, thorough=600)
def automatic_profile_in_benchmark_mode(case, ctx):
    """The profile is 'auto' and benchmark mode is on."""
    cfg = ExperimentConfig.from_dict({"run": {"name": "n"}, "dataset": {"id": "toy"}, "sampling": {"plan": {"a": 1}}, "preprocess": {"plan": {"a": 1}},
                                      "method": {"kind": "inductive", "id": "x"}, "evaluation": {"report_splits": ["val"], "metrics": ["accuracy"]},
                                      "limits": case["limits"]}).limits
    auto = case["strict"] and case["limits"].get("profile") == "auto"
    ctx.nontrivial(auto)
    try:
        resolve_limits(cfg, strict=case["strict"])
    except BenchConfigError as e:
        require(auto and e.code == "E_BENCH_AUTO_FORBIDDEN", "refused: %s", e)
        return
    require(not auto, "profile 'auto' was accepted in benchmark mode")


# ----------------------------------------------------------------------------- B08 (containers)
@check("B08", st.fixed_dictionaries({"n": st.integers(1, 9), "kind": st.sampled_from(["array", "array", "tensor", "list", "csr", "dict", "tdict", "dict_noedges", "object"]),
                                     "idx": st.lists(st.integers(0, 99), max_size=9), "as_list": st.booleans(), "dup": st.booleans(), "seed": st.integers(0, 10**6),
                                     "neg": st.integers(0, 19), "d": st.integers(0, 2), "count": st.booleans(), "again": st.integers(0, 10**6)}), quick=500, thorough=12000)
def row_selection(case, ctx):
    """At least two rows are selected in other than their stored order or only a part of them."""
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    idx = [i % n for i in case["idx"]]
    if not case["dup"]:
        idx = list(dict.fromkeys(idx))
    graph = case["kind"] in ("dict", "tdict")
    if graph:
        idx = list(dict.fromkeys(idx))
    arr = np.arange(n * 3).reshape(n, 3) + 0.5
    arr = arr[:, 0] if case["d"] == 0 else arr if case["d"] == 1 else arr.reshape(n, 3, 1)
    ix = list(idx) if case["as_list"] else np.asarray(idx, dtype=np.int64)
    ctx.label(case["kind"])
    ctx.nontrivial(len(idx) > 1 and idx != list(range(n)))
    if case["neg"] == 0 and idx:
        ix = [-1] + list(idx)
        try:
            select_rows(arr, ix, context="t")
        except RuntimeError as e:
            require(extract_error_code(e) == "E_BENCH_SLICE_NEGATIVE_INDEX", "%s", e)
            return
        fail("a negative row number was accepted")
    if case["kind"] == "array":
        src, want = arr, arr[idx] if idx else arr[:0]
        got = select_rows(src, ix, context="t")
        require(isinstance(got, np.ndarray) and got.dtype == src.dtype and np.array_equal(got, want), "rows %r: %r", idx, got)
    elif case["kind"] == "object":
        src = np.array(["t%d" % i for i in range(n)], dtype=object)
        got = select_rows(src, ix, context="t")
        require(got.tolist() == ["t%d" % i for i in idx], "rows %r: %r", idx, got)
    elif case["kind"] == "tensor":
        src = torch.as_tensor(arr)
        got = select_rows(src, ix, context="t")
        require(isinstance(got, torch.Tensor) and got.dtype == src.dtype and np.array_equal(got.numpy(), arr[idx] if idx else arr[:0]), "rows %r: %r", idx, got)
    elif case["kind"] == "list":
        got = select_rows(["t%d" % i for i in range(n)], ix, context="t")
        require(got == ["t%d" % i for i in idx], "rows %r: %r", idx, got)
    elif case["kind"] == "csr":
        m = arr.reshape(n, -1)
        got = select_rows(sp.csr_matrix(m), ix, context="t")
        require(sp.issparse(got) and np.array_equal(got.toarray(), m[idx] if idx else m[:0]), "rows %r: %r", idx, got)
    else:
        e = rng.integers(0, 14)
        ei = rng.integers(0, n, size=(2, e))
        x = np.arange(n * 2.0).reshape(n, 2)
        src = {"x": x, "y": np.arange(n) * 10, "names": ["n%d" % i for i in range(n)], "tag": "keep", "k": 7,
               "classes": np.array(["c%d" % i for i in range(n + 3)], dtype=object), "table": np.arange(float((n + 5) * 2)).reshape(n + 5, 2)}
        if graph:
            src["edge_index"] = ei
            src["edge_weight"] = np.arange(e) + 100.0
            if rng.integers(2):
                src["edge_attr"] = np.stack([np.arange(e), -np.arange(e)], axis=1).astype(float)
        if case["count"]:
            src["num_nodes"] = n
        if case["kind"] == "tdict":
            src = {k: torch.as_tensor(v) if isinstance(v, np.ndarray) and v.dtype != object else v for k, v in src.items()}
        before = copy.deepcopy(src)
        got = select_rows(src, ix, context="t")
        require(diff(src, before, "src") is None, "selecting rows changed the source")
        g = {k: v.numpy() if isinstance(v, torch.Tensor) else v for k, v in got.items()}
        require(set(g) == set(src), "keys %r", sorted(g))
        require(np.array_equal(g["x"], x[idx]) and np.array_equal(g["y"], np.arange(n)[idx] * 10 if idx else np.array([]))
                and g["names"] == ["n%d" % i for i in idx] and g["tag"] == "keep" and g["k"] == 7, "rows %r: %r", idx, g)
        require(len(g["classes"]) == n + 3 and len(g["table"]) == n + 5, "an entry that does not have one item per row was cut: %d classes, %d table rows, n=%d", len(g["classes"]), len(g["table"]), n)
        if graph:
            pos = {v: i for i, v in enumerate(idx)}
            keep = [j for j in range(e) if ei[0, j] in pos and ei[1, j] in pos]
            want = np.array([[pos[ei[0, j]] for j in keep], [pos[ei[1, j]] for j in keep]]).reshape(2, len(keep))
            require(np.array_equal(g["edge_index"], want), "edges among rows %r of %r: %r, expected %r", idx, ei.tolist(), g["edge_index"].tolist(), want.tolist())
            require(np.array_equal(g["edge_weight"], np.array(keep) + 100.0), "edge weights of the kept edges: %r, expected %r", g["edge_weight"].tolist(), [j + 100.0 for j in keep])
            if "edge_attr" in src:
                require(len(g["edge_attr"]) == len(keep) and np.array_equal(g["edge_attr"][:, 0], np.array(keep, dtype=float)), "edge attributes of the kept edges")
        sub = np.random.default_rng(case["again"]).permutation(len(idx))[: case["again"] % (len(idx) + 1)]
        twice, once = select_rows(got, sub, context="t"), select_rows(src, [idx[j] for j in sub], context="t")
        for k in ("x", "y", "names", "edge_index"):
            d = diff(twice.get(k), once.get(k), k) if k in src else None
            require(d is None, "rows %r of the rows %r are not the rows %r: %s", sub.tolist(), idx, [idx[j] for j in sub], d)
