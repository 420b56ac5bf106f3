"""R01 (registries) and R02 (specification records)."""
from __future__ import annotations

import copy
import json
import random
import tomllib
from dataclasses import asdict, fields, replace
from pathlib import Path

import numpy as np
import yaml

from . import c_preprocess as cp
from . import c_sampling as csam
from . import fakeprov  # noqa: F401
from .core import REPO, check, fail, require, st
from .eq import diff

from bench.orchestrators import augmentation as b_aug
from bench.orchestrators import graph as b_graph
from bench.orchestrators import preprocess as b_prep
from bench.orchestrators import sampling as b_samp
from bench.orchestrators import views as b_views
from modssc.data_augmentation import registry as oreg
from modssc.data_augmentation.errors import DataAugmentationValidationError
from modssc.data_augmentation.plan import AugmentationPlan
from modssc.data_augmentation.plan import StepConfig as AugStep
from modssc.data_loader import api
from modssc.data_loader.errors import DataLoaderError
from modssc.data_loader.providers import create_provider
from modssc.data_loader.types import DatasetIdentity, DatasetRequest, DatasetSpec
from modssc.data_loader.uri import parse_uri
from modssc.evaluation import evaluate, list_metrics
from modssc.graph.fingerprint import fingerprint_spec
from modssc.graph.specs import GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec
from modssc.inductive import registry as ireg
from modssc.preprocess import available_models, available_steps, model_info, step_info
from modssc.preprocess import registry as sreg
from modssc.preprocess.errors import PreprocessError
from modssc.preprocess.models import load_encoder
from modssc.preprocess.plan import PreprocessPlan, dump_plan, load_plan
from modssc.sampling.plan import HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan, SamplingPolicy
from modssc.supervised import available_classifiers, classifier_info, create_classifier
from modssc.supervised import registry as creg
from modssc.supervised.errors import SupervisedError
from modssc.transductive import registry as treg
from modssc.utils.imports import load_object
from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan

EXTRAS = set(tomllib.loads(Path(REPO, "pyproject.toml").read_text())["project"]["optional-dependencies"])
MODALITIES = {"tabular", "text", "vision", "audio", "graph"}
DATASETS = [d for d in api.available_datasets()]


def names(cat):
    return {"datasets": lambda: DATASETS, "steps": available_steps, "models": available_models, "ops": oreg.available_ops,
            "classifiers": lambda: [c["key"] for c in available_classifiers()], "inductive": lambda: ireg.available_methods(available_only=False),
            "transductive": lambda: treg.available_methods(available_only=False), "metrics": lambda: list(list_metrics()),
            "providers": lambda: [p for p in api.provider_names() if p != "fake"]}[cat]()


CATS = ["datasets", "steps", "models", "ops", "classifiers", "inductive", "transductive", "metrics", "providers"]


def extra_ok(x, what):
    require(x is None or x in EXTRAS, "%s asks for the extra %r, which the package does not define", what, x)


def describe(cat, k):
    """The description of one entry as plain data."""
    return {"datasets": lambda: api.dataset_info(k).as_dict(), "steps": lambda: step_info(k), "models": lambda: model_info(k),
            "ops": lambda: oreg.op_info(k), "classifiers": lambda: classifier_info(k), "inductive": lambda: asdict(ireg.get_method_info(k)),
            "transductive": lambda: asdict(treg.get_method_info(k)), "metrics": lambda: evaluate([0, 1], [0, 1], [k]),
            "providers": lambda: type(create_provider(k)).__name__}[cat]()


def scribble(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        for k in list(x):
            if not isinstance(x[k], (dict, list)):
                x[k] = "scribbled"
        x["scribbled"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append("scribbled")


@check("R01", st.fixed_dictionaries({"cat": st.sampled_from(CATS), "i": st.integers(0, 10**4)}), quick=500)
def entries_resolve(case, ctx):
    """the entry has an implementation that loads here"""
    cat = case["cat"]
    ids = list(names(cat))
    require(len(set(ids)) == len(ids) and ids, "%s lists %s", cat, ids)
    k = ids[case["i"] % len(ids)]
    d = describe(cat, k)
    loaded = True
    if cat == "datasets":
        s = api.dataset_info(k)
        require(s.key == k, "dataset %s describes %s", k, s.key)
        require(s.provider in api.provider_names() and parse_uri(s.uri).provider == s.provider, "dataset %s: provider %s, uri %s", k, s.provider, s.uri)
        require(s.modality in MODALITIES, "dataset %s: modality %s", k, s.modality)
        extra_ok(s.required_extra, k)
        require(create_provider(s.provider).required_extra == s.required_extra, "dataset %s and its provider ask for different extras", k)
        ident = api._resolve_identity(DatasetRequest(id=k))
        require(ident.provider == s.provider and ident.modality == s.modality and ident.task == s.task, "dataset %s resolves to %s", k, ident)
        u = api._resolve_identity(DatasetRequest(id=s.uri, options={**dict(s.source_kwargs), "modality": s.modality, "task": s.task}))
        require(u.canonical_uri == ident.canonical_uri and u.dataset_id == ident.dataset_id, "dataset %s and its uri are different data", k)
    elif cat == "steps":
        require(d["id"] == k and set(d["modalities"]) <= MODALITIES and d["kind"] in ("transform", "fittable", "featurizer"), "step %s: %s", k, d)
        extra_ok(d["required_extra"], k)
        require(d["produces"] and d["description"], "step %s produces nothing", k)
        try:
            cls = load_object(d["import_path"])
        except ImportError:
            require(d["required_extra"], "step %s does not load and asks for no extra", k)
            loaded = False
        else:
            require(hasattr(cls, "transform"), "step %s cannot transform", k)
            require((d["kind"] == "fittable") == hasattr(cls, "fit"), "step %s is registered as %s", k, d["kind"])
    elif cat == "models":
        require(d["id"] == k and d["modality"] in MODALITIES, "model %s: %s", k, d)
        require(k in available_models(modality=d["modality"]), "model %s not listed for its modality", k)
        for m in MODALITIES - {d["modality"]}:
            require(k not in available_models(modality=m), "model %s listed for %s", k, m)
        extra_ok(d["required_extra"], k)
        load_object(d["import_path"])
        if d["required_extra"] is None:
            e = load_encoder(k)
            require(callable(e.encode), "model %s has no encode", k)
    elif cat == "ops":
        op = oreg.get_op(k)
        require(d["op_id"] == k and op.op_id == k and type(op).op_id == k, "op %s is %s", k, op.op_id)
        require(d["modality"] == op.modality and d["modality"] in MODALITIES | {"any"}, "op %s: modality %s", k, d["modality"])
        for m in MODALITIES:
            require((k in oreg.available_ops(modality=m)) == (op.modality in (m, "any")), "op %s listed for %s", k, m)
        require(json.loads(json.dumps(d["defaults"])) is not None, "op %s", k)
        require(oreg.get_op(k, **{a: b for a, b in d["defaults"].items() if a not in ("op_id", "modality")}) == op, "op %s with its own defaults is another operation", k)
        try:
            oreg.get_op(k, no_such_parameter=1)
            fail("op %s takes any parameter", k)
        except DataAugmentationValidationError as e:
            require(k in str(e), "the error does not name %s: %s", k, e)
    elif cat == "classifiers":
        require(d["key"] == k and d["backends"] and d["preferred_backends"], "classifier %s: %s", k, d)
        for b, bs in d["backends"].items():
            require(bs["backend"] == b, "classifier %s/%s is %s", k, b, bs)
            extra_ok(bs["required_extra"], "%s/%s" % (k, b))
            cls = load_object(bs["factory"])
            require(getattr(cls, "classifier_id", k) == k and getattr(cls, "backend", b) == b, "classifier %s/%s is %s/%s", k, b,
                    getattr(cls, "classifier_id", None), getattr(cls, "backend", None))
            if k not in ("audio_pretrained", "image_pretrained"):
                require(isinstance(create_classifier(k, backend=b), cls), "classifier %s/%s", k, b)
        require(set(d["preferred_backends"]) & set(d["backends"]), "classifier %s prefers %s of %s", k, d["preferred_backends"], list(d["backends"]))
    elif cat in ("inductive", "transductive"):
        reg = ireg if cat == "inductive" else treg
        cls = reg.get_method_class(k)
        require(cls.info.method_id == k, "method %s is %s", k, cls.info.method_id)
        extra_ok(cls.info.required_extra, k)
        require(callable(cls.fit) and callable(cls.predict_proba), "method %s cannot be used", k)
        require("%s:%s" % (cls.__module__, cls.__name__) == reg._debug_registry()[k], "method %s resolves to %s", k, cls)
        require((k in reg.available_methods()) == (reg._REGISTRY[k].status == "implemented"), "method %s availability", k)
    elif cat == "metrics":
        require(list(d) == [k] and d[k] == 1.0, "metric %s of a perfect answer is %s", k, d)
    elif cat == "providers":
        p = create_provider(k)
        require(p.name == k, "provider %s is %s", k, p.name)
        extra_ok(p.required_extra, k)
    # a description is a report, not the registry itself
    if isinstance(d, dict):
        before = copy.deepcopy(d)
        scribble(d)
        again = describe(cat, k)
        dd = diff(again, before, k)
        require(dd is None, "writing on the description of %s changed the registry: %s", k, dd)
    ids.append("scribbled")
    require("scribbled" not in names(cat) or cat == "datasets", "writing on the list changed the registry")
    if cat == "datasets":
        ids.remove("scribbled")
    ctx.label(cat)
    ctx.nontrivial(loaded)


def near(name, how, at):
    i = at % max(1, len(name))
    return {"drop": name[:i] + name[i + 1:], "dup": name[:i] + name[i:i + 1] + name[i:], "upper": name.upper(), "title": name.title(), "space": name + " ",
            "lead": " " + name, "prefix": name[: max(1, len(name) // 2)], "dash": name.replace("_", "-"), "dot": name + ".x", "unicode": name + "é",
            "empty": "", "star": "*", "swap": name[::-1], "under": name.replace("-", "_")}[how]


@check("R01", st.fixed_dictionaries({"cat": st.sampled_from(CATS), "i": st.integers(0, 10**4), "at": st.integers(0, 40),
                                     "how": st.sampled_from(["drop", "dup", "upper", "title", "space", "lead", "prefix", "dash", "dot", "unicode", "empty", "star", "swap", "under"])}),
       quick=600)
def unknown_ids(case, ctx):
    """the identifier is close to a registered one and not registered"""
    cat = case["cat"]
    ids = list(names(cat))
    q = near(ids[case["i"] % len(ids)], case["how"], case["at"])
    if q in ids:
        return
    kinds = {"datasets": DataLoaderError, "steps": PreprocessError, "models": PreprocessError, "ops": DataAugmentationValidationError,
             "classifiers": SupervisedError, "inductive": KeyError, "transductive": KeyError, "metrics": ValueError, "providers": DataLoaderError}[cat]
    calls = [lambda: describe(cat, q)]
    if cat == "steps":
        calls.append(lambda: sreg.default_step_registry().instantiate(q, params={}))
    if cat == "models":
        calls.append(lambda: load_encoder(q))
    if cat == "ops":
        calls.append(lambda: oreg.get_op(q))
    if cat == "classifiers":
        calls += [lambda: create_classifier(q), lambda: creg.get_backend_spec("knn", q), lambda: create_classifier("knn", backend=q or "none")]
    if cat == "inductive":
        calls.append(lambda: ireg.get_method_class(q))
    if cat == "transductive":
        calls.append(lambda: treg.get_method_class(q))
    if cat == "datasets":
        calls.append(lambda: api.load_dataset(q, download=False))
        if ":" in q:
            return
    for c in calls:
        try:
            got = c()
        except kinds as e:
            require(q in str(e) or repr(q) in str(e) or repr(q)[1:-1] in str(e) or (cat == "classifiers" and not q), "the error does not name %r: %s", q, e)
        else:
            fail("unknown %s %r gives %s", cat, q, got)
    ctx.nontrivial(case["how"] not in ("empty", "star"))


# ---------------------------------------------------------------- registration histories
class OpA:
    op_id, modality = "x", "tabular"

    def __init__(self, p=1):
        self.p = p


class OpB(OpA):
    modality = "any"


class OpC(OpA):
    modality = "text"


OPCLS = [OpA, OpB, OpC]
IDS = ["vt.one", "vt.two", "BUILTIN", "BUILTIN2"]
REG = st.one_of(
    st.tuples(st.just("op"), st.integers(0, 3), st.integers(0, 2)),
    st.tuples(st.just("ind"), st.integers(0, 3), st.integers(0, 2)),
    st.tuples(st.just("trans"), st.integers(0, 3), st.integers(0, 2)),
    st.tuples(st.just("clf"), st.integers(0, 3), st.integers(0, 2)),
    st.tuples(st.just("back"), st.integers(0, 3), st.integers(0, 5)),
).map(list)
BUILT = {"op": ["tabular.gaussian_noise", "core.identity"], "ind": ["pseudo_label", "s4vm"], "trans": ["label_propagation", "gcn"],
         "clf": ["knn", "logreg"], "back": ["knn", "logreg"]}


def rid(kind, i):
    return IDS[i] if i < 2 else BUILT[kind][i - 2]


@check("R01", st.fixed_dictionaries({"ops": st.lists(REG, min_size=1, max_size=10), "cold": st.booleans()}), quick=300)
def registration_history(case, ctx):
    """some identifier was registered more than once"""
    for n in (ireg.available_methods, treg.available_methods, creg.list_classifiers):
        n()
    saved = (dict(oreg._RUNTIME_OPS), dict(ireg._REGISTRY), dict(treg._REGISTRY), dict(creg._REGISTRY))
    if case["cold"]:
        oreg._RUNTIME_OPS.clear()
    base = {"op": set(oreg.available_ops()), "ind": set(ireg.available_methods(available_only=False)),
            "trans": set(treg.available_methods(available_only=False)), "clf": set(creg.list_classifiers())}
    want, seen, twice = {}, set(), False
    look = {"op": lambda k: oreg._get_cls(k), "ind": lambda k: ireg._debug_registry()[k], "trans": lambda k: treg._debug_registry()[k],
            "clf": lambda k: (creg.get_spec(k).description, creg.get_spec(k).preferred_backends)}
    builtin = {}
    for kind in ("op", "ind", "trans", "clf"):
        for k in BUILT[kind]:
            builtin[kind, k] = look[kind](k)
    if case["cold"]:
        oreg._RUNTIME_OPS.clear()
    backs = {k: dict(creg.get_spec(k).backends) for k in BUILT["back"]}
    try:
        for kind, i, v in case["ops"]:
            k = rid(kind, i)
            twice |= (kind, k) in seen or i >= 2
            seen.add((kind, k))
            if kind == "back":
                name = ["numpy", "sklearn", "vt-a", "vt-b", "vt-a", "torch"][v]
                have = backs.setdefault(k, {}) if k in backs or k in creg._REGISTRY else None
                try:
                    creg.register_backend(classifier_id=k, backend=name, factory="a.b:C%d" % v)
                    took = True
                except (ValueError, SupervisedError) as e:
                    took = False
                    require(repr(k) in str(e), "the refusal does not name %s: %s", k, e)
                require(took == (have is not None and name not in have), "backend %s/%s %s", k, name, "replaced" if took else "refused")
                if took:
                    have[name] = creg.get_backend_spec(k, name)
                for b, s in (have or {}).items():
                    require(creg.get_backend_spec(k, b) == s, "backend %s/%s was replaced", k, b)
                continue
            new = {"op": OPCLS[v], "ind": "vt.mod%d:Cls" % v, "trans": "vt.mod%d:Cls" % v, "clf": ("d%d" % v, ("numpy",))}[kind]
            have = builtin.get((kind, k), want.get((kind, k)))
            try:
                if kind == "op":
                    oreg.register_op(k)(new)
                elif kind == "clf":
                    creg.register_classifier(key=k, description=new[0], preferred_backends=new[1])
                else:
                    (ireg if kind == "ind" else treg).register_method(k, new)
                took = True
            except (ValueError, DataAugmentationValidationError) as e:
                took = False
                require(k in str(e), "the refusal does not name %s: %s", k, e)
            if have is None:
                require(took, "registering the new %s %s is refused", kind, k)
                want[kind, k] = new
            elif have != new:
                require(not took, "registering %s %s again replaced its definition silently", kind, k)
            for (kk, key), d in {**builtin, **want}.items():
                require(look[kk](key) == d, "%s %s is now %s, it was registered as %s", kk, key, look[kk](key), d)
        for kind in ("op", "ind", "trans", "clf"):
            got = {"op": oreg.available_ops, "ind": lambda: ireg.available_methods(available_only=False),
                   "trans": lambda: treg.available_methods(available_only=False), "clf": creg.list_classifiers}[kind]()
            require(set(got) == base[kind] | {k for (x, k) in want if x == kind} and list(got) == sorted(got), "%s lists %s", kind, got)
        for (kind, k), cls in want.items():
            if kind == "op":
                require(type(oreg.get_op(k, p=3)) is cls and oreg.op_info(k)["op_id"] == k, "op %s", k)
                for m in MODALITIES:
                    require((k in oreg.available_ops(modality=m)) == (cls.modality in (m, "any")), "op %s listed for %s", k, m)
        # builtin operations still load after all that
        for k in BUILT["op"]:
            require(oreg.get_op(k).op_id == k, "builtin op %s", k)
    finally:
        for live, s in zip((oreg._RUNTIME_OPS, ireg._REGISTRY, treg._REGISTRY, creg._REGISTRY), saved):
            live.clear()
            live.update(s)
    ctx.nontrivial(twice)


# ---------------------------------------------------------------- R02
def through(obj, how, seed):
    """obj through a file format, with keys in another order."""
    r = random.Random(seed)

    def shuf(o):
        if isinstance(o, dict):
            ks = list(o)
            r.shuffle(ks)
            return {k: shuf(o[k]) for k in ks}
        return [shuf(v) for v in o] if isinstance(o, (list, tuple)) else o
    if how == "dict":
        return shuf(obj)
    if how == "json":
        return json.loads(json.dumps(shuf(obj)))
    return yaml.safe_load(yaml.safe_dump(shuf(obj), sort_keys=False, default_flow_style=bool(seed % 2)))


def spoil(obj, at, how):
    """One unknown key at some level of a nested mapping; returns (obj, path)."""
    obj = copy.deepcopy(obj)
    spots = []

    def walk(o, path):
        if isinstance(o, dict):
            spots.append((o, path))
            for k, v in o.items():
                if k not in ("params", "meta"):
                    walk(v, path + [k])
        elif isinstance(o, list):
            for i, v in enumerate(o):
                walk(v, path + [i])
    walk(obj, [])
    o, path = spots[at % len(spots)]
    key = how if how != "near" else (sorted(o)[0] + "s" if o else "x")
    if key in o:
        key += "_"
    o[key] = 1
    return obj, path, key


HOW = st.sampled_from(["dict", "json", "yaml"])
F01 = st.sampled_from([0.0, 0.1, 0.2, 1 / 3, 0.5, 1.0, 1e-7])
POS = st.integers(1, 9)


def build_sampling(c):
    s = c["split"]
    split = HoldoutSplitSpec(**{k: s[k] for k in ("test_fraction", "val_fraction", "stratify", "shuffle")}) if s["kind"] == "holdout" else \
        KFoldSplitSpec(**{k: s[k] for k in ("k", "fold", "stratify", "shuffle", "val_fraction")})
    return SamplingPlan(split=split, labeling=LabelingSpec(**c["labeling"], fixed_indices=c["fixed"]), imbalance=ImbalanceSpec(**c["imbalance"]),
                        policy=SamplingPolicy(**c["policy"]))


@check("R02", st.fixed_dictionaries({"plan": csam.plan_case, "fixed": st.one_of(st.none(), st.lists(st.integers(0, 50), max_size=4)), "pc": st.booleans(),
                                     "how": HOW, "seed": st.integers(0, 99), "at": st.integers(0, 20), "key": st.sampled_from(["near", "seed", "x", "K"]),
                                     "drop": st.integers(0, 20)}), quick=600)
def sampling_plans(case, ctx):
    """the plan differs from the default one"""
    c = copy.deepcopy(case["plan"])
    c["fixed"] = case["fixed"]
    c["labeling"]["per_class"] = case["pc"]
    plan = build_sampling(c)
    d = plan.as_dict()
    back = SamplingPlan.from_dict(through(d, case["how"], case["seed"]))
    require(back == plan, "%s came back as %s", plan, back)
    q = diff(back.as_dict(), d, "plan")
    require(q is None, "%s", q)
    require(b_samp._plan_from_dict(through(d, "yaml", case["seed"])) == plan, "the benchmark reads another plan")
    # a plan written without what it leaves at its default is the same plan
    short = {}
    for sec in ("split", "labeling", "imbalance", "policy"):
        dflt = {"split": HoldoutSplitSpec() if d["split"]["kind"] == "holdout" else KFoldSplitSpec(), "labeling": LabelingSpec(), "imbalance": ImbalanceSpec(),
                "policy": SamplingPolicy()}[sec]
        short[sec] = {k: v for k, v in d[sec].items() if k == "kind" or v != getattr(dflt, k)}
        if not short[sec]:
            short[sec] = None if case["drop"] % 2 else {}
            if case["drop"] % 3 == 0:
                del short[sec]
    require(SamplingPlan.from_dict(short) == plan, "leaving out defaults changes the plan: %s", short)
    bad, path, key = spoil(d, case["at"], case["key"])
    for reader in (SamplingPlan.from_dict, b_samp._plan_from_dict):
        try:
            reader(bad)
            fail("unknown key %s at %s accepted", key, path)
        except ValueError as e:
            require(key in str(e), "the error does not name %s: %s", key, e)
    ctx.nontrivial(plan != SamplingPlan())


GB = st.fixed_dictionaries({
    "scheme": st.sampled_from(["knn", "epsilon", "anchor"]), "metric": st.sampled_from(["cosine", "euclidean"]), "k": st.integers(1, 40),
    "radius": st.sampled_from([0.1, 0.5, 1 / 3, 2.0]), "symmetrize": st.sampled_from(["none", "or", "mutual"]), "normalize": st.sampled_from(["none", "rw", "sym"]),
    "self_loops": st.booleans(), "backend": st.sampled_from(["auto", "numpy", "sklearn"]), "chunk_size": POS, "feature_field": st.sampled_from(["features.X", "raw.X"]),
    "n_anchors": st.one_of(st.none(), POS), "anchors_k": POS, "anchors_method": st.sampled_from(["random", "kmeans"]), "candidate_limit": POS,
    "faiss_exact": st.booleans(), "faiss_hnsw_m": POS, "faiss_ef_search": POS, "faiss_ef_construction": POS})
GF = st.fixed_dictionaries({
    "views": st.lists(st.sampled_from(["attr", "diffusion", "struct"]), min_size=1, max_size=3), "diffusion_steps": st.integers(0, 9), "diffusion_alpha": F01,
    "struct_method": st.sampled_from(["deepwalk", "node2vec"]), "struct_dim": POS, "walk_length": st.integers(2, 9), "num_walks_per_node": POS, "window_size": POS,
    "p": st.sampled_from([0.25, 1.0, 4.0]), "q": st.sampled_from([0.25, 1.0, 1 / 3]), "cache": st.booleans()})
WSPEC = st.sampled_from([["binary", None], ["heat", 0.5], ["heat", 1 / 3], ["binary", 2.0]])


@check("R02", st.fixed_dictionaries({"b": GB, "w": WSPEC, "f": GF, "how": HOW, "seed": st.integers(0, 99), "change": st.integers(0, 10**4), "b2": GB, "f2": GF}), quick=600)
def graph_specs(case, ctx):
    """every field is set"""
    spec = GraphBuilderSpec(**case["b"], weights=GraphWeightsSpec(*case["w"]))
    feat = GraphFeaturizerSpec(**{**case["f"], "views": tuple(case["f"]["views"])})
    spec.validate()
    feat.validate()
    for s, cls in ((spec, GraphBuilderSpec), (feat, GraphFeaturizerSpec), (spec.weights, GraphWeightsSpec)):
        d = s.to_dict()
        require(set(d) == {f.name for f in fields(s)}, "%s.to_dict leaves out %s", cls.__name__, {f.name for f in fields(s)} - set(d))
        back = cls.from_dict(through(d, case["how"], case["seed"]))
        require(back == s, "%s came back as %s", s, back)
        q = diff(back.to_dict(), d, cls.__name__)
        require(q is None, "%s", q)
        require(fingerprint_spec(back.to_dict()) == fingerprint_spec(d) and fingerprint_spec(back) == fingerprint_spec(s), "identity changed")
    require(b_graph._spec_from_dict(through(spec.to_dict(), "yaml", case["seed"])) == spec, "the benchmark reads another graph spec")
    # one changed field is another identity
    for s, alt in ((spec, case["b2"]), (feat, {**case["f2"], "views": tuple(case["f2"]["views"])})):
        k = sorted(alt)[case["change"] % len(alt)]
        t = replace(s, **{k: alt[k]})
        require((t == s) == (fingerprint_spec(t.to_dict()) == fingerprint_spec(s.to_dict())), "%s=%r and %r share one identity", k, getattr(s, k), alt[k])
    ctx.nontrivial()


KW = st.dictionaries(st.sampled_from(["name", "subset", "root", "k", "version_id"]), st.one_of(st.integers(0, 9), st.booleans(), st.none(), st.text(max_size=4), st.sampled_from([1.0, 0.5]),
                     st.lists(st.integers(0, 3), max_size=3), st.dictionaries(st.sampled_from(["a", "b"]), st.integers(0, 3), max_size=2)), max_size=3)
TXT = st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=6)


@check("R02", st.fixed_dictionaries({"f": st.fixed_dictionaries({"key": TXT, "provider": TXT, "uri": TXT, "modality": st.sampled_from(sorted(MODALITIES)), "task": TXT, "description": TXT,
                                                                 "required_extra": st.one_of(st.none(), TXT), "source_kwargs": KW, "homepage": st.one_of(st.none(), TXT),
                                                                 "license": st.one_of(st.none(), TXT), "citation": st.one_of(st.none(), TXT)}),
                                     "how": HOW, "seed": st.integers(0, 99), "i": st.integers(0, 99)}), quick=300)
def dataset_records(case, ctx):
    """the record carries loading options"""
    f = copy.deepcopy(case["f"])
    s = DatasetSpec(**f)
    d = s.as_dict()
    back = DatasetSpec(**through(d, case["how"], case["seed"]))
    require(back == s and diff(back.as_dict(), d, "spec") is None, "%s came back as %s", s, back)
    require(back.fingerprint(schema_version=1) == s.fingerprint(schema_version=1), "identity changed")
    d["source_kwargs"]["scribbled"] = 1
    require("scribbled" not in s.source_kwargs, "the dictionary form is the record itself")
    for k in ("description", "homepage", "license", "citation"):
        require(replace(s, **{k: "other"}).fingerprint(schema_version=1) == s.fingerprint(schema_version=1), "%s is part of the identity", k)
    for k, v in (("provider", f["provider"] + "x"), ("uri", f["uri"] + "x"), ("source_kwargs", {**f["source_kwargs"], "extra": 0})):
        require(replace(s, **{k: v}).fingerprint(schema_version=1) != s.fingerprint(schema_version=1), "%s is not part of the identity", k)
    ident = DatasetIdentity(provider=f["provider"], canonical_uri=f["uri"], dataset_id=f["key"], version=f["homepage"], modality=f["modality"], task=f["task"],
                            required_extra=f["required_extra"], resolved_kwargs=f["source_kwargs"])
    ib = DatasetIdentity(**through(ident.as_dict(), case["how"], case["seed"]))
    require(ib == ident and ib.fingerprint(schema_version=1) == ident.fingerprint(schema_version=1), "%s came back as %s", ident, ib)
    # every dataset of the catalogue too
    k = DATASETS[case["i"] % len(DATASETS)]
    c = api.dataset_info(k)
    require(DatasetSpec(**through(c.as_dict(), case["how"], case["seed"])) == c, "%s does not round trip", k)
    ctx.nontrivial(bool(f["source_kwargs"]))


AUG = st.fixed_dictionaries({"steps": st.lists(st.fixed_dictionaries({"id": st.sampled_from(["core.identity", "tabular.gaussian_noise", "vision.cutout"]),
                                                                      "params": st.dictionaries(st.sampled_from(["std", "p", "size"]), cp.PVAL, max_size=2)}), max_size=4)})
COLS = st.one_of(st.none(), st.just({"mode": "all"}), st.fixed_dictionaries({"mode": st.just("indices"), "indices": st.lists(st.integers(0, 9), min_size=1, max_size=4)}),
                 st.fixed_dictionaries({"mode": st.just("random"), "fraction": st.sampled_from([0.1, 0.5, 1.0]), "seed_offset": st.integers(0, 9)}),
                 st.just({"mode": "complement"}))


@check("R02", st.fixed_dictionaries({"prep": cp.p06_case(), "aug": AUG, "cols": st.lists(COLS, min_size=2, max_size=4), "how": HOW, "seed": st.integers(0, 99),
                                     "at": st.integers(0, 40), "key": st.sampled_from(["near", "seed", "x", "K"]),
                                     "bad": st.sampled_from(["scalar_mods", "scalar_fields", "noid", "nullid", "params", "steps", "step", "root", "extra"]), "i": st.integers(0, 9)}), quick=500)
def plan_readers(case, ctx):
    """the plans have steps"""
    d = Path(ctx.tmp())
    p = case["prep"]["plan"]
    plan = cp.make_plan(p)
    obj = through(plan.to_dict(), case["how"], case["seed"])
    require(b_prep._plan_from_dict(obj) == plan and b_prep._plan_from_dict(obj).fingerprint() == plan.fingerprint(), "the benchmark reads another plan")
    # augmentation and view plans
    a = AugmentationPlan(steps=tuple(AugStep(op_id=s["id"], params=s["params"]) for s in case["aug"]["steps"]), modality="tabular")
    require(b_aug._plan_from_dict(through(case["aug"], case["how"], case["seed"]), modality="tabular") == a, "augmentation plan")
    vs, vd = [], []
    for i, c in enumerate(case["cols"]):
        c = dict(c) if c else None
        if c and c["mode"] == "complement":
            c = {"mode": "complement", "complement_of": "v0"} if i else {"mode": "all"}
        vs.append(ViewSpec(name="v%d" % i, preprocess=plan if i % 2 else None, meta={"role": i} if i % 3 == 0 else None,
                           columns=None if c is None else ColumnSelectSpec(**{k: tuple(v) if k == "indices" else v for k, v in c.items()})))
        e = {"name": "v%d" % i}
        if i % 2:
            e["preprocess"] = plan.to_dict()
        if i % 3 == 0:
            e["meta"] = {"role": i}
        if c is not None:
            e["columns"] = c
        vd.append(e)
    got = b_views._plan_from_dict(through({"views": vd}, case["how"], case["seed"]))
    require(got == ViewsPlan(views=tuple(vs)), "views plan %s read as %s", vs, got)
    for what, reader, o in (("preprocess", b_prep._plan_from_dict, plan.to_dict()), ("augmentation", lambda o: b_aug._plan_from_dict(o, modality=None), case["aug"]),
                            ("views", b_views._plan_from_dict, {"views": vd})):
        bad, path, key = spoil(o, case["at"], case["key"])
        try:
            reader(bad)
            fail("unknown key %s at %s of the %s plan accepted", key, path, what)
        except ValueError as e:
            require(key in str(e), "the error does not name %s: %s", key, e)
    # malformed plans are refused by both readers, never read as another plan
    m = copy.deepcopy(plan.to_dict())
    S = m["steps"]
    s = S[case["i"] % len(S)] if S else None
    bad = case["bad"]
    if s is None and bad not in ("root", "steps"):
        return
    if bad == "scalar_mods":
        s["modalities"] = "tabular"
    elif bad == "scalar_fields":
        s["requires_fields"] = "raw.X"
    elif bad == "noid":
        del s["id"]
    elif bad == "nullid":
        s["id"] = None
    elif bad == "params":
        s["params"] = [1]
    elif bad == "steps":
        m["steps"] = "core.pca"
    elif bad == "step":
        S[case["i"] % len(S)] = "core.pca"
    elif bad == "root":
        m = [m]
    elif bad == "extra":
        s["step_id"] = "core.other"
    (d / "m.yaml").write_text(yaml.safe_dump(m))
    readers = [("benchmark", lambda: b_prep._plan_from_dict(m))]
    if bad != "extra":
        readers.append(("file", lambda: load_plan(d / "m.yaml")))
    for who, r in readers:
        try:
            x = r()
        except ValueError:
            continue
        fail("the %s reader takes a malformed plan (%s): %s", who, bad, x)
    ctx.label(bad)
    ctx.nontrivial(bool(S) and bool(case["aug"]["steps"]))
