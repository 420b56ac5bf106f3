"""I02, I03, I05, I09, I10: the inductive methods that train a torch model."""
from __future__ import annotations

import copy
import importlib

import numpy as np
import torch

from . import c_supervised as cs
from .core import check, fail, require, st
from .eq import diff

from modssc.inductive.deep import TorchModelBundle
from modssc.inductive.errors import InductiveValidationError
from modssc.inductive.registry import get_method_class
from modssc.inductive.types import DeviceSpec, InductiveDataset

CPU = DeviceSpec(device="cpu")
COMMON = {"lambda_u": [1.0, 0.5, 3.0, 0.0], "detach_target": [True, True, False]}
MASK = {"p_cutoff": [0.4, 0.0, 0.6, 0.95, 1.0], "temperature": [0.5, 1.0, 2.0], "hard_label": [True, False], "use_cat": [False, True]}
WARM = {"unsup_warm_up": [0.4, 0.0, 1.0], "freeze_bn": [False, True]}
METHODS = {
    "pi_model": ("PiModelSpec", {**COMMON, **WARM}),
    "mean_teacher": ("MeanTeacherSpec", {**COMMON, **WARM, "ema_decay": [0.9, 0.0, 0.5, 0.999]}),
    "temporal_ensembling": ("TemporalEnsemblingSpec", {**COMMON, **WARM, "alpha": [0.6, 0.0, 0.9]}),
    "fixmatch": ("FixMatchSpec", {**COMMON, **MASK}),
    "defixmatch": ("DeFixMatchSpec", {**COMMON, **MASK}),
    "uda": ("UDASpec", {**COMMON, "p_cutoff": MASK["p_cutoff"], "temperature": [0.4, 1.0, 2.0], "use_cat": [False, True],
                        "tsa_schedule": ["none", "linear", "exp", "log"]}),
    "adamatch": ("AdaMatchSpec", {**COMMON, **MASK, "ema_p": [0.9, 0.0, 0.999]}),
    "flexmatch": ("FlexMatchSpec", {**COMMON, **MASK, "thresh_warmup": [True, False]}),
    "free_match": ("FreeMatchSpec", {**COMMON, "temperature": [0.5, 1.0], "hard_label": [True, False], "use_cat": [False, True],
                                     "lambda_e": [0.01, 0.0, 1.0], "ema_p": [0.9, 0.0, 0.999], "use_quantile": [True, False],
                                     "clip_thresh": [False, True]}),
    "softmatch": ("SoftMatchSpec", {**COMMON, "temperature": [0.5, 1.0], "hard_label": [True, False], "use_cat": [False, True],
                                    "ema_p": [0.9, 0.0, 0.999], "n_sigma": [2.0, 1.0], "per_class": [False, True],
                                    "dist_align": [True, False], "dist_uniform": [True, False]}),
    "vat": ("VATSpec", {**COMMON, **WARM, "xi": [1e-2, 1e-1], "eps": [2.5, 0.3], "num_iters": [1, 2]}),
    "noisy_student": ("NoisyStudentSpec", {**COMMON, **MASK, "unsup_warm_up": [0.0, 0.4, 1.0], "teacher_epochs": [1, 2]}),
    "mixmatch": ("MixMatchSpec", {"lambda_u": COMMON["lambda_u"], "temperature": [0.5, 1.0], "mixup_alpha": [0.5, 0.0, 4.0],
                                  "unsup_warm_up": [0.4, 0.0], "mixup_manifold": [False]}),
    "adsh": ("ADSHSpec", {**COMMON, "p_cutoff": [0.6, 0.3, 0.95], "use_cat": [False, True], "score_warmup_epochs": [0, 1, 2],
                          "majority_class": [None, None, 0]}),
    "meta_pseudo_labels": ("MetaPseudoLabelsSpec", {"detach_target": [True], "uda_weight": [1.0, 0.0, 2.0], "uda_threshold": [0.4, 0.0, 0.8],
                                                    "uda_temperature": [0.4, 1.0], "label_smoothing": [0.1, 0.0], "mpl_ema": [0.5, 0.99],
                                                    "mpl_weight": [1.0, 0.0, 5.0], "init_teacher_from_student": [True, False]}),
    "deep_co_training": ("DeepCoTrainingSpec", {"lambda_cot": [1.0, 0.0, 2.0], "lambda_dif": [1.0, 0.0], "adv_eps": [0.03, 0.0, 0.5],
                                                "detach_target": [True, False], "adv_clip_min": [None, -0.5], "adv_clip_max": [None, 0.5]}),
    "comatch": ("CoMatchSpec", {**COMMON, "lambda_c": [1.0, 0.0], "p_cutoff": [0.4, 0.8], "temperature": [0.5, 1.0],
                                "contrast_p_cutoff": [0.8, 0.3], "smoothing_alpha": [0.9, 0.5, 1.0], "queue_size": [6, 2560, 3],
                                "min_queue_fill": [0, 3], "da_len": [4, 256, 0], "dist_align": [True, False],
                                "dist_uniform": [True, False], "hard_label": [True, False], "use_cat": [False, True]}),
    "daso": ("DASOSpec", {**COMMON, "p_cutoff": MASK["p_cutoff"], "hard_label": [True, False], "use_cat": [False, True], "t_proto": [0.5, 0.05], "t_dist": [1.5, 1.0], "queue_size": [8, 256, 2], "pretrain_steps": [1, 0, 3],
                          "dist_update_period": [2, 1, 100], "ema_decay": [0.9, 0.999], "use_ema": [True, False], "dist_aware": [True, False],
                          "interp_alpha": [0.5, 0.0, 1.0], "lambda_align": [1.0, 0.0]}),
    "simclr_v2": ("SimCLRv2Spec", {"temperature": [0.5, 1.0], "distill_temperature": [1.0, 2.0], "alpha": [0.5, 0.0, 1.0],
                                   "pretrain_epochs": [1, 0, 2], "finetune_epochs": [1, 0, 2], "distill_epochs": [1, 0, 2],
                                   "transfer_pretrain": [True, False], "use_labeled_in_distill": [True, False], "detach_target": [True]}),
    "trinet": ("TriNetSpec", {"sigma0": [0.5, 0.95], "sigma_os": [0.25, 0.0], "output_smearing_std": [0.05, 0.0, 0.5], "pool_base": [2, 1000],
                              "max_rounds": [2, 1, 5], "fine_tune_interval": [2, 4, 0], "init_epochs": [1, 2], "train_epochs": [1, 2],
                              "des_passes": [3, 1], "labeling_stability_passes": [1, 2]}),
}
ALL = sorted(METHODS)
NO_EPOCHS = ("simclr_v2", "trinet")  # their own epoch settings
NEED_PAIR = [m for m in ALL if m not in ("noisy_student", "vat", "deep_co_training", "simclr_v2", "trinet")]


def who(case):
    return "%s(%s)" % (case["method"], ", ".join("%s=%r" % kv for kv in sorted(case["spec"].items())))


class Net(torch.nn.Module):
    """x -> tanh(W1 x + b1) -> W2 h + b2, with an optional log of what it was asked"""

    def __init__(self, d, k, seed, *, out="tensor", dtype=torch.float64, hidden=4, log=None, tag="net", scale=0.8):
        super().__init__()
        rng = np.random.default_rng(seed)
        p = lambda *s: torch.nn.Parameter(torch.as_tensor(scale * rng.standard_normal(s)).to(dtype))
        self.W1, self.b1, self.W2, self.b2 = p(d, hidden), p(hidden), p(hidden, k), p(k)
        self.out, self.log, self.tag = out, log, tag

    def features(self, X):
        x = X["x"] if isinstance(X, dict) else X
        if isinstance(X, dict) and "edge_index" in X:
            w = X.get("edge_weight")
            if w is None:
                w = torch.ones(X["edge_index"].shape[1])
            x = x + torch.zeros_like(x).index_add(0, X["edge_index"][1], x[X["edge_index"][0]] * w.to(x.dtype)[:, None])
        return torch.tanh(x.reshape(x.shape[0], -1) @ self.W1 + self.b1)

    def forward(self, X):
        if self.log is not None:
            self.log.append((self.tag, self.training, torch.is_grad_enabled(), _copy(X)))
        h = self.features(X)
        z = h @ self.W2 + self.b2
        return {"tensor": z, "mapping": {"logits": z, "feat": h}, "tuple": (z, h)}[self.out]

    def __deepcopy__(self, memo):
        new = Net.__new__(Net)
        torch.nn.Module.__init__(new)
        for n in ("W1", "b1", "W2", "b2"):
            setattr(new, n, torch.nn.Parameter(getattr(self, n).detach().clone()))
        new.out, new.log, new.tag = self.out, self.log, self.tag + "'"
        new.train(self.training)
        return new


class Shared(torch.nn.Module):
    def __init__(self, d, hidden, seed, dtype, log=None):
        super().__init__()
        rng = np.random.default_rng(seed)
        self.W = torch.nn.Parameter(torch.as_tensor(rng.standard_normal((d, hidden))).to(dtype))
        self.log = log

    def forward(self, X):
        if self.log is not None:
            self.log.append(("shared", self.training, torch.is_grad_enabled(), _copy(X)))
        x = X["x"] if isinstance(X, dict) else X
        return torch.tanh(x.reshape(x.shape[0], -1) @ self.W)


class Head(torch.nn.Module):
    def __init__(self, hidden, k, seed, dtype):
        super().__init__()
        rng = np.random.default_rng(seed)
        self.W = torch.nn.Parameter(torch.as_tensor(rng.standard_normal((hidden, k))).to(dtype))

    def forward(self, h):
        return h @ self.W


def _copy(X):
    if isinstance(X, dict):
        return {k: v.detach().clone() if isinstance(v, torch.Tensor) else v for k, v in X.items()}
    return X.detach().clone()


class LogSGD(torch.optim.SGD):
    log, tag = None, "opt"

    def step(self, *a, **kw):
        if self.log is not None:
            self.log.append((self.tag, None, None, None))
        return super().step(*a, **kw)


def spec_of(method):
    return getattr(importlib.import_module("modssc.inductive.methods." + method), METHODS[method][0])


class World:
    """data and freshly initialised models of one case"""

    def __init__(self, case, log=None):
        self.case, self.log = case, log
        rng = np.random.default_rng(case["data"])
        m = case["method"]
        self.k, self.d = case["k"], case["d"]
        self.dtype = torch.float64 if case["xtype"] == "float64" else torch.float32
        nl, nu = case["n"], case["nu"]
        t = lambda n: torch.as_tensor(rng.standard_normal((n, self.d))).to(self.dtype)
        top = self.k - 1 if case["lacks_top"] and self.k > 1 else self.k
        self.y = torch.as_tensor(rng.integers(0, top, size=nl))
        self.Xl, self.Xw = t(nl), t(nu)
        self.Xl += 0.7 * self.y[:, None].to(self.dtype)
        self.Xs = self.Xw + 0.3 * t(nu)
        self.Xs1 = self.Xw + 0.3 * t(nu)
        self.Xls = self.Xl + 0.3 * t(nl)
        self.Xt = t(case["m"])
        self.lr = case["lr"]
        self.models = []
        mk = lambda tag, s, out=None: self._bundle(tag, case["init"] + s, out or case["out"])
        kw = dict(case["spec"])
        if m not in NO_EPOCHS:
            kw["max_epochs"] = case["epochs"]
        kw["batch_size"] = case["batch"]
        if m == "meta_pseudo_labels":
            kw["teacher_bundle"], kw["student_bundle"] = mk("teacher", 0), mk("student", 1)
        elif m == "deep_co_training":
            kw["model_bundle_1"], kw["model_bundle_2"] = mk("one", 0), mk("two", 1)
        elif m == "simclr_v2":
            for i, name in enumerate(("pretrain", "finetune", "student")):
                if name not in case.get("omit", ()):
                    kw[name + "_bundle"] = mk(name, i, "mapping")
        elif m == "trinet":
            sh = Shared(self.d, 4, case["init"], self.dtype, log)
            kw["shared_bundle"] = TorchModelBundle(model=sh, optimizer=self._opt(sh, "opt"))
            heads = [Head(4, self.k, case["init"] + 1 + i, self.dtype) for i in range(3)]
            kw["head_bundles"] = tuple(TorchModelBundle(model=h, optimizer=self._opt(h, "opt")) for h in heads)
            self.models += [sh] + heads
        else:
            out = "mapping" if m in ("comatch", "daso") else None
            kw["model_bundle"] = mk("net", 0, out)
        self.spec = spec_of(m)(**kw)

    def _opt(self, net, tag):
        o = LogSGD(net.parameters(), lr=self.lr)
        o.log, o.tag = self.log, tag
        return o

    def _bundle(self, tag, seed, out):
        net = Net(self.d, self.k, seed, out=out, dtype=self.dtype, log=self.log, tag=tag, scale=self.case.get("scale", 0.8))
        net.train(self.case["train_mode"])
        self.models.append(net)
        ema, meta = None, None
        if self.case["method"] in ("mean_teacher", "daso"):
            ema = Net(self.d, self.k, seed + 77, out=out, dtype=self.dtype, log=self.log, tag="ema")
            self.models.append(ema)
        return TorchModelBundle(model=net, optimizer=self._opt(net, "opt:" + tag), ema_model=ema, meta=meta)

    def data(self):
        m = self.case["method"]
        views, meta, X_u = None, None, None
        if m == "comatch":
            views = {"X_u_s_1": self.Xs1}
        if m in ("defixmatch", "meta_pseudo_labels"):
            views = {"X_l_s": self.Xls}
        if m == "flexmatch":
            meta = {"idx_u": torch.arange(len(self.Xw)), "ulb_size": len(self.Xw)}
        if m in ("vat", "deep_co_training", "trinet", "noisy_student", "simclr_v2"):
            X_u = self.Xw
        return InductiveDataset(X_l=self.Xl, y_l=self.y, X_u=X_u, X_u_w=self.Xw, X_u_s=self.Xs, views=views, meta=meta)

    def method(self):
        return get_method_class(self.case["method"])(self.spec)


def deep_case(methods, xtypes=("float64", "float32"), **over):
    def one(m):
        d = {
            "method": st.just(m), "spec": cs.params_of(METHODS[m][1]),
            "k": st.sampled_from([3, 2, 4]), "d": st.integers(1, 3).map(lambda v: 4 - v), "n": st.integers(1, 9).map(lambda v: 10 - v),
            "nu": st.integers(1, 9).map(lambda v: 10 - v), "m": st.integers(1, 7).map(lambda v: 8 - v),
            "batch": st.sampled_from([4, 16, 3, 2, 5, 1]), "epochs": st.sampled_from([3, 2, 1, 4]), "lr": st.sampled_from([0.3, 0.05]),
            "lacks_top": st.sampled_from([False, False, True]), "xtype": st.sampled_from(list(xtypes)),
            "out": st.sampled_from(["tensor", "mapping", "tuple"]), "train_mode": st.booleans(),
            "data": st.integers(0, 2**32 - 1), "init": st.integers(0, 2**31 - 1), "seed": st.integers(0, 2**31 - 10), "rng": st.integers(0, 2**31 - 1),
        }
        d.update(over)
        return st.fixed_dictionaries(d)
    return st.sampled_from(list(methods)).flatmap(one)


def rows_ok(p, n, k, what):
    require(isinstance(p, torch.Tensor) and tuple(p.shape) == (n, k), "%s: predict_proba has shape %s instead of %s", what, tuple(p.shape), (n, k))
    a = p.detach().double().numpy()
    require(np.isfinite(a).all() and (a >= 0).all() and np.allclose(a.sum(1), 1, atol=1e-5), "%s: rows are no distributions: %r", what, a[:3].tolist())
    return a


@check("I05", deep_case(ALL), quick=700, shards=4)
def deep_contract(case, ctx):
    """more than one training step and more than one test row"""
    w = World(case)
    nothing = case["method"] == "simclr_v2" and not any(case["spec"].get(s, 1) for s in ("pretrain_epochs", "finetune_epochs", "distill_epochs"))
    cs.scramble(case["rng"])
    m = w.method()
    try:
        back = m.fit(w.data(), device=CPU, seed=case["seed"])
    except InductiveValidationError as e:
        if nothing:
            return
        fail("%s refuses valid data: %s", who(case), e)
    require(back is m, "%s: fit returns another object", who(case))
    modes = [x.training for x in w.models]
    before = [q.detach().clone() for x in w.models for q in x.parameters()]
    p = m.predict_proba(w.Xt)
    a = rows_ok(p, len(w.Xt), w.k, who(case))
    hard = m.predict(w.Xt)
    require(hard.tolist() == a.argmax(1).tolist(), "%s: predict %s is not the most probable class of %s", who(case), hard.tolist(), a.tolist())
    one = torch.cat([m.predict_proba(w.Xt[i : i + 1]) for i in range(len(w.Xt))])
    require(np.allclose(one.double().numpy(), a, atol=1e-5), "%s: a row's prediction depends on the rows next to it", who(case))
    perm = torch.as_tensor(np.random.default_rng(case["rng"]).permutation(len(w.Xt)))
    require(np.allclose(m.predict_proba(w.Xt[perm]).double().numpy(), a[perm.numpy()], atol=1e-5), "%s: predictions depend on row order", who(case))
    require([x.training for x in w.models] == modes, "%s: predicting changed the training mode of the user's model", who(case))
    require(all(torch.equal(x, y) for x, y in zip(before, [q for x in w.models for q in x.parameters()])), "%s: predicting changed the model", who(case))
    ctx.nontrivial(len(w.Xt) > 1 and (case["epochs"] > 1 or max(case["n"], case["nu"]) > case["batch"]))
    ctx.label(case["method"])


# ------------------------------------------------------------------ unusable input
BAD = ["no_w", "no_s", "float_y", "high_y", "negative_y", "2d_y", "batch0", "batch_neg", "epochs0", "lambda_neg", "cutoff_high", "cutoff_neg", "temp0",
       "numpy", "rows", "width", "int_x", "none", "no_bundle", "empty_l", "empty_u", "y_len", "no_params", "alpha"]


def corrupt(bad, w, case):
    """(spec, data) with one thing wrong, or None where the setting does not exist"""
    import dataclasses
    m = case["method"]
    spec, d = w.spec, w.data()
    sp = lambda **kw: (dataclasses.replace(spec, **kw), d) if all(hasattr(spec, k) for k in kw) else None
    dt = lambda **kw: (spec, dataclasses.replace(d, **kw))
    big = len(w.y) > 0
    if bad == "no_w":
        return dt(X_u_w=None, X_u=None)
    if bad == "no_s":
        return dt(X_u_s=None) if m in NEED_PAIR else None
    if bad == "float_y":
        return dt(y_l=w.y.double())
    if bad == "high_y":
        y = w.y.clone(); y[-1] = w.k
        return dt(y_l=y)
    if bad == "negative_y":
        y = w.y.clone(); y[0] = -1
        return dt(y_l=y)
    if bad == "2d_y":
        return dt(y_l=torch.stack([w.y, w.y], 1))
    if bad == "batch0":
        return sp(batch_size=0)
    if bad == "batch_neg":
        return sp(batch_size=-3)
    if bad == "epochs0":
        return sp(max_epochs=0) if m not in NO_EPOCHS else None
    if bad == "lambda_neg":
        return sp(lambda_u=-1.0)
    if bad == "cutoff_high":
        return sp(p_cutoff=1.5)
    if bad == "cutoff_neg":
        return sp(p_cutoff=-0.1)
    if bad == "temp0":
        return sp(temperature=0.0)
    if bad == "alpha":
        return sp(alpha=1.5) if m in ("temporal_ensembling", "simclr_v2") else (sp(ema_decay=1.5) or sp(ema_p=1.5))
    if bad == "numpy":
        return dt(X_l=w.Xl.numpy(), y_l=w.y.numpy())
    if bad == "rows":
        return dt(X_u_s=w.Xs[:-1]) if m in NEED_PAIR and len(w.Xs) > 1 else None
    if bad == "width":
        k = {"X_u_w": torch.cat([w.Xw, w.Xw], 1)}
        if d.X_u is not None:
            k["X_u"] = k["X_u_w"]
        return dt(**k)
    if bad == "int_x":
        return dt(X_l=w.Xl.long())
    if bad == "none":
        return spec, None
    if bad == "no_bundle":
        name = {"meta_pseudo_labels": "student_bundle", "deep_co_training": "model_bundle_2", "trinet": "shared_bundle"}.get(m, "model_bundle")
        return sp(**{name: None}) if m != "simclr_v2" else None
    if bad == "empty_l":
        return dt(X_l=w.Xl[:0], y_l=w.y[:0])
    if bad == "empty_u":
        k = {"X_u_w": w.Xw[:0], "X_u_s": w.Xs[:0]}
        if d.X_u is not None:
            k["X_u"] = w.Xw[:0]
        return dt(**k)
    if bad == "y_len":
        return dt(y_l=torch.cat([w.y, w.y[:1]]))
    return None


@check("I05", st.tuples(deep_case(ALL), st.sampled_from(BAD)), quick=500, shards=2)
def deep_rejects(case, ctx):
    """the corruption applies to the method"""
    case, bad = case
    w = World(case)
    if case["method"] == "simclr_v2" and any(case["spec"][s] < 1 for s in ("pretrain_epochs", "finetune_epochs", "distill_epochs")):
        case["spec"].update(pretrain_epochs=1, finetune_epochs=1, distill_epochs=1)
        w = World(case)
    made = corrupt(bad, w, case)
    if made is None:
        return
    spec, data = made
    m = get_method_class(case["method"])(spec)
    try:
        m.fit(data, device=CPU, seed=case["seed"])
    except InductiveValidationError as e:
        require(str(e), "an empty error message")
        try:
            m.predict_proba(w.Xt)
        except (RuntimeError, InductiveValidationError):
            pass
        else:
            fail("%s predicts although its fit was refused (%s)", case["method"], bad)
    else:
        fail("%s accepts %s", who(case), bad)
    ctx.nontrivial()
    ctx.label(bad)


# ------------------------------------------------------------------ reproducibility
def weights(w):
    return [q.detach().clone() for x in w.models for q in x.parameters()]


def same(a, b):
    return all(torch.equal(x, y) for x, y in zip(a, b))


@check("I02", deep_case(ALL), quick=350, shards=3)
def deep_repeatable(case, ctx):
    """the fit changes the model"""
    cs.scramble(case["rng"])
    w1 = World(case)
    start = weights(w1)
    m1 = w1.method()
    run = lambda m, w, seed=case["seed"]: m.fit(w.data(), device=CPU, seed=seed)
    try:
        run(m1, w1)
    except InductiveValidationError:
        return
    got, p = weights(w1), m1.predict_proba(w1.Xt)
    cs.scramble(case["rng"] + 1)
    w2 = World(case)
    m2 = w2.method()
    run(m2, w2)
    require(same(got, weights(w2)) and torch.equal(p, m2.predict_proba(w2.Xt)), "%s: the same fit with seed %d gives another model", who(case), case["seed"])
    # a second fit of the same object from the same initial weights; the state of the first must not matter
    m2_first = w2.method()
    d2 = w2.data()
    for q, v in zip([q for x in w2.models for q in x.parameters()], start):
        q.data.copy_(v)
        q.grad = None
    for x, y in zip(w2.models, World(case).models):
        x.train(y.training)
    m2.fit(d2, device=CPU, seed=case["seed"])
    require(same(got, weights(w2)) and torch.equal(p, m2.predict_proba(w2.Xt)), "%s: fitting the same object again from the same weights gives another model", who(case))
    ctx.nontrivial(not same(got, start))
    ctx.label(case["method"])


@check("I03", deep_case(ALL), quick=200, shards=2)
def deep_inputs_untouched(case, ctx):
    """the fit changes the model"""
    w = World(case)
    start = weights(w)
    d = w.data()
    fields = {n: copy.deepcopy(getattr(d, n)) for n in ("X_l", "y_l", "X_u", "X_u_w", "X_u_s", "views", "meta")}
    spec = w.spec
    plain = {k: v for k, v in vars(spec).items() if not isinstance(v, (TorchModelBundle, tuple))}
    plain = dict(plain)
    m = w.method()
    try:
        m.fit(d, device=CPU, seed=case["seed"])
    except InductiveValidationError:
        return
    test = w.Xt.clone()
    m.predict(w.Xt)
    require(torch.equal(test, w.Xt), "%s: predict changed its input", who(case))
    for n, v in fields.items():
        x = diff(v, getattr(d, n), n)
        require(x is None, "%s changed its input: %s", who(case), x)
    require({k: v for k, v in vars(spec).items() if not isinstance(v, (TorchModelBundle, tuple))} == plain, "%s changed its spec", who(case))
    ctx.nontrivial(not same(start, weights(w)))
    ctx.label(case["method"])


# ------------------------------------------------------------------ graph inputs
def as_graph(X, rng, weighted):
    n = len(X)
    e = int(rng.integers(0, 3 * n + 1))
    ei = rng.integers(0, n, size=(2, e))
    ei = np.unique(ei, axis=1) if e else ei
    ei = ei[:, rng.permutation(ei.shape[1])]
    g = {"x": X, "edge_index": torch.as_tensor(ei.astype(np.int64))}
    w = torch.as_tensor(rng.uniform(0.1, 1.0, size=ei.shape[1]))
    if weighted:
        g["edge_weight"] = w
    return g


@check("I09", st.tuples(deep_case(ALL, xtypes=("float64",)), st.booleans()), quick=350, shards=3)
def deep_graph_inputs(case, ctx):
    """some batch holds an edge and a node with an edge is outside some batch"""
    case, weighted = case
    log = []
    w = World(case, log)
    rng = np.random.default_rng(case["data"] + 1)
    graphs = {n: as_graph(getattr(w, n), rng, weighted) for n in ("Xl", "Xw", "Xs", "Xs1", "Xls", "Xt")}
    where = {}
    for n, g in graphs.items():
        for i, row in enumerate(g["x"].numpy()):
            where[row.tobytes()] = (n, i)
        setattr(w, n, g)
    w.Xw = graphs["Xw"]
    d = None
    import dataclasses
    m = w.method()
    case_n = len(graphs["Xw"]["x"])
    d = w.data()
    if case["method"] == "flexmatch":
        d = dataclasses.replace(d, meta={"idx_u": torch.arange(case_n), "ulb_size": case_n})
    try:
        m.fit(d, device=CPU, seed=case["seed"])
    except InductiveValidationError as e:
        if "graph" in str(e).lower() or "dict" in str(e).lower():
            ctx.label("no graphs: " + case["method"])
            return
        if case["method"] == "simclr_v2":
            return
        raise
    p = m.predict_proba(graphs["Xt"])
    rows_ok(p, len(graphs["Xt"]["x"]), w.k, who(case))
    full = {}
    for n, g in graphs.items():
        ei = g["edge_index"].numpy()
        ww = g["edge_weight"].numpy() if weighted else np.ones(ei.shape[1])
        full[n] = {(int(a), int(b)): float(c) for a, b, c in zip(ei[0], ei[1], ww)}
    partial = edges = False
    for tag, training, grad, X in log:
        if X is None:
            continue
        require(isinstance(X, dict) and "edge_index" in X, "%s: the model is given %s instead of a graph", who(case), type(X).__name__)
        ei = X["edge_index"].numpy()
        require(ei.size == 0 or (ei.min() >= 0 and ei.max() < len(X["x"])), "%s: an edge leaves the batch", who(case))
        if weighted:
            require("edge_weight" in X, "%s: the edge weights are missing from a batch", who(case))
            require(len(X["edge_weight"]) == ei.shape[1], "%s: a batch has %d edges and %d edge weights", who(case), ei.shape[1], len(X["edge_weight"]))
        ids = [where.get(r.tobytes()) for r in X["x"].numpy()]
        if None in ids:
            continue  # inputs the method changed (mixup, adversarial steps)
        # nodes that come from one graph; a node that comes again belongs to another copy of it
        parts, times = {}, {}
        for pos, (n, i) in enumerate(ids):
            times[(n, i)] = times.get((n, i), 0) + 1
            parts.setdefault((n, times[(n, i)]), []).append((i, pos))
        blocks = [(n, members) for (n, _), members in parts.items()]
        expect = {}
        for n, members in blocks:
            at = dict(members)
            for (a, b), c in full[n].items():
                if a in at and b in at:
                    expect[(at[a], at[b])] = c
                elif a in at or b in at:
                    partial = True
        got = {}
        ww = X["edge_weight"].numpy() if weighted else np.ones(ei.shape[1])
        for a, b, c in zip(ei[0], ei[1], ww):
            got[(int(a), int(b))] = float(c)
        require(len(got) == ei.shape[1], "%s: a batch repeats an edge", who(case))
        require(got.keys() == expect.keys(), "%s: a batch of nodes %s has the edges %s instead of %s", who(case), ids, sorted(got), sorted(expect))
        require(all(abs(got[k] - expect[k]) < 1e-9 for k in got), "%s: a batch has the wrong edge weights", who(case))
        edges = edges or bool(got)
    ctx.nontrivial(edges and partial)
    ctx.label(case["method"])


# ------------------------------------------------------------------ I10: the loss of each algorithm
class Margin(Exception):
    """a threshold or a tie decided by rounding"""


def lsm(z):
    return z - torch.logsumexp(z, dim=1, keepdim=True)


def smx(z):
    return torch.exp(lsm(z))


def ce(z, y):
    return -lsm(z)[torch.arange(len(y)), y]


def sce(z, q):
    return -(q * lsm(z)).sum(1)


def sharpen(p, T):
    q = p ** (1.0 / T)
    return q / q.sum(1, keepdim=True)


def passes(values, cut):
    near = 1e-9 if isinstance(cut, float) and cut in (0.0, 1.0) else 1e-6
    if bool(((values - cut).abs() < near).any()):
        raise Margin
    return (values >= cut).to(torch.float64)


def arg(p):
    s = p.detach().sort(dim=1).values
    if s.shape[1] > 1 and bool((s[:, -1] - s[:, -2] < 1e-7).any()):
        raise Margin
    return p.argmax(1)


class Ref:
    """one reference run: settings ``c``, networks, algorithm state"""

    def __init__(self, w):
        self.w, self.c, self.k = w, w.spec, w.k
        self.t, self.s = 0, {}

    def f(self, X, net=None):
        n = net or self.net
        return torch.tanh(X @ n.W1 + n.b1) @ n.W2 + n.b2

    def det(self, p):
        return p.detach() if self.c.detach_target else p

    def warm(self, total):
        c = self.c
        steps = 0 if c.unsup_warm_up <= 0 else max(1, round(c.unsup_warm_up * total))
        return 1.0 if steps <= 0 else min(self.t / steps, 1.0)

    def pseudo(self, zs, p, mask, T, hard=None, denom=None):
        hard = self.c.hard_label if hard is None else hard
        if hard:
            l = ce(zs, arg(p))
        else:
            l = sce(zs, sharpen(p, T) if T else p)
        return (l * mask).sum() / max(float(mask.sum()), 1.0) if denom is None else (l * mask).sum() / denom(mask)


def l_pi_model(R, B):
    p, q = smx(R.f(B.w)), smx(R.f(B.s))
    return ce(R.f(B.l), B.y).mean() + R.c.lambda_u * R.warm(B.total) * ((q - R.det(p)) ** 2).mean()


def l_mean_teacher(R, B):
    if R.t == 0:
        R.ema = copy.deepcopy(R.net)
    p, q = smx(R.f(B.w, R.ema)).detach(), smx(R.f(B.s))
    return ce(R.f(B.l), B.y).mean() + R.c.lambda_u * R.warm(B.total) * ((q - p) ** 2).mean()


def a_mean_teacher(R, B):
    with torch.no_grad():
        for e, q in zip(R.ema.parameters(), R.net.parameters()):
            e.mul_(R.c.ema_decay).add_(q, alpha=1 - R.c.ema_decay)


def l_temporal(R, B):
    n = len(R.w.Xw)
    if R.t == 0:
        R.s.update(Z=torch.zeros(n, R.k, dtype=torch.float64))
    if B.first:
        R.s["now"] = torch.zeros(n, R.k, dtype=torch.float64)
        R.s["target"] = R.s["Z"] / max(1 - R.c.alpha ** B.epoch, 1e-12)
    p = 0.5 * (smx(R.f(B.w)) + smx(R.f(B.s)))
    R.s["now"][B.iu] = p.detach()
    loss = ce(R.f(B.l), B.y).mean() + R.c.lambda_u * R.warm(B.total) * ((p - R.s["target"][B.iu]) ** 2).mean()
    if B.last:
        R.s["Z"] = R.c.alpha * R.s["Z"] + (1 - R.c.alpha) * R.s["now"]
    return loss


def l_fixmatch(R, B):
    p = R.det(smx(R.f(B.w)))
    return ce(R.f(B.l), B.y).mean() + R.c.lambda_u * R.pseudo(R.f(B.s), p, passes(p.max(1).values, R.c.p_cutoff), R.c.temperature)


def l_defixmatch(R, B):
    zl, zls = R.f(B.l), R.f(B.ls)
    p, pl = R.det(smx(R.f(B.w))), R.det(smx(zl))
    u = R.pseudo(R.f(B.s), p, passes(p.max(1).values, R.c.p_cutoff), R.c.temperature)
    anti = R.pseudo(zls, pl, passes(pl.max(1).values, R.c.p_cutoff), R.c.temperature)
    return 0.5 * (ce(zl, B.y).mean() + ce(zls, B.y).mean()) + R.c.lambda_u * (u - anti)


def l_uda(R, B):
    c, zl = R.c, R.f(B.l)
    p = R.det(smx(R.f(B.w) / c.temperature))
    mask = passes(p.max(1).values, c.p_cutoff)
    kl = (p * (torch.log(p) - lsm(R.f(B.s)))).sum(1)
    unsup = (kl * mask).sum() / mask.sum() if float(mask.sum()) else torch.zeros(())
    sup = ce(zl, B.y)
    if c.tsa_schedule != "none":
        r = min(R.t / max(B.total, 1), 1.0)
        a = {"linear": r, "exp": np.exp((r - 1) * 5), "log": 1 - np.exp(-r * 5)}[c.tsa_schedule]
        thr = a * (1 - 1.0 / R.k) + 1.0 / R.k
        pt = smx(zl)[torch.arange(len(B.y)), B.y].detach()
        if bool(((pt - thr).abs() < 1e-6).any()):
            raise Margin
        sup = sup * (pt < thr).to(torch.float64)
    return sup.mean() + c.lambda_u * unsup


def l_adamatch(R, B):
    c = R.c
    zl = R.f(B.l)
    pl, pw = R.det(smx(zl)), R.det(smx(R.f(B.w)))
    if R.t == 0:
        R.s.update(m=torch.full((R.k,), 1.0 / R.k, dtype=torch.float64), t=torch.full((R.k,), 1.0 / R.k, dtype=torch.float64))
    R.s["m"] = c.ema_p * R.s["m"].detach() + (1 - c.ema_p) * pw.mean(0)
    R.s["t"] = c.ema_p * R.s["t"].detach() + (1 - c.ema_p) * pl.mean(0)
    q = pw * (R.s["t"] / R.s["m"].clamp_min(1e-6))
    q = q / q.sum(1, keepdim=True)
    cut = pl.max(1).values.mean() * c.p_cutoff
    return ce(zl, B.y).mean() + c.lambda_u * R.pseudo(R.f(B.s), q, passes(q.max(1).values, cut), c.temperature)


def l_flexmatch(R, B):
    c = R.c
    n = len(R.w.Xw)
    if R.t == 0:
        R.s["sel"] = np.full(n, -1)
        R.s["acc"] = np.zeros(R.k)
    p = R.det(smx(R.f(B.w)))
    top, lab = p.max(1).values, arg(p)
    acc = torch.as_tensor(R.s["acc"])[lab]
    cut = c.p_cutoff * (acc / (2 - acc))
    mask = passes(top, cut)
    loss = ce(R.f(B.l), B.y).mean() + c.lambda_u * R.pseudo(R.f(B.s), p, mask, c.temperature)
    sure = (top >= c.p_cutoff).numpy()
    passes(top, c.p_cutoff)
    R.s["sel"][B.iu[sure]] = lab.numpy()[sure]
    cnt = np.array([(R.s["sel"] == j).sum() for j in range(-1, R.k)], float)
    if c.thresh_warmup:
        R.s["acc"] = cnt[1:] / max(cnt.max(), 1.0)
    else:
        R.s["acc"] = cnt[1:] / cnt[1:].max() if cnt[1:].max() > 0 else np.zeros(R.k)
    return loss


def l_free_match(R, B):
    c = R.c
    p = R.det(smx(R.f(B.w)))
    top, lab = p.max(1).values, arg(p)
    u = torch.full((R.k,), 1.0 / R.k, dtype=torch.float64)
    if R.t == 0:
        R.s.update(m=u, h=u, t=u.mean())
    v = torch.quantile(top, 0.8) if c.use_quantile else top.mean()
    R.s["t"] = c.ema_p * R.s["t"].detach() + (1 - c.ema_p) * v
    if c.clip_thresh:
        R.s["t"] = R.s["t"].clamp(0.0, 0.95)
    R.s["m"] = c.ema_p * R.s["m"].detach() + (1 - c.ema_p) * p.mean(0)
    hist = torch.bincount(lab, minlength=R.k).double()
    R.s["h"] = c.ema_p * R.s["h"] + (1 - c.ema_p) * hist / hist.sum()
    cut = R.s["t"] * (R.s["m"] / R.s["m"].max())[lab]
    mask = passes(top, cut)
    zs = R.f(B.s)
    loss = ce(R.f(B.l), B.y).mean() + c.lambda_u * R.pseudo(zs, p, mask, c.temperature)
    if float(mask.sum()) > 0:
        keep = mask.bool()
        ps = smx(zs[keep])
        got = torch.bincount(arg(ps), minlength=R.k).double()
        got = got / got.sum()

        def inv(h):
            s = 1.0 / h
            return torch.where(torch.isinf(s), torch.zeros_like(s), s)
        a = R.s["m"] * inv(R.s["h"])
        a = a / a.sum()
        b = ps.mean(0) * inv(got)
        b = b / b.sum()
        ent = (a * torch.log(b + 1e-12)).sum()
        loss = loss + c.lambda_e * ent
    return loss


def l_softmatch(R, B):
    c = R.c
    zl = R.f(B.l)
    pl, p = R.det(smx(zl)), R.det(smx(R.f(B.w)))
    u = torch.full((R.k,), 1.0 / R.k, dtype=torch.float64)
    if R.t == 0:
        R.s.update(m=u, t=u, mu=u.clone() if c.per_class else u[0], var=torch.ones(R.k, dtype=torch.float64) if c.per_class else torch.ones((), dtype=torch.float64))
    q = p
    if c.dist_align:
        R.s["m"] = c.ema_p * R.s["m"].detach() + (1 - c.ema_p) * p.mean(0)
        if not c.dist_uniform:
            R.s["t"] = c.ema_p * R.s["t"].detach() + (1 - c.ema_p) * pl.mean(0)
        q = p * (R.s["t"] / R.s["m"].clamp_min(1e-6))
        q = q / q.sum(1, keepdim=True)
    top, lab = q.max(1).values, arg(q)
    if c.per_class:
        mu, var = torch.zeros(R.k, dtype=torch.float64), torch.ones(R.k, dtype=torch.float64)
        for j in range(R.k):
            if int((lab == j).sum()) > 1:
                mu[j], var[j] = top[lab == j].mean(), top[lab == j].var()
    else:
        mu, var = top.mean(), top.var() if len(top) > 1 else torch.zeros(())
    R.s["mu"] = c.ema_p * R.s["mu"].detach() + (1 - c.ema_p) * mu
    R.s["var"] = c.ema_p * R.s["var"].detach() + (1 - c.ema_p) * var
    mu, var = (R.s["mu"][lab], R.s["var"][lab]) if c.per_class else (R.s["mu"], R.s["var"])
    if float(var.min()) < 1e-9:
        raise Margin
    weight = torch.exp(-((top - mu).clamp(max=0.0) ** 2) / (2 * var / c.n_sigma**2))
    return ce(zl, B.y).mean() + c.lambda_u * R.pseudo(R.f(B.s), p, weight, c.temperature, denom=lambda m: m.sum().clamp_min(1.0))


def l_noisy_student(R, B):
    c = R.c
    p = smx(R.f(B.w, R.teacher) / c.temperature).detach()
    mask = passes(p.max(1).values, c.p_cutoff)
    zs = R.f(B.s)
    l = ce(zs, arg(p)) if c.hard_label else (p * (torch.log(p) - lsm(zs))).sum(1)
    un = (l * mask).sum() / mask.sum() if float(mask.sum()) else torch.zeros(())
    return ce(R.f(B.l), B.y).mean() + c.lambda_u * R.warm(B.total) * un


def feat(R, X, net=None):
    n = net or R.net
    return torch.tanh(X @ n.W1 + n.b1)


def unit_rows(v):
    return v / v.norm(dim=1, keepdim=True).clamp_min(1e-12)


def l_comatch(R, B):
    c = R.c
    mem, past = R.s.setdefault("mem", []), R.s.setdefault("past", [])
    p = smx(R.f(B.w) / c.temperature).detach()
    if c.dist_align and c.da_len:
        past.append(p.mean(0))
        del past[: -c.da_len]
        want = torch.full((R.k,), 1.0 / R.k) if c.dist_uniform else smx(R.f(B.l)).mean(0).detach()
        p = p * want / torch.stack(past).mean(0).clamp_min(1e-6)
        p = p / p.sum(1, keepdim=True)
    fu, q = unit_rows(feat(R, B.w)).detach(), p
    if mem and len(mem) >= c.min_queue_fill:
        a = torch.exp(fu @ torch.stack([f for f, _ in mem]).T / c.temperature)
        q = c.smoothing_alpha * p + (1 - c.smoothing_alpha) * (a / a.sum(1, keepdim=True)) @ torch.stack([v for _, v in mem])
    mask = passes(q.max(1).values, c.p_cutoff)
    eye = torch.eye(len(q), dtype=torch.float64)
    G = q @ q.T * (1 - eye)
    G = (G * passes(G, c.contrast_p_cutoff) if c.contrast_p_cutoff > 0 else G) + eye
    G = G / G.sum(1, keepdim=True)
    new = list(zip(fu, p)) + list(zip(unit_rows(feat(R, B.l)).detach(), torch.nn.functional.one_hot(B.y, R.k).double()))
    if c.queue_size and len(new) > c.queue_size and not B.end:
        raise Margin  # which rows of a batch larger than the memory stay is not said
    mem += new
    del mem[: max(0, len(mem) - c.queue_size)]
    zs = R.f(B.s)
    l = ce(zs, arg(q)) if c.hard_label else sce(zs, q)
    sim = torch.exp(unit_rows(feat(R, B.s)) @ unit_rows(feat(R, B.s1)).T / c.temperature)
    con = -(torch.log(sim / sim.sum(1, keepdim=True) + 1e-7) * G).sum(1).mean()
    return ce(R.f(B.l), B.y).mean() + c.lambda_u * (l * mask).sum() / max(float(mask.sum()), 1.0) + c.lambda_c * con


def l_daso(R, B):
    c = R.c
    if R.t == 0:
        R.ema = copy.deepcopy(R.net)
        R.s.update(queue=[[] for _ in range(R.k)], m=torch.full((R.k,), 1.0 / R.k, dtype=torch.float64), seen=torch.zeros(R.k, dtype=torch.float64))
    fl = feat(R, B.l, R.ema if c.use_ema else R.net).detach()
    for f, v in zip(fl, B.y.tolist()):
        R.s["queue"][v].append(f)
    for qk in R.s["queue"]:
        del qk[: max(0, len(qk) - c.queue_size)]
    C = torch.stack([torch.stack(qk).mean(0) if qk else torch.zeros_like(fl[0]) for qk in R.s["queue"]])
    sims = lambda f: unit_rows(f) @ unit_rows(C).T / c.t_proto
    p, q = smx(R.f(B.w)).detach(), smx(sims(feat(R, B.w))).detach()
    pre, mix = R.t < c.pretrain_steps, p
    if not pre:
        a = c.interp_alpha
        if c.dist_aware:
            v = R.s["m"].clamp_min(1e-12) ** (1 / c.t_dist)
            a = (v / v.max())[arg(p)][:, None]
        mix = (1 - a) * p + a * q
    mask = passes(mix.max(1).values, c.p_cutoff)
    zs, top = R.f(B.s), arg(mix)
    l = ce(zs, top) if c.hard_label else sce(zs, mix)
    R.s["seen"] += torch.bincount(top, minlength=R.k)
    if (R.t + 1) % c.dist_update_period == 0:
        R.s["m"], R.s["seen"] = R.s["seen"] / R.s["seen"].sum(), torch.zeros(R.k, dtype=torch.float64)
    loss = ce(R.f(B.l), B.y).mean() + c.lambda_u * (l * mask).sum() / max(float(mask.sum()), 1.0)
    return loss if pre else loss + c.lambda_align * sce(sims(feat(R, B.s)), q).mean()


LOSSES = {"comatch": l_comatch, "daso": l_daso, "pi_model": l_pi_model, "mean_teacher": l_mean_teacher, "temporal_ensembling": l_temporal, "fixmatch": l_fixmatch,
          "defixmatch": l_defixmatch, "uda": l_uda, "adamatch": l_adamatch, "flexmatch": l_flexmatch, "free_match": l_free_match,
          "softmatch": l_softmatch}
AFTER = {"mean_teacher": a_mean_teacher, "daso": a_mean_teacher}


class Batch:
    pass


def split_steps(log, opt):
    """the recorded training: for every optimizer step the inputs seen since the step before"""
    steps, cur = [], []
    for entry in log:
        if entry[0] == opt:
            steps.append(cur)
            cur = []
        else:
            cur.append(entry)
    return steps


def row_finder(w):
    where = {}
    for n in ("Xl", "Xw", "Xs", "Xs1", "Xls"):
        for i, r in enumerate(getattr(w, n).numpy()):
            where[r.tobytes()] = (n, i)
    return where


def used_rows(where, step, grad=None):
    out = {}
    for tag, training, g, X in step:
        if X is None or (tag == "net" and not training):
            continue
        for r in X.numpy():
            at = where.get(r.tobytes())
            if at is None:
                continue
            out.setdefault(at[0], {})[at[1]] = None
    return {n: np.array(list(d), int) for n, d in out.items()}


def batches(w, log, opt, ctx_msg, steps=None):
    """the minibatches of every step, after checking what any sensible schedule satisfies"""
    case = w.case
    if steps is None:
        where = row_finder(w)
        steps = [used_rows(where, s) for s in split_steps(log, opt)]
    nl, nu, b = len(w.Xl), len(w.Xw), case["batch"]
    per = max(-(-nl // b), -(-nu // b))
    require(len(steps) == per * case["epochs"], "%s: %d optimizer steps instead of %d epochs of %d", ctx_msg, len(steps), case["epochs"], per)
    out = []
    for t, rows in enumerate(steps):
        for n in ("Xl", "Xw"):
            require(n in rows, "%s: step %d uses no rows of %s", ctx_msg, t, n)
        require(len(rows["Xl"]) <= b and len(rows["Xw"]) <= b, "%s: step %d uses more rows than the batch size", ctx_msg, t)
        for n, base in (("Xs", "Xw"), ("Xs1", "Xw"), ("Xls", "Xl")):
            if n in rows:
                require(rows[n].tolist() == rows[base].tolist(), "%s: step %d pairs the rows %s with the views of %s", ctx_msg, t, rows[base].tolist(), rows[n].tolist())
        B = Batch()
        B.il, B.iu, B.epoch, B.total = rows["Xl"], rows["Xw"], t // per, per * case["epochs"]
        B.first, B.last, B.end = t % per == 0, t % per == per - 1, t == per * case["epochs"] - 1
        B.l, B.y, B.w, B.s, B.ls = w.Xl[B.il], w.y[B.il], w.Xw[B.iu], w.Xs[B.iu], w.Xls[B.il]
        B.s1 = w.Xs1[B.iu]
        out.append(B)
    for e in range(case["epochs"]):
        for n, size in (("il", nl), ("iu", nu)):
            order = np.concatenate([getattr(B, n) for B in out[e * per : (e + 1) * per]])
            require(set(order.tolist()) == set(range(size)), "%s: epoch %d leaves out rows: %s of %d", ctx_msg, e, sorted(set(order.tolist())), size)
            for i in range(0, len(order), size):
                part = order[i : i + size]
                require(len(set(part.tolist())) == len(part), "%s: epoch %d repeats a row before it has used them all: %s", ctx_msg, e, order.tolist())
    return out


def predicts(m, w, nets, what):
    """the fitted method answers with the model that was trained"""
    want = torch.stack([smx(Ref(w).f(w.Xt, n)) for n in nets]).mean(0).detach()
    got = m.predict_proba(w.Xt)
    require(float((got - want).abs().max()) < 1e-4, "%s: predicted probabilities %s are not those of the trained model, %s", what, got.tolist(), want.tolist())


def close(got, want, what, tol=1e-5):
    worst = max(float((a - b).abs().max() / (1 + b.abs().max())) for a, b in zip(got, want))
    require(worst < tol, "%s: the trained weights differ from the reference training by %.3g", what, worst)


@check("I10", deep_case(sorted(LOSSES) + ["adsh"], xtypes=("float64",), train_mode=st.just(True)), quick=500, shards=4)
def deep_losses(case, ctx):
    """several steps, and the unlabelled rows change the trained weights"""
    losses(case, ctx)


@check("I10", deep_case(["comatch", "daso"], xtypes=("float64",), train_mode=st.just(True), scale=st.sampled_from([0.8, 2.0])), quick=300, shards=3)
def deep_losses_memory(case, ctx):
    """several steps, and the unlabelled rows change the trained weights"""
    losses(case, ctx)


@check("I10", deep_case(["free_match", "free_match", "softmatch", "adamatch", "flexmatch", "uda", "adsh", "defixmatch"], xtypes=("float64",), train_mode=st.just(True),
                        nu=st.sampled_from([48, 64, 90]), batch=st.sampled_from([32, 64, 16]), n=st.sampled_from([32, 20, 48]), scale=st.sampled_from([3.0, 2.0, 5.0]),
                        lr=st.sampled_from([0.05, 0.02]), epochs=st.sampled_from([2, 3])), quick=500, shards=3)
def deep_losses_confident(case, ctx):
    """as above on larger batches and models sure of most rows, so that the confidence thresholds cut between rows"""
    losses(case, ctx)


def losses(case, ctx):
    if case["method"] != "pi_model":
        case["spec"]["detach_target"] = True  # what else could be meant depends on where the code looks for gradients
    log = []
    w = World(case, log)
    net0 = copy.deepcopy(w.models[0])
    net0.log = None
    m = w.method()
    m.fit(w.data(), device=CPU, seed=case["seed"])
    what = who(case)
    bs = batches(w, log, "opt:net", what)
    R = Ref(w)
    R.net = net0
    plain = copy.deepcopy(net0)
    R.net.log = plain.log = None
    opt, opt0 = torch.optim.SGD(R.net.parameters(), lr=case["lr"]), torch.optim.SGD(plain.parameters(), lr=case["lr"])
    try:
        for B in bs:
            loss = LOSSES[case["method"]](R, B)
            opt.zero_grad()
            loss.backward()
            opt.step()
            if case["method"] in AFTER:
                AFTER[case["method"]](R, B)
            R.t += 1
            opt0.zero_grad()
            ce(R.f(B.l, plain), B.y).mean().backward()
            opt0.step()
    except Margin:
        ctx.label("margin")
        return
    close([q.detach() for q in w.models[0].parameters()], [q.detach() for q in R.net.parameters()], what)
    if case["method"] == "mean_teacher" or (case["method"] == "daso" and w.spec.use_ema):
        close([q.detach() for q in w.models[1].parameters()], [q.detach() for q in R.ema.parameters()], what + " (teacher)")
    predicts(m, w, [R.net], what)
    moved = max(float((a - b).detach().abs().max()) for a, b in zip(R.net.parameters(), plain.parameters()))
    ctx.nontrivial(len(bs) > 1 and moved > 1e-4)
    ctx.label(case["method"])


def sgd(net, lr):
    return torch.optim.SGD(net.parameters(), lr=lr)


def quiet(net):
    n = copy.deepcopy(net)
    n.log = None
    return n


def check_noisy_student(case, w, log, start, what):
    where = row_finder(w)
    steps = [used_rows(where, s) for s in split_steps(log, "opt:net")]
    per = -(-len(w.Xl) // case["batch"])
    first = case["spec"]["teacher_epochs"] * per
    require(all(set(s) == {"Xl"} for s in steps[:first]), "%s: the teacher is trained on more than labelled rows", what)
    for e in range(case["spec"]["teacher_epochs"]):
        seen = np.concatenate([s["Xl"] for s in steps[e * per : (e + 1) * per]])
        require(sorted(seen.tolist()) == list(range(len(w.Xl))), "%s: epoch %d of the teacher visits the rows %s", what, e, seen.tolist())
    bs = batches(w, log, "opt:net", what, steps[first:])
    R = Ref(w)
    R.net = quiet(start[0])
    opt = sgd(R.net, case["lr"])
    for s in steps[:first]:
        opt.zero_grad()
        ce(R.f(w.Xl[s["Xl"]]), w.y[s["Xl"]]).mean().backward()
        opt.step()
    R.teacher = quiet(R.net)
    for B in bs:
        opt.zero_grad()
        l_noisy_student(R, B).backward()
        opt.step()
        R.t += 1
    return [R.net], len(bs)


def l_adsh(R, B):
    c = R.c
    if R.t == 0:
        R.s["score"] = np.full(R.k, c.p_cutoff)
        R.s["major"] = c.majority_class
        if R.s["major"] is None:
            cnt = np.bincount(R.w.y.numpy(), minlength=R.k)
            R.s["major"] = int(cnt.argmax())
    if B.first and B.epoch >= c.score_warmup_epochs:
        p = smx(R.f(R.w.Xw)).detach()
        lab, top = arg(p).numpy(), p.max(1).values.numpy()
        per = {j: np.sort(top[lab == j])[::-1] for j in range(R.k)}
        M, rho = per[R.s["major"]], 1.0
        if len(M):
            if (abs(M - c.p_cutoff) < 1e-6).any():
                raise Margin
            n = int((M >= c.p_cutoff).sum())
            rho = n / len(M) if n else 1.0
        for j in range(R.k):
            if j != R.s["major"] and len(per[j]):
                i = min(max(int(round(len(per[j]) * rho - 1.0)), 0), len(per[j]) - 1)
                R.s["score"][j] = min(per[j][i], c.p_cutoff)
        R.s["score"][R.s["major"]] = c.p_cutoff
    q = smx(R.f(B.w)).detach() / torch.as_tensor(R.s["score"])
    top, lab = q.max(1).values, arg(q)
    # the score of a class may be the confidence of one of these very rows: that row counts as confident enough
    near = (top - 1).abs()
    if bool(((near < 1e-4) & (near > 1e-6)).any()):
        raise Margin
    if bool((near <= 1e-6).any()):
        raise Margin
    mask = (top >= 1).double()
    return ce(R.f(B.l), B.y).mean() + c.lambda_u * (ce(R.f(B.s), lab) * mask).mean()


LOSSES["adsh"] = l_adsh


def check_mpl(case, w, log, start, what):
    c = w.spec
    where = row_finder(w)
    bs = batches(w, log, "opt:teacher", what)
    T, S = quiet(start[0]), quiet(start[1])
    if c.init_teacher_from_student:
        T = quiet(S)
    ot, os_ = sgd(T, case["lr"]), sgd(S, case["lr"])
    R = Ref(w)
    ma = 0.0
    for B in bs:
        zl, zw, zs = R.f(B.ls, T), R.f(B.w, T), R.f(B.s, T)
        hard = torch.nn.functional.one_hot(B.y, w.k).double() * (1 - c.label_smoothing) + c.label_smoothing / w.k
        sup = sce(zl, hard).mean()
        q = smx(zw / c.uda_temperature).detach()
        mask = passes(q.max(1).values, c.uda_threshold)
        uda = (sce(zs, q) * mask).sum() / max(float(mask.sum()), 1.0)
        ent = -(smx(zs) * lsm(zs)).sum(1).mean()
        old = ce(R.f(B.l, S), B.y).mean().item()
        os_.zero_grad()
        sce(R.f(B.s, S), smx(zs).detach()).mean().backward()
        os_.step()
        dot = ce(R.f(B.l, S), B.y).mean().item() - old
        ma = c.mpl_ema * ma + (1 - c.mpl_ema) * dot
        ot.zero_grad()
        (sup + c.uda_weight * uda + c.mpl_weight * ent * (dot - ma)).backward()
        ot.step()
    return [T, S], len(bs)


def check_deep_co(case, w, log, start, what):
    c = w.spec
    where = row_finder(w)
    nl, nu, b = len(w.Xl), len(w.Xw), case["batch"]
    per = max(-(-nl // b), -(-nu // b))
    steps = split_steps(log, "opt:one")
    steps = [[e for e in s if e[0] in ("one", "two")] for s in steps]
    require(len(steps) == per * case["epochs"], "%s: %d steps", what, len(steps))
    A, Bn = quiet(start[0]), quiet(start[1])
    oa, ob = sgd(A, case["lr"]), sgd(Bn, case["lr"])
    R = Ref(w)
    js = lambda p, q: (H(0.5 * (p + q)) - 0.5 * H(p) - 0.5 * H(q)).mean()
    H = lambda p: -(p * torch.log(p)).sum(1)

    def adv(net, x, n, y):
        x = x.clone().requires_grad_(True)
        z = R.f(x, net)
        t = torch.cat([y, arg(z)[n:]])
        (g,) = torch.autograd.grad(ce(z, t).mean(), x)
        if bool((g.abs() < 1e-9).any()):
            raise Margin
        out = x.detach() + c.adv_eps * g.sign()
        return out.clamp(min=c.adv_clip_min, max=c.adv_clip_max) if (c.adv_clip_min is not None or c.adv_clip_max is not None) else out

    seen = {"one": [], "two": [], "u": []}
    for s in steps:
        rows = {}
        for tag in ("one", "two"):
            r = used_rows(where, [next(e for e in s if e[0] == tag)])
            require("Xl" in r and "Xw" in r, "%s: model %s is trained without labelled or unlabelled rows", what, tag)
            rows[tag] = r["Xl"]
            seen[tag].append(r["Xl"])
            iu = r["Xw"]
            rows.setdefault("u", iu)
            require(iu.tolist() == rows["u"].tolist(), "%s: the two models get different unlabelled rows", what)
        seen["u"].append(iu)
        xu = w.Xw[iu]
        x1, x2 = torch.cat([w.Xl[rows["one"]], xu]), torch.cat([w.Xl[rows["two"]], xu])
        y1, y2 = w.y[rows["one"]], w.y[rows["two"]]
        a1, a2 = adv(A, x1, len(y1), y1), adv(Bn, x2, len(y2), y2)
        z1, z2 = R.f(x1, A), R.f(x2, Bn)
        p1, p2 = smx(z1), smx(z2)
        t1, t2 = (p1.detach(), p2.detach()) if c.detach_target else (p1, p2)
        loss = ce(z1[: len(y1)], y1).mean() + ce(z2[: len(y2)], y2).mean() + c.lambda_cot * js(p1[len(y1):], p2[len(y2):])
        loss = loss + c.lambda_dif * (sce(R.f(a1, Bn), t1).mean() + sce(R.f(a2, A), t2).mean())
        oa.zero_grad(), ob.zero_grad()
        loss.backward()
        oa.step(), ob.step()
    for e in range(case["epochs"]):
        for tag, n in (("one", nl), ("two", nl), ("u", nu)):
            order = np.concatenate(seen[tag][e * per : (e + 1) * per])
            require(set(order.tolist()) == set(range(n)), "%s: epoch %d leaves out rows", what, e)
    return [A, Bn], len(steps)


def check_vat(case, w, log, start, what):
    c = w.spec
    where = row_finder(w)
    full = split_steps(log, "opt:net")
    bs = batches(w, log, "opt:net", what)
    R = Ref(w)
    R.net = quiet(start[0])
    opt = sgd(R.net, case["lr"])
    unit = lambda v: v / v.norm(dim=1, keepdim=True)
    for B, entries in zip(bs, full):
        moved = [e[3] for e in entries if len(e[3]) == len(B.iu) and where.get(e[3].numpy()[0].tobytes(), ("",))[0] != "Xl"
                 and not torch.equal(e[3], B.w)]
        require(len(moved) == c.num_iters + 1, "%s: %d perturbed inputs for %d power iterations", what, len(moved), c.num_iters)
        p = R.det(smx(R.f(B.w)))
        kl = lambda x: (p * (torch.log(p) - lsm(R.f(x)))).sum(1).mean()
        d = moved[0] - B.w
        require(np.allclose(d.norm(dim=1).numpy(), c.xi, rtol=1e-6), "%s: the first perturbation has length %s, not xi", what, d.norm(dim=1).tolist())
        for i in range(c.num_iters):
            if i:
                d = unit(d) * c.xi
            d = d.detach().requires_grad_(True)
            (g,) = torch.autograd.grad(kl(B.w + d), d, retain_graph=True)
            if float(g.norm(dim=1).min()) < 1e-6:
                raise Margin
            d = g
        r = c.eps * unit(d)
        require(np.allclose((moved[-1] - B.w).numpy(), r.numpy(), rtol=1e-3, atol=1e-4), "%s: the adversarial step is %s instead of eps times the normalised gradient %s",
                what, (moved[-1] - B.w).tolist(), r.tolist())
        opt.zero_grad()
        (ce(R.f(B.l), B.y).mean() + c.lambda_u * R.warm(B.total) * kl(moved[-1])).backward()
        opt.step()
        R.t += 1
    return [R.net], len(bs)


def check_mixmatch(case, w, log, start, what):
    c = w.spec
    where = row_finder(w)
    R = Ref(w)
    R.net = quiet(start[0])
    opt = sgd(R.net, case["lr"])
    steps = split_steps(log, "opt:net")
    parsed = []
    mixes = []
    lams = []
    for s in steps:
        rows = used_rows(where, [e for e in s if not e[2]])
        require(set(rows) == {"Xw", "Xs"} and rows["Xw"].tolist() == rows["Xs"].tolist(), "%s: labels are guessed from %s", what, rows)
        (mixed,) = [e[3] for e in s if e[2]]
        nb = len(mixed) - 2 * len(rows["Xw"])
        u = [("Xw", i) for i in rows["Xw"]] + [("Xs", i) for i in rows["Xs"]]
        cand = [("Xl", i) for i in range(len(w.Xl))] + u
        vec = {kk: getattr(w, kk[0])[kk[1]].numpy() for kk in cand}
        plan = []
        for pos, z in enumerate(mixed.numpy()):
            found = []
            for a in ([("Xl", i) for i in range(len(w.Xl))] if pos < nb else [u[pos - nb]]):
                if np.abs(vec[a] - z).max() < 1e-12:
                    found = [(a, a, 1.0)]
                    break
                for bb in cand:
                    dv = vec[bb] - vec[a]
                    if bb == a:
                        continue
                    t = float((z - vec[a]) @ dv / (dv @ dv))
                    if -1e-12 < t <= 0.5 + 1e-9 and np.abs(vec[a] + t * dv - z).max() < 1e-9:
                        found.append((a, bb, 1 - t))
            if len(found) > 1:
                raise Margin
            require(found, "%s: row %d of the mixed batch is no mixture, with at least half of its own, of two rows", what, pos)
            plan.append(found[0])
        own = [a for a, _, _ in plan]
        require(len(set(own)) == len(own), "%s: a row comes twice in one batch", what)
        for a, bb, lam in plan:
            require(bb in own, "%s: a row is mixed with one that is not in its batch", what)
            lams.append(lam)
        partners = [bb for a, bb, lam in plan if lam < 1 - 1e-9]
        require(len(set(partners)) == len(partners), "%s: a row is mixed into two others", what)
        rows["Xl"] = np.array([i for n, i in own[:nb]])
        parsed.append(rows)
        mixes.append((plan, nb))
    bs = batches(w, log, "opt:net", what, parsed)
    for B, (plan, nb) in zip(bs, mixes):
        q = sharpen(0.5 * (smx(R.f(B.w)) + smx(R.f(B.s))), c.temperature).detach()
        target = {}
        for i, j in enumerate(B.il):
            target[("Xl", j)] = torch.nn.functional.one_hot(B.y[i], w.k).double()
        for i, j in enumerate(B.iu):
            target[("Xw", j)] = target[("Xs", j)] = q[i]
        X = torch.stack([lam * getattr(w, a[0])[a[1]] + (1 - lam) * getattr(w, bb[0])[bb[1]] for a, bb, lam in plan])
        Y = torch.stack([lam * target[a] + (1 - lam) * target[bb] for a, bb, lam in plan])
        z = R.f(X)
        loss = sce(z[:nb], Y[:nb]).mean() + c.lambda_u * R.warm(B.total) * ((smx(z[nb:]) - Y[nb:]) ** 2).mean()
        opt.zero_grad()
        loss.backward()
        opt.step()
        R.t += 1
    if c.mixup_alpha == 0:
        require(all(v == 1 for v in lams), "%s: rows are mixed although mixup_alpha is 0", what)
    return [R.net], len(bs)


def check_simclr(case, w, log, start, what):
    """pretraining on pairs of views, fine-tuning on the labels, distilling the result into the student"""
    c, b = w.spec, case["batch"]
    where = row_finder(w)
    nets = dict(zip([n for n in ("pretrain", "finetune", "student") if n not in case["omit"]], start))
    pre = nets.get("pretrain", nets.get("finetune"))
    fine = nets.get("finetune", pre)
    name_of = lambda net: next(k for k, v in nets.items() if v is net)
    nl, nu = len(w.Xl), len(w.Xw)
    bl, bu = -(-nl // b), -(-nu // b)
    per = {"pre": bu, "fine": bl, "dist": max(bu, bl if c.use_labeled_in_distill else 1)}
    epochs = {"pre": c.pretrain_epochs, "fine": c.finetune_epochs, "dist": c.distill_epochs}
    learner = {"pre": pre, "fine": fine, "dist": nets.get("student", fine)}
    used = {"pre": ("Xs", "Xw"), "fine": ("Xl",), "dist": ("Xl", "Xs", "Xw") if c.use_labeled_in_distill else ("Xs", "Xw")}
    steps, cur = [], []
    for entry in log:
        if entry[0].startswith("opt:"):
            steps.append((entry[0][4:], used_rows(where, cur)))
            cur = []
        else:
            cur.append(entry)
    plan = [(stage, e) for stage in ("pre", "fine", "dist") for e in range(epochs[stage]) for _ in range(per[stage])]
    require(len(steps) == len(plan), "%s: %d optimizer steps instead of %d", what, len(steps), len(plan))
    seen = {}
    for (stage, e), (opt, rows) in zip(plan, steps):
        require(opt == name_of(learner[stage]), "%s: stage %r trains the %s model", what, stage, opt)
        require(tuple(sorted(rows)) == used[stage], "%s: a step of stage %r uses rows of %s", what, stage, sorted(rows))
        if "Xs" in rows:
            require(rows["Xs"].tolist() == rows["Xw"].tolist(), "%s: stage %r pairs the rows %s with the views of %s", what, stage, rows["Xw"].tolist(), rows["Xs"].tolist())
        for n in rows:
            require(len(rows[n]) <= b, "%s: more rows than the batch size", what)
            seen.setdefault((stage, e, n), []).extend(rows[n].tolist())
    for (stage, e, n), order in seen.items():
        size = nl if n == "Xl" else nu
        require(set(order) == set(range(size)), "%s: epoch %d of stage %r leaves out rows of %s: %s", what, e, stage, n, order)
        for i in range(0, len(order), size):
            require(len(set(order[i : i + size])) == len(order[i : i + size]), "%s: epoch %d of stage %r repeats a row before it has used them all: %s", what, e, stage, order)
    R = Ref(w)
    opts = {k: sgd(v, case["lr"]) for k, v in nets.items()}
    teacher, before = None, None
    for (stage, e), (_, rows) in zip(plan, steps):
        if stage != "pre" and before == "pre" and c.transfer_pretrain and fine is not pre:
            fine.load_state_dict(pre.state_dict())
        if stage == "dist" and teacher is None:
            teacher = quiet(fine)
        before = stage
        net = learner[stage]
        if stage == "pre":
            z = unit_rows(torch.cat([net.features(w.Xw[rows["Xw"]]), net.features(w.Xs[rows["Xw"]])]))
            S = z @ z.T / c.temperature
            m = len(rows["Xw"])
            loss = torch.stack([torch.logsumexp(S[i][torch.arange(2 * m) != i], 0) - S[i, (i + m) % (2 * m)] for i in range(2 * m)]).mean()
        elif stage == "fine":
            loss = ce(R.f(w.Xl[rows["Xl"]], net), w.y[rows["Xl"]]).mean()
        else:
            T = c.distill_temperature
            q = smx(R.f(w.Xw[rows["Xw"]], teacher) / T).detach()
            loss = sce(R.f(w.Xs[rows["Xw"]], net) / T, q).mean()
            if c.use_labeled_in_distill:
                loss = (1 - c.alpha) * ce(R.f(w.Xl[rows["Xl"]], net), w.y[rows["Xl"]]).mean() + c.alpha * loss
        o = opts[name_of(net)]
        o.zero_grad()
        loss.backward()
        o.step()
    return list(nets.values()), len({s for s, _ in plan}) * (len(plan) > 2)


SPECIAL = {"noisy_student": check_noisy_student, "meta_pseudo_labels": check_mpl, "deep_co_training": check_deep_co, "vat": check_vat,
           "mixmatch": check_mixmatch, "simclr_v2": check_simclr}


@check("I10", deep_case(sorted(SPECIAL), xtypes=("float64",), train_mode=st.just(True), d=st.just(3),
                        omit=st.sampled_from([[], [], ["student"], ["pretrain"], ["finetune"], ["pretrain", "student"], ["finetune", "student"]])), quick=360, shards=3)
def deep_losses_special(case, ctx):
    """several training steps"""
    case["spec"].setdefault("detach_target", True)
    if case["method"] != "deep_co_training":
        case["spec"]["detach_target"] = True
    if case["method"] == "mixmatch":
        case["spec"].pop("detach_target")
    if case["method"] == "simclr_v2":
        sp = case["spec"]
        if not (sp["pretrain_epochs"] or sp["finetune_epochs"] or sp["distill_epochs"]):
            sp["finetune_epochs"] = 1
        if not sp["pretrain_epochs"] and "finetune" in case["omit"]:
            sp["pretrain_epochs"] = 1
    log = []
    try:
        w = World(case, log)
        start = [quiet(x) for x in w.models]
        if case["method"] == "deep_co_training" and None not in (w.spec.adv_clip_min, w.spec.adv_clip_max) and w.spec.adv_clip_min > w.spec.adv_clip_max:
            return
        m = w.method()
        m.fit(w.data(), device=CPU, seed=case["seed"])
        nets, n = SPECIAL[case["method"]](case, w, log, start, who(case))
    except Margin:
        ctx.label("margin")
        return
    except InductiveValidationError:
        if case["method"] == "deep_co_training":
            return
        raise
    close([q.detach() for x in w.models[: len(nets)] for q in x.parameters()], [q.detach() for x in nets for q in x.parameters()], who(case))
    if case["method"] == "simclr_v2":
        last = "student" if w.spec.distill_epochs else "finetune" if w.spec.finetune_epochs else "pretrain"
        names = [k for k in ("pretrain", "finetune", "student") if k not in case["omit"]]
        if last not in names:
            last = "finetune" if "finetune" in names else "pretrain"
        if last == "finetune" and not (w.spec.finetune_epochs or w.spec.distill_epochs) and "pretrain" in names:
            last = "pretrain"
        final = [nets[names.index(last)]]
    else:
        final = nets if case["method"] == "deep_co_training" else nets[-1:]
    predicts(m, w, final, who(case))
    ctx.nontrivial(n > 1)
    ctx.label(case["method"])
