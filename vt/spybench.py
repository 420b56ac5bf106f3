"""Methods registered with the benchmark's registries that record what the orchestrator hands
them, and wrappers around real methods that record what those predict."""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any

import numpy as np

from modssc.inductive.base import MethodInfo as IInfo
from modssc.inductive.registry import get_method_class as iget, register_method as ireg
from modssc.transductive.base import MethodInfo as TInfo
from modssc.transductive.registry import get_method_class as tget, register_method as treg
import modssc.evaluation.metrics as _metrics

FITS = []       # every fit: dict(kind, data, seed, device, spec)
PREDS = []      # every scoring: dict(X, labels)
TABLE = {}      # score tables of the search checks
CURRENT = {"value": None, "queue": []}


def reset():
    FITS.clear(); PREDS.clear(); TABLE.clear()
    CURRENT.update(value=None, queue=[])


def npy(x):
    if hasattr(x, "detach"):
        return x.detach().cpu().numpy()
    return np.asarray(x)


@dataclass(frozen=True)
class SpySpec:
    a: Any = 0
    b: Any = 0
    opts: dict = field(default_factory=dict)
    fail: Any = None
    batch_size: int = 16
    inner: str = ""
    inner_params: dict = field(default_factory=dict)


class Spy:
    """Nearest labelled row by the last feature; records everything."""
    info = IInfo(method_id="vt_spy", name="spy", supports_gpu=False)

    def __init__(self, spec=None):
        self.spec = spec or SpySpec()

    def fit(self, data, *, device, seed=0):
        FITS.append(dict(kind="inductive", data=data, seed=int(seed), spec=self.spec, device=device))
        if self.spec.fail is not None and (self.spec.fail is True or seed in self.spec.fail):
            raise RuntimeError("spy was told to fail")
        self.seed_ = int(seed)
        self.classes_ = np.unique(npy(data.y_l))
        self.ref_ = npy(data.X_l)[:, -1].astype(float)
        self.y_ = np.searchsorted(self.classes_, npy(data.y_l))
        return self

    def predict_proba(self, X):
        PREDS.append(dict(X=X, seed=self.seed_, spec=self.spec))
        x = npy(X)[:, -1].astype(float)
        out = np.zeros((len(x), len(self.classes_)))
        if len(x):
            near = np.abs(x[:, None] - self.ref_[None]).argmin(axis=1)
            out[np.arange(len(x)), self.y_[near]] = 1.0
        return out


class Wrap:
    """A real inductive method; every scoring also records the labels the method predicts."""
    info = IInfo(method_id="vt_wrap", name="wrap", supports_gpu=False)

    def __init__(self, spec=None):
        self.spec = spec or SpySpec()
        if self.spec.inner:
            from dataclasses import replace
            cls = iget(self.spec.inner)
            base = cls().spec
            self.m = cls(replace(base, **self.spec.inner_params))

    @property
    def device(self):
        return getattr(self.m, "device", None)

    @property
    def _backend(self):
        return getattr(self.m, "_backend", None)

    def fit(self, data, *, device, seed=0):
        FITS.append(dict(kind="inductive", data=data, seed=int(seed), spec=self.spec, device=device))
        self.m.fit(data, device=device, seed=seed)
        return self

    def predict_proba(self, X):
        s = self.m.predict_proba(X)
        PREDS.append(dict(X=X, scores=npy(s).copy(), labels=npy(self.m.predict(X)).copy()))
        return s


class TSpy:
    info = TInfo(method_id="vt_tspy", name="tspy", supports_gpu=False)

    def __init__(self, spec=None):
        self.spec = spec or SpySpec()

    def fit(self, data, *, device=None, seed=0):
        FITS.append(dict(kind="transductive", data=data, seed=int(seed), spec=self.spec, device=device,
                         y=np.array(data.y, copy=True)))
        if self.spec.fail is not None and (self.spec.fail is True or seed in self.spec.fail):
            raise RuntimeError("spy was told to fail")
        self.seed_ = int(seed)
        return self

    def predict_proba(self, data):
        y = np.asarray(data.y)
        lab = np.asarray(data.masks["train_mask"], bool)
        x = npy(data.X)[:, -1].astype(float)
        c = int(y[lab].max()) + 1 if lab.any() else 1
        out = np.zeros((len(x), c))
        if lab.any():
            near = np.flatnonzero(lab)[np.abs(x[:, None] - x[lab][None]).argmin(axis=1)]
            out[np.arange(len(x)), y[near]] = 1.0
        PREDS.append(dict(data=data, labels=out.argmax(1), seed=self.seed_, spec=self.spec))
        return out


class TWrap:
    info = TInfo(method_id="vt_twrap", name="twrap", supports_gpu=False)

    def __init__(self, spec=None):
        self.spec = spec or SpySpec()
        if self.spec.inner:
            from dataclasses import replace
            cls = tget(self.spec.inner)
            base = cls().spec
            self.m = cls(replace(base, **self.spec.inner_params))

    def fit(self, data, *, device=None, seed=0):
        FITS.append(dict(kind="transductive", data=data, seed=int(seed), spec=self.spec, device=device,
                         y=np.array(data.y, copy=True)))
        self.m.fit(data, device=device, seed=seed)
        return self

    def predict_proba(self, data):
        s = self.m.predict_proba(data)
        PREDS.append(dict(data=data, scores=npy(s).copy(), labels=npy(s).argmax(1)))
        return s


def _spy_metric(y_true, y_pred):
    """The score the running search check wants this evaluation to have."""
    fit = FITS[-1]
    CURRENT["queue"].append(fit)
    f = TABLE.get("fn")
    return float(f(fit)) if f else 0.0


_metrics.METRICS["vt_score"] = _spy_metric
ireg("vt_spy", "vt.spybench:Spy", status="implemented")
ireg("vt_wrap", "vt.spybench:Wrap", status="implemented")
treg("vt_tspy", "vt.spybench:TSpy", status="implemented")
treg("vt_twrap", "vt.spybench:TWrap", status="implemented")
