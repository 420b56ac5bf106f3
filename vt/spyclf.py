"""A classifier whose training and score calls are recorded, registered through the public registry.

It assigns a row to the nearest class centroid under a metric that depends on its seed.
"""
from __future__ import annotations

import numpy as np
import torch

CREATED: list = []


def soft(d2, scale):
    z = -scale * d2
    z = z - z.max(axis=1, keepdims=True)
    e = np.exp(z)
    return e / e.sum(axis=1, keepdims=True)


class Model:
    """the plain computation, also used by the references"""

    def __init__(self, seed, scale):
        self.seed, self.scale = seed, scale

    def train(self, X, y):
        X, y = np.asarray(X, dtype=float), np.asarray(y)
        self.classes = np.unique(y)
        self.w = 0.3 + np.random.default_rng(int(self.seed or 0)).random(X.shape[1])
        self.c = np.stack([X[y == c].mean(axis=0) for c in self.classes])
        return self

    def scores(self, X):
        X = np.asarray(X, dtype=float)
        return soft((((X[:, None, :] - self.c[None]) ** 2) * self.w).sum(axis=2), self.scale)

    def label(self, X):
        return self.classes[self.scores(X).argmax(axis=1)]


class SpyNumpy:
    supports_proba = True

    def __init__(self, seed=None, n_jobs=None, scale=0.3):
        self.model = Model(seed, scale)
        self.fits, self.scored = [], []
        CREATED.append(self)

    @staticmethod
    def _np(X):
        return np.array(X, dtype=float)

    def fit(self, X, y):
        self.fits.append((self._np(X), np.array(y)))
        self.model.train(*self.fits[-1])
        self.classes_ = self.model.classes

    def predict_proba(self, X):
        self.scored.append(self._np(X))
        return self.model.scores(self.scored[-1])

    predict_scores = predict_proba

    def predict(self, X):
        return self.model.label(self._np(X))


class SpyTorch(SpyNumpy):
    @staticmethod
    def _np(X):
        return X.detach().cpu().numpy().astype(float)

    def fit(self, X, y):
        self.fits.append((self._np(X), y.detach().cpu().numpy().copy()))
        self.model.train(*self.fits[-1])
        self.classes_ = self.model.classes
        self.classes_t_ = torch.as_tensor(self.classes_)

    def predict_proba(self, X):
        self.scored.append(self._np(X))
        return torch.as_tensor(self.model.scores(self.scored[-1]))

    predict_scores = predict_proba

    def predict(self, X):
        return torch.as_tensor(self.model.label(self._np(X)))


def register():
    from modssc.supervised import registry as r

    if "vt_spy" not in r.list_classifiers():
        r.register_classifier(key="vt_spy", description="recorded centroid classifier", preferred_backends=("numpy", "torch"))
        r.register_backend(classifier_id="vt_spy", backend="numpy", factory="vt.spyclf:SpyNumpy")
        r.register_backend(classifier_id="vt_spy", backend="torch", factory="vt.spyclf:SpyTorch")
