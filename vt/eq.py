"""Structural comparison with an explanation of the first difference."""
from __future__ import annotations

import math

import numpy as np


def diff(a, b, path="", types=True):
    if a is b:
        return None
    ta = type(a).__module__.split(".")[0]
    if ta == "torch" and hasattr(a, "detach"):
        if not hasattr(b, "detach"):
            return "%s: tensor vs %s" % (path, type(b).__name__)
        if a.layout != b.layout:
            return "%s: layout" % path
        if str(a.layout) != "torch.strided":
            a, b = a.to_dense(), b.to_dense()
        return diff(a.detach().cpu().numpy(), b.detach().cpu().numpy(), path, types)
    if ta == "scipy" and hasattr(a, "toarray"):
        if not hasattr(b, "toarray"):
            return "%s: sparse vs %s" % (path, type(b).__name__)
        return diff(a.toarray(), b.toarray(), path, types)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray):
            return "%s: array vs %s" % (path, type(b).__name__)
        if a.dtype != b.dtype and types:
            return "%s: dtype %s vs %s" % (path, a.dtype, b.dtype)
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype == object:
            for i in range(a.size):
                d = diff(a.flat[i], b.flat[i], "%s[%d]" % (path, i), types)
                if d:
                    return d
            return None
        eqn = a.dtype.kind in "fc"
        if not np.array_equal(a, b, equal_nan=eqn):
            return "%s: values differ: %s vs %s" % (path, a.reshape(-1)[:8], b.reshape(-1)[:8])
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(map(repr, sorted(a, key=repr))) != list(map(repr, sorted(b, key=repr))):
            return "%s: keys %s vs %s" % (path, a if not isinstance(a, dict) else sorted(a, key=repr),
                                          b if not isinstance(b, dict) else sorted(b, key=repr))
        for k in a:
            d = diff(a[k], b[k], "%s.%s" % (path, k), types)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if types and type(a) is not type(b) or not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %r vs %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i), types)
            if d:
                return d
        return None
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and math.isnan(a) and math.isnan(b):
        return None
    if types and type(a) is not type(b):
        return "%s: %r (%s) vs %r (%s)" % (path, a, type(a).__name__, b, type(b).__name__)
    try:
        same = bool(a == b)
    except Exception:
        same = False
    return None if same else "%s: %r vs %r" % (path, a, b)
