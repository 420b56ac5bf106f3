"""D07: the provider adapters, over stand-ins for the upstream libraries."""
from __future__ import annotations

import contextlib
import sys
import types
from pathlib import Path

import numpy as np
import PIL.Image
import sklearn.datasets
import torch
import torch_geometric.datasets
import torchaudio.datasets
import torchvision.datasets

from .core import check, require, st
from .eq import diff

from modssc.data_loader import api

NAMES = {"int": [0, 1, 2, 3], "gaps": [3, 7, 40, -1], "str": ["yes", "no", "maybe", "spam"], "float": [0.5, 1.0, 2.0, 7.0]}
KINDS = ["openml", "hf", "tfds", "torchvision", "torchaudio", "pyg"]


@st.composite
def source_case(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    c = {"kind": kind, "n": draw(st.sampled_from([12, 7, 20, 1, 3])), "nt": draw(st.sampled_from([5, 9, 1, 0])),
         "k": draw(st.sampled_from([3, 2, 4])), "names": draw(st.sampled_from(["int", "str", "gaps"])), "v": draw(st.integers(0, 10**6)),
         "filter": draw(st.sampled_from([None, None, [0], [1, 0], [2, 0], [3]])), "limit": draw(st.sampled_from([None, None, 4, 1, 30, 9])),
         "limit_t": draw(st.sampled_from([None, None, 2, 1, 30])), "seed": draw(st.sampled_from([None, 0, 7, 123])),
         "form": draw(st.integers(0, 5)), "one": draw(st.booleans()), "prefer": draw(st.sampled_from([True, True, False])),
         "parts": draw(st.sampled_from([["test"], ["validation", "test"], ["validation"], []])), "as_numpy": draw(st.booleans())}
    if kind == "pyg":
        c.update(e=draw(st.sampled_from([20, 6, 0, 50])), short=draw(st.sampled_from([0, 0, 2])), masks=draw(st.sampled_from([["train", "val", "test"], ["train"], []])), splits=draw(st.sampled_from([0, 0, 1, 3])))
    if kind in ("torchvision", "pyg"):
        c["names"] = draw(st.sampled_from(["int", "gaps"]))
    if kind == "torchaudio":
        c["names"] = "str"
        c["cls"] = draw(st.sampled_from(["VtSource", "SPEECHCOMMANDS", "YESNO"]))
        if c["cls"] == "YESNO":
            c["k"] = 2
    return c


def labels(c, r, n):
    return [NAMES[c["names"]][int(i)] for i in r.integers(0, c["k"], size=n)]


class Part(list):
    """rows of a huggingface split: item access by column"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, k):
        return self.cols[k]


def wav(i):
    return np.full((1, 3 + i % 3), float(i), dtype=np.float32)


def image(c, i, part):
    h, w = {2: [(3, 4), (4, 3), (3, 4), (3, 5)], 3: [(3, 4), (3, 5), (3, 4), (3, 4)]}.get(c["form"], [(3, 4)] * 4)[i % 4]
    a = np.zeros((h, w, 3), dtype=np.uint8)
    a[..., 0], a[..., 1] = i, part
    return a


@contextlib.contextmanager
def installed(c, tmp):
    """(uri, train rows, test rows or None); a row is (id, label). Contents of row i of part p identify (i, p)."""
    r = np.random.default_rng(c["v"])
    ytr, yte = labels(c, r, c["n"]), labels(c, r, c["nt"])
    kind, name = c["kind"], NAMES[c["names"]]
    undo = []

    def put(obj, key, value):
        had = key in (obj if isinstance(obj, dict) else vars(obj))
        old = (obj[key] if isinstance(obj, dict) else getattr(obj, key)) if had else None
        (obj.__setitem__ if isinstance(obj, dict) else lambda k, v: setattr(obj, k, v))(key, value)
        undo.append((obj, key, had, old))

    parts = {"train": list(enumerate(ytr)), "test": list(enumerate(yte))}
    calls = []
    try:
        if kind == "openml":
            X = np.stack([np.arange(c["n"]), np.zeros(c["n"])], axis=1).astype(float)
            y = np.array(ytr, dtype=object if c["form"] % 2 and c["names"] == "str" else None)

            def fetch_openml(**kw):
                calls.append(kw)
                if kw.get("as_frame"):
                    import pandas as pd
                    return pd.DataFrame(X), pd.Series(y)
                return X, y
            put(sklearn.datasets, "fetch_openml", fetch_openml)
            uri = "openml:61" if c["form"] < 3 else "openml:name=vt,version=2"
            parts["test"] = None
        elif kind == "hf":
            mod = types.ModuleType("datasets")
            cols = lambda p, y: Part({"text": ["row %d %d" % (i, p) for i in range(len(y))], "label": list(y), "other": [0] * len(y)})
            src = {"train": cols(0, ytr)}
            order = ["test", "validation"] if c["prefer"] else ["validation", "test"]
            for q in c["parts"]:
                src[q] = cols(1, yte if q == next(o for o in order if o in c["parts"]) else yte[::-1] + [name[0]])

            def load_dataset(*a, **kw):
                calls.append((a, kw))
                return src
            mod.load_dataset = load_dataset
            put(sys.modules, "datasets", mod)
            uri = "hf:vt/conf" if c["form"] % 2 else "hf:vt"
            parts["test"] = parts["test"] if c["parts"] else None
        elif kind == "tfds":
            mod = types.ModuleType("tensorflow_datasets")

            def load(full, split, as_supervised, data_dir):
                calls.append((full, split))
                if split == "test" and not c["one"]:
                    raise ValueError("no test split")
                y, p = (ytr, 0) if split == "train" else (yte, 1)
                return [(image(c, i, p), v) for i, v in enumerate(y)]
            mod.load = load
            put(sys.modules, "tensorflow_datasets", mod)
            uri = "tfds:vt/1.0.0" if c["form"] % 2 else "tfds:vt"
            parts["test"] = parts["test"] if c["one"] else None
        elif kind == "torchvision":
            def rows_for(self, y, p):
                imgs = [image(c, i, p) for i in range(len(y))]
                if c["form"] in (0, 1):
                    a = np.stack(imgs) if imgs else np.zeros((0, 3, 4, 3), dtype=np.uint8)
                    self.data = torch.from_numpy(a) if c["form"] else a
                    self.targets = torch.tensor(y, dtype=torch.long) if c["form"] else list(y)
                self.items = [(PIL.Image.fromarray(a) if c["form"] in (3, 5) else a, v) for a, v in zip(imgs, y)]

            class Base:
                def __getitem__(self, i):
                    return self.items[i]

                def __len__(self):
                    return len(self.items)

            class ByFlag(Base):
                def __init__(self, root, train=True, download=False):
                    rows_for(self, *((ytr, 0) if train else (yte, 1)))

            class BySplit(Base):
                def __init__(self, root, split="train", download=False):
                    rows_for(self, *((ytr, 0) if split == "train" else (yte, 1)))
            put(torchvision.datasets, "VtSource", ByFlag if c["one"] else BySplit)
            uri = "torchvision:VtSource"
        elif kind == "torchaudio":
            class Base:
                def fill(self, root, y, p):
                    if c["form"] < 3:
                        self._path = str(Path(root) / "audio")
                        self._walker = []
                        for i, v in enumerate(y):
                            f = Path(self._path) / ("any" if c["cls"] == "YESNO" else str(v)) / ("%s%d_%d.%s" % (
                                ("1_" if v == "yes" else "0_") if c["cls"] == "YESNO" else "", i, p, "flac" if c["prefer"] else "wav"))
                            f.parent.mkdir(parents=True, exist_ok=True)
                            f.write_bytes(b"")
                            self._walker.append(str(f) if c["form"] == 0 else str(f.relative_to(self._path)) if c["form"] == 1 else str(f.relative_to(self._path).with_suffix("")))
                    self.items = [(torch.from_numpy(wav(i) + 100 * p), 16000, v, "x") for i, v in enumerate(y)]

                def __getitem__(self, i):
                    return self.items[i]

                def __len__(self):
                    return len(self.items)

            class BySubset(Base):
                def __init__(self, root, subset=None, download=False):
                    self.fill(root, *((ytr, 0) if subset == "training" else (yte, 1)))

            class Whole(Base):
                def __init__(self, root, download=False):
                    self.fill(root, ytr, 0)
            put(torchaudio.datasets, c["cls"], BySubset if c["one"] else Whole)
            uri = "torchaudio:" + c["cls"]
            parts["test"] = parts["test"] if c["one"] else None
        else:
            n, e = c["n"], c["e"]
            c["edges"] = r.integers(0, n, size=(2, e))
            full = {m: r.random((n, max(1, c["splits"]))) < 0.5 for m in c["masks"]}
            if c["form"] == 5 and not c["splits"]:
                for a in full.values():
                    a[n // 2:] = False
            c["marks"] = {m: a[:, 0] for m, a in full.items()}   # a source with several splits is used with its first

            class Data:
                x = torch.stack([torch.arange(n), torch.zeros(n, dtype=torch.long)], dim=1).float()
                y = torch.tensor(ytr[:max(1, n - c["short"])])
                edge_index = torch.as_tensor(c["edges"])
            for m, a in full.items():
                setattr(Data, m + "_mask", torch.as_tensor(a if c["splits"] else a[: max(1, n // 2) if c["form"] == 5 else n, 0]))

            class Source:
                def __init__(self, root, name=None):
                    self.name = name

                def __len__(self):
                    return 1

                def __getitem__(self, i):
                    return Data()
            put(torch_geometric.datasets, "VtSource", Source)
            uri = "pyg:VtSource/part" if c["form"] % 2 else "pyg:VtSource"
            parts["train"] = [(i, v if i < max(1, n - c["short"]) else -1) for i, v in enumerate(ytr)]
            parts["test"] = None
        yield uri, parts, calls
    finally:
        for obj, key, had, old in reversed(undo):
            if isinstance(obj, dict):
                obj[key] = old
                if not had:
                    del obj[key]
            elif had:
                setattr(obj, key, old)
            else:
                delattr(obj, key)


def who(c, x, p):
    """the source row an item is, by its content"""
    kind = c["kind"]
    if kind in ("openml", "pyg"):
        require(np.asarray(x).shape == (2,) and x[1] == 0, "a row is not a row of the source: %r", x)
        return int(x[0])
    if kind == "hf":
        w, i, part = str(x).split(" ")
        require(int(part) == p and w == "row", "an item of another part: %r", x)
        return int(i)
    if kind in ("tfds", "torchvision"):
        a = np.asarray(x)
        i = int(a[0, 0, 0])
        require(diff(a.astype(np.uint8), image(c, i, p)) is None and a.shape == image(c, i, p).shape, "image %d of part %d came out as %r", i, p, a)
        return i
    if c["form"] < 3:
        f = Path(str(x))
        i, part = f.stem.split("_")[-2:]
        require(int(part) == p and f.is_file(), "path %r is not a file of this part", x)
        return int(i)
    a = np.asarray(x)
    i = int(a.flat[0]) - 100 * p
    require(diff(np.asarray(a, dtype=np.float32), wav(i) + 100 * p) is None, "waveform %d of part %d came out as %r", i, p, a)
    return i


def compare(c, split, rows, limit, seed, p, what):
    keep = rows if c["allowed"] is None else [(i, v) for i, v in rows if v in c["allowed"]]
    ids = [who(c, x, p) for x in split.X]
    y = [v.item() if isinstance(v, np.generic) else v for v in np.asarray(split.y)]
    require(len(ids) == len(y), "%s: %d items and %d labels", what, len(ids), len(y))
    got, truth = list(zip(ids, y)), dict(rows)
    require(len(set(ids)) == len(ids), "%s: rows delivered twice: %r", what, ids)
    for i, v in got:
        require(i in truth and truth[i] == v, "%s: row %r has label %r, in the source %r", what, i, v, truth.get(i))
        require((i, v) in keep, "%s: row %r of class %r was not asked for", what, i, v)
    if limit is None or limit >= len(keep):
        require(sorted(ids) == [i for i, _ in keep], "%s: delivers the rows %r of %r", what, sorted(ids), [i for i, _ in keep])
        if limit is None or c["kind"] == "pyg":
            require(ids == [i for i, _ in keep], "%s: not in the order of the source: %r", what, ids)
    else:
        require(len(ids) == limit, "%s: %d rows for a limit of %d (%d there)", what, len(ids), limit, len(keep))
        if seed is None:
            require(ids == [i for i, _ in keep[:limit]], "%s: without a seed not the first rows: %r", what, ids)
    return ids


@check("D07", source_case(), quick=500, shards=3)
def providers_deliver_the_source(case, ctx):
    """a class filter or a limit removes rows and leaves some"""
    c = dict(case)
    kind = c["kind"]
    opts = {}
    c["allowed"] = None
    if kind != "tfds":
        if c["filter"] is not None:
            c["allowed"] = [NAMES[c["names"]][i] for i in c["filter"]]
            opts["class_filter"] = c["allowed"] if len(c["allowed"]) > 1 or c["form"] % 2 else c["allowed"][0]
        if c["seed"] is not None:
            opts["seed"] = c["seed"]
        if c["limit"] is not None:
            opts[{"openml": "max_samples", "pyg": "max_nodes"}.get(kind, "max_train_samples")] = c["limit"]
        if c["limit_t"] is not None and kind in ("hf", "torchvision", "torchaudio"):
            opts["max_test_samples"] = c["limit_t"]
        if kind == "hf" and not c["prefer"]:
            opts["prefer_test_split"] = False
        if kind == "openml" and c["v"] % 2:
            opts["as_frame"] = True
    limit, limit_t = (None, None) if kind == "tfds" else (c["limit"], c["limit_t"])
    tmp = Path(ctx.tmp())
    with installed(c, tmp) as (uri, parts, calls):
        ds = api.load_dataset(uri, cache_dir=tmp / "cache", options=dict(opts))
        ids = compare(c, ds.train, parts["train"], limit, c["seed"], 0, "%s train" % kind)
        require((ds.test is None) == (parts["test"] is None), "%s: source has a test part: %s, delivered: %s", kind, parts["test"] is not None, ds.test is not None)
        if ds.test is not None:
            compare(c, ds.test, parts["test"], limit_t, c["seed"], 1, "%s test" % kind)
        if kind == "pyg" and ids:
            pos = {i: j for j, i in enumerate(ids)}
            want = [(pos[a], pos[b]) for a, b in c["edges"].T.tolist() if a in pos and b in pos]
            e = ds.train.edges
            got = [] if e is None else [tuple(t) for t in np.asarray(e).T.tolist()]
            require(got == want, "edges among the delivered nodes %r: %r instead of %r", ids, got, want)
            require(sorted(ds.train.masks or {}) == sorted(c["marks"]), "masks %r", sorted(ds.train.masks or {}))
            for m, a in c["marks"].items():
                require(np.asarray(ds.train.masks[m]).tolist() == a[ids].tolist(), "mask %r of the delivered nodes", m)
        if kind == "openml":
            kw = calls[-1]
            require(kw.get("data_id") == 61 if c["form"] < 3 else (kw.get("name") == "vt" and kw.get("version") == 2), "asked OpenML for %r", kw)
        n_calls = len(calls)
        again = api.load_dataset(uri, cache_dir=tmp / "cache", options=dict(opts))
        require(len(calls) == n_calls, "a cached dataset was fetched again")
        require(diff(again.train.y, ds.train.y) is None and [who(c, x, 0) for x in again.train.X] == ids, "the cached copy differs")
        fresh = api.load_dataset(uri, cache_dir=tmp / "other", options=dict(opts))
        require([who(c, x, 0) for x in fresh.train.X] == ids, "the same request selects other rows the second time: %r, %r", ids, [who(c, x, 0) for x in fresh.train.X])
        if opts:
            whole = dict(c, allowed=None)
            plain = api.load_dataset(uri, cache_dir=tmp / "cache", options={k: v for k, v in opts.items() if k in ("as_frame", "prefer_test_split")})
            compare(whole, plain.train, parts["train"], None, None, 0, "%s train without options" % kind)
    ctx.label(kind)
    ctx.nontrivial(0 < len(ids) < len(parts["train"]))
