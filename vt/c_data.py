"""D01..D06: dataset cache."""
from __future__ import annotations

import copy
import json
import os
import pickle
import random
import shutil
import signal
import time
from pathlib import Path

import numpy as np

from . import crash, fakeprov
from .core import HarnessError, check, fail, require, st
from .eq import diff

from modssc.data_loader import api, cache
from modssc.data_loader.errors import DataLoaderError, DatasetNotCachedError, InvalidDatasetURIError, ManifestError
from modssc.data_loader.storage import FileStorage
from modssc.data_loader.types import DatasetIdentity, DatasetRequest, DatasetSpec, LoadedDataset, Split
from modssc.data_loader.uri import is_uri, parse_uri

if not hasattr(api, "_resolve_identity"):
    from modssc.data_loader.services import service as _svc
else:
    _svc = api


# ---------------------------------------------------------------- D01
DTYPES = ["float64", "float32", "float16", "int64", "int32", "uint8", "bool", "complex64", "<U5", "S4", "datetime64[D]"]
TEXT = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\x00"), max_size=8)
META = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10**6, 10**6), st.floats(allow_nan=False), TEXT),
                    lambda c: st.one_of(st.lists(c, max_size=4), st.dictionaries(TEXT, c, max_size=3)), max_leaves=8)


@st.composite
def array_case(draw, rows):
    kind = draw(st.sampled_from(["num", "num", "num", "objstr", "objstr", "liststr", "listnum", "objmixed", "objlists", "objarr", "torch", "objbytes"]))
    c = {"kind": kind, "n": rows, "seed": draw(st.integers(0, 10**6))}
    if kind == "num":
        c["dtype"] = draw(st.sampled_from(DTYPES))
        c["tail"] = draw(st.lists(st.integers(0, 4), max_size=2))
        c["order"] = draw(st.sampled_from(["C", "F", "strided", "T"]))
    if kind in ("objstr", "liststr"):
        c["items"] = draw(st.lists(TEXT, min_size=rows, max_size=rows))
        c["tail"] = draw(st.sampled_from([[], [], [2], [0]])) if kind == "objstr" else []
    if kind == "objlists":
        c["len"] = draw(st.integers(0, 3))
        c["ragged"] = draw(st.booleans())
        c["of"] = draw(st.sampled_from(["str", "int"]))
    if kind == "objarr":
        c["same"] = draw(st.booleans())
    return c


def make_array(c):
    rng = np.random.default_rng(c["seed"])
    n, k = c["n"], c["kind"]
    if k == "num":
        shape = (n, *c["tail"])
        dt = np.dtype(c["dtype"])
        if dt.kind in "fc":
            a = rng.normal(size=shape).astype(dt)
            if a.size and c["seed"] % 3 == 0:
                a.flat[c["seed"] % a.size] = [np.nan, np.inf, -0.0][c["seed"] % 9 // 3]
        elif dt.kind in "US":
            a = np.array(["%x" % v for v in rng.integers(0, 4000, size=int(np.prod(shape)))], dtype=dt).reshape(shape)
        elif dt.kind == "b":
            a = rng.random(shape) < 0.5
        else:
            a = rng.integers(0, 100, size=shape).astype(dt)
        o = c["order"]
        if o == "F":
            a = np.asfortranarray(a)
        elif o == "strided":
            a = np.repeat(a, 2, axis=0)[::2]
        elif o == "T" and a.ndim == 2:
            a = np.ascontiguousarray(a.T).T
        return a
    if k == "objstr":
        a = np.empty((n, *c["tail"]), dtype=object)
        for i in range(a.size):
            a.flat[i] = c["items"][i % max(1, len(c["items"]))] + (str(i) if c["tail"] else "")
        return a
    if k == "liststr":
        return list(c["items"])
    if k == "listnum":
        return [float(v) for v in rng.normal(size=n)]
    if k == "torch":
        import torch
        return torch.tensor(rng.normal(size=(n, 2)).astype(np.float32))
    a = np.empty(n, dtype=object)
    for i in range(n):
        if k == "objmixed":
            a[i] = [1, "a", None, 2.5, (1, 2)][int(rng.integers(5))]
        elif k == "objbytes":
            a[i] = bytes(rng.integers(0, 256, size=int(rng.integers(0, 5))).tolist())
        elif k == "objlists":
            m = int(rng.integers(0, 4)) if c["ragged"] else c["len"]
            a[i] = [("w%d" % v if c["of"] == "str" else int(v)) for v in rng.integers(0, 50, size=m)]
        elif k == "objarr":
            m = 3 if c["same"] else int(rng.integers(0, 5))
            a[i] = rng.normal(size=m).astype(np.float32)
    return a


@st.composite
def ds_case(draw):
    def split():
        n = draw(st.integers(0, 6))
        s = {"X": draw(array_case(n)), "y": draw(array_case(n))}
        if draw(st.booleans()):
            s["edges"] = draw(st.integers(0, 7))
        if draw(st.booleans()):
            s["masks"] = draw(st.lists(st.sampled_from(["train", "val", "test", "labeled"]), unique=True, max_size=3))
            s["mask_int"] = draw(st.booleans())
        s["n"] = n
        return s
    return {"train": split(), "test": draw(st.one_of(st.none(), st.just(1))) and split(),
            "meta": draw(st.dictionaries(TEXT, META, max_size=4)), "mode": draw(st.sampled_from(["storage", "service", "service", "fork"])),
            "overwrite": draw(st.booleans()), "mmap": draw(st.booleans()), "numpy": draw(st.booleans())}


def make_split(s):
    if s is None:
        return None
    rng = np.random.default_rng(s["n"])
    edges = rng.integers(0, max(1, s["n"]), size=(2, s["edges"])) if "edges" in s else None
    masks = None
    if "masks" in s:
        masks = {k: (rng.random(s["n"]) < 0.5) for k in s["masks"]}
        if s["mask_int"]:
            masks = {k: v.astype(np.int64) for k, v in masks.items()}
    return Split(X=make_array(s["X"]), y=make_array(s["y"]), edges=edges, masks=masks)


def as_expected(v, boolean=False):
    """What a canonical container is once it went through the cache: an array of the same values."""
    if v is None:
        return None
    if hasattr(v, "detach"):
        v = v.detach().numpy()
    v = np.asarray(v)
    return v.astype(bool) if boolean else v


def same_split(exp, got, where):
    if exp is None:
        require(got is None, "%s appeared from nowhere", where)
        return
    require(got is not None, "%s is missing", where)
    for f in ("X", "y", "edges"):
        e, g = as_expected(getattr(exp, f)), getattr(got, f)
        require((e is None) == (g is None), "%s.%s presence changed", where, f)
        if e is not None:
            if isinstance(g, np.memmap):
                g = np.array(g)
            d = diff(e, np.asarray(g), "%s.%s" % (where, f))
            require(d is None, "%s", d)
    require((exp.masks is None) == (got.masks is None), "%s.masks presence changed", where)
    if exp.masks is not None:
        d = diff({k: as_expected(v, True) for k, v in exp.masks.items()}, {k: as_expected(v, True) for k, v in got.masks.items()}, where + ".masks")
        require(d is None, "%s", d)


def same_dataset(exp, got, meta_extra=("dataset_fingerprint",), where=""):
    same_split(exp.train, got.train, where + "train")
    same_split(exp.test, got.test, where + "test")
    e = {k: v for k, v in exp.meta.items() if k not in meta_extra}
    g = {k: v for k, v in got.meta.items() if k not in meta_extra}
    d = diff(e, g, where + "meta")
    require(d is None, "%s", d)


@check("D01", ds_case(), quick=700, shards=2)
def roundtrip(case, ctx):
    """the train part has at least one row"""
    build = lambda: LoadedDataset(train=make_split(case["train"]), test=make_split(case["test"]), meta=copy.deepcopy(case["meta"]))
    exp = build()
    d = Path(ctx.tmp())
    ctx.nontrivial(case["train"]["n"] > 0)
    ctx.label("X-" + case["train"]["X"]["kind"])
    os.environ["MODSSC_DATA_LOADER_MMAP_THRESHOLD"] = "1" if case["mmap"] else str(1 << 26)
    try:
        if case["mode"] == "storage":
            if case["overwrite"]:
                FileStorage().save(d / "e", fakeprov.payload("other", 1))
            FileStorage().save(d / "e", build())
            got = FileStorage().load(d / "e")
            same_dataset(exp, got, ())
        else:
            fakeprov.reset()
            fakeprov.BUILD["fn"] = build
            first = api.load_dataset("fake:x", cache_dir=d, force=case["overwrite"])
            same_dataset(exp, first)
            fakeprov.FAIL["on"] = True
            call = lambda: api.load_dataset("fake:x", cache_dir=d, download=False, as_numpy=case["numpy"])
            if case["mode"] == "fork":
                r = crash.fork_call(lambda: materialise(call()))
                require(r[0] == "ok", "offline load failed: %s", r[1:])
                got = r[1]
            else:
                got = call()
            same_dataset(exp, got)
            require(got.meta.get("dataset_fingerprint") == first.meta.get("dataset_fingerprint"), "fingerprint changed")
    finally:
        os.environ.pop("MODSSC_DATA_LOADER_MMAP_THRESHOLD", None)
        fakeprov.reset()


def materialise(ds):
    def m(v):
        return np.array(v) if isinstance(v, np.memmap) else v

    def s(p):
        return None if p is None else Split(X=m(p.X), y=m(p.y), edges=m(p.edges),
                                            masks=None if p.masks is None else {k: m(v) for k, v in p.masks.items()})
    return LoadedDataset(train=s(ds.train), test=s(ds.test), meta=dict(ds.meta))


# ---------------------------------------------------------------- D02
REFS = ["a", "b", "a@2", "a/b", "a_b"]
OPTS = [{}, {"n": 1}, {"n": 2}, {"n": "1"}, {"n": 1, "k": [1, 2]}, {"k": [1, 2], "n": 1}, {"modality": "text"}, {"version": "2"}, {"n": True}, {"n": None}]


@st.composite
def hist_case(draw):
    pool = draw(st.lists(st.tuples(st.integers(0, len(REFS) - 1), st.integers(0, len(OPTS) - 1)), min_size=1, max_size=4, unique=True))
    P = st.sampled_from(pool)
    W = st.sampled_from([0, 0, 1])
    V = st.sampled_from(["load", "load", "download"])

    def op():
        kind = draw(st.sampled_from(["load"] * 6 + ["force", "bump", "bump", "purge_fp", "purge_ds", "gc", "rebuild", "failing", "mutate", "offline"]))
        r = list(draw(P))
        if kind in ("load", "offline"):
            return ["load", *r, kind == "offline", draw(W), draw(V)]
        if kind == "force":
            return ["force", *r, draw(W), draw(V)]
        if kind in ("bump", "mutate"):
            return [kind, *r]
        if kind == "failing":
            return [kind, *r, draw(st.booleans())]
        if kind == "purge_fp":
            return [kind, draw(st.integers(0, 7)), draw(W)]
        if kind == "purge_ds":
            return [kind, r[0], draw(W)]
        return [kind, draw(W)]
    return [op() for _ in range(draw(st.integers(3, 16)))]


@check("D02", hist_case(), quick=250, shards=6)
def history(ops, ctx):
    """at least one load served from the cache and one purge, collection or refresh"""
    fakeprov.reset()
    dirs = [Path(ctx.tmp()), Path(ctx.tmp())]
    model = [{}, {}]           # per folder: request key -> (generation, insertion counter, uri)
    clock = 0
    hits = chg = 0

    def ident(r, o):
        return _svc._resolve_identity(DatasetRequest(id="fake:" + REFS[r], options=OPTS[o]))

    fps = {}
    try:
        for op in ops:
            t0 = time.time()
            kind = op[0]
            if kind in ("load", "force", "failing", "mutate"):
                r, o = op[1], op[2]
                idt = ident(r, o)
                k = fakeprov.key(idt)
                if kind == "load":
                    download, w, via = not op[3], op[4], op[5]
                elif kind == "force":
                    download, w, via = True, op[3], op[4]
                else:
                    download, w, via = True, 0, "load"
                fakeprov.LOG.clear()
                gen = fakeprov.GEN.get(k, 0)
                kw = {"cache_dir": dirs[w], "options": copy.deepcopy(OPTS[o])}
                rid = "fake:" + REFS[r]
                cached = k in model[w]
                if kind == "failing":
                    fakeprov.FAIL["on"] = True
                    try:
                        got = api.load_dataset(rid, force=op[3], **kw)
                    except OSError as e:
                        require("provider down" in str(e), "unexpected %r", e)
                        require(op[3] or not cached, "cached load contacted the provider")
                        continue
                    finally:
                        fakeprov.FAIL["on"] = False
                    require(cached and not op[3], "a failing provider gave data")
                    same_dataset(fakeprov.payload(k, model[w][k][0]), got)
                    continue
                if kind == "mutate":
                    got = api.load_dataset(rid, **kw)
                    if not cached:
                        clock += 1
                        model[w][k] = (gen, clock, idt.canonical_uri)
                    same_dataset(fakeprov.payload(k, model[w][k][0]), got)
                    if isinstance(got.train.X, np.ndarray) and got.train.X.dtype != object:
                        got.train.X[:] = 99.0       # a user changing what he got must not change the cache
                    continue
                if via == "download":
                    download = True
                try:
                    if via == "download":
                        got = api.download_dataset(rid, force=kind == "force", **kw)
                    else:
                        got = api.load_dataset(rid, force=kind == "force", download=download, **kw)
                except DatasetNotCachedError:
                    require(not download and not cached, "load of %s %s refused although %s", rid, OPTS[o], "cached" if cached else "download is allowed")
                    require(not fakeprov.LOG, "offline load contacted the provider")
                    continue
                if kind == "load" and cached:
                    hits += 1
                    require(not fakeprov.LOG, "provider contacted although cached")
                else:
                    require(download, "offline load of an absent entry returned data")
                    require(fakeprov.LOG == [k], "provider contacts %s, expected one for %s", fakeprov.LOG, k)
                    clock += 1
                    model[w][k] = (gen, clock, idt.canonical_uri)
                    chg += kind == "force"
                same_dataset(fakeprov.payload(k, model[w][k][0]), got, where="%s %s: " % (rid, OPTS[o]))
                fps[k] = got.meta["dataset_fingerprint"]
            elif kind == "bump":
                k = fakeprov.key(ident(op[1], op[2]))
                fakeprov.GEN[k] = fakeprov.GEN.get(k, 0) + 1
            elif kind == "purge_fp":
                w = op[2]
                if model[w]:
                    k = sorted(model[w])[op[1] % len(model[w])]
                    cache.purge_fingerprint(cache.CacheLayout(dirs[w]), fps.get(k) or fp_of(k))
                    del model[w][k]
                    chg += 1
            elif kind == "purge_ds":
                w = op[2]
                uri = ident(op[1], 0).canonical_uri
                lay = _svc._layout(dirs[w])
                gone = cache.purge_dataset(lay, uri)
                want = [k for k, v in model[w].items() if v[2] == uri]
                require(len(gone) == len(want), "purge of %s removed %s entries, expected %s", uri, len(gone), len(want))
                for k in want:
                    del model[w][k]
                chg += bool(want)
            elif kind == "gc":
                w = op[1]
                gone = cache.gc_keep_latest(_svc._layout(dirs[w]))
                latest = {}
                for k, v in model[w].items():
                    if v[2] not in latest or v[1] > model[w][latest[v[2]]][1]:
                        latest[v[2]] = k
                drop = [k for k in model[w] if k not in latest.values()]
                require(len(gone) == len(drop), "collection removed %s entries, expected %s", len(gone), len(drop))
                for k in drop:
                    del model[w][k]
                chg += bool(drop)
            elif kind == "rebuild":
                cache.rebuild_index(_svc._layout(dirs[op[1]]))
            for w in (0, 1):
                lay = _svc._layout(dirs[w])
                rows = cache.index_list(lay)
                require(len(rows) == len(model[w]), "after %s the index of folder %s lists %s entries, expected %s", op, w, len(rows), len(model[w]))
                for row in rows:
                    require(cache.is_cached(lay, row["fingerprint"]), "index lists an entry that is not cached")
                require(len(list(lay.processed_root.iterdir())) == len(model[w]), "processed folders left over after %s", op)
                require(not any(lay.locks_root.iterdir()), "a lock was left behind after %s", op)
        ctx.nontrivial(hits and chg)
        # every entry the model says exists must load offline, with the right data
        fakeprov.FAIL["on"] = True
        for w in (0, 1):
            for r in range(len(REFS)):
                for o in range(len(OPTS)):
                    k = fakeprov.key(ident(r, o))
                    try:
                        got = api.load_dataset("fake:" + REFS[r], cache_dir=dirs[w], download=False, options=OPTS[o])
                    except DatasetNotCachedError:
                        require(k not in model[w], "entry %s lost", k)
                        continue
                    require(k in model[w], "entry %s should not exist", k)
                    same_dataset(fakeprov.payload(k, model[w][k][0]), got)
    finally:
        fakeprov.reset()


def fp_of(k):
    uri, ver, mod, kw = json.loads(k)
    return _svc._resolve_identity(DatasetRequest(id=uri, options={**kw, "modality": mod, "version": ver})).fingerprint(schema_version=_svc.SCHEMA_VERSION)


@check("D02", st.tuples(st.lists(st.tuples(st.integers(4, 20), st.integers(1, 4), st.integers(2, 3), st.integers(0, 2), st.booleans(), st.booleans()),
                                 min_size=2, max_size=6), st.integers(0, 1)), quick=60)
def toy_requests(case, ctx):
    """two different toy requests and a repeated one"""
    reqs, which = case
    d = Path(ctx.tmp())
    seen = {}
    for i, (n, f, c, seed, test, force) in enumerate(reqs + reqs):
        opts = {"n_samples": n, "n_features": f, "n_classes": c, "seed": seed, "official_test": test}
        items = list(opts.items())
        random.Random(i).shuffle(items)
        got = api.load_dataset("toy" if (i + which) % 2 else "toy:anything", cache_dir=d, options=dict(items), force=force)
        fresh = api.load_dataset("toy", cache_dir=Path(ctx.tmp()), options=opts)
        same_dataset(fresh, got)
        nt = round(n * 0.25) if test else 0
        require(got.train.X.shape == (n - nt, f), "toy request %s gave shape %s", opts, got.train.X.shape)
        seen[(n, f, c, seed, test)] = 1
    ctx.nontrivial(len(seen) > 1)


# ---------------------------------------------------------------- D03
@st.composite
def crash_case(draw):
    return {"init": draw(st.sampled_from(["empty", "present", "present", "broken"])),
            "op": draw(st.sampled_from(["load", "force", "force", "purge", "purge_ds", "gc"])),
            "req": draw(st.integers(0, 10**6)), "bump": draw(st.booleans()),
            "torn": draw(st.sampled_from([0.0, 0.5, 0.9])), "again": draw(st.booleans())}


@check("D03", crash_case(), quick=18, thorough=400, shards=6, timeout=300)
def crash_points(case, ctx):
    """the interrupted operation has at least four crash points; all of them are enumerated, each with and without a torn file"""
    fakeprov.reset()
    base = Path(ctx.tmp())
    rid, opts = "fake:r%d" % case["req"], {"n": case["req"] % 3}
    k = fakeprov.key(_svc._resolve_identity(DatasetRequest(id=rid, options=opts)))
    other = ("fake:other", {})
    init = base / "init"
    init.mkdir()
    api.load_dataset(other[0], cache_dir=init)
    ko = fakeprov.key(_svc._resolve_identity(DatasetRequest(id=other[0], options={})))
    if case["init"] != "empty":
        ds = api.load_dataset(rid, cache_dir=init, options=opts)
    fp = _svc._resolve_identity(DatasetRequest(id=rid, options=opts)).fingerprint(schema_version=_svc.SCHEMA_VERSION)
    if case["op"] == "gc":
        api.load_dataset(rid, cache_dir=init, options={"n": 77})
    if case["bump"]:
        fakeprov.GEN[k] = 1
    if case["init"] == "broken":
        # an entry whose arrays are damaged; ordinary loads may repair it by refetching
        for p in (init / "processed" / fp).glob("*"):
            if p.name == "layout.json":
                p.write_text(json.dumps({"version": 1, "splits": {"train": {"X": {"format": "npy", "path": "../../../x.npy"}, "y": {"format": "npy", "path": "y"}}}}))

    def work(d):
        lay = cache.CacheLayout(d)
        if case["op"] == "load":
            api.load_dataset(rid, cache_dir=d, options=opts)
        elif case["op"] == "force":
            api.load_dataset(rid, cache_dir=d, options=opts, force=True)
        elif case["op"] == "purge":
            cache.purge_fingerprint(lay, fp)
        elif case["op"] == "purge_ds":
            cache.purge_dataset(lay, rid)
        else:
            cache.gc_keep_latest(lay)

    gens = {0, fakeprov.GEN.get(k, 0)} if case["init"] != "empty" else {fakeprov.GEN.get(k, 0)}

    def dir_(name):
        d = base / name
        if d.exists():
            shutil.rmtree(d)
        shutil.copytree(init, d)
        return d

    status, total, msg = crash.run(lambda: work(dir_("w")))
    require(status == "done", "uninterrupted %s failed: %s", case["op"], msg)
    # dir_ itself performs operations before the counting starts only in the parent; count again with the copy ready
    d = dir_("w")
    status, total, msg = crash.run(lambda: work(d))
    require(status == "done", "uninterrupted %s failed: %s", case["op"], msg)
    ctx.nontrivial(total >= 4)
    ctx.label("op-%s points-%d" % (case["op"], total))
    for kk in range(total + 1):
        for torn in (None, case["torn"]):
            d = dir_("w")
            status, _, msg = crash.run(lambda: work(d), kill_at=kk, torn=torn)
            require(status in ("crashed", "done"), "crash run failed: %s", msg)
            where = "crash in %s before operation %d%s" % (case["op"], kk, "" if torn is None else " (last file cut to %d%%)" % (100 * torn))
            if case["again"]:
                # a second operation is interrupted, too
                crash.run(lambda: work(d), kill_at=(kk * 7) % (total + 1), torn=torn)
            # offline first: complete or absent, never anything else
            probe = base / "probe"
            if probe.exists():
                shutil.rmtree(probe)
            shutil.copytree(d, probe)
            if case["init"] != "broken":
                r = crash.fork_call(lambda: materialise(api.load_dataset(rid, cache_dir=probe, options=opts, download=False)))
                if r[0] == "ok":
                    whole(k, gens, r[1], where + ", offline load: ")
                else:
                    require(r[1] == "DatasetNotCachedError", "%s: offline load failed with %s: %s", where, r[1], r[2])
            r = crash.fork_call(lambda: materialise(api.load_dataset(rid, cache_dir=d, options=opts)))
            require(r[0] == "ok", "%s: the next load failed with %s", where, r[1:])
            whole(k, gens, r[1], where + ", next load: ")
            r2 = crash.fork_call(lambda: (fakeprov.FAIL.update(on=True), materialise(api.load_dataset(rid, cache_dir=d, options=opts)))[1])
            require(r2[0] == "ok", "%s: the load after the next one failed with %s", where, r2[1:])
            same_dataset(r[1], r2[1])
            r = crash.fork_call(lambda: (fakeprov.FAIL.update(on=True), materialise(api.load_dataset(other[0], cache_dir=d)))[1])
            if case["op"] != "gc" or r[0] == "ok":
                require(r[0] == "ok", "%s: another entry no longer loads: %s", where, r[1:])
                same_dataset(fakeprov.payload(ko, 0), r[1])
    fakeprov.reset()


def whole(k, gens, ds, where):
    require(ds.meta.get("key") == k and ds.meta.get("gen") in gens, "%swrong data %s", where, ds.meta)
    same_dataset(fakeprov.payload(k, ds.meta["gen"]), ds, where=where)


# ---------------------------------------------------------------- D04
@st.composite
def conc_case(draw):
    n = draw(st.integers(2, 5))
    return {"n": n, "delays": draw(st.lists(st.integers(0, 30), min_size=n, max_size=n)),
            "jitter": draw(st.integers(0, 10**6)), "sleep": draw(st.sampled_from([0, 5, 20, 40])),
            "force": draw(st.sampled_from([False, False, True])), "threads": draw(st.booleans()),
            "dead": draw(st.sampled_from(["no", "no", "yes"])), "same": draw(st.integers(0, 3)), "rounds": draw(st.integers(1, 2))}


def jitter_patch(seed):
    """Perturb the schedule: sleep a random short time around the calls that touch the cache."""
    rng = random.Random(seed)

    def wrap(f):
        def g(*a, **k):
            if rng.random() < 0.4:
                time.sleep(rng.random() * 0.004)
            r = f(*a, **k)
            if rng.random() < 0.4:
                time.sleep(rng.random() * 0.004)
            return r
        return g
    for mod, names in ((os, ("open", "unlink", "close", "mkdir", "rmdir", "replace")), (np, ("save", "load"))):
        for n in names:
            setattr(mod, n, wrap(getattr(mod, n)))
    Path.unlink = wrap(Path.unlink)
    Path.write_text = wrap(Path.write_text)
    cache.is_cached = wrap(cache.is_cached)


@check("D04", conc_case(), quick=120, shards=4, timeout=120)
def loaders(case, ctx):
    """at least two loaders of the same request overlap in time"""
    fakeprov.reset()
    d = Path(ctx.tmp())
    log = str(d / "log")
    cd = d / "cache"
    rid = "fake:r"
    k = fakeprov.key(_svc._resolve_identity(DatasetRequest(id=rid, options={})))
    k2 = fakeprov.key(_svc._resolve_identity(DatasetRequest(id=rid, options={"o": 1})))
    _svc._layout(cd)
    if case["dead"] == "yes":
        def die():
            fakeprov.SLEEP["die"] = True
            api.load_dataset(rid, cache_dir=cd)
        crash.fork_call(die)
        ctx.label("dead-holder")

    def one(i):
        time.sleep(case["delays"][i] / 1000.0)
        opts = {"o": 1} if i and i == case["same"] else {}
        t0 = time.monotonic()
        ds = materialise(api.load_dataset(rid, cache_dir=cd, options=opts, force=case["force"]))
        return t0, time.monotonic(), (k2 if opts else k), ds

    def worker(i):
        fakeprov.LOGFILE = log
        fakeprov.SLEEP["s"] = case["sleep"] / 1000.0
        orig = fakeprov.Prov.load_canonical
        jitter_patch(case["jitter"] + i)
        if case["threads"]:
            import threading
            out = [None] * case["n"]

            def t(j):
                try:
                    out[j] = ("ok", one(j))
                except BaseException as e:  # noqa: BLE001
                    out[j] = ("exc", type(e).__name__, str(e)[:300])
            ts = [threading.Thread(target=t, args=(j,)) for j in range(case["n"])]
            [x.start() for x in ts]
            [x.join() for x in ts]
            return out
        return one(i)

    spans = []
    results = []
    if case["threads"]:
        r = crash.fork_call(lambda: worker(0), timeout=60)
        require(r[0] == "ok", "loaders failed: %s", r[1:])
        results = r[1]
    else:
        results = parallel([lambda i=i: worker(i) for i in range(case["n"])], timeout=60)
    for i, r in enumerate(results):
        require(r is not None and r[0] == "ok", "loader %d of %d failed: %s", i, case["n"], None if r is None else r[1:])
        t0, t1, kk, ds = r[1]
        spans.append((t0, t1, kk))
        require(ds.meta.get("key") == kk, "loader %d received another request's data", i)
        same_dataset(fakeprov.payload(kk, 0), ds, where="loader %d: " % i)
    same = [s for s in spans if s[2] == k]
    ctx.nontrivial(any(a[0] < b[1] and b[0] < a[1] for i, a in enumerate(same) for b in same[:i]))
    if not case["force"]:
        n_fetch = len(open(log).read().splitlines()) if os.path.exists(log) else 0
        want = len({s[2] for s in spans})
        require(n_fetch == want, "the provider was contacted %d times for %d requests", n_fetch, want)
    lay = cache.CacheLayout(cd)
    r = crash.fork_call(lambda: (fakeprov.FAIL.update(on=True), materialise(api.load_dataset(rid, cache_dir=cd)))[1])
    require(r[0] == "ok", "the cache is unusable afterwards: %s", r[1:])
    same_dataset(fakeprov.payload(k, 0), r[1])
    require(len(cache.index_list(lay)) == len({s[2] for s in spans}), "index lists %d entries", len(cache.index_list(lay)))
    fakeprov.reset()


def parallel(fns, timeout=60):
    rs = []
    for fn in fns:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(timeout)
                os.close(r)
                try:
                    res = ("ok", fn())
                except BaseException as e:  # noqa: BLE001
                    res = ("exc", type(e).__name__, str(e)[:300])
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        rs.append((pid, r))
    out = []
    for pid, r in rs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else ("exc", "Died", "killed or timed out"))
    return out


@check("D04", st.tuples(st.integers(2, 4), st.integers(0, 10**6), st.booleans(), st.sampled_from(["no", "kill", "raise"])), quick=80, shards=2, timeout=120)
def critical_section(case, ctx):
    """two or more holders asked for the lock of the same entry"""
    n, seed, threads, death = case
    d = Path(ctx.tmp())
    lay = cache.CacheLayout(d)
    _svc._layout(d)
    log = str(d / "log")
    ctx.nontrivial()

    def hold(i):
        rng = random.Random(seed + i)
        with cache.cache_lock(lay, "fp"):
            t0 = time.monotonic()
            with open(log, "a") as f:
                f.write("in %d %.9f\n" % (i, t0))
            time.sleep(rng.random() * 0.01)
            if i == 0 and death == "kill" and not threads:
                os._exit(3)
            with open(log, "a") as f:
                f.write("out %d %.9f\n" % (i, time.monotonic()))
            if i == 0 and death == "raise":
                raise KeyError("boom")
        return 1

    def body(i):
        rng = random.Random(seed * 31 + i)
        jitter_patch(seed + i)
        time.sleep(rng.random() * 0.006)
        if threads:
            import threading
            out = []
            def t(j):
                try:
                    hold(j); out.append("ok")
                except BaseException as e:  # noqa: BLE001
                    out.append(type(e).__name__)
            ts = [threading.Thread(target=t, args=(j,)) for j in range(n)]
            [x.start() for x in ts]; [x.join() for x in ts]
            return out
        return hold(i)
    if threads:
        r = crash.fork_call(lambda: body(0))
        require(r[0] == "ok", "%s", r)
        bad = [x for x in r[1] if x not in (("ok", "KeyError") if death == "raise" else ("ok",))]
        require(not bad, "lock failed: %s", bad)
    else:
        for i, r in enumerate(parallel([lambda i=i: body(i) for i in range(n)])):
            if i == 0 and death != "no":
                continue
            require(r[0] == "ok", "holder %d: %s", i, r[1:])
    ev = []
    for line in open(log):
        a, i, t = line.split()
        ev.append((float(t), a, int(i)))
    ev.sort()
    inside = None
    for t, a, i in ev:
        if a == "in":
            require(inside is None or (inside == 0 and death == "kill"), "holders %s and %s were inside together", inside, i)
            inside = i
        else:
            require(inside == i, "holder %s left while %s was inside", i, inside)
            inside = None


# ---------------------------------------------------------------- D05
JS = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.sampled_from([0.5, 1.5, 1e-3]), st.sampled_from(["", "a", "1", "None", "true"])),
                  lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.sampled_from(["a", "b", "c"]), c, max_size=3)), max_leaves=5)
KW = st.dictionaries(st.sampled_from(["a", "b", "c", "n", "seed"]), JS, max_size=4)
IDENT = st.fixed_dictionaries({"provider": st.sampled_from(["p", "q"]), "canonical_uri": st.sampled_from(["p:a", "p:b", "p:a/b"]),
                               "dataset_id": st.sampled_from(["a", "b"]), "version": st.sampled_from([None, "1", "2", "None"]),
                               "modality": st.sampled_from(["text", "tabular"]), "task": st.sampled_from(["classification", "t"]),
                               "resolved_kwargs": KW})


def shuffled(x, rng):
    if isinstance(x, dict):
        items = [(k, shuffled(v, rng)) for k, v in x.items()]
        rng.shuffle(items)
        return dict(items)
    if isinstance(x, list):
        return [shuffled(v, rng) for v in x]
    return x


def jkey(x):
    return json.dumps(x, sort_keys=True)


@check("D05", st.tuples(IDENT, IDENT, st.integers(0, 99), st.sampled_from(["version", "modality", "resolved_kwargs", "canonical_uri", "provider", "dataset_id", "all"])), quick=3000)
def identity(case, ctx):
    """the two identities differ"""
    a, b, seed, field = case
    if field != "all":
        b = {**a, field: b[field]}
    rng = random.Random(seed)
    fa = DatasetIdentity(**copy.deepcopy(a)).fingerprint(schema_version=1)
    fb = DatasetIdentity(**copy.deepcopy(b)).fingerprint(schema_version=1)
    require(fa == DatasetIdentity(**shuffled(a, rng)).fingerprint(schema_version=1), "identity depends on key order")
    require(fa != DatasetIdentity(**a).fingerprint(schema_version=2), "schema version ignored")
    require(cache.CacheLayout(Path("/r")).processed_dir(fa).parent == Path("/r/processed"), "fingerprint is not a file name")
    same = jkey(a) == jkey(b)
    ctx.nontrivial(not same)
    require((fa == fb) == same, "identities %s and %s: same fingerprint %s", a, b, fa == fb)
    # documentation-only fields of catalogue entries do not matter, the others do
    sa = DatasetSpec(key="k", provider=a["provider"], uri=a["canonical_uri"], modality="m", task="t", description="d", source_kwargs=a["resolved_kwargs"])
    sb = DatasetSpec(key="k2", provider=b["provider"], uri=b["canonical_uri"], modality="m", task="t", description="other", homepage="h", source_kwargs=shuffled(b["resolved_kwargs"], rng))
    same = jkey([a["provider"], a["canonical_uri"], a["resolved_kwargs"]]) == jkey([b["provider"], b["canonical_uri"], b["resolved_kwargs"]])
    require((sa.fingerprint(schema_version=1) == sb.fingerprint(schema_version=1)) == same, "catalogue fingerprints of %s and %s", sa, sb)


PROV = {
    "toy": (["default"], {"n_samples": [10, 64, 20], "n_features": [4, 2], "n_classes": [3, 2], "seed": [0, 1], "official_test": [True, False], "test_size": [0.25, 0.5]},
            {"n_samples": 64, "n_features": 4, "n_classes": 3, "seed": 0, "official_test": True, "test_size": 0.25}),
    "openml": (["61", "name=adult", "name=adult,version=2", "name=iris,version=1", "1590"], {"version": [1, 2, None], "class_filter": [None, ["a"], ["a", "b"]], "max_samples": [None, 5, 6], "seed": [None, 1], "as_frame": [False, True]},
               {"class_filter": None, "max_samples": None, "seed": None, "as_frame": False}),
    "hf": (["ag_news", "glue/sst2", "glue/cola", "imdb"], {"text_column": ["text", "t"], "label_column": ["label", "l"], "prefer_test_split": [True, False], "class_filter": [None, [1], [1, 2]], "max_train_samples": [None, 5], "max_test_samples": [None, 5], "seed": [None, 0, 1]},
           {"text_column": "text", "label_column": "label", "prefer_test_split": True, "class_filter": None, "max_train_samples": None, "max_test_samples": None, "seed": None}),
    "torchvision": (["MNIST", "CIFAR10"], {"class_filter": [None, [1], [1, 2]], "max_train_samples": [None, 5], "max_test_samples": [None, 5], "seed": [None, 0, 1]},
                    {"class_filter": None, "max_train_samples": None, "max_test_samples": None, "seed": None}),
    "torchaudio": (["SPEECHCOMMANDS", "YESNO"], {"class_filter": [None, [1], [1, 2]], "max_train_samples": [None, 5], "max_test_samples": [None, 5], "seed": [None, 0, 1]},
                   {"class_filter": None, "max_train_samples": None, "max_test_samples": None, "seed": None}),
    "tfds": (["mnist", "mnist/3.0.1", "cifar10"], {"as_supervised": [True, False]}, {"as_supervised": True}),
    "pyg": (["Planetoid/Cora", "Planetoid/CiteSeer", "KarateClub"], {"max_nodes": [None, 5, 6], "class_filter": [None, [1], [1, 2]], "seed": [None, 0, 1]},
            {"max_nodes": None, "class_filter": None, "seed": None}),
}


@st.composite
def prov_case(draw):
    p = draw(st.sampled_from(sorted(PROV)))
    refs, opts, _ = PROV[p]
    one = lambda: [draw(st.sampled_from(refs)), {k: draw(st.sampled_from(v)) for k, v in opts.items() if draw(st.booleans())}]
    a, b = one(), one()
    if draw(st.booleans()):
        b = [a[0], dict(a[1])]
        k = draw(st.sampled_from(sorted(opts)))
        b[1][k] = draw(st.sampled_from(opts[k]))
    return {"p": p, "a": a, "b": b, "seed": draw(st.integers(0, 99))}


@check("D05", prov_case(), quick=1500)
def providers(case, ctx):
    """the two requests differ in reference, version or options"""
    p, (ra, oa), (rb, ob) = case["p"], case["a"], case["b"]
    rng = random.Random(case["seed"])
    defaults = PROV[p][2]

    def fp(r, o):
        return _svc._resolve_identity(DatasetRequest(id="%s:%s" % (p, r), options=o)).fingerprint(schema_version=1)

    def norm(r, o):
        d = {**defaults, **o}
        if p == "openml" and "version" in o:
            pass
        return jkey([r, d])
    f1, f2 = fp(ra, oa), fp(rb, ob)
    require(f1 == fp(ra, shuffled(oa, rng)), "identity depends on option order")
    require(f1 == fp(" %s " % ra, oa), "identity depends on surrounding blanks")
    if p == "toy":
        require(f1 == fp("zzz", oa), "toy reference matters")
    if p == "openml" and ("version" in oa or "version" in ob):
        if ra == rb and {**defaults, **oa} == {**defaults, **ob}:
            require(f1 == f2, "same request, different identity")
        elif ra.split(",")[0] != rb.split(",")[0] or oa.get("max_samples") != ob.get("max_samples"):
            require(f1 != f2, "different requests %s %s share an identity", case["a"], case["b"])
        return
    same = norm(ra, oa) == norm(rb, ob)
    ctx.nontrivial(not same)
    require((f1 == f2) == same, "requests %s and %s of %s: same identity %s", case["a"], case["b"], p, f1 == f2)


@check("D05", st.one_of(st.text(max_size=12), st.tuples(TEXT, TEXT).map(lambda t: t[0] + ":" + t[1]),
                        st.text(st.sampled_from(list(" \t:/ab1")), max_size=8)), quick=3000)
def addresses(s, ctx):
    """the address contains a colon"""
    head, sep, tail = s.partition(":")
    ok = bool(sep) and bool(head.strip()) and bool(tail.strip())
    ctx.nontrivial(bool(sep))
    ctx.label("valid" if ok else "malformed")
    require(is_uri(s) == ok, "is_uri(%r) = %s", s, is_uri(s))
    try:
        u = parse_uri(s)
    except InvalidDatasetURIError:
        require(not ok, "valid address %r rejected", s)
        return
    require(ok, "malformed address %r accepted", s)
    require((u.provider, u.reference) == (head.strip(), tail.strip()), "%r parsed as %s", s, u)
    require(parse_uri(u.uri) == u, "%r does not format back", s)


@check("D05", st.tuples(st.sampled_from(["nope", "nope:x", "toy", ":x", "x:", " : ", "toy:"]), st.booleans()), quick=30)
def bad_requests(case, ctx):
    """always"""
    ctx.nontrivial()
    rid, dl = case
    d = Path(ctx.tmp())
    try:
        api.load_dataset(rid, cache_dir=d, download=dl)
    except DataLoaderError as e:
        require(rid != "toy" or not dl, "%r rejected: %s", rid, e)
        return
    require(rid == "toy" and dl, "%r accepted", rid)


# ---------------------------------------------------------------- D06
HOSTILE = ["{out}/secret.npy", "../../secret.npy", "../secret.npy", "../../../secret.npy", "sub/../../secret.npy", "./../secret.npy", "link.npy", "linkdir/secret.npy",
           "..", ".", "", "/etc/hostname", "../other/train_X.npy", "train_X.npy/../../other/train_X.npy", "{root}/processed/../secret.npy", "~/secret.npy", "linkdir/../secret.npy"]


@check("D06", st.tuples(st.sampled_from(HOSTILE), st.sampled_from(["X", "y", "edges", "mask"]), st.sampled_from(["train", "test"]),
                        st.sampled_from(["npy", "pickle", "jsonl.gz"]), st.booleans(), st.integers(0, 2)), quick=400, shards=2)
def layout_paths(case, ctx):
    """the path leads out of the entry"""
    tmpl, field, part, fmt, service, depth = case
    base = Path(ctx.tmp())
    root = base / "a" / "b" / "cache"
    fakeprov.reset()
    fakeprov.BUILD["fn"] = lambda: LoadedDataset(
        train=Split(X=np.ones((2, 2)), y=np.zeros(2), edges=np.zeros((2, 1), int), masks={"m": np.array([True, False])}),
        test=Split(X=np.ones((2, 2)), y=np.zeros(2), edges=np.zeros((2, 1), int), masks={"m": np.array([True, False])}), meta={})
    ds = api.load_dataset("fake:x", cache_dir=root)
    fp = ds.meta["dataset_fingerprint"]
    entry = root / "processed" / fp
    secret = np.full((2, 2), 666.0)
    obj = np.array(["SECRET", {"s": 1}], dtype=object)
    import gzip
    for place in (base, base / "a", base / "a" / "b", root, root / "processed", root / "processed" / "other", Path(os.path.expanduser("~")) if False else base):
        place.mkdir(exist_ok=True)
        if fmt == "npy":
            np.save(place / "secret.npy", secret); np.save(place / "train_X.npy", secret)
        elif fmt == "pickle":
            np.save(place / "secret.npy", obj, allow_pickle=True); np.save(place / "train_X.npy", obj, allow_pickle=True)
        else:
            for nm in ("secret.npy", "train_X.npy"):
                with gzip.open(place / nm, "wt") as f:
                    f.write('"SECRET"\n')
    (entry / "link.npy").symlink_to(base / "secret.npy")
    (entry / "linkdir").symlink_to(base)
    path = tmpl.format(out=base, root=root)
    lay = json.loads((entry / "layout.json").read_text())
    info = {"format": "jsonl.gz" if fmt == "jsonl.gz" else "npy", "path": path}
    if fmt == "pickle":
        info["allow_pickle"] = True
    if field == "mask":
        lay["splits"][part]["masks"]["m"] = info
    else:
        lay["splits"][part][field] = info
    (entry / "layout.json").write_text(json.dumps(lay))
    ctx.nontrivial(path not in ("", "."))
    before = snapshot(base, skip=root)
    try:
        got = api.load_dataset("fake:x", cache_dir=root) if service else FileStorage().load(entry)
    except Exception as e:  # noqa: BLE001  (any error is fine: nothing was read out)
        require("SECRET" not in str(e) and "666" not in str(e), "error discloses contents: %s", e)
        got = None
    if got is not None:
        for s in (got.train, got.test):
            for v in (s.X, s.y, s.edges, *(s.masks or {}).values()):
                txt = repr(np.asarray(v).tolist())
                require("666" not in txt and "SECRET" not in txt, "file outside the entry was read through %r", path)
        if field == "mask" and part in ("train", "test"):
            pass
    require(snapshot(base, skip=root) == before, "files outside the cache folder changed")
    fakeprov.reset()


def snapshot(base, skip=None):
    out = {}
    for p in sorted(Path(base).rglob("*")):
        if skip and (p == skip or skip in p.parents):
            continue
        out[str(p)] = p.read_bytes() if p.is_file() else None
    return out


BADFP = ["../../victim", "../../../victim", "{victim}", "..", ".", "", "../other", "x/../../../victim", "../processed", "sub/..", "nosuch", "{fp}", "{fp}/../{fp2}", "../manifests"]


@check("D06", st.tuples(st.sampled_from(BADFP), st.sampled_from(["fp", "cli", "dataset", "gc"])), quick=80)
def purge_paths(case, ctx):
    """the name given is not that of an entry"""
    tmpl, how = case
    base = Path(ctx.tmp())
    root = base / "a" / "cache"
    victims = [base / "victim", base / "a" / "victim"]
    for v in victims:
        v.mkdir(parents=True)
        (v / "f").write_text("keep")
        Path(str(v) + ".json").write_text("keep")
    fakeprov.reset()
    fp = api.load_dataset("fake:x", cache_dir=root).meta["dataset_fingerprint"]
    fp2 = api.load_dataset("fake:y", cache_dir=root).meta["dataset_fingerprint"]
    (root / "other").mkdir()
    (root / "other" / "f").write_text("keep")
    name = tmpl.format(victim=victims[0], fp=fp, fp2=fp2)
    ctx.nontrivial(tmpl not in ("{fp}", "nosuch"))
    before = snapshot(base, skip=root)
    lay = cache.CacheLayout(root)
    if how in ("dataset", "gc"):
        import sqlite3
        con = sqlite3.connect(lay.index_path)
        con.execute("INSERT OR REPLACE INTO variants VALUES (?, 'fake:x', 'fake', 'x', NULL, 'm', '2000-01-01', ?, ?, 0)",
                    (name, str(victims[1]), str(victims[1]) + ".json"))
        con.commit()
        con.close()
    try:
        if how == "fp":
            cache.purge_fingerprint(lay, name)
        elif how == "cli":
            from typer.testing import CliRunner
            from modssc.cli.app import app
            CliRunner().invoke(app, ["datasets", "cache", "purge", "--cache-dir", str(root), "--fingerprint", "--", name])
        elif how == "dataset":
            cache.purge_dataset(lay, "fake:x")
        else:
            cache.gc_keep_latest(lay)
    except DataLoaderError:
        pass
    require(snapshot(base, skip=root) == before, "purging %r deleted files outside the cache folder", name)
    require((root / "other" / "f").exists(), "purging %r deleted unrelated files of the cache folder", name)
    gone = {fp} if tmpl == "{fp}" or how in ("dataset",) else set()
    for f in (fp, fp2):
        ok = cache.is_cached(lay, f)
        if f in gone:
            continue
        if how == "gc" and f == fp:
            continue
        require(ok, "purging %r removed another entry", name)
    if tmpl == "{fp}" and how in ("fp", "cli"):
        require(not cache.is_cached(lay, fp), "the entry was not purged")
    fakeprov.reset()
