"""A data provider under the harness' control: data is a pure function of
(reference, options, generation of that request), and every contact is logged."""
from __future__ import annotations

import json
import os
import time

import numpy as np

from modssc.data_loader.providers import PROVIDERS
from modssc.data_loader.providers.base import BaseProvider
from modssc.data_loader.types import DatasetIdentity, LoadedDataset, Split

LOG = []                # contacts in this process
GEN = {}                # request key -> generation
LOGFILE = None          # shared log for concurrent runs
FAIL = {"on": False}
BUILD = {"fn": None}
SLEEP = {"s": 0.0, "die": False}
SCHEMA = {"v": "1"}


def reset():
    LOG.clear(); GEN.clear()
    FAIL["on"] = False
    BUILD["fn"] = None
    SLEEP.update(s=0.0, die=False)
    global LOGFILE
    LOGFILE = None


def key(identity):
    return json.dumps([identity.canonical_uri, identity.version, identity.modality, dict(identity.resolved_kwargs)], sort_keys=True)


def payload(k, gen, big=4):
    """The data of request k at generation gen; every number in it identifies both."""
    import zlib
    h = zlib.crc32(("%s#%d" % (k, gen)).encode())
    rng = np.random.default_rng(h)
    n = 3 + h % big
    nt = (h >> 8) % 4
    def split(m, g):
        X = rng.normal(size=(m, 3))
        y = rng.integers(0, 9, size=m)
        edges = rng.integers(0, m, size=(2, 5)) if (g >> 3) % 2 else None
        masks = {"train": rng.random(m) < 0.5, "test": rng.random(m) < 0.5} if (g >> 4) % 2 else None
        if (g >> 5) % 4 == 0:
            X = np.array(["t%d é\n" % i for i in rng.integers(0, 10**6, size=m)], dtype=object)
        return Split(X=X, y=y, edges=edges, masks=masks)
    train = split(n, h)
    test = split(nt, h >> 9) if nt else None
    return LoadedDataset(train=train, test=test, meta={"key": k, "gen": gen, "names": ["a", "b"]})


class Prov(BaseProvider):
    name = "fake"
    required_extra = None

    def resolve(self, parsed, *, options):
        ref, _, ver = parsed.reference.partition("@")
        kw = {k: v for k, v in options.items() if k not in ("modality", "version")}
        ver = options.get("version", ver or None)
        return DatasetIdentity(provider="fake", canonical_uri="fake:%s" % ref, dataset_id=ref, version=ver,
                               modality=options.get("modality", "tabular"), task="classification", resolved_kwargs=kw)

    def load_canonical(self, identity, *, raw_dir):
        k = key(identity)
        LOG.append(k)
        if LOGFILE:
            with open(LOGFILE, "ab", 0) as f:
                f.write(("enter %d %r\n" % (os.getpid(), time.monotonic())).encode())
        if SLEEP["s"]:
            time.sleep(SLEEP["s"])
        if FAIL["on"]:
            raise OSError("provider down")
        ds = BUILD["fn"]() if BUILD["fn"] else payload(k, GEN.get(k, 0))
        if SLEEP["die"]:
            os._exit(5)
        return ds


PROVIDERS["fake"] = "vt.fakeprov:Prov"
