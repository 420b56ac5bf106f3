from __future__ import annotations

import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import zlib

T0 = time.time()
SCRATCH = tempfile.mkdtemp(prefix="vt-run-")


def _env():
    for k, sub in (("XDG_CACHE_HOME", "xdg"), ("MODSSC_CACHE_ROOT", "root"), ("MODSSC_CACHE_DIR", "data"),
                   ("MODSSC_PREPROCESS_CACHE_DIR", "pp"), ("HF_HOME", "hf"), ("TORCH_HOME", "th"),
                   ("MPLCONFIGDIR", "mpl")):
        d = os.path.join(SCRATCH, "home", sub)
        os.makedirs(d, exist_ok=True)
        os.environ[k] = d
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[:0] = [os.path.join(repo, "src"), repo]
    sys.dont_write_bytecode = True


MODULES = {
    "S": ["c_sampling"], "D": ["c_data", "c_providers"], "P": ["c_preprocess"], "G": ["c_graph"], "V": ["c_views"],
    "A": ["c_augment"], "E": ["c_eval"], "H": ["c_hpo"], "C": ["c_supervised"], "I": ["c_inductive"],
    "T": ["c_transductive", "c_gnn"], "B": ["c_bench", "c_runs", "c_benchaug"], "R": ["c_registry"], "L": ["c_cli"],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--n", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "6")))
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    _env()
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    from . import core
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass
    for m in MODULES[a.prop[0]]:
        importlib.import_module("vt." + m)
    src = os.path.realpath(os.path.join(core.REPO, "src"))
    import modssc
    if not os.path.realpath(modssc.__file__).startswith(src):
        print("harness error: modssc imported from", modssc.__file__)
        return 2
    checks = [c for c in core.CHECKS if c.prop == a.prop and (not a.only or c.name == a.only)]
    probes = [p for p in core.PROBES if p.prop == a.prop and not a.only]
    if not checks:
        print("harness error: no check for", a.prop)
        return 2

    if a.replay:
        rep = json.load(open(a.replay))
        chk = next(c for c in checks if c.name == rep["check"])
        ctx = core.Ctx(SCRATCH)
        try:
            core.run_body(chk, rep["case"], ctx)
        except core.HarnessError:
            traceback.print_exc()
            return 2
        except Exception:
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (a.prop, os.path.abspath(a.replay)))
            return 1
        print("replay passed")
        return 0

    soft = 100.0 if tier == "quick" else 1500.0
    jobs = []
    for c in checks:
        n = c.quick if tier == "quick" else c.thorough
        n = max(1, int(n * a.n))
        sh = c.shards if tier == "quick" else c.tshards
        sh = max(1, min(sh, n))
        for s in range(sh):
            jobs.append((c, s, max(1, -(-n // sh))))
    results, running = [], {}
    todo = list(jobs)[::-1]
    while todo or running:
        while todo and len(running) < a.jobs:
            c, s, n = todo.pop()
            out = os.path.join(SCRATCH, "res-%s-%d.json" % (c.name, s))
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 3
                try:
                    d = os.path.join(SCRATCH, "w-%s-%d" % (c.name, s))
                    os.makedirs(d)
                    r = core.run_shard(c, tier, seed, s, n, soft, d)
                    with open(out, "w") as f:
                        json.dump(r, f)
                    rc = 0
                    shutil.rmtree(d, ignore_errors=True)
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(rc)
            running[pid] = (c, s, out)
        pid, status = os.wait()
        if pid not in running:
            continue
        c, s, out = running.pop(pid)
        if status == 0 and os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            results.append({"check": c.name, "shard": s, "evals": 0, "distinct": 0, "nontriv": [], "labels": {},
                            "samples": [], "skipped": 0, "discards": 0, "wall": 0, "failure": None,
                            "error": "worker died with status %d" % status})

    # known findings
    kf_path = os.path.join(core.ROOT, "known_findings.json")
    known = {}
    if os.path.exists(kf_path):
        known = {k["key"]: k for k in json.load(open(kf_path))["findings"] if "key" in k}
    violations, errors = [], []
    for p in probes:
        d = tempfile.mkdtemp(dir=SCRATCH)
        try:
            bad = p.fn(d)
        except Exception as e:
            bad = "%s: %s" % (type(e).__name__, e)
        if bad:
            if p.key in known and known[p.key]["property"] == a.prop:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, known[p.key]["what"]))
            else:
                violations.append({"check": "probe:" + p.key, "case": p.key, "message": p.text + " " + str(bad), "trace": ""})
    results.sort(key=lambda r: (r["check"], r["shard"]))
    for r in results:
        if r["error"]:
            errors.append("%s[%d]: %s" % (r["check"], r["shard"], r["error"]))
        if r["failure"]:
            violations.append({"check": r["check"], **r["failure"]})

    by = {}
    for r in results:
        b = by.setdefault(r["check"], {"evaluations": 0, "nontriv": set(), "labels": {}, "samples": [], "discarded": 0,
                                       "wall_s": 0.0, "not_run_for_time": 0})
        b["evaluations"] += r["evals"]
        b["nontriv"] |= set(r["nontriv"])
        b["discarded"] += r["discards"]
        b["not_run_for_time"] += r["skipped"]
        b["wall_s"] = round(b["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            b["labels"][k] = b["labels"].get(k, 0) + v
        if len(b["samples"]) < 2:
            b["samples"] += r["samples"][:2]
    samples = []
    for k, b in by.items():
        for s in b["samples"][:2]:
            t = json.dumps(s)
            samples.append({"check": k, "case": s if len(t) < 3000 else t[:3000] + "..."})
    per = {}
    for k, b in by.items():
        per[k] = {"evaluations": b["evaluations"], "distinct_nontrivial": len(b["nontriv"]), "discarded": b["discarded"],
                  "not_run_for_time": b["not_run_for_time"], "labels": dict(sorted(b["labels"].items())), "cpu_s": b["wall_s"],
                  "rule": next(c.rule for c in checks if c.name == k)}
    rule = "JSON cases drawn by hypothesis strategies (seed=VERIF_SEED); a case counts as non-trivial when: " + "; ".join(
        "[%s] %s" % (c.name, c.rule) for c in checks)
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": LEVELS.get(a.prop, "exploration"),
        "coverage": {
            "evaluations": sum(b["evaluations"] for b in by.values()),
            "distinct_nontrivial": sum(len(b["nontriv"]) for b in by.values()),
            "rule": rule, "samples": samples, "checks": per,
        },
        "assumptions": ["runs the code in %s in-process with CPU torch, one BLAS thread" % core.REPO],
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    if not a.only:
        os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(core.ROOT, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, v in per.items():
        print("%-46s evals=%-6d nontrivial=%-6d discarded=%-5d skipped=%-4d cpu=%.1fs %s" % (
            k, v["evaluations"], v["distinct_nontrivial"], v["discarded"], v["not_run_for_time"], v["cpu_s"],
            " ".join("%s:%d" % kv for kv in list(v["labels"].items())[:14])))
    for e in errors:
        print("HARNESS ERROR", e)
    if violations:
        rd = os.path.join(core.ROOT, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in violations:
            if v["check"] in seen:
                continue
            seen.add(v["check"])
            rp = os.path.join(rd, "%s-%s-%d.json" % (a.prop, v["check"].replace(":", "_"), seed))
            with open(rp, "w") as f:
                json.dump({"property": a.prop, "seed": seed, "tier": tier, **v,
                           "how": "./run.sh %s --replay %s" % (a.prop, rp)}, f, indent=1)
            print("---", v["check"], v["message"][:600])
            print("    case:", json.dumps(v["case"])[:1500])
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if errors:
        return 2
    print("OK %s %s seed=%d %.1fs" % (a.prop, tier, seed, time.time() - T0))
    return 0


LEVELS = {"D03": "fault_enumeration", "P07": "fault_enumeration", "G05": "fault_enumeration"}

if __name__ == "__main__":
    rc = 3
    pid = os.getpid()
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == pid:
            shutil.rmtree(SCRATCH, ignore_errors=True)
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
