"""T10, T11: graph networks with their own training loops."""
from __future__ import annotations

import dataclasses
import importlib
import itertools
from unittest import mock

import numpy as np
import torch

from modssc.transductive.registry import get_method_class
from modssc.transductive.types import DeviceSpec

from .core import check, fail, require, st
from .c_transductive import (BINARY, GNN, PROP, NearZeroGradient, build, close, dataset, dense, degree_norm, dev, forward, graph_case, make, module_params,
                             params, train)


class Adam:
    """Adam with additive weight decay over a dictionary of parameters, in double precision."""

    def __init__(self, p, jitter, weak=2e-6):
        self.p, self.jitter, self.t, self.s, self.weak = p, jitter, 0, {}, weak

    def step(self, q, loss):
        self.t += 1
        p, t = self.p, self.t
        new = {}
        for (k, v), d in zip(q.items(), torch.autograd.grad(loss, list(q.values()), allow_unused=True)):
            v = v.detach()
            if d is None:
                new[k] = v.clone().requires_grad_(True)
                continue
            d = d.detach() + p["weight_decay"] * v
            weak = d.abs() < self.weak
            if weak.any():
                if self.jitter is None:
                    raise NearZeroGradient
                d = torch.where(weak, d + 0.1 * self.weak * torch.as_tensor(self.jitter(d.shape)), d)
            m, s = self.s.get(k, (torch.zeros_like(v), torch.zeros_like(v)))
            m, s = 0.9 * m + 0.1 * d, 0.999 * s + 0.001 * d * d
            self.s[k] = (m, s)
            new[k] = (v - p["lr"] * (m / (1 - 0.9 ** t)) / (torch.sqrt(s / (1 - 0.999 ** t)) + 1e-8)).requires_grad_(True)
        return new


def settle(run, seed, tol=3e-4):
    """The reference result, or None when gradients too small for single precision decide it."""
    try:
        return run(None)
    except NearZeroGradient:
        r = np.random.default_rng(seed)
        try:
            runs = [run(j) for j in (np.zeros, np.ones, lambda sh: -np.ones(sh), *[lambda sh: r.choice([-1.0, 0.0, 1.0], sh)] * 3)]
        except NearZeroGradient:
            return None
        return None if max(np.abs(w - runs[0]).max() for w in runs) > tol else runs[0]


# ------------------------------------------------------------------ H-GCN
class Tie(Exception):
    pass


def coarsen(A, size):
    """Pairs of nodes with equal neighbourhoods, then heaviest normalised edge by increasing degree."""
    n = len(A)
    nb = [tuple(j for j in np.flatnonzero(A[i]) if j != i) for i in range(n)]
    used, groups, by = set(), [], {}
    for i in range(n):
        by.setdefault(nb[i], []).append(i)
    for same in by.values():
        for a, b in zip(same[0::2], same[1::2]):
            groups.append((a, b))
            used |= {a, b}
    for v in sorted(range(n), key=lambda i: (len(nb[i]), i)):
        if v in used:
            continue
        free = [u for u in nb[v] if u not in used]
        if not free:
            groups.append((v,))
            used.add(v)
            continue
        sc = {u: A[v, u] / np.sqrt(float(size[v]) * float(size[u])) for u in free}
        top = max(sc.values())
        close_ = [u for u in free if abs(sc[u] - top) <= 1e-6 * abs(top)]
        if any(sc[u] != top for u in close_):
            raise Tie
        u = min(close_)
        groups.append((v, u))
        used |= {v, u}
    M = np.zeros((n, len(groups)))
    for k, gr in enumerate(groups):
        M[list(gr), k] = 1.0
    return M, M.T @ A @ M, [int(sum(size[i] for i in gr)) for gr in groups]


def hgcn(g, p):
    n = g["n"]
    w = np.ones(g["ei"].shape[1]) if g["ew"] is None else g["ew"].astype(np.float64)
    A = np.zeros((n, n))
    np.add.at(A, (g["ei"][0], g["ei"][1]), w)
    A -= np.diag(np.diag(A))
    if p.get("symmetrize", True):
        A = np.maximum(A, A.T)
    L = (p["num_layers"] - 1) // 2
    As, sizes, Ms = [A], [[1] * n], []
    for _ in range(L):
        M, A2, s2 = coarsen(As[-1], sizes[-1])
        Ms.append(M), As.append(A2), sizes.append(s2)
    N = [torch.as_tensor(degree_norm(a + (np.eye(len(a)) if p["add_self_loops"] else 0), "sym")) for a in As]
    Ms = [torch.as_tensor(m) for m in Ms]
    sizes = [torch.as_tensor(s) for s in sizes]
    X = torch.as_tensor(g["X"].astype(np.float64))

    def f(q):
        def layer(i, lev, x):
            x = N[lev] @ torch.cat([x, q["weight_embed.weight"][sizes[lev]]], 1)
            a = torch.softmax(q["layers.%d.channel_logits" % i], 0)
            return sum(a[k] * torch.relu(x @ q["layers.%d.lins.%d.weight" % (i, k)].T) for k in range(p["channels"]))
        H, skip = X, []
        for i in range(L):
            skip.append(layer(i, i, H))
            H = Ms[i].T @ skip[-1]
        for o, i in enumerate(reversed(range(L))):
            H = Ms[i] @ layer(L + o, i + 1, H) + skip[i]
        return torch.relu(N[0] @ H @ q["out_lin.weight"].T)
    return f, max(int(s.max()) for s in sizes), sizes


@st.composite
def hgcn_case(draw):
    return {"p": {**draw(params("h_gcn", plain=True)), "symmetrize": draw(st.sampled_from([True, True, False]))},
            "g": draw(graph_case(max_n=12)), "seed": draw(st.integers(0, 50)), "dev": draw(st.sampled_from([None, "cpu", "spec"]))}


@check("T10", hgcn_case(), quick=140, timeout=60, shards=2)
def hierarchical_network_trains_as_its_reference(case, ctx):
    """The hierarchical network: nodes with equal neighbours are paired, then each remaining node by
    increasing degree joins the free neighbour of heaviest normalised edge; every level's graph is the
    sum over its groups; the dense double precision network on these levels and its training from
    the same initial parameters give the method's predictions.  Graphs whose weights tie within rounding
    are skipped.  Non-trivial when a level merges nodes and training moved the predictions."""
    g, p = build(case["g"]), case["p"]
    try:
        f, _, sizes = hgcn(g, p)
    except Tie:
        ctx.label("tie")
        return
    d = dataset(g)
    m0 = make("h_gcn", {**p, "lr": 0.0, "weight_decay": 0.0, "max_epochs": 1}).fit(d, device=dev(case["dev"]), seed=case["seed"])
    q0, p0 = module_params(m0), m0.predict_proba(d).astype(np.float64)
    try:
        want0 = torch.softmax(f(q0), 1).numpy()
    except (KeyError, TypeError, AttributeError):
        ctx.label("unknown parameters")
        return
    close(p0, want0, 2e-5, "h_gcn: forward pass (%s)", p)
    got = make("h_gcn", p).fit(d, device=dev(case["dev"]), seed=case["seed"]).predict_proba(d).astype(np.float64)
    want = settle(lambda j: torch.softmax(f(train(f, q0, p, g, j)), 1).detach().numpy(), case["seed"])
    if want is None:
        ctx.label("near zero")
        return
    close(got, want, 3e-3, "h_gcn: training (%s)", p)
    ctx.nontrivial(len(sizes[-1]) < g["n"] and np.abs(got - p0).max() > 1e-3)


# ------------------------------------------------------------------ GraFN
def grafn_run(g, p, q0, jitter):
    n, C = g["n"], g["C"]
    S = torch.as_tensor(degree_norm(dense(g) + np.eye(n), "sym"))
    X = torch.as_tensor(g["X"].astype(np.float64))
    y = torch.as_tensor(g["y"])
    tr = torch.as_tensor(g["masks"]["train_mask"])
    va = torch.as_tensor(g["masks"].get("val_mask", np.zeros(n, bool)))
    L = len(p["hidden_dims"])
    q = {k: v.clone().requires_grad_(True) for k, v in q0.items()}
    run = {i: (torch.zeros(p["hidden_dims"][i], dtype=torch.float64), torch.ones(p["hidden_dims"][i], dtype=torch.float64)) for i in range(L)}

    def encode(q, training):
        x = X
        for i in range(L):
            pre = "encoder.layers.%d." % i
            x = S @ (x @ q[pre + "lin.weight"].T + q[pre + "lin.bias"])
            if training:
                mu, var = x.mean(0), x.var(0, unbiased=False)
                if (var.detach() < 1e-4).any():
                    raise NearZeroGradient     # normalisation magnifies rounding
                a, b = run[i]
                run[i] = (0.9 * a + 0.1 * mu.detach(), 0.9 * b + 0.1 * x.var(0, unbiased=True).detach())
            else:
                mu, var = run[i]
            x = (x - mu) / torch.sqrt(var + 1e-5) * q[pre + "bn.weight"] + q[pre + "bn.bias"]
            w = q[pre + "act.weight"]
            x = torch.where(x >= 0, x, w * x)
        return x

    def classify(q, z):
        return z @ q["classifier.weight"].T + q["classifier.bias"]

    norm = torch.nn.functional.normalize
    Y = torch.eye(C, dtype=torch.float64)[y.clamp(min=0)]

    def snn(z):
        return torch.softmax(norm(z, dim=1) @ norm(z[tr], dim=1).T / p["tau"], 1) @ Y[tr]

    opt, best, best_state, bad = Adam(p, jitter), None, None, 0
    for _ in range(p["max_epochs"]):
        za, zp = encode(q, True), encode(q, True)
        probs = snn(za)
        with torch.no_grad():
            T = snn(zp)
            top = T.max(1).values
            if ((top - p["thres"]).abs() < 1e-4).any() or ((T - 1e-4).abs() < 1e-6).any():
                raise NearZeroGradient
            use = (top > p["thres"]) | tr
            T = torch.where(T < 1e-4, torch.zeros_like(T), T)
            T[tr] = Y[tr]
        cons = -(T[use] * torch.log(probs[use])).sum(1).mean()
        za2, zp2 = encode(q, True), encode(q, True)
        ce = torch.nn.functional.cross_entropy
        sup = (ce(classify(q, za2)[tr], y[tr]) + ce(classify(q, zp2)[tr], y[tr])) / 2
        node = 2 - 2 * torch.nn.functional.cosine_similarity(za, zp, dim=-1).mean()
        loss = sup + p["lam_consistency"] * cons + p["lam_nodewise"] * node
        if not torch.isfinite(loss):
            raise NearZeroGradient
        q = opt.step(q, loss)
        if va.any():
            with torch.no_grad():
                lg = classify(q, encode(q, False))
            two = lg[va].topk(2, 1).values
            if (two[:, 0] - two[:, 1] < 1e-4).any():
                raise NearZeroGradient
            acc = float((lg.argmax(1)[va] == y[va]).double().mean())
            if best is None or acc > best:
                best, best_state, bad = acc, (q, dict(run)), 0
            else:
                bad += 1
                if bad >= p["patience"]:
                    break
    if best_state is not None:
        q, run = best_state
    with torch.no_grad():
        return torch.softmax(classify(q, encode(q, False)), 1).numpy()


@st.composite
def grafn_case(draw):
    p = draw(params("grafn", plain=True))
    p.update(lam_consistency=draw(st.sampled_from([0.5, 2.0, 0.0])), lam_nodewise=draw(st.sampled_from([0.5, 1.0, 0.0])), lr=draw(st.sampled_from([0.05, 0.01])))
    return {"p": p, "g": draw(graph_case(max_n=12)), "per": draw(st.sampled_from([1, 1, 2])), "seed": draw(st.integers(0, 50)), "dev": draw(st.sampled_from([None, "cpu", "spec"]))}


@check("T10", grafn_case(), quick=140, timeout=60, shards=2)
def grafn_trains_as_its_reference(case, ctx):
    """Without random view changes and with equally many labels per class the support set is the
    labeled nodes: supervised, consistency (confident nodes only, labels for labeled nodes) and node-wise
    terms, batch normalisation with running statistics, Adam and early stopping on validation
    accuracy, in dense double precision.  Values within rounding of a threshold are skipped.
    Non-trivial when the predictions moved from their start by more than 1e-3."""
    g, p = build(case["g"]), case["p"]
    tr = np.zeros(g["n"], bool)
    per = min([case["per"]] + [int((g["y"] == c).sum()) for c in range(g["C"])])
    va = g["masks"].get("val_mask", np.zeros(g["n"], bool))
    for c in range(g["C"]):
        idx = np.flatnonzero((g["y"] == c) & ~va)
        idx = idx if idx.size >= per else np.flatnonzero(g["y"] == c)
        tr[idx[:per]] = True
    g["masks"] = {**g["masks"], "train_mask": tr}
    d = dataset(g)
    m0 = make("grafn", {**p, "lr": 0.0, "weight_decay": 0.0, "max_epochs": 1}).fit(d, device=dev(case["dev"]), seed=case["seed"])
    q0, p0 = module_params(m0), m0.predict_proba(d).astype(np.float64)
    r = np.random.default_rng(5)
    q1 = {k: v * (1 + 3e-6 * torch.as_tensor(r.choice([-1.0, 1.0], tuple(v.shape)))) for k, v in q0.items()} if q0 else None
    try:
        want = settle(lambda j: grafn_run(g, p, q0, j), case["seed"])
        near = settle(lambda j: grafn_run(g, p, q1, j), case["seed"])
    except (KeyError, TypeError, AttributeError):
        ctx.label("unknown parameters")
        return
    if want is None or near is None or np.abs(want - near).max() > 5e-4:
        ctx.label("near zero")
        return
    got = make("grafn", p).fit(d, device=dev(case["dev"]), seed=case["seed"]).predict_proba(d).astype(np.float64)
    close(got, want, 5e-3, "grafn: training (%s)", p)
    ctx.nontrivial(np.abs(got - p0).max() > 1e-3)


# --------------------------------------------------------------- GraphHop
def hop_matrices(g, hops, symmetrize):
    """Row-normalised indicator of the nodes at exactly 1, 2, ... steps."""
    n = g["n"]
    R = np.zeros((n, n), bool)
    R[g["ei"][0], g["ei"][1]] = True
    if symmetrize:
        R |= R.T
    np.fill_diagonal(R, False)
    seen, front, out = np.eye(n, dtype=bool), np.eye(n, dtype=bool), []
    for _ in range(hops):
        front = ((front.astype(int) @ R.astype(int)) > 0) & ~seen
        seen |= front
        k = front.sum(1, keepdims=True)
        out.append(torch.as_tensor(np.where(k > 0, front / np.maximum(k, 1), 0.0)))
    return out


def fixed_linear(self):
    """Initial weights that depend on the shape alone."""
    o, i = self.weight.shape
    r = np.random.default_rng([o, i])
    with torch.no_grad():
        self.weight.copy_(torch.as_tensor(r.normal(0, 0.5, (o, i))))
        if self.bias is not None:
            self.bias.copy_(torch.as_tensor(r.normal(0, 0.5, o)))


def graphhop_run(g, p, jitter, noise=0.0):
    n, C, H_ = g["n"], g["C"], p["hops"]
    N = hop_matrices(g, H_, p["symmetrize"])
    X = torch.as_tensor(g["X"].astype(np.float64))
    y = torch.as_tensor(g["y"])
    tr = torch.as_tensor(g["masks"]["train_mask"])
    va = torch.as_tensor(g["masks"].get("val_mask", np.zeros(n, bool)))
    Y = torch.eye(C, dtype=torch.float64)[y.clamp(min=0)]
    shake = np.random.default_rng(5)

    def fresh(width):
        lin = torch.nn.Linear(width, C)
        fixed_linear(lin)
        w = lin.weight.detach().double()
        return {"w": (w * (1 + noise * shake.choice([-1.0, 1.0], tuple(w.shape)))).requires_grad_(True), "b": lin.bias.detach().double().requires_grad_(True)}

    def fit(q, Z, labels, first):
        lp = lambda q: torch.log_softmax(Z @ q["w"].T + q["b"], 1)
        opt, prev, best, bad = Adam(p, jitter, 1e-4), None, None, 0
        ps = ~tr
        for _ in range(p["max_epochs"]):
            l = lp(q)
            loss = -(labels[tr] * l[tr]).sum() / int(tr.sum())
            if not first:
                k = max(int(ps.sum()) * C, 1)
                loss = loss - (p["alpha"] * (labels[ps] * l[ps]).sum() + p["beta"] * (torch.exp(l[ps]) * l[ps]).sum()) / k
            q = opt.step(q, loss)
            if not va.any():
                continue
            with torch.no_grad():
                lv = float(-(Y[va] * lp(q)[va]).sum())
            if prev is not None and abs(prev - lv - p["min_delta"]) < 1e-4:
                raise NearZeroGradient
            if prev is not None and prev - lv < p["min_delta"]:
                bad += 1
            else:
                bad, best = 0, {k: v.detach() for k, v in q.items()}
            if bad >= p["patience"]:
                break
            prev = lv
        q = best if best is not None else q
        return {k: v.detach().clone().requires_grad_(True) for k, v in q.items()}

    def out(q, Z, t=1.0):
        with torch.no_grad():
            return torch.softmax((Z @ q["w"].T + q["b"]) / t, 1)

    def cat(V, upto):
        return torch.cat([V] + [N[m] @ V for m in range(upto)], 1)

    Z = cat(X, H_)
    q = fit(fresh(Z.shape[1]), Z, Y, True)
    H, T = out(q, Z), out(q, Z, p["temperature"])
    T[tr] = Y[tr]
    wt = p["weight_temp"] or [1 / H_] * H_
    wp = p["weight_pred"] or [1 / H_] * H_
    models = [None] * H_
    for _ in range(p["max_iter"]):
        a, b = 0, 0
        for m in range(H_):
            Z = cat(H, m + 1)
            models[m] = fit(models[m] or fresh(Z.shape[1]), Z, T, False)
            a = a + wt[m] * out(models[m], Z, p["temperature"])
            b = b + wp[m] * out(models[m], Z)
        T, H = a, b
        T[tr] = Y[tr]
    return H.numpy()


@st.composite
def graphhop_case(draw):
    p = draw(params("graphhop", plain=True))
    hops = p["hops"]
    w = lambda: draw(st.sampled_from([None, None, [round((k + 1) / (hops * (hops + 1) / 2), 3) for k in range(hops)]]))
    p.update(min_delta=draw(st.sampled_from([1e-2, 1e-1, 0.0])), weight_temp=w(), weight_pred=w(), max_epochs=draw(st.sampled_from([2, 4, 8, 12, 1])))
    return {"p": p, "g": draw(graph_case(max_n=12)), "seed": draw(st.integers(0, 50)), "dev": draw(st.sampled_from([None, "cpu", "spec"]))}


@check("T10", graphhop_case(), quick=120, timeout=60, shards=2)
def graphhop_iterates_as_its_reference(case, ctx):
    """With initial weights fixed by shape: hop averages over the nodes at exactly k steps, the
    initial regression on labeled nodes, then alternating label smoothing and regressions with
    pseudo-label and entropy terms, early stopping as published, in dense double precision.  Non-trivial
    when at least one iteration ran on a graph with a second-hop node."""
    g, p = build(case["g"]), case["p"]
    d = dataset(g)
    made = []

    def spy(self):
        made.append(tuple(self.weight.shape))
        fixed_linear(self)
    with mock.patch.object(torch.nn.Linear, "reset_parameters", spy):
        got = make("graphhop", p).fit(d, device=dev(case["dev"]), seed=case["seed"]).predict_proba(d).astype(np.float64)
        widths = [g["X"].shape[1] * (p["hops"] + 1)] + ([g["C"] * (m + 2) for m in range(p["hops"])] if p["max_iter"] else [])
        if made != [(g["C"], w) for w in widths]:
            ctx.label("unknown parameters")
            return
        want = settle(lambda j: graphhop_run(g, p, j), case["seed"])
        near = settle(lambda j: graphhop_run(g, p, j, 3e-6), case["seed"])
    if want is None or near is None or np.abs(want - near).max() > 3e-4:
        ctx.label("near zero")      # single precision does not determine the result
        return
    close(got, want, 3e-3, "graphhop (%s)", p)
    ctx.nontrivial(p["max_iter"] > 0 and p["hops"] > 1 and bool(hop_matrices(g, 2, p["symmetrize"])[1].any()))


# ----------------------------------------------------------- early stopping
STOPPING = ("appnp", "chebnet", "gat", "gcn", "gcnii", "grafn", "grand", "graphsage", "h_gcn", "n_gcn", "sgc")


@st.composite
def stop_case(draw):
    name = draw(st.sampled_from(STOPPING))
    p = draw(params(name)) if name != "sgc" else {"k": draw(st.sampled_from([2, 1])), "weight_decay": 0.0, "add_self_loops": draw(st.booleans())}
    p.update(max_epochs=draw(st.sampled_from([16, 10, 24, 6])), lr=draw(st.sampled_from([0.5, 0.2, 1.0, 0.1])), patience=draw(st.sampled_from([3, 2, 4, 1, 6, 50])))
    return {"m": name, "p": p, "g": draw(graph_case(max_n=12)), "seed": draw(st.integers(0, 50)), "nval": draw(st.sampled_from([2, 1, 4]))}


def follow(curve, patience):
    """(best epoch, epoch at which training stops, epochs no better than the best before, up to the best)"""
    best_t, bad, total, renewed = 0, 0, 0, 0
    for t in range(1, len(curve)):
        if curve[t] < curve[best_t]:
            best_t, bad, renewed = t, 0, total
        else:
            bad, total = bad + 1, total + 1
            if bad >= patience:
                return best_t, t, renewed
    return best_t, len(curve) - 1, renewed


@check("T10", stop_case(), quick=90, timeout=60, shards=3)
def early_stopping_keeps_the_best_epoch(case, ctx):
    """The states after 1, 2, ... epochs come from fits of that many epochs without a validation mask.  As
    validation labels do not influence the training, validation nodes and labels are then chosen so that the
    loss (for GraFN the accuracy) gets worse and recovers, where possible.  Patience counted from the last improvement
    and the best epoch before it ran out tell which state the fit with the validation mask must return,
    dropout and all.  Near ties are left out.  Non-trivial when the best epoch is not the last or the
    patience was renewed."""
    g, p, name = build(case["g"]), case["p"], case["m"]
    tr = g["masks"]["train_mask"]
    rest = np.flatnonzero(~tr)
    if not rest.size:
        return
    plain = dataset(g, masks={"train_mask": tr})
    states = []
    for t in range(1, p["max_epochs"] + 1):
        pr = make(name, {**p, "max_epochs": t}).fit(plain, seed=case["seed"]).predict_proba(plain).astype(np.float64)
        if not np.isfinite(pr).all():
            ctx.label("diverged")
            return
        states.append(pr)
    S = np.stack(states)
    r = np.random.default_rng([case["seed"], case["nval"]])
    choice = None
    for _ in range(200):
        va = np.sort(r.permutation(rest)[: min(case["nval"], rest.size)])
        lab = r.integers(0, g["C"], len(va))
        pv = S[:, va, lab]
        if pv.min() < 1e-6:
            continue
        if name == "grafn":
            two = np.sort(S[:, va], axis=2)
            if (two[:, :, -1] - two[:, :, -2] < 1e-6).any():
                continue
            curve = -(S[:, va].argmax(2) == lab).mean(1)
        else:
            curve = -np.log(pv).mean(1)
            if len(curve) > 1 and np.diff(np.sort(curve)).min() < 1e-6:
                continue
        for patience in [p["patience"]] + [2, 3, 4, 6]:
            best_t, stop, renewed = follow(curve, patience)
            if choice is None or (renewed >= patience and best_t > 0):
                choice = (va, lab, curve, patience)
            if renewed >= patience:
                break
        else:
            continue
        break
    if choice is None:
        ctx.label("tie")
        return
    va, lab, curve, patience = choice
    best_t, stop, renewed = follow(curve, patience)
    vm = np.zeros(g["n"], bool)
    vm[va] = True
    y = g["y"].copy()
    y[va] = lab
    full = dataset(g, y=y, masks={"train_mask": tr, "val_mask": vm})
    got = make(name, {**p, "patience": patience}).fit(full, seed=case["seed"]).predict_proba(full).astype(np.float64)
    close(got, states[best_t], 1e-5, "%s: the fit should return the state of epoch %d of %d (validation %s, patience %d)", name, best_t + 1, stop + 1,
          [round(float(c), 4) for c in curve], patience)
    ctx.label(name)
    if renewed >= patience:
        ctx.label("patience renewed")
    ctx.nontrivial(best_t < stop or renewed >= patience)


# --------------------------------------------------------------------------- T11
LEARN = {
    "planetoid": {"epochs": 8, "embedding_dim": 4, "num_walks": 3, "walk_length": 12, "window_size": 2, "lr": 0.1, "weight_decay": 1e-3,
                  "lambda_sup": 0.1, "batch_size": 128},
    "graphhop": {"max_iter": 10, "max_epochs": 100, "lr": 0.05}, "grafn": {"hidden_dims": (16, 16), "max_epochs": 60}, "tsvm": {},
    "label_spreading": {"alpha": 0.8}, "dynamic_label_propagation": {"max_iter": 4}}
LEARNERS = [m for m in PROP + GNN if m != "h_gcn"]  # H-GCN's output layer ends in a ReLU: an unlucky start never learns a class


def clusters(c):
    """C groups of nodes, each a ring with chords, neighbouring groups joined by single edges; features of a class lie around its own axis"""
    r = np.random.default_rng(c["seed"])
    C, size = c["C"], c["size"]
    sizes = [size + c["uneven"] * k for k in range(C)]
    y = np.repeat(np.arange(C), sizes)
    n = len(y)
    y = y[r.permutation(n)]
    E = []
    for k in range(C):
        idx = r.permutation(np.flatnonzero(y == k))
        for i in range(len(idx)):
            for s in (1, 2):
                E.append((int(idx[i]), int(idx[(i + s) % len(idx)]), float(r.uniform(0.7, 1.4))))
    for k in range(C - 1):
        E.append((int(r.choice(np.flatnonzero(y == k))), int(r.choice(np.flatnonzero(y == k + 1))), float(r.uniform(0.7, 1.4))))
    E = E + [(j, i, w) for i, j, w in E]
    E = [E[k] for k in r.permutation(len(E))]
    d = C + c["d"]
    X = 0.3 * r.standard_normal((n, d)) + 2 * np.eye(d)[:C][y]
    train, val = np.zeros(n, bool), np.zeros(n, bool)
    for k in range(C):
        idx = r.permutation(np.flatnonzero(y == k))
        train[idx[:4]] = True
        if c["val"]:
            val[idx[4:6]] = True
    masks = {"train_mask": train, "test_mask": ~(train | val)}
    if c["val"]:
        masks["val_mask"] = val
    return {"X": X.astype(np.float32), "y": y.astype(np.int64), "ei": np.array([e[:2] for e in E], dtype=np.int64).T.copy(),
            "ew": np.array([e[2] for e in E], dtype=np.float32) if c["weights"] else None, "masks": masks, "n": n, "C": C}


@st.composite
def learn_case(draw):
    m = draw(st.sampled_from(LEARNERS))
    return {"method": m, "C": 2 if m in BINARY else draw(st.sampled_from([3, 2])), "size": draw(st.integers(12, 16)), "uneven": draw(st.integers(0, 1)),
            "d": draw(st.integers(0, 2)), "val": draw(st.booleans()), "weights": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
            "fit": draw(st.integers(0, 10**6)), "backend": draw(st.sampled_from(["numpy", "torch"]))}


@check("T11", learn_case(), quick=260, shards=6, timeout=120)
def clustered_graphs_are_learned(case, ctx):
    """every run: unlabeled nodes of a graph whose classes are clusters are labeled well above chance"""
    g = clusters(case)
    name = case["method"]
    cls = get_method_class(name)
    mod = importlib.import_module(cls.__module__)
    spec = [v for v in vars(mod).values() if isinstance(v, type) and dataclasses.is_dataclass(v) and v.__module__ == cls.__module__ and v.__name__.endswith("Spec")][0]
    kw = dict(LEARN.get(name, {"max_epochs": 60, "lr": 0.05} if name in GNN else {}))
    names = {f.name for f in dataclasses.fields(spec)}
    if name in GNN and "hidden_dim" in names:
        kw["hidden_dim"] = 16
    if "backend" in names:
        kw["backend"] = case["backend"]
    if name == "poisson_learning":
        kw["laplacian_kind"] = "sym"
    te = g["masks"]["test_mask"]
    chance = float(np.bincount(g["y"][te]).max()) / te.sum()
    got = []
    for k in range(3):  # an unlucky start of the network is no defect
        m = cls(spec(**kw))
        d = dataset(g)
        m.fit(d, device=DeviceSpec(device="cpu"), seed=case["fit"] + k)
        p = m.predict_proba(d)
        p = np.asarray(p.detach() if hasattr(p, "detach") else p)
        got.append(float((p.argmax(1) == g["y"])[te].mean()))
        if got[-1] >= chance + 0.5 * (1 - chance):
            break
        ctx.label("retry:" + name)
    else:
        fail("%s(%s) labels only %s of the unlabeled nodes of a graph of %s clusters correctly over three seeds", name, kw, [round(v, 2) for v in got], case["C"])
    ctx.label(name)
    ctx.nontrivial()
