"""S01: a simulation answers every question as a freshly built one would, whatever was asked before.

Operation alphabet (k indexes a model of the problem's finite model set):
  D k  dpred(m_k)                      F k  dpred(m_k, f=fields(m_k))
  J k  Jvec(m_k, v)                    T k  Jtvec(m_k, u)
  j k  Jvec(m_k, v, f=fields(m_k))     t k  Jtvec(m_k, u, f=fields(m_k))
  G k  getJtJdiag(m_k)                 W k  getJtJdiag(m_k, W=W1)
  S k  getJ(m_k)                       M k  simulation.model = m_k (no observation)
  B k  dpred of a caller-owned buffer overwritten in place with m_k
  X    an evaluation that fails (a model of the wrong length), which must leave no trace
The oracle of every operation is its result on an object built for that single call.
"""

from itertools import product

import numpy as np
import scipy.sparse as sp

from mc import zoo
from mc.zoo import lists
from mc.zoo.common import vec

ID = "S01"
LEVEL = "model_checking"
RULE = "a state is one (configuration, last operations) window reached on a live simulation; an outcome is one distinct operation result"
BOUNDS = {
    "quick": "every configuration of the core zoo; every ordered pair (first operation on one model, second on another) from a fresh object and every pair (de Bruijn order 2) on a long-lived object; 3 models (two distinct, one differing by 1e-6 relative); on every configuration of the complete zoo lists one model-switching history of 11 operations",
    "thorough": "additionally every ordered triple of operations (de Bruijn order 3) on a long-lived object",
}
ASSUMPTIONS = ["deterministic solvers: two identical fresh builds give results equal to 1e-10"]
CASE_TIMEOUT = 800


def cases(tier, seed):
    out = []
    for c in lists.core():
        out.append(dict(c, mode="pairs", tier=tier))
        out.append(dict(c, mode="db2", tier=tier))
        if tier == "thorough":
            out.append(dict(c, mode="db3", tier=tier))
    for c in lists.full(tier):
        if c.get("store") == "forward_only" and c.get("engine") == "geoana":
            continue
        out.append(dict(c, mode="switch", tier=tier))
    return out


def de_bruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


class Live:
    def __init__(self, cfg):
        self.p = zoo.build(cfg)
        self.sim = self.p.sim
        m0, m1 = self.p.models[0], self.p.models[1]
        self.models = [m0, m1, m0 * (1 + 1e-6)]
        self.v = vec(m0.size, 901, 0.2, 1.0)
        self.buf = np.zeros_like(m0)
        self.nD = None


def apply(L, op, aux):
    s = L.sim
    k = op[0]
    m = L.models[op[1]].copy() if len(op) > 1 else None
    if k == "D":
        return np.array(s.dpred(m))
    if k == "F":
        return np.array(s.dpred(m, f=s.fields(m)))
    if k == "B":
        L.buf[:] = m
        return np.array(s.dpred(L.buf))
    if k == "J":
        return np.array(s.Jvec(m, L.v))
    if k == "T":
        return np.array(s.Jtvec(m, aux["u"]))
    if k == "j":
        return np.array(s.Jvec(m, L.v, f=s.fields(m)))
    if k == "t":
        return np.array(s.Jtvec(m, aux["u"], f=s.fields(m)))
    if k == "G":
        return np.array(s.getJtJdiag(m))
    if k == "W":
        return np.array(s.getJtJdiag(m, W=aux["W"]))
    if k == "S":
        J = s.getJ(m)
        if isinstance(J, np.ndarray):
            return np.array(J)
        return np.array(J @ L.v)
    if k == "M":
        s.model = m
        return None
    if k == "X":
        try:
            s.dpred(np.ones(m0 := L.models[0].size + 3))
        except Exception:
            pass
        return None
    raise ValueError(op)


def alphabet(cfg):
    """Operations this configuration supports, with the fresh-object result of each."""
    L = Live(cfg)
    d = np.asarray(L.sim.dpred(L.models[0]))
    nD = d.size
    w = vec(nD, 915, 0.5, 2.0) / np.maximum(np.abs(d), 1e-9 * np.abs(d).max())
    aux = dict(u=vec(nD, 911, 0.3, 1) / np.maximum(np.abs(d), 1e-3 * np.abs(d).max()), W=sp.diags(w))
    ops, ref = [], {}
    cand = [(k, i) for k in "DJT" for i in (0, 1, 2)] + [(k, i) for k in "FBjtGWSM" for i in (0, 1)] + [("X",)]
    for op in cand:
        if op[0] in "GW" and (not hasattr(L.sim, "getJtJdiag") or cfg["phys"] == "sip"):
            continue
        if op[0] == "S" and (not hasattr(L.sim, "getJ") or cfg["phys"] in ("sip", "tomo", "fdem1d", "tdem1d") or
                             (cfg["phys"], cfg.get("form")) == ("nsem1d", "1dr")):
            continue
        F = Live(cfg)
        try:
            r = apply(F, op, aux)
        except NotImplementedError:
            continue
        ops.append(op)
        ref[op] = r
    return ops, ref, aux


def compare(ctx, got, want, op, hist):
    if want is None:
        return
    tol = 1e-8 if op[0] in "GWS" else 1e-9
    ok = got.shape == want.shape
    err = np.inf
    if ok and want.size:
        if want.ndim == 1:
            scale = np.abs(want) + 1e-6 * np.abs(want).max()
        else:
            scale = np.abs(want).max(axis=1, keepdims=True) + 1e-12 * np.abs(want).max()
        scale = np.where(scale == 0, 1, scale)
        err = np.max(np.abs(got - want) / scale)
        ok = err <= tol
    if not ok:
        prev = [o[0] for o in hist[-2:]]
    ctx.check(ok, f"stale:{op[0]}", f"{'.'.join(map(str, op))} after {['.'.join(map(str, o)) for o in hist[-4:]]}: relative error {err:.2e}",
              history=["".join(map(str, o)) for o in hist[-6:]] if not ok else None)


def switch(cfg, ctx):
    """every configuration of the complete lists: everything for one model, then everything for another, then back"""
    fresh = [Live(cfg), Live(cfg)]
    ref = {}
    try:
        d = np.asarray(fresh[0].sim.dpred(fresh[0].models[0]))
    except Exception:  # the fresh object fails too: no history to compare (judged by S02)
        return
    aux = dict(u=vec(d.size, 911, 0.3, 1) / np.maximum(np.abs(d), 1e-3 * np.abs(d).max()))
    for k in (0, 1):
        for o in "DJT":
            try:
                ref[o, k] = apply(fresh[k], (o, k), aux)
            except Exception:  # judged by S02/S03: here only the dependence on history counts
                ref[o, k] = "raises"
    L = Live(cfg)
    hist = []
    for o, k in [("D", 0), ("J", 0), ("T", 0), ("D", 1), ("J", 1), ("T", 1), ("T", 0), ("J", 0), ("D", 0), ("J", 1), ("D", 1)]:
        try:
            got = apply(L, (o, k), aux)
        except Exception:
            got = "raises"
        ctx.step()
        hist.append((o, k))
        ctx.state([cfg] + hist[-2:])
        if isinstance(got, str) or isinstance(ref[o, k], str):
            ctx.check(isinstance(got, str) == isinstance(ref[o, k], str), f"stale:{o}", f"raises after {hist}")
        else:
            compare(ctx, got, ref[o, k], (o, k), hist[:-1])
    ctx.outcome([float("%.9g" % x) for x in np.ravel(d)[:50]])
    ctx.trace()


def run(case, ctx):
    cfg = {k: v for k, v in case.items() if k not in ("mode", "tier")}
    if case["mode"] == "switch":
        return switch(cfg, ctx)
    ops, ref, aux = alphabet(cfg)
    for op in ops:
        if ref[op] is not None:
            ctx.outcome([op, [float("%.9g" % x) for x in np.ravel(ref[op])[:50]]])
    if case["mode"] == "pairs":
        for a in ops:
            for b in ops:
                if ref[b] is None:
                    continue
                if case["tier"] == "quick" and not (a[1:] in ((0,), ()) and b[1:] == (1,)):
                    continue
                L = Live(cfg)
                apply(L, a, aux)
                got = apply(L, b, aux)
                ctx.step(2)
                ctx.state([cfg, a, b])
                compare(ctx, got, ref[b], b, [a])
                ctx.trace()
        return
    n = 2 if case["mode"] == "db2" else 3
    use = ops if case["tier"] == "thorough" and n == 2 else [o for o in ops if len(o) < 2 or o[1] != 2 or o[0] == "D"]
    L = Live(cfg)
    hist = []
    for i in de_bruijn(len(use), n):
        op = use[i]
        got = apply(L, op, aux)
        ctx.step()
        compare(ctx, got, ref[op], op, hist)
        hist.append(op)
        ctx.state([cfg] + hist[-n:])
        if len(ctx.violations) > 20:
            return
