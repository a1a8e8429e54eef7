"""I05: optimizers under all answers of the objective function."""
import itertools

import numpy as np
import scipy.sparse as sp
from simpeg import optimization as opt

from mc.zoo.common import vec

ID = "I05"
LEVEL = "model_checking"
RULE = (
    "The objective function is the environment: at every evaluation it may answer any value of a small alphabet (large decrease, insufficient decrease, equal, increase, nan; several "
    "gradients, Hessians; changed objective at the start of an iteration; stop requested by the callback) and ALL answer sequences up to the bound are explored by replay on the real "
    "minimizers. Evaluated points, accepted points, callbacks, iteration counts, stopping and the returned point are compared with a reference line-search loop. Search directions are "
    "compared with dense solves / reference CG for every active set; quadratic problems from a finite set are minimised (feasible and never uphill with bounds); NewtonRoot against all "
    "residual answers."
)
BOUNDS = {"quick": "2 iterations x 2-3 line-search trials, 2 unknowns; QPs in 2 unknowns", "thorough": "3 iterations x 3 trials; QPs in 3 unknowns"}
ASSUMPTIONS = ["symmetric positive definite Hessians"]
CHUNK = 1
CASE_TIMEOUT = 1500

HS = [np.array([[2.0, 0.0], [0.0, 1.0]]), np.array([[3.0, 1.0], [1.0, 2.0]])]
GS = [np.r_[2.0, -1.0], np.r_[-3.0, 0.5], np.r_[0.02, 0.01]]
X0 = np.r_[0.2, -0.1]


class Script:
    """depth-first enumeration of choice sequences by replay"""

    def __init__(self):
        self.path, self.sizes, self.k = [], [], 0

    def choose(self, n):
        if self.k == len(self.path):
            self.path.append(0)
            self.sizes.append(n)
        c = self.path[self.k]
        self.k += 1
        return c

    def next(self):
        self.path, self.sizes = self.path[: self.k], self.sizes[: self.k]
        while self.path:
            self.path[-1] += 1
            if self.path[-1] < self.sizes[-1]:
                self.k = 0
                return True
            self.path.pop()
            self.sizes.pop()
        return False


CLS = {
    "SD": opt.SteepestDescent, "GN": opt.GaussNewton, "IGN": opt.InexactGaussNewton, "BFGS": opt.BFGS, "PG": opt.ProjectedGradient, "PGNCG": opt.ProjectedGNCG,
}
BND = {
    "none": (-np.inf, np.inf),
    "box": (np.r_[-0.5, -0.4], np.r_[0.6, 0.8]),
    "low": (-0.3, None),
    "tight": (np.r_[0.2, -0.1], np.r_[0.9, 0.1]),  # x0 on the lower bounds
}


def make(c):
    kw = dict(maxIter=c["it"], maxIterLS=c["ls"], tolF=c.get("tol", 1e-1), tolX=c.get("tol", 1e-1), tolG=c.get("tol", 1e-1))
    if c["cls"] in ("IGN", "PGNCG"):
        kw.update(cg_rtol=1e-12, cg_atol=0.0, cg_maxiter=20)
    if c["cls"] in ("PG", "PGNCG"):
        lo, hi = BND[c["bnd"]]
        kw.update(lower=lo, upper=hi)
    o = CLS[c["cls"]](**kw)
    if c.get("opt") == "nodec":
        o.require_decrease = False
    if c.get("opt") == "maxstep":
        o.maxStep = 0.25
    if c.get("opt") == "short":
        o.LSshorten, o.LSreduction = 0.25, 0.3
    if c.get("opt") == "wolfe":
        o = CLS[c["cls"]](use_WolfeCurvature=True, **kw)
    return o


class Env:
    def __init__(self, c, sc, log):
        self.c, self.sc, self.log = c, sc, log
        self.fstart = None
        self.f0 = 20.0
        self.lastf = None
        self.lastx = None
        self.n = 0

    def __call__(self, x, return_g=True, return_H=True):
        x = np.array(x)
        if return_g and return_H:
            f = self.f0 if self.lastf is None else self.lastf
            if self.n and self.c.get("shift") and self.sc.choose(2):
                f = f + 5.0
            g = GS[self.sc.choose(3 if self.c.get("gs", 3) == 3 else 2)]
            H = HS[self.sc.choose(2)] if self.c.get("hs") else HS[1]
            self.n += 1
            self.fstart, self.lastf = f, f
            self.log.append(("start", x, f, g.copy(), H))
            return f, g.copy(), sp.csr_matrix(H)
        if self.fstart is None:
            self.log.append(("init", x, self.f0))
            return (self.f0, GS[0].copy()) if return_g else self.f0
        a = self.sc.choose(4)
        f = [self.fstart - 10.0, self.fstart - 1e-12, self.fstart + 3.0, np.nan][a]
        if a != 3:
            self.lastf = f
        gt = None
        if return_g:
            gt = GS[0] if self.sc.choose(2) == 0 else -GS[0]
        self.log.append(("trial", x, f, gt))
        return (f, gt.copy()) if return_g else f


def proj(c, x):
    if c["cls"] in ("PG", "PGNCG"):
        lo, hi = BND[c["bnd"]]
        if lo is not None:
            x = np.maximum(x, lo)
        if hi is not None:
            x = np.minimum(x, hi)
    return x


def sets(c, x, g):
    n = x.size
    lo, hi = BND[c["bnd"]] if c["cls"] in ("PG", "PGNCG") else (None, None)
    lo = np.full(n, -np.inf) if lo is None else np.broadcast_to(lo, (n,))
    hi = np.full(n, np.inf) if hi is None else np.broadcast_to(hi, (n,))
    act = (x <= lo) | (x >= hi)
    bind = ((x <= lo) & (g >= 0)) | ((x >= hi) & (g <= 0))
    return act, bind


def judge(ctx, c, o, log, cb, ret, tag):
    """replay of the recorded environment answers through the reference loop"""
    bad = lambda key, msg: ctx.violation(key, f"{tag}: {msg}")
    i = 0
    eq = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-12)
    xc = proj(c, X0.copy())
    red, sh = o.LSreduction, o.LSshorten
    it, ncb, xl, fl, f0 = 0, 0, xc, np.nan, None
    for e in log:
        lo, hi = BND[c["bnd"]] if c["cls"] in ("PG", "PGNCG") else (None, None)
        if (lo is not None and np.any(e[1] < lo - 1e-14)) or (hi is not None and np.any(e[1] > hi + 1e-14)):
            return bad("bounds", f"evaluated outside the bounds at {e[1]}")
    log = [e for e in log if e[0] != "init"]
    while True:
        ctx.evaluations += 1
        if i >= len(log) or log[i][0] != "start":
            return bad("protocol", f"no evaluation of gradient and Hessian at event {i} of {len(log)}")
        _, x, f, g, H = log[i]
        i += 1
        if not eq(x, xc):
            return bad("iterate", f"iteration {it} starts at {x}, accepted point was {xc}")
        if it == 0:
            f0 = f
            opt_ok = False
        else:
            opt_ok = abs(f - fl) <= c.get("tol", 0.1) * (1 + abs(f0)) and np.linalg.norm(xc - xl) <= c.get("tol", 0.1) * (1 + np.linalg.norm(proj(c, X0)))
        pg = np.linalg.norm(proj(c, xc - g) - xc)
        stop = (opt_ok and pg <= c.get("tol", 0.1)) or pg <= 1e3 * o.eps or it >= c["it"]
        act, bind = sets(c, xc, g)
        if c["cls"] == "PG" and bind.all():
            stop = True
        if stop:
            if i != len(log):
                return bad("stop", f"went on after the stopping criteria held at iteration {it}")
            if not eq(ret, xc):
                return bad("return", f"returned {ret}, last accepted {xc}")
            break
        # trials
        p = None
        if c["cls"] in ("SD",) or (c["cls"] == "PG" and it == 0) or (c["cls"] == "BFGS" and it == 0):
            p = -g
        elif c["cls"] in ("GN", "IGN"):
            p = -np.linalg.solve(H, g)
        elif c["cls"] == "PGNCG" and it <= 1:
            p = pgncg_dir(o, xc, g, H, act, bind)
        if p is not None and c.get("opt") == "maxstep" and np.abs(p).max() > 0.25:
            p = p * 0.25 / np.abs(p).max()
        t, ok, xt = 1.0, False, None
        for k in range(c["ls"]):
            if i >= len(log) or log[i][0] != "trial":
                return bad("linesearch", f"iteration {it}: expected trial {k}, none evaluated")
            _, xt, ft, gt = log[i]
            i += 1
            if p is not None:
                want = proj(c, xc + t * p)
                if not np.allclose(xt, want, rtol=1e-7, atol=1e-9):
                    return bad("trial-point", f"iteration {it} trial {k}: {xt}, expected {want}")
            else:
                if k == 0:
                    if c.get("opt") == "maxstep" and np.abs(xt - xc).max() > 0.25 + 1e-9:
                        return bad("maxstep", f"step {xt - xc}")
                    first = xt - xc
                    if np.inner(first, g) >= 0 and pg > 1e-9 and c["cls"] in ("BFGS",):
                        return bad("descent", f"direction {first} is not a descent direction for {g}")
                elif c["cls"] == "BFGS" and not np.allclose(xt - xc, t * first, rtol=1e-7, atol=1e-9):
                    return bad("trial-point", f"iteration {it} trial {k}")
            desc = np.inner(g, xt - xc)
            ok = bool(ft <= f + red * desc)
            if c.get("opt") == "wolfe":
                ok = ok and bool(-np.inner(gt, xt - xc) <= -o.LScurvature * desc)
            if ok:
                break
            t *= sh
        if not ok and c.get("opt") != "nodec":
            if i != len(log):
                return bad("ls-failed", f"evaluations after the line search failed in iteration {it}")
            if not eq(ret, xc):
                return bad("return", f"returned {ret} after a failed line search, last accepted {xc}")
            break
        if ncb >= len(cb) or not eq(cb[ncb][0], xt):
            return bad("callback", f"iteration {it}: no callback with the accepted point {xt}")
        if cb[ncb][1] != it + 1:
            return bad("iter", f"iteration counter {cb[ncb][1]} in the callback of iteration {it + 1}")
        xl, xc, fl = xc, xt, f
        it += 1
        ncb += 1
        if cb[ncb - 1][2]:  # stop was requested
            if i != len(log) or not eq(ret, xc):
                return bad("stop-request", f"stop requested at iteration {it} but {len(log) - i} more evaluations")
            break
    if ncb != len(cb):
        return bad("callback", f"{len(cb)} callbacks, expected {ncb}")
    if o.iter != it:
        return bad("iter", f"iteration counter {o.iter}, expected {it}")
    if not eq(np.asarray(o.xc), xc):
        return bad("xc", "xc is not the accepted point")
    return None


def pgncg_dir(o, x, g, H, act, bind):
    """first direction of the projected Gauss-Newton method (identity preconditioner)"""
    I = ~act
    p = np.zeros(x.size)
    if I.any():
        p[I] = -np.linalg.solve(H[np.ix_(I, I)], g[I])
    an = act & ~bind
    if o.step_active_set and an.any():
        ra = np.where(an, -g, 0.0)
        p = p + o.active_set_grad_scale * ra * np.abs(p).max() / np.abs(ra).max()
    p[bind] = 0
    return p


def one(c, o, sc):
    log, cb = [], []
    env = Env(c, sc, log)

    def callback(xt):
        stop = bool(c.get("cbstop") and sc.choose(2))
        if stop:
            o.stopNextIteration = True
        cb.append((np.array(xt), int(o.iter), stop))

    o._callback = callback
    x0 = X0.copy()
    ret = np.array(o.minimize(env, x0))
    return log, cb, ret, np.array_equal(x0, X0)


def same(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        for u, v in zip(p, q):
            if isinstance(u, np.ndarray):
                if not np.array_equal(u, v):
                    return False
            elif isinstance(u, float):
                if not (u == v or (np.isnan(u) and np.isnan(v))):
                    return False
            elif u is not None and u != v:
                return False
    return True


def loop(c, ctx):
    sc = Script()
    n = 0
    while True:
        o = make(c)
        log, cb, ret, kept = one(c, o, sc)
        path = list(sc.path[: sc.k])
        judge(ctx, c, o, log, cb, ret, f"answers {path}")
        ctx.check(kept, "mutated", "the starting model was modified")
        n += 1
        ctx.step(len(log))
        ctx.state([c["cls"], c.get("bnd"), c.get("opt"), path])
        ctx.outcome([len(log), len(cb), np.round(ret, 9)])
        if c.get("again") and n % c["again"] == 0:
            # the same object used again behaves like a new one
            sc2 = Script()
            sc2.path, sc2.sizes = list(path), [9] * len(path)
            log2, cb2, ret2, _ = one(c, o, sc2)
            ctx.check(same(log, log2) and same(cb, cb2) and np.array_equal(ret, ret2), "reuse", f"second run differs, answers {path}")
        if len(ctx.violations) > 5 or not sc.next():
            break
    ctx.trace(n)


def spds(n):
    if n == 2:
        return HS + [np.array([[1.0, -0.9], [-0.9, 1.0]]), np.array([[0.1, 0.0], [0.0, 5.0]])]
    A = [np.diag([1.0, 2.0, 3.0]), np.array([[3.0, 1, 0], [1, 2, -0.5], [0, -0.5, 1.0]]), np.array([[2.0, 0.9, 0.9], [0.9, 2.0, 0.9], [0.9, 0.9, 2.0]])]
    return A


def refcg(H, b, Minv, k):
    x = np.zeros_like(b)
    r = b.copy()
    z = Minv @ r
    p = z.copy()
    for _ in range(k):
        if np.linalg.norm(r) < 1e-13:
            break
        q = H @ p
        a = (r @ z) / (p @ q)
        x = x + a * p
        rn = r - a * q
        zn = Minv @ rn
        p = zn + (rn @ zn) / (r @ z) * p
        r, z = rn, zn
    return x


def direction(c, ctx):
    """search directions for every active set pattern"""
    n = c["n"]
    vals = [-2.0, -0.3, 0.5, 1.5]
    for H in spds(n):
        for gi in itertools.product(vals, repeat=n):
            g = np.array(gi)
            for pat in itertools.product((0, -1, 1), repeat=n):
                if c["cls"] != "PGNCG" and any(pat):
                    continue
                lo, hi = np.full(n, -1.0), np.full(n, 1.0)
                x = np.array([0.0 if q == 0 else float(q) for q in pat])
                act, bind = np.array(pat) != 0, np.array([(q == -1 and gg >= 0) or (q == 1 and gg <= 0) for q, gg in zip(pat, g)])
                for k in ([None, 1] if n == 2 else [None, 1, 2]):
                    for pc in ("id", "jac", "full"):
                        if pc == "full" and (act.any() or c["cls"] == "PGNCG"):
                            continue
                        M = {"id": np.eye(n), "jac": np.diag(1 / np.diag(H)), "full": np.linalg.inv(H + 0.5 * np.eye(n))}[pc]
                        for sas in ((True, False) if c["cls"] == "PGNCG" and pc == "id" else (True,)):
                            kw = dict(cg_rtol=1e-13, cg_atol=0.0, cg_maxiter=k or 25)
                            if c["cls"] == "PGNCG":
                                kw.update(lower=lo, upper=hi, step_active_set=sas)
                            o = CLS[c["cls"]](**kw)
                            o.xc, o.g, o.H = x, g.copy(), sp.csr_matrix(H)
                            o.startup(x)
                            o.approxHinv = sp.csr_matrix(M)
                            o.xc, o.g, o.H = x, g.copy(), sp.csr_matrix(H)
                            p = np.asarray(o.findSearchDirection())
                            I = ~act
                            want = np.zeros(n)
                            if I.any():
                                want[I] = refcg(H[np.ix_(I, I)], -g[I], M[np.ix_(I, I)], k or 25)
                            an = act & ~bind
                            if c["cls"] == "PGNCG" and sas and an.any():
                                ra = np.where(an, -g, 0.0)
                                want = want + o.active_set_grad_scale * ra * np.abs(want).max() / np.abs(ra).max()
                            want[bind] = 0
                            ctx.close(p, want, "direction", rtol=1e-7, scale=1e-6, msg=f"{c['cls']} g={gi} pattern={pat} k={k} pc={pc} step={sas}")
                            ctx.step()
                            ctx.outcome([np.round(want, 8)])
                            if len(ctx.violations) > 10:
                                return
    ctx.state([c["cls"], n])


def kkt(H, b, lo, hi):
    """exact solution of a small box QP by enumeration of active sets"""
    n = b.size
    for pat in itertools.product((0, -1, 1), repeat=n):
        x = np.array([lo[i] if q == -1 else (hi[i] if q == 1 else 0.0) for i, q in enumerate(pat)])
        if not np.all(np.isfinite(x)):
            continue
        I = [i for i, q in enumerate(pat) if q == 0]
        A = [i for i, q in enumerate(pat) if q != 0]
        if I:
            x[I] = np.linalg.solve(H[np.ix_(I, I)], -(b[I] + H[np.ix_(I, A)] @ x[A]))
        g = H @ x + b
        if np.all(x >= lo - 1e-12) and np.all(x <= hi + 1e-12) and all((q == 0) or (q == -1 and g[i] >= -1e-12) or (q == 1 and g[i] <= 1e-12) for i, q in enumerate(pat)):
            return x
    raise RuntimeError


def qp(c, ctx):
    n = c["n"]
    los = [(-np.inf, np.inf), (-0.2, np.inf), (-np.inf, 0.3), (-0.2, 0.3), (0.1, 0.4)]
    if c["cls"] not in ("PG", "PGNCG"):
        los = los[:1]
    for hi_, H in enumerate(spds(n)):
        for b in itertools.product([-1.0, 0.4], repeat=n):
            b = np.array(b)
            for bb in itertools.product(los, repeat=n):
                lo, hi = np.array([q[0] for q in bb]), np.array([q[1] for q in bb])
                want = kkt(H, b, lo, hi)
                for x0 in (np.zeros(n), np.full(n, -2.0), np.arange(n) * 1.0):
                    kw = dict(maxIter=400 if np.all(np.isinf(lo)) and np.all(np.isinf(hi)) else 40, maxIterLS=30, tolF=1e-16, tolX=1e-16, tolG=1e-9)
                    if c["cls"] in ("IGN", "PGNCG"):
                        kw.update(cg_rtol=1e-10, cg_atol=0.0, cg_maxiter=20)
                    if c["cls"] in ("PG", "PGNCG"):
                        kw.update(lower=lo, upper=hi)
                    o = CLS[c["cls"]](**kw)
                    o.eps = 1e-10

                    def fun(x, return_g=True, return_H=True):
                        out = (0.5 * x @ H @ x + b @ x,)
                        if return_g:
                            out += (H @ x + b,)
                        if return_H:
                            out += (sp.csr_matrix(H),)
                        return out if len(out) > 1 else out[0]

                    x = o.minimize(fun, x0.copy())
                    p0 = np.clip(x0, lo, hi)
                    ctx.check(0.5 * x @ H @ x + b @ x <= 0.5 * p0 @ H @ p0 + b @ p0 + 1e-12, "uphill", f"H{hi_} b={b} bounds={bb} x0={x0}")
                    if np.all(np.isinf(lo)) and np.all(np.isinf(hi)):
                        ctx.check(np.allclose(x, want, atol=1e-5), "minimum", f"H{hi_} b={b} bounds={bb} x0={x0}: {x} want {want} after {o.iter}")
                    ctx.check(np.all(x >= lo) and np.all(x <= hi), "bounds", f"{x} {bb}")
                    ctx.step(max(1, o.iter))
                    ctx.outcome([np.round(want, 6)])
                    if len(ctx.violations) > 10:
                        return
    ctx.state([c["cls"], n])


def newton(c, ctx):
    sc = Script()
    n = 0
    while True:
        log = []
        state = dict(r=8.0)

        def fun(x, return_g=True):
            if return_g:
                log.append(("r", float(x[0]), state["r"]))
                return np.r_[state["r"]], sp.csr_matrix([[2.0]])
            k = sc.choose(4 if c["doLS"] else 3)
            rt = [state["r"] * 0.5, 1e-8, -state["r"], state["r"] * 3.0][k]
            state["next"] = rt
            log.append(("t", float(x[0]), rt))
            # an accepted trial becomes the next residual
            if not c["doLS"] or abs(rt) <= abs(state["r"]) or abs(rt) < 1e-6:
                state["r"] = rt
            return np.r_[rt]

        o = opt.NewtonRoot(maxIter=c["it"], maxLS=c["ls"], doLS=c["doLS"], stepDcr=c["dcr"], tol=1e-6)
        ret = o.root(fun, np.r_[1.0])
        # reference
        x, i, it, out, key = 1.0, 0, 0, "?", None
        r = 8.0
        while key is None:
            if i >= len(log) or log[i][0] != "r" or abs(log[i][1] - x) > 1e-12:
                key = f"linearised at {log[i] if i < len(log) else None}, expected {x}"
                break
            i += 1
            dh, mu, cnt = -r / 2.0, 1.0, 1
            while True:
                if i >= len(log) or log[i][0] != "t" or abs(log[i][1] - (x + mu * dh)) > 1e-12:
                    key = f"trial {log[i] if i < len(log) else None}, expected {x + mu * dh}"
                    break
                rt = log[i][2]
                i += 1
                if not c["doLS"] or abs(rt) <= abs(r) or abs(rt) < 1e-6:
                    break
                mu *= c["dcr"]
                cnt += 1
                if cnt > c["ls"]:
                    out = None
                    break
            if key or out is None:
                break
            x = x + mu * dh
            r = rt
            it += 1
            if abs(rt) < 1e-6 or it > c["it"]:
                out = x
                break
        if key is None and i != len(log):
            key = "evaluations after the end"
        if key is None and not ((ret is None and out is None) or (ret is not None and out is not None and abs(ret[0] - out) < 1e-12)):
            key = f"returned {ret}, expected {out}"
        ctx.check(key is None, "newton", f"answers {sc.path[: sc.k]}: {key}")
        n += 1
        ctx.step(len(log))
        ctx.state([c["it"], c["ls"], c["doLS"], c["dcr"], list(sc.path[: sc.k])])
        ctx.outcome([out, len(log)])
        if len(ctx.violations) > 5 or not sc.next():
            break
    ctx.trace(n)


def cases(tier, seed):
    th = tier == "thorough"
    for cls in CLS:
        bnds = list(BND) if cls in ("PG", "PGNCG") else ["none"]
        for b in bnds:
            base = dict(mode="loop", cls=cls, bnd=b, it=2, ls=2, again=3)
            yield dict(base, ls=3, gs=2)
            yield dict(base, shift=1, cbstop=1, gs=2)
            yield dict(base, tol=50.0, ls=1)
            for o in ("nodec", "maxstep", "short", "wolfe"):
                yield dict(base, opt=o, gs=2, again=10)
            yield dict(base, it=3, ls=1, hs=1, again=10)
            yield dict(base, it=0)
            if th:
                yield dict(base, it=3, ls=2)
                yield dict(base, it=2, ls=3, hs=1, shift=1)
                yield dict(base, it=4, ls=1, cbstop=1)
    for cls in ("IGN", "PGNCG"):
        for n in (2, 3):
            if n == 3 and cls == "PGNCG" and not th:
                continue
            yield dict(mode="dir", cls=cls, n=n)
    for cls in CLS:
        for n in (2, 3) if th else (2,):
            yield dict(mode="qp", cls=cls, n=n)
    for doLS in (True, False):
        for it in (0, 1, 2):
            for ls in (1, 2, 3):
                for dcr in (0.5, 0.3):
                    yield dict(mode="newton", it=it, ls=ls, doLS=doLS, dcr=dcr)


def run(c, ctx):
    {"loop": loop, "dir": direction, "qp": qp, "newton": newton}[c["mode"]](c, ctx)
