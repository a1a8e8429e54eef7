"""I07: directives as state machines driven by every bounded sequence of iterates."""
import gc
import itertools

import discretize
import numpy as np
from simpeg import data, data_misfit, directives, inverse_problem, inversion, maps, optimization, regularization, simulation, survey

from mc.zoo.common import mat, vec
from mc.zoo.regref import Grid, lp_weights

ID = "I07"
LEVEL = "model_checking"
RULE = (
    "A minimizer whose iterates are chosen by the explorer drives real inversions: all sequences of iterates from an alphabet of models whose misfits lie far above, just above, within tolerance "
    "of and below the targets, for every directive configuration. After each iteration beta, stop request, norms, IRLS thresholds and weights, sensitivity weights, data misfit multipliers, "
    "preconditioner and angle scales are compared with reference state machines computed from the dense problem."
)
BOUNDS = {"quick": "all sequences of 4 iterates over 4-5 models (5 for beta/target), 6 cells", "thorough": "all sequences of 5 iterates (6 for beta/target)"}
ASSUMPTIONS = ["each directive object is used for one inversion run"]
CHUNK = 1
CASE_TIMEOUT = 1500
HX = np.r_[1.0, 2.0, 1.5, 1.0, 0.5, 1.2]
N = 6


def prefork(tier):
    gc.collect()
    gc.freeze()


class Scripted(optimization.InexactGaussNewton):
    """steps to the next model of the script"""

    def __init__(self, script, **kw):
        super().__init__(maxIter=len(script) + kw.pop("slack", 0), **kw)
        self.script = script
        self.require_decrease = False
        self.maxIterLS = 1
        self.stoppers = [optimization.StoppingCriteria.iteration]

    def findSearchDirection(self):
        return self.script[min(self.iter, len(self.script) - 1)] - self.xc


class Problem:
    """d = G m with unit targets; models with chosen misfits"""

    def __init__(self, nds=(4,), n=N, mults=(1.0,), sd=0.1):
        self.G = [mat(nd, n, 3 + k) for k, nd in enumerate(nds)]
        self.mt = vec(n, 1, 0.2, 1.0)
        self.sd = sd
        self.mults = list(mults)
        self.d = [g @ self.mt for g in self.G]
        self.nds = nds
        self.n = n

    def misfits(self, m):
        return np.array([np.sum(((g @ m - d) / self.sd) ** 2) for g, d in zip(self.G, self.d)])

    def phi_d(self, m, mults=None):
        return float(np.dot(self.mults if mults is None else mults, self.misfits(m)))

    def at(self, chi, k):
        """model whose total (unit multiplier) misfit is chi*nD along a fixed direction"""
        v = vec(self.n, 40 + k, -1, 1)
        q = self.misfits(self.mt + v).sum()
        return self.mt + v * np.sqrt(chi * sum(self.nds) / q)

    def build(self):
        out = []
        for g, d in zip(self.G, self.d):
            sim = simulation.LinearSimulation(survey=survey.BaseSurvey([]), G=g.copy(), model_map=maps.IdentityMap(nP=self.n))
            dat = data.Data(sim.survey, dobs=d.copy(), standard_deviation=np.full(d.size, self.sd))
            out.append(data_misfit.L2DataMisfit(data=dat, simulation=sim))
        if len(out) == 1:
            return out[0]
        tot = self.mults[0] * out[0]
        for w, o in zip(self.mults[1:], out[1:]):
            tot = tot + w * o
        return tot


class Spy(directives.InversionDirective):
    def __init__(self, fn):
        super().__init__()
        self.fn, self.log = fn, []

    def initialize(self):
        self.log.append(self.fn(self))

    def endIter(self):
        self.log.append(self.fn(self))


def go(prob, reg, script, dl, fn, beta=1.0, m0=None, slack=0, opt=None):
    o = opt or Scripted(script, slack=slack)
    ip = inverse_problem.BaseInvProblem(prob.build(), reg, o, beta=beta, print_version=False)
    spy = Spy(fn)
    inv = inversion.BaseInversion(ip, directiveList=dl + [spy])
    inv.run(prob.mt * 0.0 if m0 is None else m0.copy())
    return inv, spy.log


CHI = [60.0, 1.6, 1.04, 0.3]


# ---------------------------------------------------------------------- beta cooling and targets
def beta_target(c, ctx):
    prob = Problem(c["nds"], mults=c["mults"])
    chis = CHI if sum(prob.mults) == len(prob.mults) else [60.0, 2.2, 0.9, 0.3]
    ms = [prob.at(x, k) for k, x in enumerate(chis)]
    mesh = discretize.TensorMesh([HX])
    for seq in itertools.product(range(len(ms)), repeat=c["len"]):
        reg = regularization.Smallness(mesh, reference_model=np.zeros(N))
        bs = directives.BetaSchedule(coolingFactor=c["fac"], coolingRate=c["rate"]) if c["fac"] else None
        tm = None
        nd = sum(c["nds"])
        if c["tgt"] == "chi":
            tm, target = directives.TargetMisfit(chifact=c["chi"]), c["chi"] * nd
        elif c["tgt"] == "target":
            tm, target = directives.TargetMisfit(target=c["chi"] * nd * 1.5), c["chi"] * nd * 1.5
        elif c["tgt"] == "star":
            tm, target = directives.TargetMisfit(phi_d_star=nd * 0.5, chifact=c["chi"]), c["chi"] * nd * 0.5
        elif c["tgt"] == "late":
            tm = directives.TargetMisfit(phi_d_star=nd * 3.0)
            tm.target
            tm.chifact = c["chi"]
            tm.phi_d_star = nd * 0.5
            target = c["chi"] * nd * 0.5
        dl = [x for x in ((bs, tm) if c["order"] else (tm, bs)) if x is not None]
        inv, log = go(prob, reg, [ms[i] for i in seq], dl, lambda d: (d.invProb.beta, d.invProb.phi_d), beta=8.0, slack=c["slack"])
        # reference
        want, b = [(8.0, 0)], 8.0
        for it, i in enumerate(list(seq) + [seq[-1]] * c["slack"], 1):
            if bs is not None and it % c["rate"] == 0 and it < c["len"] + c["slack"]:
                b = b / c["fac"]
            want.append((b, it))
            if tm is not None and prob.phi_d(ms[i]) < target:
                break
        tag = f"iterates {seq}"
        if ctx.check(len(log) == len(want), "stop", f"{tag}: {len(log) - 1} iterations, expected {len(want) - 1}"):
            for k, (g, w) in enumerate(zip(log, want)):
                ctx.close(g[0], w[0], "beta", rtol=1e-12, msg=f"{tag}: beta after iteration {k}")
        ctx.step(len(log))
        ctx.state([c["fac"], c["rate"], c["tgt"], c["chi"], seq])
        ctx.outcome([want])
        ctx.trace()
        if len(ctx.violations) > 5:
            return


# ---------------------------------------------------------------------- IRLS
class RefTerm:
    def __init__(self, g, kind, d, ref, insmooth):
        self.g, self.kind, self.d, self.ref, self.insmooth = g, kind, d, ref, insmooth
        self.norm, self.eps, self.irls, self.extra = 2.0, 1e-8, None, np.ones(g.n)

    def f(self, m):
        x = m - self.ref if self.kind == "small" or self.insmooth else m
        return x if self.kind == "small" else self.g.G(self.d) @ x

    def w(self):
        cell = self.g.vol * self.extra
        if self.kind == "small":
            w = cell
        else:
            A = self.g.avg(self.d)
            w = (A @ self.g.vol) * (A @ self.extra)
        return w if self.irls is None else w * self.irls

    def value(self, m):
        return float(np.sum(self.w() * self.f(m) ** 2))


class RefSparse:
    def __init__(self, g, ref, insmooth, norms, alphas, gtype="total", scaled=True):
        self.t = [RefTerm(g, "small", None, ref, insmooth)] + [RefTerm(g, "first", d, ref, insmooth) for d in range(g.dim)]
        self.in_norms, self.alphas, self.g = norms, alphas, g
        self.gtype, self.scaled = gtype, scaled

    def value(self, m):
        return sum(a * t.value(m) for a, t in zip(self.alphas, self.t))

    def update(self, m):
        for t in self.t:
            f = t.f(m)
            if t.kind != "small" and self.gtype == "total":
                # gradient of all directions, averaged to cells (half of each interior face) and back
                tot = sum(np.abs(0.5 * (self.g.avg(s.d).T > 0) @ s.f(m)) for s in self.t[1:])
                f = self.g.avg(t.d) @ tot
            t.irls = lp_weights(f, t.norm, t.eps, self.scaled)


def thr(t, m, pct, g):
    x = m - t.ref if t.kind == "small" or t.insmooth else m
    v = np.percentile(np.abs(x), pct)
    return v if t.kind == "small" else v / g.minlen


def irls(c, ctx):
    prob = Problem((4,))
    chis = [30.0, 1.5, 1.04, 0.4]
    ms = [prob.at(x, k) for k, x in enumerate(chis)]
    hs = [HX] if c["dim"] == 1 else [np.r_[1.0, 2.0, 0.5], np.r_[1.0, 1.5]]
    mesh = discretize.TensorMesh(hs)
    ref = vec(N, 17, -0.1, 0.1)
    g = Grid(hs)
    norms = c["norms"]
    alphas = [0.7] + [1.3, 0.4][: c["dim"]]
    nd = 4
    for seq in itertools.product(range(len(ms)), repeat=c["len"]):
        kw = dict(alpha_s=alphas[0], alpha_x=alphas[1], norms=list(norms), reference_model=ref.copy(), reference_model_in_smooth=bool(c["insmooth"]), gradient_type=c["gtype"], irls_scaled=bool(c["scaled"]), active_cells=np.ones(N, bool))
        if c["dim"] == 2:
            kw["alpha_y"] = alphas[2]
        sp_ = regularization.Sparse(mesh, **kw)
        reg = sp_
        if c["extra"]:
            wls = regularization.WeightedLeastSquares(mesh, alpha_s=0.2, reference_model=ref.copy())
            reg = sp_ + wls if c["extra"] == 1 else wls + sp_
        dv = directives.UpdateIRLS(
            cooling_rate=c["rate"], cooling_factor=c["cool"], chifact_start=c["start"], chifact_target=c["target"], irls_cooling_factor=c["icool"], f_min_change=c["fmin"],
            max_irls_iterations=c["maxirls"], misfit_tolerance=c["tol"], percentile=c["pct"], verbose=False,
        )
        dl = [dv] + ([directives.UpdatePreconditioner()] if c["pc"] else [])
        if c["sens"]:
            dl = [directives.UpdateSensitivityWeights(every_iteration=c["sens"] == 2)] + dl
        probe = vec(N, 23, -1, 1)

        def look(d):
            return dict(
                beta=d.invProb.beta, it=d.opt.iter if hasattr(d.opt, "iter") else 0, stop=bool(getattr(d.opt, "stopNextIteration", False)), norms=[float(np.unique(o.norm)[0]) for o in sp_.objfcts],
                eps=[float(o.irls_threshold) for o in sp_.objfcts], vals=[float(o(probe)) for o in sp_.objfcts], l2=getattr(d.invProb, "l2model", None), pc=None if not c["pc"] else d.opt.approxHinv.diagonal(),
            )

        inv, log = go(prob, reg, [ms[i] for i in seq], dl, look, beta=4.0, m0=ref)
        # ---- reference machine
        R = RefSparse(g, ref, bool(c["insmooth"]), norms, alphas, c["gtype"], bool(c["scaled"]))
        if c["sens"]:
            JtJ = sum(((G / prob.sd) ** 2).sum(axis=0) for G in prob.G)
            wr = np.sqrt(JtJ) / g.vol
            wr = np.clip(wr, 1e-12 * wr.max(), None)
            wr = wr / wr.max()
            for t in R.t:
                t.extra = wr
        beta, cool, started, count, fold, l2 = 4.0, c["cool"], None, 0, 0.0, None
        want = [dict(beta=beta, stop=False, norms=[2.0] * len(R.t), vals=[t.value(probe) for t in R.t], eps=None)]
        for it, i in enumerate(seq, 1):
            m = ms[i]
            pd = prob.phi_d(m)
            stop = False
            if started is not None:
                ratio = pd / (nd * c["target"])
                if abs(1 - ratio) > c["tol"]:
                    cool = 1 / np.mean([0.75, 1 / ratio]) if ratio > 1 else 1 / np.mean([2.0, 1 / ratio])
                else:
                    cool = 1.0
            if started is None and pd < c["start"] * nd:
                started = it
                for t, p in zip(R.t, norms):
                    t.eps = thr(t, m, c["pct"], g)
                    t.norm = p
                l2 = m.copy()
                cool = 1.0
            if started is not None and (it - started) % c["rate"] == 0:
                phim = R.value(m)
                fin = False
                if count == c["maxirls"]:
                    fin = True
                else:
                    ch = abs(fold - phim) / (fold + 1e-12)
                    if ch < c["fmin"] and count > 1 and abs(1 - pd / (nd * c["target"])) < c["tol"]:
                        fin = True
                    else:
                        fold = phim
                if fin:
                    stop = True
                else:
                    for t in R.t:
                        t.eps = t.eps / c["icool"]
                    count += 1
                    R.update(m)
            if not stop and it % c["rate"] == 0:
                beta = beta / cool
            want.append(dict(beta=beta, stop=stop, norms=[t.norm for t in R.t], eps=[t.eps for t in R.t] if started else None, vals=[t.value(probe) for t in R.t], l2=l2))
            if stop:
                break
        tag = f"iterates {seq}"
        if ctx.check(len(log) == len(want), "stop", f"{tag}: {len(log) - 1} iterations, expected {len(want) - 1}"):
            for k, (a, w) in enumerate(zip(log, want)):
                t = f"{tag}: after iteration {k}"
                ctx.close(a["beta"], w["beta"], "beta", rtol=1e-9, msg=t)
                if k:
                    ctx.check(a["stop"] == w["stop"], "stop", f"{t}: stop {a['stop']}")
                ctx.close(a["norms"], w["norms"], "norms", rtol=1e-12, msg=t)
                ctx.close(a["vals"], w["vals"], "weights", rtol=1e-7, msg=f"{t}: values of the terms at a probe model")
                if w.get("eps") is not None:
                    ctx.close(a["eps"], w["eps"], "threshold", rtol=1e-9, msg=t)
                if w.get("l2") is not None:
                    ctx.check(a["l2"] is not None and np.allclose(a["l2"], w["l2"], rtol=1e-12, atol=1e-12), "l2model", t)
        ctx.step(len(log))
        ctx.state([c["id"], seq])
        ctx.outcome([np.round([x["beta"] for x in want], 9), np.round(want[-1]["vals"], 7)])
        ctx.trace()
        if len(ctx.violations) > 8:
            return


# ---------------------------------------------------------------------- joint targets and scaling
def joint(c, ctx):
    prob = Problem((4, 3), mults=(1.0, 1.0))
    mesh = discretize.TensorMesh([HX])
    # models reaching: none, first only, second only, both targets
    z0 = np.linalg.pinv(prob.G[0]) @ prob.G[0]
    z1 = np.linalg.pinv(prob.G[1]) @ prob.G[1]
    v = vec(N, 61, -1, 1)
    P0, P1 = np.eye(N) - z0, np.eye(N) - z1
    ms = [prob.mt + 2.0 * v, prob.mt + 5.0 * P0 @ v + 0.002 * v, prob.mt + 3.0 * P1 @ v + 0.003 * v, prob.mt + 0.01 * v]
    want_cls = [(False, False), (True, False), (False, True), (True, True)]
    targets = np.array(c["chi"]) * np.array([4, 3])
    for q, w in zip(ms, want_cls):
        assert tuple(prob.misfits(q) < targets) == w, (prob.misfits(q), targets)
    for seq in itertools.product(range(4), repeat=c["len"]):
        reg = regularization.WeightedLeastSquares(mesh, reference_model=np.zeros(N))
        mt = directives.MultiTargetMisfits(chifact=np.array(c["chi"]) if c["chi"][0] != c["chi"][1] else float(c["chi"][0]), TriggerSmall=bool(c["small"]), verbose=bool(c["verb"]))
        dl = [mt]
        if c["scale"]:
            dl = [mt, directives.JointScalingSchedule(warmingFactor=c["warm"], update_rate=c["rate"], chimax=c["chimax"])]
        if c["eig"]:
            dl = [directives.ScalingMultipleDataMisfits_ByEig(chi0_ratio=np.array(c["eig"]), random_seed=4, n_pw_iter=c.get("npw", 4))] + dl
        inv, log = go(prob, reg, [ms[i] for i in seq], dl, lambda d: (np.array(d.invProb.dmisfit.multipliers, float), bool(getattr(d.opt, "stopNextIteration", False)), d.invProb.phi_d))
        mult = log[0][0].copy()
        if c["eig"]:
            ctx.close(mult.sum(), 1.0, "scaling", rtol=1e-12, msg="initial multipliers sum to one")
            ctx.check(np.all(mult > 0), "scaling", "initial multipliers positive")
        else:
            ctx.close(mult, [1.0, 1.0], "scaling", msg="initial multipliers")
        want = []
        for it, i in enumerate(seq, 1):
            mis = prob.misfits(ms[i])
            met = mis < targets
            pd = float(mult @ mis)
            if c["scale"] and it % c["rate"] == 0 and met.any() and not met.all() and np.all(mult < c["chimax"]) and np.all(mult > 1e-10):
                fac = c["warm"] * np.median(targets[met] / mis[met])
                mult = mult.copy()
                mult[~met] *= fac
                mult = mult / mult.sum()
            want.append((mult, bool(met.all()), pd))
            if met.all():
                break
        tag = f"iterates {seq}"
        if ctx.check(len(log) == len(want) + 1, "stop", f"{tag}: {len(log) - 1} iterations, expected {len(want)}"):
            for k, (a, w) in enumerate(zip(log[1:], want), 1):
                ctx.close(a[0], w[0], "scaling", rtol=1e-9, msg=f"{tag}: multipliers after iteration {k}")
                ctx.check(a[1] == w[1], "stop", f"{tag}: stop after iteration {k}")
                ctx.close(a[2], w[2], "phi_d", rtol=1e-9, msg=f"{tag}: misfit with the current multipliers")
        ctx.step(len(log))
        ctx.state([c["id"], seq])
        ctx.outcome([np.round(want[-1][0], 9), len(want)])
        ctx.trace()
        if len(ctx.violations) > 8:
            return


# ---------------------------------------------------------------------- sensitivity weights, preconditioner
def sens(c, ctx):
    nds = (4, 3) if c["two"] else (4,)
    prob = Problem(nds, mults=(1.0,) * len(nds))
    # nonlinear: exponential map so that sensitivities move with the model
    hs = [HX] if c["dim"] == 1 else [np.r_[1.0, 2.0, 0.5], np.r_[1.0, 1.5]]
    mesh = discretize.TensorMesh(hs)
    vol = mesh.cell_volumes
    ms = [vec(N, 70 + k, -0.5, 0.5) for k in range(3)]
    m0 = vec(N, 69, -0.5, 0.5)

    def jtj(m):
        return sum((((G * np.exp(m)) / prob.sd) ** 2).sum(axis=0) for G in prob.G)

    def refw(m):
        w = np.sqrt(jtj(m)) / vol
        if c["meth"] == "global":
            w = w + c["val"]
        elif c["meth"] == "percentile":
            w = np.maximum(w, np.percentile(w, c["val"]))
        else:
            w = np.maximum(w, c["val"] * w.max())
        if c["nrm"] == "maximum":
            w = w / w.max()
        elif c["nrm"] == "minimum":
            w = w / w.min()
        return w

    def build():
        out = None
        for g, d in zip(prob.G, prob.d):
            sim = simulation.LinearSimulation(survey=survey.BaseSurvey([]), G=g.copy(), model_map=maps.ExpMap(nP=N))
            dat = data.Data(sim.survey, dobs=d.copy(), standard_deviation=np.full(d.size, prob.sd))
            q = data_misfit.L2DataMisfit(data=dat, simulation=sim)
            out = q if out is None else out + q
        return out

    prob.build = build
    for seq in itertools.product(range(3), repeat=c["len"]):
        sub = []
        for r in c["regs"]:
            if r == "wls":
                sub.append(regularization.WeightedLeastSquares(mesh, reference_model=m0.copy()))
            elif r == "sparse":
                sub.append(regularization.Sparse(mesh, reference_model=m0.copy()))
            elif r == "small":
                sub.append(regularization.Smallness(mesh, reference_model=m0.copy()))
        reg = sub[0]
        for r in sub[1:]:
            reg = reg + r
        parts = []
        for r in sub:
            parts += list(getattr(r, "objfcts", [r]))
        dl = []
        if c["use"]:
            dl.append(directives.UpdateSensitivityWeights(every_iteration=bool(c["every"]), threshold_value=c["val"], threshold_method=c["meth"], normalization_method=c["nrm"]))
        if c["pc"]:
            dl.append(directives.UpdatePreconditioner(update_every_iteration=c["pc"] == 2))
        inv, log = go(
            prob, reg, [ms[i] for i in seq], dl,
            lambda d: ([None if not c["use"] else np.array(p.get_weights("sensitivity")) for p in parts], None if not c["pc"] else d.opt.approxHinv.diagonal(), [p(ms[0] + 0.3) for p in parts], [np.array(p.deriv2(d.invProb.model).diagonal()) for p in parts], d.invProb.beta),
            m0=m0, beta=0.7,
        )
        base = [q(ms[0] + 0.3) for r in ([regularization.WeightedLeastSquares(mesh, reference_model=m0.copy()) if k == "wls" else regularization.Sparse(mesh, reference_model=m0.copy()) if k == "sparse" else regularization.Smallness(mesh, reference_model=m0.copy()) for k in c["regs"]]) for q in getattr(r, "objfcts", [r])]
        cur, curpc = None, None
        for k, a in enumerate(log):
            m = m0 if k == 0 else ms[seq[k - 1]]
            t = f"iterates {seq}: after iteration {k}"
            if c["use"]:
                if k == 0 or c["every"]:
                    cur = refw(m)
                nc = len(parts)
                for p, w in zip(parts, a[0]):
                    ctx.close(w, cur, "sensitivity", rtol=1e-9, msg=t)
                # exactly one factor: the smallness value is the volume and sensitivity weighted norm
                for p, v in zip(parts, a[2]):
                    if type(p).__name__ in ("Smallness", "SparseSmallness"):
                        x = ms[0] + 0.3 - m0
                        ctx.close(v, np.sum(vol * cur * x * x), "sensitivity-value", rtol=1e-9, msg=t)
            else:
                ctx.close(a[2], base, "untouched", rtol=1e-12, msg=t)
            if c["pc"]:
                if k == 0 or c["pc"] == 2:
                    dg = jtj(m) + 0.7 * sum(w * (q if True else 0) for w, q in zip(regmult(sub), a[3]))
                    curpc = 1 / dg
                ctx.close(a[1], curpc, "preconditioner", rtol=1e-8, msg=t)
        ctx.step(len(log))
        ctx.state([c["id"], seq])
        ctx.outcome([None if cur is None else np.round(cur, 9), None if curpc is None else np.round(curpc, 9)])
        ctx.trace()
        if len(ctx.violations) > 8:
            return


def regmult(sub):
    out = []
    for r in sub:
        if hasattr(r, "objfcts"):
            out += list(r.multipliers)
        else:
            out.append(1.0)
    return out


# ---------------------------------------------------------------------- estimators at start
def estimate(c, ctx):
    nds = (4, 3) if c["two"] else (4,)
    prob = Problem(nds, mults=(1.0, 2.0)[: len(nds)])
    mesh = discretize.TensorMesh([HX])
    m0 = vec(N, 69, 0.1, 0.5)
    A = sum(w * 2 * (G / prob.sd).T @ (G / prob.sd) for w, G in zip(prob.mults, prob.G))
    vals = []
    for rep in range(2):
        mk = regularization.WeightedLeastSquares if c["reg"] == "wls" else regularization.Sparse
        reg = mk(mesh, alpha_s=0.7, alpha_x=1.4, reference_model=np.zeros(N))
        if c["reg"] == "pair":
            reg = mk(mesh, alpha_s=0.7, alpha_x=1.4, reference_model=np.zeros(N)) + mk(mesh, alpha_s=0.2, alpha_x=0.4, reference_model=np.zeros(N))
        if c["what"] == "eig":
            d = directives.BetaEstimate_ByEig(beta0_ratio=c["ratio"], n_pw_iter=c["npw"], random_seed=c["seed"])
        elif c["what"] == "max":
            d = directives.BetaEstimateMaxDerivative(beta0_ratio=c["ratio"], random_seed=c["seed"])
        elif c["what"] == "alpha":
            d = directives.AlphasSmoothEstimate_ByEig(alpha0_ratio=np.r_[c["ratio"]] if c["reg"] != "pair" else np.r_[c["ratio"], 2 * c["ratio"]], n_pw_iter=c["npw"], random_seed=c["seed"])
        inv, log = go(prob, reg, [m0], [d], lambda q: (q.invProb.beta, [r.alpha_x for r in q.invProb.reg.objfcts] if hasattr(q.invProb.reg.objfcts[0], "alpha_x") else q.invProb.reg.alpha_x), m0=m0, beta=3.3)
        b, al = log[0]
        vals.append((b, np.ravel(al)))
        if rep == 0:
            ctx.check(log[-1][0] == b, "kept", "the estimate changes beta after the start")
            R = sum(np.asarray(w * o.deriv2(m0).todense()) for w, o in ((w, o) for r in (getattr(reg, "objfcts", [reg]) if c["reg"] == "pair" else [reg]) for w, o in zip(r.multipliers, r.objfcts)))
            la, lr = np.linalg.eigvalsh(A), np.linalg.eigvalsh(R)
            if c["what"] == "eig":
                # Rayleigh quotients: between the extreme eigenvalues, the largest after many power iterations
                got = b / c["ratio"]
                ctx.check(got <= la[-1] / max(lr[0], 1e-300) * (1 + 1e-9) and got >= 0, "beta-eig", f"{got}")
                if c["npw"] >= 60:
                    ctx.close(got, la[-1] / lr[-1], "beta-eig", rtol=1e-3, msg="ratio of the largest eigenvalues")
            elif c["what"] == "max":
                rng = np.random.default_rng(c["seed"])
                x0 = rng.random(size=m0.shape)
                gd = sum(w * 2 * G.T @ ((G @ m0 - dd) / prob.sd**2) for w, G, dd in zip(prob.mults, prob.G, prob.d))
                gm = R @ (m0 + x0 / x0.max() * m0.max())
                ctx.close(b, c["ratio"] * np.abs(gd).max() / np.abs(gm).max(), "beta-max", rtol=1e-9)
            else:
                ctx.check(b == 3.3, "alpha", "beta changed")
                if c["npw"] >= 60:
                    # scaled so that smallness and smoothness have comparable largest eigenvalues
                    g = Grid([HX])
                    ls = np.linalg.eigvalsh(2 * np.diag(g.vol))[-1]
                    D = g.G(0)
                    lx = np.linalg.eigvalsh(2 * D.T @ np.diag(g.avg(0) @ g.vol) @ D)[-1]
                    base = [1.4] if c["reg"] != "pair" else [1.4, 0.4]
                    ctx.close(np.ravel(al), [q * r * ls / lx for q, r in zip(base, [c["ratio"], 2 * c["ratio"]])], "alpha", rtol=2e-2)
    ctx.close(vals[0][0], vals[1][0], "seed", rtol=0, msg="beta with the same seed")
    ctx.close(vals[0][1], vals[1][1], "seed", rtol=0, msg="alphas with the same seed")
    ctx.step(2)
    ctx.state([c])
    ctx.outcome([np.round(vals[0][0], 6), np.round(vals[0][1], 6)])


# ---------------------------------------------------------------------- spherical models
def sphere(c, ctx):
    nC = 2
    mesh = discretize.TensorMesh([np.r_[1.0, 2.0]])
    prob = Problem((4,), n=3 * nC)
    wires = maps.Wires(("amp", nC), ("theta", nC), ("phi", nC))
    angs = [-4.0, -1.0, 0.5, 2.0, 7.0]
    ms = []
    for a in itertools.product([0.3, -0.2], repeat=1):
        for t, p in itertools.product(angs, repeat=2):
            ms.append(np.r_[abs(a[0]), 0.7, t, 0.3, p, -0.4])
    for i, m in enumerate(ms):
        ra = regularization.Sparse(mesh, mapping=wires.amp, reference_model=np.zeros(3 * nC))
        rt = regularization.Sparse(mesh, mapping=wires.theta, reference_model=np.zeros(3 * nC))
        rp = regularization.Sparse(mesh, mapping=wires.phi, reference_model=np.zeros(3 * nC))
        rt.units = rp.units = "radian"
        reg = ra + rt + rp
        dl = []
        if c["proj"]:
            dl.append(directives.ProjectSphericalBounds())
        if c["units"]:
            dl.append(directives.SphericalUnitsWeights(wires.amp, [rt, rp], verbose=False))
        inv, log = go(prob, reg, [m, ms[(i + 7) % len(ms)]], dl, lambda d: (np.array(d.invProb.model), [np.array(o.get_weights("angle_scale")) if c["units"] else None for r in (rt, rp) for o in r.objfcts], None if not hasattr(d.opt, "xc") else np.array(d.opt.xc)), m0=m)
        for k, a in enumerate(log):
            src = m if k < 2 else ms[(i + 7) % len(ms)]
            t = f"iterate {src} step {k}"
            if c["proj"]:
                got = a[0].reshape(nC, 3, order="F")
                s = src.reshape(nC, 3, order="F")

                def cart(q):
                    return np.c_[q[:, 0] * np.cos(q[:, 1]) * np.cos(q[:, 2]), q[:, 0] * np.cos(q[:, 1]) * np.sin(q[:, 2]), q[:, 0] * np.sin(q[:, 1])]

                ctx.close(cart(got), cart(s), "spherical", rtol=1e-6, scale=1.0, msg=f"{t}: same vectors")
                ctx.check(np.all(got[:, 0] >= 0) and np.all(np.abs(got[:, 1]) <= np.pi / 2 + 1e-9) and np.all(np.abs(got[:, 2]) <= np.pi + 1e-9), "spherical", f"{t}: out of range {got}")
                if k:
                    ctx.close(a[2], a[0], "spherical", rtol=0, msg=f"{t}: optimizer and problem hold the same model")
            else:
                ctx.close(a[0], src, "model", rtol=0, scale=0, atol=1e-12, msg=t)
            if c["units"]:
                amp = np.abs(a[0][:nC]).max()
                for w in a[1]:
                    ctx.close(w, np.full(nC, a[0][:nC].max() / np.pi), "angle-scale", rtol=1e-10, msg=t)
        ctx.step(len(log))
        ctx.state([c["proj"], c["units"], i])
        ctx.outcome([np.round(log[-1][0], 7)])
        ctx.trace()
        if len(ctx.violations) > 8:
            return


# ---------------------------------------------------------------------- order rules of directive lists
def order(c, ctx):
    mk = {
        "sens": lambda: directives.UpdateSensitivityWeights(),
        "irls": lambda: directives.UpdateIRLS(verbose=False),
        "beta": lambda: directives.BetaEstimate_ByEig(random_seed=1),
        "betam": lambda: directives.BetaEstimateMaxDerivative(random_seed=1),
        "sched": lambda: directives.BetaSchedule(),
        "pc": lambda: directives.UpdatePreconditioner(),
        "tgt": lambda: directives.TargetMisfit(),
    }
    names = list(mk)
    mesh = discretize.TensorMesh([HX])
    for n in range(1, c["len"] + 1):
        for seq in itertools.product(names, repeat=n):
            if seq[0] != c["first"]:
                continue
            pos = {k: [i for i, s in enumerate(seq) if s == k] for k in names}
            bad = False
            est = sorted(pos["beta"] + pos["betam"])
            if len(est) > 1:
                bad = True
            for i in pos["sens"]:
                if (est and est[0] < i) or (pos["pc"] and pos["pc"][0] < i):
                    bad = True
            for i in pos["irls"]:
                if pos["pc"] and pos["pc"][0] < i:
                    bad = True
                if pos["sched"]:
                    bad = True
            prob = Problem((4,))
            reg = regularization.Sparse(mesh, reference_model=np.zeros(N))
            ip = inverse_problem.BaseInvProblem(prob.build(), reg, Scripted([prob.mt]), print_version=False)
            try:
                inversion.BaseInversion(ip, directiveList=[mk[s]() for s in seq])
                got = False
            except AssertionError:
                got = True
            ctx.check(got == bad, "order", f"{seq}: {'refused' if got else 'accepted'}")
            ctx.step()
            ctx.state(seq)
            ctx.outcome(bad)


def cases(tier, seed):
    th = tier == "thorough"
    L = 6 if th else 5
    for nds, mults in (((4,), (1.0,)), ((4, 3), (1.0, 1.0)), ((4, 3), (2.0, 0.5))):
        for fac, rate in ((0, 1), (2.0, 1), (8.0, 2), (0.5, 3)):
            for tgt in ("none", "chi", "target", "star", "late"):
                if not fac and tgt == "none":
                    continue
                for chi in (1.0, 2.0):
                    if tgt == "none" and chi == 2.0:
                        continue
                    for order_ in (0, 1) if fac and tgt == "chi" else (0,):
                        if len(nds) == 2 and not th and (rate == 3 or tgt in ("late", "none")):
                            continue
                        yield dict(mode="beta", nds=list(nds), mults=list(mults), fac=fac, rate=rate, tgt=tgt, chi=chi, order=order_, len=(L if tgt == "none" or len(nds) == 1 and tgt == "chi" else 4), slack=int(rate == 2))
    base = dict(mode="irls", dim=1, norms=[0.0, 1.0], rate=1, cool=2.0, start=1.0, target=1.0, icool=1.2, fmin=1e-2, maxirls=20, tol=0.1, pct=100.0, insmooth=0, gtype="components", scaled=1, extra=0, pc=0, sens=0, len=5 if th else 4)
    var = [
        {}, dict(rate=2), dict(rate=3), dict(maxirls=0), dict(maxirls=1), dict(maxirls=2), dict(fmin=1e3), dict(fmin=1e3, tol=0.5), dict(fmin=0.3, tol=0.7, maxirls=3), dict(start=2.0),
        dict(start=40.0), dict(target=0.5), dict(start=2.0, target=1.5, tol=0.01), dict(pct=50.0), dict(pct=0.0), dict(insmooth=1), dict(gtype="total"), dict(dim=2, norms=[0.0, 1.0, 2.0]),
        dict(dim=2, norms=[1.0, 0.5, 1.5], gtype="total"), dict(scaled=0), dict(extra=1), dict(extra=2), dict(pc=1), dict(sens=1), dict(sens=2, rate=2), dict(norms=[2.0, 2.0]), dict(norms=[1.0, 0.0], icool=2.0, cool=3.0),
        dict(dim=2, norms=[2.0, 0.0, 0.0], insmooth=1, pct=75.0, start=40.0),
    ]
    for k, v in enumerate(var):
        yield dict(base, **v, id=k)
    k = 0
    for chi in ([1.0, 1.0], [2.0, 0.5]):
        for eig in (0, [1.0, 1.0], [1.0, 3.0]):
            for scale in (0, 1):
                for warm, rate, cm in ((1.0, 1, 1e10), (2.0, 2, 1e10), (1.0, 1, 0.7)):
                    if not scale and (warm, rate, cm) != (1.0, 1, 1e10):
                        continue
                    k += 1
                    yield dict(mode="joint", id=k, chi=chi, eig=eig, scale=scale, warm=warm, rate=rate, chimax=cm, small=k % 2, verb=int(k % 5 == 0), len=5 if th else 4)
    k = 0
    for meth, val in (("amplitude", 1e-12), ("amplitude", 0.6), ("global", 0.0), ("global", 3.0), ("percentile", 0.0), ("percentile", 40.0)):
        for nrm in ("maximum", "minimum", None):
            for every in (0, 1):
                for two in (0, 1):
                    for regs in (["wls"], ["wls", "sparse"], ["small"]):
                        if len(regs) == 2 and (nrm is None or meth == "global"):
                            continue
                        k += 1
                        yield dict(mode="sens", id=k, use=1, meth=meth, val=val, nrm=nrm, every=every, two=two, dim=1 + k % 2, regs=regs, pc=k % 3, len=3 if th else 2)
    for pc in (1, 2):
        for regs in (["wls"], ["sparse"], ["small"], ["wls", "small"]):
            for two in (0, 1):
                k += 1
                yield dict(mode="sens", id=k, use=0, meth="global", val=0.0, nrm=None, every=0, two=two, dim=1 + two, regs=regs, pc=pc, len=4 if th else 3)
    for what in ("eig", "max", "alpha"):
        for two in (0, 1):
            for reg in ("wls", "sparse", "pair"):
                for ratio in (1.0, 10.0):
                    for sd in (0, 7):
                        for npw in (1, 4, 80) if what != "max" else (4,):
                            yield dict(mode="est", what=what, two=two, reg=reg, ratio=ratio, seed=sd, npw=npw)
    for proj, units in ((0, 1), (1, 0), (1, 1)):
        yield dict(mode="sphere", proj=proj, units=units)
    for f in ("sens", "irls", "beta", "betam", "sched", "pc", "tgt"):
        yield dict(mode="order", first=f, len=5 if th else 4)


def run(c, ctx):
    dict(beta=beta_target, irls=irls, joint=joint, sens=sens, est=estimate, sphere=sphere, order=order)[c["mode"]](c, ctx)
