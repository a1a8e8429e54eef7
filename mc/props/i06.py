"""I06: the inversion loop - objective, bookkeeping and directive protocol."""
import gc
import itertools

import discretize
import numpy as np
import scipy.sparse as sp
from simpeg import data, data_misfit, directives, inverse_problem, inversion, maps, optimization, regularization, simulation, survey
from simpeg.objective_function import L2ObjectiveFunction

from mc.zoo.common import mat, vec

ID = "I06"
LEVEL = "model_checking"
RULE = (
    "(a) every sequence up to the bound of BaseInvProblem.evalFunction calls (model alphabet x requested outputs, same or equal model objects), beta changes and foreign uses of the simulation: "
    "value, gradient, Hessian products, phi_d, phi_m, dpred and model against a dense reference. (b) every inversion of the product optimizer x misfit combination x regularization x bounds x "
    "starting model x directive list: recorded protocol (initialize, endIter per accepted iterate in list order, finish), objective bookkeeping at each iterate, monotone objective, returned "
    "model, reference-model default, stationarity of the Gauss-Newton solution of linear problems, repeatability on the same objects, neutrality of observing directives."
)
BOUNDS = {"quick": "evalFunction histories of 3 operations; inversions of at most 4 iterations, 5 unknowns", "thorough": "histories of 4 operations; 8 iterations"}
ASSUMPTIONS = ["the line search succeeds (state after a broken line search is not claimed)", "model arrays are not modified in place by the caller"]
CHUNK = 20
CASE_TIMEOUT = 800
N = 5
MESH = discretize.TensorMesh([[1.0, 2.0, 1.5, 1.0, 0.5]])


def prefork(tier):
    gc.collect()
    gc.freeze()


class Mis:
    """dense twin of one data misfit"""

    def __init__(self, k, nd, form, mult=1.0):
        self.G, self.form, self.mult = mat(nd, N, k), form, mult
        self.d = vec(nd, 20 + k, 0.5, 2.0)
        self.sd = vec(nd, 30 + k, 0.1, 0.3)
        self.nd = nd

    def pred(self, m):
        return self.G @ (np.exp(m) if self.form == "exp" else m)

    def J(self, m):
        return self.G @ np.diag(np.exp(m)) if self.form == "exp" else self.G

    def build(self):
        sv = survey.BaseSurvey([])
        sim = simulation.LinearSimulation(survey=sv, G=self.G.copy(), model_map=maps.ExpMap(nP=N) if self.form == "exp" else maps.IdentityMap(nP=N))
        dat = data.Data(sim.survey, dobs=self.d.copy(), standard_deviation=self.sd.copy())
        return data_misfit.L2DataMisfit(data=dat, simulation=sim)

    def val(self, m):
        r = (self.pred(m) - self.d) / self.sd
        return self.mult * (r @ r)

    def grad(self, m):
        return 2 * self.mult * self.J(m).T @ ((self.pred(m) - self.d) / self.sd**2)

    def hess(self, m):
        J = self.J(m) / self.sd[:, None]
        return 2 * self.mult * J.T @ J


class Plain:
    """a misfit term without simulation"""

    def __init__(self):
        self.W = mat(3, N, 9)
        self.mult = 1.0

    def build(self):
        return L2ObjectiveFunction(nP=N, W=sp.csr_matrix(self.W))

    def val(self, m):
        return float(np.sum((self.W @ m) ** 2))

    def grad(self, m):
        return 2 * self.W.T @ (self.W @ m)

    def hess(self, m):
        return 2 * self.W.T @ self.W


MIS = {
    "lin": lambda: [Mis(0, 4, "lin")],
    "exp": lambda: [Mis(1, 4, "exp")],
    "two": lambda: [Mis(0, 4, "lin"), Mis(1, 3, "exp")],
    "wtd": lambda: [Mis(0, 4, "lin", 2.0), Mis(2, 3, "lin", 0.5)],
    "zero": lambda: [Mis(0, 4, "lin", 0.0), Mis(2, 3, "lin", 1.5)],
    "plain": lambda: [Plain(), Mis(0, 4, "lin")],
    "plain2": lambda: [Mis(0, 4, "lin"), Plain(), Mis(1, 3, "exp")],
}


def build_mis(ms):
    if len(ms) == 1:
        return ms[0].build()
    out = None
    for q in ms:
        b = q.build()
        b = b if q.mult == 1.0 else q.mult * b
        out = b if out is None else out + b
    return out


# regularizations: builder and dense matrix around the reference
def reg_small(ref):
    return regularization.Smallness(MESH, reference_model=ref), [np.diag(MESH.cell_volumes)], [1.0]


def Dx():
    h = MESH.h[0]
    D = np.zeros((N - 1, N))
    for i in range(N - 1):
        d = 0.5 * (h[i] + h[i + 1])
        D[i, i], D[i, i + 1] = -1 / d, 1 / d
    A = 0.5 * (h[:-1] + h[1:])
    return D.T @ np.diag(A) @ D


def mkreg(name, ref):
    """regularization object, dense Hessian/2 for smallness-type and smooth parts: list of (matrix, uses reference)"""
    V = np.diag(MESH.cell_volumes)
    if name == "small":
        return regularization.Smallness(MESH, reference_model=ref), [(V, 1)]
    if name == "wls":
        return regularization.WeightedLeastSquares(MESH, alpha_s=0.3, alpha_x=1.0, reference_model=ref), [(0.3 * V, 1), (1.0 * Dx(), 0)]
    if name == "wlsref":
        return (
            regularization.WeightedLeastSquares(MESH, alpha_s=0.3, alpha_x=2.0, reference_model=ref, reference_model_in_smooth=True),
            [(0.3 * V, 1), (2.0 * Dx(), 1)],
        )
    if name == "sum":
        a = regularization.Smallness(MESH, reference_model=ref)
        b = regularization.SmoothnessFirstOrder(MESH, orientation="x")
        return 0.5 * a + 2.0 * b, [(0.5 * V, 1), (2.0 * Dx(), 0)]
    raise KeyError(name)


class RegRef:
    def __init__(self, parts, ref):
        self.parts, self.ref = parts, ref

    def x(self, m, u):
        return m - self.ref if u else m

    def val(self, m):
        return sum(self.x(m, u) @ M @ self.x(m, u) for M, u in self.parts)

    def grad(self, m):
        return sum(2 * M @ self.x(m, u) for M, u in self.parts)

    def hess(self, m):
        return sum(2 * M for M, u in self.parts)


OPT = {
    "SD": lambda **k: optimization.SteepestDescent(**k),
    "BFGS": lambda **k: optimization.BFGS(**k),
    "GN": lambda **k: optimization.InexactGaussNewton(cg_rtol=1e-12, cg_atol=0.0, cg_maxiter=60, **k),
    "GN2": lambda **k: optimization.InexactGaussNewton(cg_rtol=1e-2, cg_atol=0.0, cg_maxiter=3, **k),
    "PG": lambda **k: optimization.ProjectedGradient(**k),
    "PGNCG": lambda **k: optimization.ProjectedGNCG(cg_rtol=1e-12, cg_atol=0.0, cg_maxiter=60, **k),
}


class Probe(directives.InversionDirective):
    def __init__(self, log, name):
        super().__init__()
        self.log, self.name = log, name

    def snap(self, what):
        ip, o = self.inversion.invProb, self.inversion.opt
        self.log.append(
            dict(
                what=what, name=self.name, model=np.array(ip.model), beta=float(ip.beta), it=int(getattr(o, "iter", -1)),
                xc=None if getattr(o, "xc", None) is None or what == "initialize" else np.array(o.xc),
                phi_d=ip.phi_d, phi_m=ip.phi_m, f=getattr(o, "f", None), dpred=None if getattr(ip, "dpred", None) is None else np.array(ip.dpred),
            )
        )

    def initialize(self):
        self.snap("initialize")

    def endIter(self):
        self.snap("endIter")

    def finish(self):
        self.snap("finish")


class Halve(directives.InversionDirective):
    """changes beta in the middle of the list"""

    def endIter(self):
        self.invProb.beta = self.invProb.beta * 0.5


class StopAt(directives.InversionDirective):
    def __init__(self, k):
        super().__init__()
        self.k = k

    def endIter(self):
        if self.opt.iter >= self.k:
            self.opt.stopNextIteration = True


def dlist(name, log):
    a, z = Probe(log, "A"), Probe(log, "Z")
    mid = {
        "none": [],
        "halve": [Halve()],
        "sched": [directives.BetaSchedule(coolingFactor=2.0, coolingRate=1)],
        "stop": [StopAt(2)],
        "observe": [directives.SaveOutputDictEveryIteration(on_disk=False), directives.SaveOutputEveryIteration(on_disk=False)],
        "precond": [directives.UpdatePreconditioner()],
        "halve-precond": [Halve(), directives.UpdatePreconditioner()],
        "probes": [Probe(log, "B"), Probe(log, "C")],
    }[name]
    return [a] + mid + [z], ["A"] + (["B", "C"] if name == "probes" else []) + ["Z"]


STARTS = {"zero": np.zeros(N), "gen": vec(N, 3, -0.3, 0.4), "out": np.r_[-1.0, 0.9, 0.0, 0.2, -0.4]}


def quad(c, ctx):
    ms = MIS[c["mis"]]()
    log = []
    m0 = STARTS[c["m0"]].copy()
    bounded = c["opt"] in ("PG", "PGNCG")
    kw = dict(maxIter=c["it"], maxIterLS=25)
    lo, hi = -np.inf, np.inf
    if bounded and c["bnd"]:
        lo, hi = -0.6, 0.7
        kw.update(lower=lo, upper=hi)
    ref = {"none": None, "vec": vec(N, 8, -0.2, 0.2)}[c["ref"]]
    wantref = m0 if ref is None else ref
    reg, parts = mkreg(c["reg"], None if ref is None else ref.copy())
    rr = RegRef(parts, wantref)
    o = OPT[c["opt"]](**kw)
    if c["tight"]:
        o.tolF = o.tolX = o.tolG = 1e-14
        o.eps = 1e-13
    ip = inverse_problem.BaseInvProblem(build_mis(ms), reg, o, beta=c["beta"])
    dl, names = dlist(c["dl"], log)
    inv = inversion.BaseInversion(ip, directiveList=dl)
    arg = m0.copy()
    out = np.array(inv.run(arg))
    ctx.check(np.array_equal(arg, m0), "mutated", "the starting model was modified")
    broken = judge(ctx, c, ms, rr, log, names, out, m0, lo, hi, o, ip, inv)
    ctx.step(len(log))
    ctx.outcome([np.round(out, 8), len(log)])
    ctx.state([c["mis"], c["opt"], c["reg"], c["m0"], c["dl"], c["beta"], c["bnd"], c["ref"], c["tight"]])
    if c["dl"] in ("none", "observe", "probes", "precond") and not broken:
        # the same objects once more
        log2, n1 = list(log), len(log)
        log.clear()
        ip.beta = c["beta"]
        out2 = np.array(inv.run(m0.copy()))
        ctx.close(out2, out, "repeat", rtol=1e-9, scale=1.0, msg="second run of the same inversion")
        ctx.check(len(log) == n1, "repeat", "second run made a different number of calls")
    if c["dl"] == "observe" and not broken:
        # observing directives leave the trajectory alone
        logb = []
        regb, _ = mkreg(c["reg"], None if ref is None else ref.copy())
        ob = OPT[c["opt"]](**kw)
        if c["tight"]:
            ob.tolF = ob.tolX = ob.tolG = 1e-14
            ob.eps = 1e-13
        ipb = inverse_problem.BaseInvProblem(build_mis(MIS[c["mis"]]()), regb, ob, beta=c["beta"])
        outb = np.array(inversion.BaseInversion(ipb, directiveList=[]).run(m0.copy()))
        ctx.close(out, outb, "observer", rtol=1e-10, scale=1.0, msg="inversion with observing directives against none")


def judge(ctx, c, ms, rr, log, names, out, m0, lo, hi, o, ip, inv):
    tot = lambda m, b: sum(q.val(m) for q in ms) + b * rr.val(m)
    pd = lambda m: sum(q.val(m) for q in ms)
    dp = lambda m: np.hstack([q.pred(m) for q in ms if hasattr(q, "pred")])
    k = len(names)
    seq = [(e["what"], e["name"]) for e in log]
    if not ctx.check(len(log) >= 2 * k and len(log) % k == 0, "protocol", f"{len(log)} directive calls"):
        return True
    nit = len(log) // k - 2
    want = [("initialize", n) for n in names] + [("endIter", n) for _ in range(nit) for n in names] + [("finish", n) for n in names]
    if not ctx.check(seq == want, "protocol", f"calls {seq}"):
        return True
    start = np.clip(m0, lo, hi)
    ctx.close(log[0]["model"], m0, "start", msg="model when directives are initialised")
    # a broken line search ends the run with the state of the rejected trial: not judged further than the returned model
    broken = "broken" if (log[-1]["it"] < c["it"] and not np.array_equal(log[-1]["model"], np.array(out))) else ""
    xprev = start
    beta = c["beta"]
    for i in range(nit):
        es = log[k * (i + 1) : k * (i + 2)]
        for j, e in enumerate(es):
            t = f"iteration {i + 1}"
            ctx.check(e["it"] == i + 1, "iter", f"{t}: opt.iter {e['it']}")
            ctx.close(e["model"], e["xc"], "model", rtol=0, msg=f"{t}: invProb.model against opt.xc")
            x = e["xc"]
            ctx.check(np.all(x >= lo) and np.all(x <= hi), "bounds", f"{t}: {x}")
            if j == 0:
                ctx.close(e["beta"], beta, "beta", rtol=1e-12, msg=f"{t}: beta")
                ctx.check(tot(x, beta) <= tot(xprev, beta) * (1 + 1e-10) + 1e-12, "uphill", f"{t}: objective rose from {tot(xprev, beta)} to {tot(x, beta)}")
                ctx.close(e["f"], tot(x, beta), "f", rtol=1e-8, scale=1e-8, msg=f"{t}: opt.f")
            ctx.close(e["phi_d"], pd(x), "phi_d", rtol=1e-8, scale=1e-8, msg=t)
            ctx.close(e["phi_m"], rr.val(x), "phi_m", rtol=1e-8, scale=1e-8, msg=t)
            ctx.close(e["dpred"], dp(x), "dpred", rtol=1e-8, scale=1e-8, msg=t)
        xprev = es[0]["xc"]
        if c["dl"].startswith("halve"):
            beta = beta * 0.5
        if c["dl"] == "sched" and i + 1 < c["it"]:
            beta = beta / 2.0
        ctx.close(es[-1]["beta"], beta, "beta", rtol=1e-12, msg=f"iteration {i + 1}: beta after the directives")
        if c["dl"] == "stop":
            ctx.check(i < 2, "stop", "went on after a directive asked to stop")
    ctx.close(out, xprev, "return", rtol=0, scale=0, msg="returned model against the last accepted model")
    ctx.close(np.asarray(inv.m), out, "return", rtol=0, msg="inversion.m")
    ctx.check(nit <= c["it"], "maxIter", f"{nit} iterations")
    if not broken:
        e = log[-1]
        ctx.close(e["model"], out, "finish", rtol=0, msg="model at finish")
        ctx.close(e["phi_d"], pd(out), "finish", rtol=1e-8, scale=1e-8, msg="phi_d at finish")
        ctx.close(e["phi_m"], rr.val(out), "finish", rtol=1e-8, scale=1e-8, msg="phi_m at finish")
        ctx.close(e["dpred"], dp(out), "finish", rtol=1e-8, scale=1e-8, msg="dpred at finish")
    linear = all(getattr(q, "form", "lin") == "lin" for q in ms)
    if linear and c["opt"] == "GN" and c["dl"] in ("none", "observe", "probes", "precond") and nit:
        H = sum(q.hess(out) for q in ms) + c["beta"] * rr.hess(out)
        g0 = sum(q.grad(m0) for q in ms) + c["beta"] * rr.grad(m0)
        ctx.close(out, m0 - np.linalg.solve(H, g0), "solution", rtol=1e-6, scale=1.0, msg="Gauss-Newton solution of the linear problem")
    return bool(broken)


def evals(c, ctx):
    """histories of evalFunction"""
    ms = MIS[c["mis"]]()
    models = [vec(N, 3, -0.3, 0.4), np.zeros(N), vec(N, 5, -0.6, 0.2)]
    ops = [("e", i, f, new) for i in range(2) for f in ((0, 0), (1, 1)) for new in (0, 1)] + [("e", 2, (1, 0), 0), ("e", 2, (0, 1), 0), ("e", 1, (0, 1), 0), ("beta",), ("sim", 2), ("sim", 0), ("dpred",)]
    v = vec(N, 11)
    ref = vec(N, 8, -0.2, 0.2)
    first = c["first"]
    for seq in itertools.product(range(len(ops)), repeat=c["depth"] - 1):
        seq = (first,) + seq
        if ops[seq[-1]][0] != "e":
            continue
        reg, parts = mkreg(c["reg"], ref.copy())
        rr = RegRef(parts, ref)
        o = optimization.InexactGaussNewton()
        ip = inverse_problem.BaseInvProblem(build_mis(ms), reg, o, beta=1.3, print_version=False)
        ip.startup(models[1].copy())
        held = [m.copy() for m in models]
        for q in seq:
            op = ops[q]
            ctx.step()
            if op[0] == "beta":
                ip.beta = ip.beta * 0.5
                continue
            if op[0] == "sim":
                for mis in ip.dmisfit.objfcts:
                    if hasattr(mis, "simulation"):
                        mis.simulation.fields(models[op[1]].copy())
                continue
            if op[0] == "dpred":
                for mis in ip.dmisfit.objfcts:
                    mis(models[2].copy())
                ip.reg(models[2].copy())
                continue
            m = models[op[1]]
            arr = m.copy() if op[3] else held[op[1]]
            res = ip.evalFunction(arr, return_g=bool(op[2][0]), return_H=bool(op[2][1]))
            res = list(res) if isinstance(res, tuple) else [res]
            b = ip.beta
            tag = f"ops {[ops[z] for z in seq]}"
            ctx.close(res.pop(0), sum(x.val(m) for x in ms) + b * rr.val(m), "value", rtol=1e-9, msg=tag)
            if op[2][0]:
                ctx.close(res.pop(0), sum(x.grad(m) for x in ms) + b * rr.grad(m), "gradient", rtol=1e-9, msg=tag)
            if op[2][1]:
                H = res.pop(0)
                ctx.close(H @ v, (sum(x.hess(m) for x in ms) + b * rr.hess(m)) @ v, "hessian", rtol=1e-9, msg=tag)
                if c["late"]:
                    # the operator stays the Hessian at m after other evaluations
                    ip.evalFunction(models[2].copy(), return_g=False, return_H=False)
                    ctx.close(H @ v, (sum(x.hess(m) for x in ms) + b * rr.hess(m)) @ v, "hessian-late", rtol=1e-9, msg=tag)
                    ip.evalFunction(arr, return_g=False, return_H=False)
            ctx.check(not res, "outputs", f"{tag}: extra outputs")
            ctx.close(ip.phi_d, sum(x.val(m) for x in ms), "phi_d", rtol=1e-9, msg=tag)
            ctx.close(ip.phi_m, rr.val(m), "phi_m", rtol=1e-9, msg=tag)
            ctx.close(ip.dpred, np.hstack([x.pred(m) for x in ms if hasattr(x, "pred")]), "dpred", rtol=1e-9, msg=tag)
            ctx.close(ip.model, m, "model", rtol=0, msg=tag)
            ctx.outcome([op, round(b, 6)])
        ctx.trace()
        if len(ctx.violations) > 5:
            break
    ctx.state([c["mis"], c["reg"], c["first"], c["depth"], c["late"]])


def cases(tier, seed):
    th = tier == "thorough"
    for mis in MIS:
        for f in range(15):
            yield dict(mode="evals", mis=mis, reg="wls" if f % 2 else "sum", first=f, depth=4 if th and mis in ("two", "plain") else 3, late=int(f % 3 == 0))
    for opt in OPT:
        for mis in MIS:
            for reg in ("small", "wls", "wlsref", "sum"):
                for m0 in STARTS:
                    for bnd in (0, 1) if opt in ("PG", "PGNCG") else (0,):
                        for ref in ("none", "vec"):
                            for dl in ("none", "halve", "sched", "stop", "observe", "precond", "halve-precond", "probes"):
                                if dl == "observe" and reg in ("small", "sum"):
                                    continue
                                if "precond" in dl and (opt not in ("GN", "GN2", "PGNCG") or "plain" in mis):
                                    continue
                                if not th and dl in ("probes", "stop") and (m0 != "gen" or ref == "vec" or reg != "wls"):
                                    continue
                                if not th and ref == "none" and dl in ("halve", "precond", "halve-precond") and m0 != "gen":
                                    continue
                                if not th and m0 == "out" and ref == "vec":
                                    continue
                                for tight in (0, 1):
                                    if not th and tight and m0 == "zero":
                                        continue
                                    yield dict(mode="run", opt=opt, mis=mis, reg=reg, m0=m0, bnd=bnd, ref=ref, dl=dl, tight=tight, beta=1.3 if reg != "sum" else 0.2, it=(8 if th else 4))


def run(c, ctx):
    (evals if c["mode"] == "evals" else quad)(c, ctx)
