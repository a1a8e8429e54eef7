"""I01: data misfit value, gradient and Hessian along configuration histories."""
import itertools

import numpy as np
import scipy.sparse as sp
from discretize.utils import Identity
from simpeg import maps, data_misfit
from simpeg.data import Data
from simpeg.survey import BaseSurvey, BaseSrc, BaseRx
from simpeg.simulation import LinearSimulation, BaseSimulation

from mc.zoo.common import vec, mat

ID = "I01"
LEVEL = "model_checking"
RULE = (
    "All sequences up to the depth bound of {evaluate, gradient, Hessian product, change noise floor / relative error / standard deviation / "
    "observed data, replace the data object, assign weights as vector / Identity / sparse / dense / non-symmetric matrix, replace the simulation, "
    "change the simulation's model} on a live L2DataMisfit; after each sequence value, gradient, Hessian-vector product (with and without supplied "
    "fields) and residual are compared with the formula evaluated in plain numpy for the current configuration. Linear and nonlinear (Gauss-Newton) forward models."
)
BOUNDS = {"quick": "depth 3", "thorough": "depth 4"}
ASSUMPTIONS = ["assigned weights persist until reassigned; otherwise the weights follow the uncertainties of the data"]
CHUNK = 2
CASE_TIMEOUT = 600
ND, NP = 3, 4
G = [mat(ND, NP, 1), mat(ND, NP, 2)]


class Quad(BaseSimulation):
    """d = (G m)^2 + m-dependent fields object, counts field computations"""

    def __init__(self, k, **kw):
        self.k = k
        super().__init__(**kw)

    def fields(self, m):
        return dict(u=G[self.k] @ m)

    def dpred(self, m=None, f=None):
        if f is None:
            f = self.fields(m)
        return f["u"] + 0.3 * f["u"] ** 2

    def _J(self, m, f):
        u = (f if f is not None else self.fields(m))["u"]
        return np.diag(1 + 0.6 * u) @ G[self.k]

    def Jvec(self, m, v, f=None):
        return self._J(m, f) @ v

    def Jtvec(self, m, v, f=None):
        return self._J(m, f).T @ v


def survey():
    return BaseSurvey([BaseSrc([BaseRx(np.zeros((ND, 3)))])])


def build_sim(kind, k):
    if kind == "lin":
        s = LinearSimulation(model_map=maps.IdentityMap(nP=NP), G=G[k], survey=survey())
    else:
        s = Quad(k, survey=survey())
    return s


class Ref:
    def __init__(self, kind):
        self.kind = kind
        self.k = 0
        self.dobs = vec(ND, 5)
        self.rel = None
        self.nf = np.full(ND, 0.1)
        self.W = None

    def std(self):
        s = np.zeros(ND)
        if self.rel is not None:
            s = s + (self.rel * np.abs(self.dobs)) ** 2
        if self.nf is not None:
            s = s + self.nf**2
        return np.sqrt(s)

    def Wm(self):
        return np.diag(1 / self.std()) if self.W is None else self.W

    def d(self, m):
        u = G[self.k] @ m
        return u if self.kind == "lin" else u + 0.3 * u**2

    def J(self, m):
        u = G[self.k] @ m
        return G[self.k] if self.kind == "lin" else np.diag(1 + 0.6 * u) @ G[self.k]


OPS = ["eval", "deriv", "deriv2", "nf_s", "nf_v", "rel_s", "rel_none", "std", "dobs", "dobs_inplace", "data",
       "W_vec", "W_id", "W_sp", "W_nonsym", "W_dense", "sim", "simmodel"]
WS = {
    "W_vec": np.diag(vec(ND, 11, 0.5, 2)),
    "W_id": np.eye(ND),
    "W_sp": np.diag(vec(ND, 12, 0.5, 2)) + 0.1 * np.ones((ND, ND)),
    "W_nonsym": mat(ND, ND, 13),
    "W_dense": mat(ND, ND, 14),
}
MODELS = [vec(NP, 20), vec(NP, 21)]


def do(op, dm, ref):
    if op == "eval":
        dm(MODELS[1])
    elif op == "deriv":
        dm.deriv(MODELS[1])
    elif op == "deriv2":
        dm.deriv2(MODELS[1], vec(NP, 30))
    elif op == "nf_s":
        dm.data.noise_floor = 0.3
        ref.nf = np.full(ND, 0.3)
    elif op == "nf_v":
        v = vec(ND, 7, 0.1, 0.5)
        dm.data.noise_floor = v
        ref.nf = v
    elif op == "rel_s":
        dm.data.relative_error = 0.2
        ref.rel = np.full(ND, 0.2)
    elif op == "rel_none":
        dm.data.relative_error = None
        ref.rel = None
    elif op == "std":
        v = vec(ND, 8, 0.1, 0.5)
        dm.data.standard_deviation = v
        ref.rel, ref.nf = np.zeros(ND), v
    elif op == "dobs":
        v = vec(ND, 9)
        dm.data.dobs = v
        ref.dobs = v
    elif op == "dobs_inplace":
        src = dm.data.survey.source_list[0]
        v = vec(ND, 10)
        dm.data[src, src.receiver_list[0]] = v
        ref.dobs = v
    elif op == "data":
        d, nf = vec(ND, 15), vec(ND, 16, 0.1, 0.5)
        dm.data = Data(dm.simulation.survey, dobs=d, noise_floor=nf)
        ref.dobs, ref.nf, ref.rel = d, nf, None
    elif op.startswith("W_"):
        w = WS[op]
        dm.W = {"W_vec": lambda: np.diag(w).copy(), "W_id": Identity, "W_sp": lambda: sp.csr_matrix(w),
                "W_nonsym": lambda: sp.csr_matrix(w), "W_dense": lambda: w.copy()}[op]()
        ref.W = w
    elif op == "sim":
        ref.k = 1 - ref.k
        dm.simulation = build_sim(ref.kind, ref.k)
    elif op == "simmodel":
        if ref.kind == "lin":
            dm.simulation.model = MODELS[1]


def cases(tier, seed):
    d = 3 if tier == "quick" else 4
    for kind in ("lin", "quad"):
        for first in OPS:
            for second in OPS:
                yield dict(kind=kind, first=first, second=second, depth=d)


def judge(ctx, dm, ref, seq):
    W = ref.Wm()
    for m in MODELS:
        r = ref.d(m) - ref.dobs
        J = ref.J(m)
        want = (W @ r) @ (W @ r)
        v = vec(NP, 31)
        mk, vk = m.copy(), v.copy()
        ctx.close(dm(m), want, "value", rtol=1e-10, msg=str(seq))
        ctx.close(dm.residual(m), r, "residual", rtol=1e-10, scale=1, msg=str(seq))
        ctx.close(dm.deriv(m), 2 * J.T @ W.T @ W @ r, "deriv", rtol=1e-10, msg=str(seq))
        ctx.close(dm.deriv2(m, v), 2 * J.T @ W.T @ W @ J @ v, "deriv2", rtol=1e-10, msg=str(seq))
        f = dm.simulation.fields(m)
        ctx.close(dm(m, f=f), want, "value-f", rtol=1e-10, msg=str(seq))
        ctx.close(dm.deriv(m, f=f), 2 * J.T @ W.T @ W @ r, "deriv-f", rtol=1e-10, msg=str(seq))
        ctx.close(dm.deriv2(m, v, f=f), 2 * J.T @ W.T @ W @ J @ v, "deriv2-f", rtol=1e-10, msg=str(seq))
        ctx.check(np.array_equal(m, mk) and np.array_equal(v, vk), "mutated")
        ctx.close((2.5 * dm)(m), 2.5 * want, "scaled", rtol=1e-10)
    ctx.check(dm.nD == ND, "nD")


def run(c, ctx):
    seqs = [[c["first"], c["second"]]]
    for d in range(3, c["depth"] + 1):
        seqs += [[c["first"], c["second"], *t] for t in itertools.product(OPS, repeat=d - 2)]
    if c["second"] == OPS[0]:
        seqs += [[c["first"]]]
    for seq in seqs:
        sim = build_sim(c["kind"], 0)
        ref = Ref(c["kind"])
        data = Data(sim.survey, dobs=ref.dobs.copy(), noise_floor=ref.nf.copy())
        dm = data_misfit.L2DataMisfit(data, sim)
        for op in seq:
            do(op, dm, ref)
            ctx.step()
        ctx.trace()
        judge(ctx, dm, ref, seq)
        ctx.state([c["kind"], ref.k, ref.dobs, ref.rel, ref.nf, ref.W])
        ctx.outcome([float(dm(MODELS[0]))])
        if len(ctx.violations) > 10:
            return
