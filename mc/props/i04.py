"""I04: reconfiguration histories of regularizations."""
import itertools

import numpy as np
import scipy.sparse as sp
import discretize
from simpeg import maps, regularization as rg

from mc.zoo.common import vec
from mc.zoo.regref import Grid, Term, lp_weights
from mc.props.i03 import mapping_of, half

ID = "I04"
LEVEL = "model_checking"
RULE = (
    "All sequences, up to the depth bound, of reassignments (alphas, length scales, reference model and its use in the smoothness terms, cell weights set / "
    "overwritten / removed, mapping, units, norms, threshold, scaling, gradient type, IRLS updates at different models, and refused assignments) on a "
    "weighted least-squares and on a sparse regularization, and of activation of cells after evaluations on single terms. After every step value, gradient, Hessian "
    "product and matrix are compared with the loop-written reference holding the same settings."
)
BOUNDS = {"quick": "depth 2 (all operations), depth 3 (first operation x core operations)", "thorough": "depth 3 all operations, depth 4 core operations"}
ASSUMPTIONS = ["2x3 cells with 5 active; tolerance 1e-9 relative"]
CHUNK = 2
CASE_TIMEOUT = 900

HH = [np.r_[1.0, 2.0, 1.5], np.r_[0.8, 1.3]]
MASK = [1, 1, 0, 1, 1, 1]
N = 5

COMMON = ["as0", "as2", "ax", "lx", "ay0", "ly", "refA", "refB", "refNone", "reff", "ins1", "ins0", "wA", "wA2", "wB", "rmA", "mapexp", "maplin", "mapNone",
          "rad", "norad", "bad-w", "bad-w2", "rmV", "bad-alpha", "bad-ref", "mult-in"]
WLS = COMMON + ["axx", "axxNone", "ayy"]
SP = COMMON + ["normsA", "normsB", "norms2", "normvec", "eps", "scaled0", "scaled1", "comp", "total", "updA", "updB", "bad-norm", "bad-eps"]
CORE = {
    "wls": ["lx", "refA", "refNone", "ins1", "wA", "wA2", "rmA", "mapexp", "axx"],
    "sparse": ["refA", "ins1", "wA", "rmA", "normsA", "normvec", "eps", "comp", "updA", "updB"],
}
OPS = {"wls": WLS, "sparse": SP}


class R:
    """reference settings"""

    def __init__(self, kind):
        self.kind = kind
        self.g = Grid(HH, MASK)
        self.base = self.g.minlen
        self.al = dict(s=1.0, x=self.base**2, y=self.base**2, xx=0.0, yy=0.0)
        self.ref, self.ins, self.w, self.mp, self.rad = None, False, {}, "id", False
        self.vol = True
        self.norms, self.eps, self.scaled, self.gt, self.irls = [1.0, 1.0, 1.0], 1e-8, True, "total", None

    def terms(self, irls=True):
        lst = [("small", None, "s"), ("first", 0, "x"), ("first", 1, "y")]
        if self.kind == "wls":
            lst += [("second", 0, "xx"), ("second", 1, "yy")]
        out = []
        _, F, J, nP = mapping_of(self.mp, N)
        for i, (k, d, a) in enumerate(lst):
            t = Term(self.g, k, d)
            t.map, t.jac, t.ref, t.insmooth, t.radian = F, J, self.ref, self.ins, self.rad
            for q, v in self.w.items():
                t.weights[q] = v
            if not self.vol:
                del t.weights["volume"]
            if irls and self.irls is not None:
                t.faces["irls"] = self.irls[i]
            out.append((self.al[a], t))
        return out

    def update(self, m):
        ts = [t for _, t in self.terms(False)]
        fs = [t.f(m) for t in ts]
        if self.gt == "total":
            tot = sum(np.abs(half(self.g, d) @ fs[1 + d]) for d in range(2))
            fs = [fs[0]] + [self.g.avg(d) @ tot for d in range(2)]
        self.irls = [lp_weights(f, p, self.eps, self.scaled) for f, p in zip(fs, self.norms)]

    @property
    def nP(self):
        return mapping_of(self.mp, N)[3]


def fresh(kind):
    mesh = discretize.TensorMesh(HH)
    act = np.array(MASK, bool)
    return rg.WeightedLeastSquares(mesh, active_cells=act) if kind == "wls" else rg.Sparse(mesh, active_cells=act)


def refuse(ctx, fn, key):
    try:
        fn()
    except Exception:
        ctx.evaluations += 1
        return
    ctx.check(False, key, "accepted")


def apply(op, o, r, ctx):
    """returns False if the operation is not applicable in this state"""
    n = r.nP
    if op == "as0":
        o.alpha_s = 0
        r.al["s"] = 0.0
    elif op == "as2":
        o.alpha_s = 2
        r.al["s"] = 2.0
    elif op == "ax":
        o.alpha_x = 0.3
        r.al["x"] = 0.3
    elif op == "lx":
        o.length_scale_x = 2.0
        r.al["x"] = (2.0 * r.base) ** 2
    elif op == "ay0":
        o.alpha_y = 0.0
        r.al["y"] = 0.0
    elif op == "ly":
        o.length_scale_y = None
        r.al["y"] = r.base**2
    elif op == "axx":
        o.alpha_xx = 0.5
        r.al["xx"] = 0.5
    elif op == "axxNone":
        o.alpha_xx = None
        r.al["xx"] = r.al["x"] ** 2
    elif op == "ayy":
        o.alpha_yy = 0.7
        r.al["yy"] = 0.7
    elif op in ("refA", "refB"):
        v = vec(n, 5 if op == "refA" else 55)
        o.reference_model = v
        r.ref = v.copy()
    elif op == "refNone":
        o.reference_model = None
        r.ref = None
    elif op == "reff":
        o.reference_model = 0.5
        r.ref = np.full(n, 0.5)
    elif op in ("ins1", "ins0"):
        o.reference_model_in_smooth = op == "ins1"
        r.ins = op == "ins1"
    elif op in ("wA", "wA2", "wB"):
        v = vec(N, {"wA": 6, "wA2": 66, "wB": 67}[op], 0.5, 2)
        k = op[:2]
        o.set_weights(**{k: v})
        r.w[k] = v.copy()
    elif op == "rmA":
        if "wA" in r.w:
            o.remove_weights("wA")
            del r.w["wA"]
        else:
            refuse(ctx, lambda: o.remove_weights("wA"), "remove-missing")
    elif op in ("mapexp", "maplin", "mapNone"):
        k = {"mapexp": "exp", "maplin": "lin", "mapNone": "id"}[op]
        if mapping_of(k, N)[3] != r.nP and r.ref is not None:
            return False  # the reference model would have the wrong length
        if r.rad and k != "id":
            return False
        o.mapping = maps.IdentityMap(nP=N) if k == "id" else mapping_of(k, N)[0]
        r.mp = k
    elif op in ("rad", "norad"):
        if r.mp != "id" and op == "rad":
            return False
        o.units = "radian" if op == "rad" else None
        r.rad = op == "rad"
    elif op == "bad-w":
        refuse(ctx, lambda: o.set_weights(wA=np.ones(17)), "bad-weights")
    elif op == "bad-w2":
        refuse(ctx, lambda: o.set_weights(wB=vec(N, 91, 0.5, 2), wA=np.ones(17)), "bad-weights")
    elif op == "rmV":
        if r.vol:
            o.remove_weights("volume")
        else:
            refuse(ctx, lambda: o.remove_weights("volume"), "remove-missing")
        r.vol = False
    elif op == "bad-alpha":
        refuse(ctx, lambda: setattr(o, "alpha_x", -1.0), "bad-alpha")
    elif op == "bad-ref":
        refuse(ctx, lambda: setattr(o, "reference_model", np.ones(19)), "bad-reference")
    elif op == "mult-in":
        # an evaluation through a scaled sum leaves the regularization as it was
        m = model(r, 8)
        v = float((3.0 * o)(m))
        ctx.close(v, 3.0 * float(o(m)), "scaled", rtol=1e-12)
    elif op in ("normsA", "normsB", "norms2"):
        p = {"normsA": [0.0, 0.5, 1.5], "normsB": [1.0, 0.0, 2.0], "norms2": [2.0, 2.0, 2.0]}[op]
        o.norms = p
        r.norms = list(p)
    elif op == "normvec":
        p = [vec(N, 70, 0.0, 1.9), vec(len(r.g.pairs[0]), 71, 0.0, 1.9), 1.0]
        o.norms = p
        r.norms = p
    elif op == "eps":
        o.irls_threshold = 0.2
        r.eps = 0.2
    elif op in ("scaled0", "scaled1"):
        o.irls_scaled = op == "scaled1"
        r.scaled = op == "scaled1"
    elif op in ("comp", "total"):
        o.gradient_type = "components" if op == "comp" else "total"
        r.gt = o.gradient_type
    elif op in ("updA", "updB"):
        m = model(r, 20 if op == "updA" else 21)
        o.update_weights(m)
        r.update(m)
    elif op == "bad-norm":
        refuse(ctx, lambda: setattr(o, "norms", [1.0, 3.0, 1.0]), "bad-norm")
    elif op == "bad-eps":
        refuse(ctx, lambda: setattr(o, "irls_threshold", 0.0), "bad-eps")
    else:
        raise KeyError(op)
    return True


def model(r, seed):
    return vec(r.nP, seed) * (4.0 if r.rad else 1.0)


def judge(ctx, o, r, seq, hess):
    m = model(r, 8)
    v = vec(m.size, 77)
    ts = r.terms()
    val = sum(a * t.value(m) for a, t in ts)
    der = sum((a * t.deriv(m) for a, t in ts), np.zeros(m.size))
    d2 = sum((a * t.deriv2(m) for a, t in ts), np.zeros((m.size, m.size)))
    tag = ",".join(seq)
    ok = ctx.close(float(o(m)), val, "value", rtol=1e-9, scale=1e-6, msg=tag)
    ok &= ctx.close(np.asarray(o.deriv(m)) + np.zeros(m.size), der, "deriv", rtol=1e-9, scale=1e-6, msg=tag)
    ok &= ctx.close(np.asarray(o.deriv2(m, v)) + np.zeros(m.size), d2 @ v, "deriv2-v", rtol=1e-9, scale=1e-6, msg=tag)
    if hess:
        H = o.deriv2(m)
        H = H.toarray() if sp.issparse(H) else np.asarray(H) + np.zeros((m.size, m.size))
        ok &= ctx.close(H, d2, "deriv2", rtol=1e-9, scale=1e-6, msg=tag)
        ok &= ctx.check(abs(o.length_scale_x - np.sqrt(r.al["x"]) / r.base) < 1e-12, "length-scale", tag)
        ok &= ctx.close([float(x) for x in o.multipliers], [a for a, _ in ts], "multipliers", rtol=1e-12, msg=tag) if r.kind == "sparse" else True
    ctx.state([r.kind, r.al, r.ref, r.ins, r.w, r.mp, r.rad, r.vol, r.norms, r.eps, r.scaled, r.gt, r.irls])
    ctx.outcome([float("%.8g" % val)])
    return ok


def history(ctx, kind, seq):
    o, r = fresh(kind), R(kind)
    judge_all = True
    done = []
    for i, op in enumerate(seq):
        try:
            if not apply(op, o, r, ctx):
                return
        except Exception as e:
            ctx.violation(f"exception:{type(e).__name__}", f"after {done} {op} raised {type(e).__name__}: {e}")
            return
        done.append(op)
        ctx.step()
        if not judge(ctx, o, r, done, hess=(i == len(seq) - 1)):
            return
    ctx.trace()


TERMS = ["small", "first0", "first1", "second0", "second1", "sparse0", "sparsesmall"]


def cases(tier, seed):
    for kind in ("wls", "sparse"):
        for a in OPS[kind]:
            yield dict(mode="hist", kind=kind, first=a, tier=tier)
    for t in TERMS:
        for pre in ("none", "eval", "weights", "eval+weights"):
            yield dict(mode="activate", term=t, pre=pre)
    for fam in ("crossgrad", "jtv", "lincorr", "wls", "vecamp"):
        for pre in ("none", "eval"):
            yield dict(mode="activate", term=fam, pre=pre)


def run(c, ctx):
    if c["mode"] == "hist":
        ops, core = OPS[c["kind"]], CORE[c["kind"]]
        depth = 2 if c["tier"] == "quick" else 3
        for d in range(0, depth):
            for t in itertools.product(ops, repeat=d):
                history(ctx, c["kind"], [c["first"], *t])
                if len(ctx.violations) > 20:
                    return
        for t in itertools.product(core, repeat=depth):
            history(ctx, c["kind"], [c["first"], *t])
            if len(ctx.violations) > 20:
                return
        return
    activate(c, ctx)


def build(term, mesh, **kw):
    if term == "small":
        return rg.Smallness(mesh, **kw)
    if term == "sparsesmall":
        return rg.SparseSmallness(mesh, **kw)
    if term == "sparse0":
        return rg.SparseSmoothness(mesh, orientation="x", **kw)
    return (rg.SmoothnessFirstOrder if term[:-1] == "first" else rg.SmoothnessSecondOrder)(mesh, orientation="xy"[int(term[-1])], **kw)


def activate(c, ctx):
    """active cells given after construction = given at construction"""
    mesh = discretize.TensorMesh(HH)
    act = np.array(MASK, bool)
    t = c["term"]
    ctx.state(c)
    if t in ("crossgrad", "jtv", "lincorr"):
        cls = {"crossgrad": rg.CrossGradient, "jtv": rg.JointTotalVariation, "lincorr": rg.LinearCorrespondence}[t]
        o = cls(mesh, maps.Wires(("a", 6), ("b", 6)))
        if c["pre"] == "eval":
            o(vec(12, 3)), o.deriv(vec(12, 3))
        o.active_cells = act
        o.wire_map = maps.Wires(("a", N), ("b", N))
        f = cls(mesh, maps.Wires(("a", N), ("b", N)), active_cells=act)
        m = vec(2 * N, 8)
    elif t in ("wls", "vecamp"):
        if t == "vecamp":
            mk = lambda n, **k: rg.VectorAmplitude(mesh, mapping=maps.IdentityMap(nP=2 * n), **k)
            m = vec(2 * N, 8)
        else:
            mk = lambda n, **k: rg.WeightedLeastSquares(mesh, **k)
            m = vec(N, 8)
        o = mk(6)
        if c["pre"] == "eval":
            x = vec(12 if t == "vecamp" else 6, 3)
            o(x), o.deriv(x), o.deriv2(x, x)
        o.active_cells = act
        o.mapping = maps.IdentityMap(nP=m.size)
        f = mk(N, active_cells=act)
    else:
        o = build(t, mesh)
        if "eval" in c["pre"]:
            o(vec(6, 3)), o.deriv(vec(6, 3)), o.deriv2(vec(6, 3), vec(6, 3))
        o.active_cells = act
        if "weights" in c["pre"]:
            o.set_weights(mine=vec(N, 6, 0.5, 2))
        f = build(t, mesh, active_cells=act, **(dict(weights=dict(mine=vec(N, 6, 0.5, 2))) if "weights" in c["pre"] else {}))
        m = vec(N, 8)
    v = vec(m.size, 77)
    ctx.close(float(o(m)), float(f(m)), "activate-value", rtol=1e-10)
    ctx.close(o.deriv(m), f.deriv(m), "activate-deriv", rtol=1e-10)
    ctx.close(np.asarray(o.deriv2(m, v)), np.asarray(f.deriv2(m, v)), "activate-deriv2", rtol=1e-10)
    ctx.step(4)
    ctx.outcome([t, float("%.8g" % f(m))])
