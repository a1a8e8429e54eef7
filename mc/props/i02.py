"""I02: algebra of objective functions."""
import itertools

import numpy as np
import scipy.sparse as sp
from discretize.utils import Zero
from simpeg import maps
from simpeg.objective_function import L2ObjectiveFunction, ComboObjectiveFunction, BaseObjectiveFunction

from mc.zoo.common import vec, mat

ID = "I02"
LEVEL = "model_checking"
RULE = (
    "All expression trees up to the depth bound built with +, scalar *, scalar / and explicit ComboObjectiveFunction (packed / unpacked on addition) "
    "over L2 functions with and without maps and weights, a nonlinear function, and functions that consume supplied fields; multipliers from "
    "{0, Zero, 1, 2.5, -1}. Value, gradient, Hessian product and (where all members offer it) Hessian matrix and W are compared with the same arithmetic on numbers; "
    "members must receive their own fields; later reassignment of multipliers of the tree is followed; operands are not changed by being combined."
)
BOUNDS = {"quick": "two binary levels over 5 leaves", "thorough": "three levels"}
ASSUMPTIONS = []
CHUNK = 60
NP = 3


class Fielded(BaseObjectiveFunction):
    """phi(m) = sum(f*m), requires its own fields when any are supplied"""

    def __init__(self, tag):
        super().__init__(nP=NP, has_fields=True)
        self.tag = tag

    def _f(self, f):
        return self.tag * np.ones(NP) if f is None else f

    def __call__(self, m, f=None):
        return float(self._f(f) @ m**2)

    def deriv(self, m, f=None):
        return 2 * self._f(f) * m

    def deriv2(self, m, v=None, f=None):
        H = sp.diags(2 * self._f(f))
        return H if v is None else H @ v


class Cubic(BaseObjectiveFunction):
    def __init__(self):
        super().__init__(nP=NP)

    def __call__(self, m):
        return float(np.sum(m**3))

    def deriv(self, m):
        return 3 * m**2

    def deriv2(self, m, v=None):
        H = sp.diags(6 * m)
        return H if v is None else H @ v


W1 = sp.csr_matrix(mat(2, 3, 3))
A1 = mat(2, 3, 4)


def leaf(n):
    if n == "l2":
        return L2ObjectiveFunction(nP=NP)
    if n == "l2W":
        return L2ObjectiveFunction(W=W1)
    if n == "l2map":
        return L2ObjectiveFunction(mapping=maps.LinearMap(sp.csr_matrix(A1)))
    if n == "l2exp":
        return L2ObjectiveFunction(mapping=maps.ExpMap(nP=NP))
    if n == "cub":
        return Cubic()
    if n == "fa":
        return Fielded(1.5)
    if n == "fb":
        return Fielded(-0.7)
    raise KeyError(n)


def rleaf(n, m, f):
    """value, gradient, Hessian (Gauss-Newton for L2 with nonlinear map)"""
    if n == "l2":
        return m @ m, 2 * m, 2 * np.eye(NP)
    if n == "l2W":
        B = W1.toarray()
        return (B @ m) @ (B @ m), 2 * B.T @ B @ m, 2 * B.T @ B
    if n == "l2map":
        B = A1
        return (B @ m) @ (B @ m), 2 * B.T @ B @ m, 2 * B.T @ B
    if n == "l2exp":
        e = np.exp(m)
        return e @ e, 2 * e * e, 2 * np.diag(e * e)
    if n == "cub":
        return np.sum(m**3), 3 * m**2, np.diag(6 * m)
    t = {"fa": 1.5, "fb": -0.7}[n]
    ff = t * np.ones(NP) if f is None else f
    return ff @ m**2, 2 * ff * m, np.diag(2 * ff)


LEAVES = ["l2W", "l2map", "cub", "fa", "fb"]
MULT = [0, "Zero", 1, 2.5, -1.0]


def num(x):
    return 0.0 if x == "Zero" else x


def trees(depth, leaves):
    if depth == 0:
        for n in leaves:
            yield n
        return
    for n in leaves:
        yield n
    for t in trees(depth - 1, leaves):
        if not isinstance(t, str) or True:
            for k in ([0, 2.5] if depth > 1 else MULT):
                yield ["*", k, t]


def cases(tier, seed):
    # level 1: scaled leaves and all pairs / triples
    sc = [[k, n] for k in MULT for n in LEAVES + ["l2", "l2exp"]]
    for k, n in sc:
        for form in ("k*x", "x*k", "x/k"):
            if form == "x/k" and num(k) == 0:
                continue
            yield dict(t=["scale", form, k, n])
    pairs = list(itertools.product(range(len(MULT)), LEAVES, range(len(MULT)), LEAVES))
    for i, a, j, b in pairs:
        yield dict(t=["add", [MULT[i], a], [MULT[j], b]])
    # combos built explicitly, packed and unpacked, then added / scaled / nested
    for a, b, c in itertools.product(LEAVES, repeat=3):
        for u1 in (True, False):
            for k in ((1, 2.5), (0, -1.0)):
                yield dict(t=["combo+", u1, [k[0], a], [k[1], b], [2.5, c]])
                yield dict(t=["+combo", u1, [2.5, c], [k[0], a], [k[1], b]])
                yield dict(t=["k*combo", u1, [k[0], a], [k[1], b], [1, c]])
    if tier == "thorough":
        for a, b, c, d in itertools.product(LEAVES, repeat=4):
            for u in itertools.product((True, False), repeat=2):
                for k in ((1, 2.5, 0, -1.0), ("Zero", 1, 2.5, 1)):
                    yield dict(t=["combo+combo", list(u), [k[0], a], [k[1], b], [k[2], c], [k[3], d]])
    for a, b in itertools.product(LEAVES, repeat=2):
        for seq in itertools.product(range(len(MULT)), repeat=2):
            yield dict(t=["remult", a, b, [MULT[i] for i in seq]])
    for bad in ("str", "array", "list", "None", "bool", "complexobj"):
        yield dict(t=["badmult", bad])
    for bad in ("int", "array", "None"):
        yield dict(t=["badadd", bad])
    yield dict(t=["badnp"])


def mul(k):
    return Zero() if k == "Zero" else k


def combine(terms, m, fs):
    """terms: list of (multiplier, leafname); fs list or None -> value, grad, Hess"""
    v, g, H = 0.0, np.zeros(NP), np.zeros((NP, NP))
    for i, (k, n) in enumerate(terms):
        a, b, c = rleaf(n, m, None if fs is None else fs[i])
        v, g, H = v + num(k) * a, g + num(k) * b, H + num(k) * c
    return v, g, H


def dn(x, shape):
    if isinstance(x, Zero):
        return np.zeros(shape)
    return x.toarray() if sp.issparse(x) else np.asarray(x)


def judge(ctx, phi, terms, fs_shape=None, tag=""):
    """fs_shape: function(list of per-leaf fields) -> nested f argument for phi"""
    for k in range(2):
        m = vec(NP, 60 + k)
        v = vec(NP, 62 + k)
        for withf in (False, True) if fs_shape is not None else (False,):
            fs = [vec(NP, 70 + i) for i in range(len(terms))] if withf else None
            kw = dict(f=fs_shape(fs)) if withf else {}
            w = combine(terms, m, fs)
            ctx.step()
            ctx.close(phi(m, **kw), w[0], "value", rtol=1e-11, scale=1.0, msg=tag)
            ctx.close(dn(phi.deriv(m, **kw), NP), w[1], "deriv", rtol=1e-11, scale=1.0, msg=tag)
            ctx.close(dn(phi.deriv2(m, v=v, **kw), NP), w[2] @ v, "deriv2-v", rtol=1e-11, scale=1.0, msg=tag)
            ctx.close(dn(phi.deriv2(m, **kw), (NP, NP)), w[2], "deriv2", rtol=1e-11, scale=1.0, msg=tag)
    ctx.outcome([np.round(w[0], 9), tag])


def run(c, ctx):
    t = c["t"]
    ctx.state(t)
    op = t[0]
    lst = lambda f: f  # noqa: E731
    if op == "scale":
        _, form, k, n = t
        x = leaf(n)
        kk = mul(k)
        if form == "k*x":
            phi = kk * x if k != "Zero" else x * kk
        elif form == "x*k":
            phi = x * kk
        else:
            phi = x / kk
        terms = [(1 / k if form == "x/k" else k, n)]
        judge(ctx, phi, terms, lst, "scale")
        judge(ctx, x, [(1, n)], None, "operand changed")
    elif op == "add":
        (k1, a), (k2, b) = t[1:]
        x, y = leaf(a), leaf(b)
        p, q = x * mul(k1), y * mul(k2)
        phi = p + q
        judge(ctx, phi, [(k1, a), (k2, b)], lst, "add")
        judge(ctx, p, [(k1, a)], lst, "operand changed")
        judge(ctx, q, [(k2, b)], lst, "operand changed")
        judge(ctx, x + y, [(1, a), (1, b)], lst, "add plain")
        judge(ctx, x + q, [(1, a), (k2, b)], lst, "add mixed")
        ctx.check(len(phi) == 2, "len")
        z = x + Zero()
        ctx.check(z is x, "add-zero")
        s = sum([p, q], Zero())
        judge(ctx, s, [(k1, a), (k2, b)], lst, "sum")
        if a in ("l2W", "l2map") and b in ("l2W", "l2map") and num(k1) > 0 and num(k2) > 0:
            # stacked weights reproduce the functional for identity maps
            if a == b == "l2W":
                Wd = dn(phi.W, None)
                ctx.close(2 * Wd.T @ Wd, combine([(k1, a), (k2, b)], vec(NP, 1), None)[2], "W", rtol=1e-11)
    elif op in ("combo+", "+combo", "k*combo"):
        u = t[1]
        if op == "combo+":
            A, B, C = t[2:]
        elif op == "+combo":
            C, A, B = t[2:]
        else:
            A, B, C = t[2:]
        cb = ComboObjectiveFunction([leaf(A[1]), leaf(B[1])], multipliers=[mul(A[0]), mul(B[0])], unpack_on_add=u)
        if op == "combo+":
            phi = cb + C[0] * leaf(C[1])
            nest = lst if u else (lambda f: [f[:2], f[2]])
            terms = [A, B, C]
            n = 3 if u else 2
        elif op == "+combo":
            phi = C[0] * leaf(C[1]) + cb
            nest = lst if u else (lambda f: [f[0], f[1:]])
            terms = [C, A, B]
            n = 3 if u else 2
        else:
            phi = 2.5 * cb
            nest = lambda f: [f]  # noqa: E731
            terms = [(2.5 * num(A[0]), A[1]), (2.5 * num(B[0]), B[1])]
            n = 1
        ctx.check(len(phi) == n, "len", f"{len(phi)} != {n}")
        # fields are only routed into nested combos that declare has_fields
        flat = op != "k*combo" and u
        judge(ctx, phi, terms, nest if flat else None, op)
        judge(ctx, cb, [A, B], lst, "operand changed")
        phi.multipliers[0] = 9.0
        judge(ctx, cb, [A, B], lst, "operand shares multipliers")
    elif op == "combo+combo":
        u1, u2 = t[1]
        A, B, C, E = t[2:]
        c1 = ComboObjectiveFunction([leaf(A[1]), leaf(B[1])], multipliers=[mul(A[0]), mul(B[0])], unpack_on_add=u1)
        c2 = ComboObjectiveFunction([leaf(C[1]), leaf(E[1])], multipliers=[mul(C[0]), mul(E[0])], unpack_on_add=u2)
        phi = c1 + c2
        judge(ctx, phi, [A, B, C, E], lst if (u1 and u2) else None, op)
        ctx.check(len(phi) == (2 if u1 else 1) + (2 if u2 else 1), "len")
        judge(ctx, c1, [A, B], lst, "operand changed")
        judge(ctx, c2, [C, E], lst, "operand changed")
    elif op == "remult":
        _, a, b, ks = t
        phi = 1.0 * leaf(a) + 1.0 * leaf(b)
        judge(ctx, phi, [(1, a), (1, b)], lst, "before")
        phi.multipliers = [mul(k) for k in ks]
        judge(ctx, phi, [(ks[0], a), (ks[1], b)], lst, "after")
        ctx.raises(lambda: setattr(phi, "multipliers", [1.0]), ValueError, "accepted-length")
        judge(ctx, phi, [(ks[0], a), (ks[1], b)], lst, "after refused")
    elif op == "badmult":
        bad = {"str": "a", "array": np.ones(2), "list": [1], "None": None, "bool": True, "complexobj": object()}[t[1]]
        ctx.raises(lambda: leaf("cub") * bad, TypeError, "accepted-multiplier")
        ctx.raises(lambda: ComboObjectiveFunction([leaf("cub")], [bad]), TypeError, "accepted-multiplier")
    elif op == "badadd":
        bad = {"int": 1, "array": np.ones(2), "None": None}[t[1]]
        ctx.raises(lambda: leaf("cub") + bad, TypeError, "accepted-operand")
    elif op == "badnp":
        ctx.raises(lambda: L2ObjectiveFunction(nP=2) + L2ObjectiveFunction(nP=3), ValueError, "accepted-nP")
        ctx.raises(lambda: ComboObjectiveFunction([leaf("cub")], [1, 2]), ValueError, "accepted-length")
