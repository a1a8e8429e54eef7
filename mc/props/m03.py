"""M03: index maps (projections, wires, active cells, surjections) against loop references."""
import itertools

import numpy as np
import scipy.sparse as sp
import discretize
from simpeg import maps

from mc.zoo.common import vec

ID = "M03"
LEVEL = "model_checking"
RULE = (
    "Exhaustive over small index structures: every index list (with repetition), every boolean mask and every slice for projections; "
    "every tuple of wire sizes; every active-cell mask in boolean and integer form on 1D/2D/3D meshes with scalar and vector inactive values; "
    "every assignment of cells to units; every mesh shape up to 3 cells per axis for surjections. Values, derivative matrices, shapes and "
    "inverse / round-trip relations are compared with loop-written references."
)
BOUNDS = {"quick": "<= 4 parameters, lists <= 3, masks on <= 5 cells", "thorough": "<= 5 parameters, lists <= 4, masks on <= 8 cells"}
ASSUMPTIONS = []
CHUNK = 40


def cases(tier, seed):
    big = tier == "thorough"
    N, L = (5, 4) if big else (4, 3)
    for n in range(1, N + 1):
        for k in range(1, L + 1):
            for idx in itertools.product(range(n), repeat=k):
                yield dict(kind="proj", n=n, how="list", idx=list(idx))
        for mask in itertools.product([0, 1], repeat=n):
            if any(mask):
                yield dict(kind="proj", n=n, how="bool", idx=list(mask))
        rng = [None] + list(range(-n, n + 1))
        for a, b, s in itertools.product(rng, rng, [None, 1, 2, -1, -2]):
            if len(range(*slice(a, b, s).indices(n))):
                yield dict(kind="proj", n=n, how="slice", idx=[a, b, s])
        yield dict(kind="proj-bad", n=n)
    for k in range(1, 5 if big else 4):
        for sizes in itertools.product([1, 2, 3], repeat=k):
            yield dict(kind="wires", sizes=list(sizes))
    shapes = [(4,), (2, 2), (1, 2, 2)] + ([(8,), (2, 2, 2)] if big else [(5,)])
    for sh in shapes:
        nc = int(np.prod(sh))
        for mask in itertools.product([0, 1], repeat=nc):
            if any(mask):
                yield dict(kind="inject", shape=list(sh), mask=list(mask))
    for nc, nu in ((4, 2), (4, 3)) if not big else ((4, 2), (4, 3), (5, 3), (6, 2)):
        for asg in itertools.product(range(-1, nu), repeat=nc):
            yield dict(kind="units", nu=nu, asg=list(asg))
    for sh in itertools.product([1, 2, 3], repeat=3):
        yield dict(kind="surj", shape=list(sh))
    for sh in itertools.product([1, 2, 3], repeat=2):
        yield dict(kind="surj", shape=list(sh))


def dn(d):
    return d.toarray() if sp.issparse(d) else np.asarray(d)


def linear(ctx, mp, A, b=None):
    """the map is m -> A m + b with exactly this matrix"""
    n = A.shape[1]
    b = np.zeros(A.shape[0]) if b is None else b
    ctx.check(tuple(mp.shape) == A.shape, "shape", f"{mp.shape} want {A.shape}")
    for k in range(2):
        m = vec(n, 90 + k)
        ctx.step()
        ctx.close(np.array(mp * m), A @ m + b, "value", rtol=1e-14)
        ctx.check(np.array_equal(dn(mp.deriv(m)), A), "deriv")
        v = vec(n, 95 + k)
        ctx.close(np.array(mp.deriv(m, v=v)), A @ v, "deriv-v", rtol=1e-14)
    ctx.outcome([A.tolist(), b.tolist()])


def onehot(idx, n):
    A = np.zeros((len(idx), n))
    for r, i in enumerate(idx):
        A[r, i] = 1
    return A


def run(c, ctx):
    ctx.state(c)
    k = c["kind"]
    if k == "proj":
        n = c["n"]
        if c["how"] == "list":
            for idx in (list(c["idx"]), np.array(c["idx"])):
                linear(ctx, maps.Projection(n, idx), onehot(c["idx"], n))
        elif c["how"] == "bool":
            linear(ctx, maps.Projection(n, np.array(c["idx"], bool)), onehot(np.where(c["idx"])[0], n))
        else:
            s = slice(*c["idx"])
            linear(ctx, maps.Projection(n, s), onehot(list(range(n))[s], n))
    elif k == "proj-bad":
        n = c["n"]
        for idx in ([n], [0, n + 2]):
            ctx.raises(lambda: maps.Projection(n, idx), Exception, "accepted-out-of-range")
    elif k == "wires":
        names = ["a", "bb", "c", "d"][: len(c["sizes"])]
        w = maps.Wires(*zip(names, c["sizes"]))
        n = sum(c["sizes"])
        ctx.check(w.nP == n, "nP")
        m = vec(n, 3)
        parts = w * m
        off = 0
        rec = np.zeros(n)
        for nm, s in zip(names, c["sizes"]):
            ctx.check(np.array_equal(getattr(parts, nm), m[off : off + s]), "part", nm)
            wr = getattr(w, nm)
            linear(ctx, wr, onehot(range(off, off + s), n))
            ctx.check(np.array_equal(np.array(wr * m), m[off : off + s]), "wire")
            rec += dn(wr.deriv(m)).T @ (wr * m)
            off += s
        ctx.check(np.array_equal(rec, m), "reconstruct", "the wires do not partition the model")
        ctx.check([x for x, _ in w.maps] == names, "names")
    elif k == "inject":
        sh = c["shape"]
        me = discretize.TensorMesh([np.ones(s) for s in sh])
        mask = np.array(c["mask"], bool)
        n = int(mask.sum())
        A = np.eye(mask.size)[:, mask]
        vi = vec(mask.size - n, 12)
        for act in (mask, np.where(mask)[0], np.where(mask)[0][::-1]):
            for val in (None, 0, 1e-8, -2.5, vi):
                mp = maps.InjectActiveCells(me, act, **({} if val is None else dict(value_inactive=val)))
                b = np.zeros(mask.size)
                b[~mask] = 0 if val is None else val
                linear(ctx, mp, A, b)
                ctx.check(mp.nP == n, "nP")
                m = vec(n, 5)
                ctx.check(np.array_equal(mp.inverse(mp * m), m), "inverse")
                M = np.c_[m, 2 * m]
                ctx.close(np.array(mp * M), A @ M + b[:, None], "matrix-model", rtol=1e-14)
                mp.value_inactive = 7.5
                b2 = np.where(mask, 0.0, 7.5)
                linear(ctx, mp, A, b2)
        if 0 < n < mask.size:
            ctx.raises(lambda: maps.InjectActiveCells(me, mask, value_inactive=np.ones(mask.size - n + 1)), ValueError, "accepted-wrong-length")
    elif k == "units":
        asg = np.array(c["asg"])
        ind = [asg == u for u in range(c["nu"])]
        A = np.array(ind, float).T
        linear(ctx, maps.SurjectUnits([i.copy() for i in ind]), A)
        me = discretize.TensorMesh([np.ones(len(asg))])
        linear(ctx, maps.SurjectUnits([i.copy() for i in ind], mesh=me), A)
        if all(i.any() for i in ind):
            linear(ctx, maps.SurjectUnits([np.where(i)[0] for i in ind], mesh=me), A)
    elif k == "surj":
        sh = c["shape"]
        me = discretize.TensorMesh([np.ones(s) for s in sh])
        cells = list(itertools.product(*[range(s) for s in reversed(sh)]))  # last axis slowest
        cells = [t[::-1] for t in cells]
        A = np.zeros((len(cells), sh[-1]))
        for r, t in enumerate(cells):
            A[r, t[-1]] = 1
        linear(ctx, maps.SurjectVertical1D(me), A)
        linear(ctx, maps.SurjectFull(me), np.ones((len(cells), 1)))
        if len(sh) == 3:
            for nrm, (p, q) in dict(x=(1, 2), y=(0, 2), z=(0, 1)).items():
                A = np.zeros((len(cells), sh[p] * sh[q]))
                for r, t in enumerate(cells):
                    A[r, t[p] + sh[p] * t[q]] = 1
                linear(ctx, maps.Surject2Dto3D(me, normal=nrm), A)
