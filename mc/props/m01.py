"""M01: composition and sum of maps."""
import itertools

import numpy as np
import scipy.sparse as sp
import discretize
from simpeg import maps

from mc.zoo.common import vec, mat

ID = "M01"
LEVEL = "model_checking"
RULE = (
    "All expression trees over a map alphabet: chains A*B, A*B*C (thorough: length 4) in both association orders, sums of two and "
    "three maps, compositions of sums and sums of compositions; every tree is evaluated and differentiated at two models "
    "and compared with the function composition / sum of the separately evaluated members. All incompatible pairs must be refused."
)
BOUNDS = {"quick": "alphabet of 15 maps, chains <= 3, sums <= 3", "thorough": "chains <= 4, sums <= 3, nested sums in chains"}
ASSUMPTIONS = ["agreement to 1e-10 relative"]
CHUNK = 25


def mesh3():
    return discretize.TensorMesh([np.r_[1.0, 2.0, 3.0]])


# name -> (n_out, n_in, builder)   ('*': any)
ALPHA = {
    "id3": (3, 3, lambda: maps.IdentityMap(nP=3)),
    "id*": ("*", "*", lambda: maps.IdentityMap()),
    "exp3": (3, 3, lambda: maps.ExpMap(mesh3())),
    "exp*": ("*", "*", lambda: maps.ExpMap()),
    "rec3": (3, 3, lambda: maps.LogisticSigmoidMap(nP=3, lower_bound=0.5, upper_bound=np.r_[1.0, 2.0, 3.0])),
    "w3": (3, 3, lambda: maps.Weighting(nP=3, weights=np.r_[0.5, 1.5, -2.0])),
    "dense23": (2, 3, lambda: maps.LinearMap(mat(2, 3, 1))),
    "dense33": (3, 3, lambda: maps.LinearMap(mat(3, 3, 2), b=vec(3, 8))),
    "csr32": (3, 2, lambda: maps.LinearMap(sp.csr_matrix(mat(3, 2, 3)), b=vec(3, 9))),
    "dense32": (3, 2, lambda: maps.LinearMap(mat(3, 2, 4))),
    "proj23": (2, 3, lambda: maps.Projection(3, [2, 0])),
    "act32": (3, 2, lambda: maps.InjectActiveCells(mesh3(), np.array([True, False, True]), value_inactive=0.3)),
    "full31": (3, 1, lambda: maps.SurjectFull(mesh3())),
    "unit32": (3, 2, lambda: maps.SurjectUnits([np.array([1, 1, 0], bool), np.array([0, 0, 1], bool)])),
    "sph3": (3, 3, lambda: maps.SphericalSystem(nP=3)),
}


def ok(a, b):
    """a * b allowed"""
    i, o = ALPHA[a][1], ALPHA[b][0]
    return i == "*" or o == "*" or i == o


def io(ch):
    """(definite out, definite in) of a chain, propagating wildcards; None if undetermined"""
    n = None
    for a in reversed(ch):
        o, i, _ = ALPHA[a]
        if i != "*" and n is None:
            n = i
    return n


def compatible(ch):
    """shape propagation from the last map's input, wildcards are square"""
    first = next((ALPHA[a][1] for a in reversed(ch) if ALPHA[a][1] != "*"), 3)
    n = first
    # wildcard maps at the end of the chain pass n through
    for a in reversed(ch):
        o, i, _ = ALPHA[a]
        if i == "*":
            continue
        if i != n:
            return None
        n = o
    return first


def cases(tier, seed):
    names = list(ALPHA)
    L = 3 if tier == "quick" else 4
    for k in range(1, L + 1):
        for ch in itertools.product(names, repeat=k):
            if compatible(ch) is not None:
                yield dict(kind="chain", ch=list(ch))
    for a, b in itertools.product(names, repeat=2):
        if not ok(a, b):
            yield dict(kind="bad", ch=[a, b])
    sq = [n for n in names if "*" not in ALPHA[n][:2]]
    groups = {}
    for n in sq:
        groups.setdefault(ALPHA[n][:2], []).append(n)
    for g in groups.values():
        for k in (2, 3):
            for t in itertools.product(g, repeat=k):
                yield dict(kind="sum", ch=list(t))
    # sums inside chains and chains inside sums
    for g in [groups[(3, 3)], groups[(3, 2)]]:
        for t in itertools.product(g, repeat=2):
            for pre in (["exp3"], ["proj23"], ["dense23"]) if tier == "quick" else ([n] for n in sq if ALPHA[n][1] == 3):
                posts = [[]] + [[n] for n in sq if ALPHA[n][0] == ALPHA[t[0]][1]]
                for post in posts:
                    yield dict(kind="chainsum", pre=list(pre), sum=list(t), post=post)
    two = [list(p) for p in itertools.product(sq, repeat=2) if compatible(p) is not None]
    for x in two:
        for y in two if tier == "thorough" else two[::3]:
            sx, sy = (ALPHA[x[0]][0], ALPHA[x[1]][1]), (ALPHA[y[0]][0], ALPHA[y[1]][1])
            if sx == sy:
                yield dict(kind="sumchain", x=x, y=y)
    for a, b in itertools.product(sq, repeat=2):
        if ALPHA[a][:2] != ALPHA[b][:2]:
            yield dict(kind="badsum", ch=[a, b])


def mk(n):
    return ALPHA[n][2]()


def D(mp, m):
    d = mp.deriv(m)
    n = m.size
    if sp.issparse(d):
        return d.toarray()
    if np.isscalar(d):
        return d * np.eye(n)
    if isinstance(d, np.ndarray):
        return np.asarray(d)
    return np.asarray(d @ np.eye(n))


def rchain(ch, m):
    """reference: evaluate maps one after the other; chain rule on dense matrices"""
    d = np.eye(m.size)
    for a in reversed(ch):
        mp = mk(a)
        d = D(mp, m) @ d
        m = np.array(mp * m)
    return m, d


def rsum(ts, m):
    r = [rchain([t] if isinstance(t, str) else t, m) for t in ts]
    return sum(x for x, _ in r), sum(x for _, x in r)


def judge(ctx, mp, fref, n, nested):
    for k in range(2):
        m = vec(n, 70 + k, 0.2, 1.2)
        m0 = m.copy()
        want, dwant = fref(m)
        got = np.array(mp * m)
        ctx.step()
        ctx.close(got, want, "value", rtol=1e-10)
        ctx.close(np.array(mp.dot(m)), want, "dot", rtol=1e-10)
        ctx.close(np.array(mp @ m), want, "matmul", rtol=1e-10)
        ctx.close(D(mp, m), dwant, "deriv", rtol=1e-10)
        v = vec(n, 80 + k)
        v0 = v.copy()
        ctx.close(np.asarray(mp.deriv(m, v=v)), dwant @ v, "deriv-v", rtol=1e-10)
        ctx.check(np.array_equal(m, m0), "mutated-model")
        ctx.check(np.array_equal(v, v0), "mutated-v")
        sh = mp.shape
        ctx.check(sh[0] in ("*", want.size) and sh[1] in ("*", n), "shape", f"{sh} for {n}->{want.size}")
        ctx.check(mp.nP in ("*", n), "nP", f"{mp.nP} != {n}")
        ctx.outcome([np.round(want, 8).tolist(), nested])


def run(c, ctx):
    k = c["kind"]
    ctx.state(c)
    if k == "chain":
        ch = c["ch"]
        n = compatible(ch)
        lin = all(mk(a).is_linear for a in ch)
        exprs = []
        left = mk(ch[0])
        for a in ch[1:]:
            left = left * mk(a)
        exprs.append(left)
        right = mk(ch[-1])
        for a in reversed(ch[:-1]):
            right = mk(a) * right
        exprs.append(right)
        exprs.append(maps.ComboMap([mk(a) for a in ch]))
        if len(ch) == 4:
            exprs.append((mk(ch[0]) * mk(ch[1])) * (mk(ch[2]) * mk(ch[3])))
        for i, e in enumerate(exprs):
            judge(ctx, e, lambda m: rchain(ch, m), n, i)
            ctx.check(e.is_linear == lin, "is_linear", f"{e.is_linear} for members {lin}")
    elif k == "bad":
        a, b = c["ch"]
        ctx.raises(lambda: mk(a) * mk(b), ValueError, "accepted-mismatch", f"{a}*{b}")
        ctx.raises(lambda: maps.ComboMap([mk(a), mk(b)]), ValueError, "accepted-mismatch-combo", f"{a}*{b}")
        if ALPHA[a][1] != "*":
            ctx.raises(lambda: mk(a) * np.ones(ALPHA[a][1] + 1), ValueError, "accepted-array", a)
    elif k == "sum":
        ts = c["ch"]
        n = ALPHA[ts[0]][1]
        e1 = maps.SumMap([mk(t) for t in ts])
        judge(ctx, e1, lambda m: rsum(ts, m), n, 0)
        if len(ts) == 2:
            judge(ctx, mk(ts[0]) + mk(ts[1]), lambda m: rsum(ts, m), n, 1)
        else:
            judge(ctx, (mk(ts[0]) + mk(ts[1])) + mk(ts[2]), lambda m: rsum(ts, m), n, 2)
    elif k == "chainsum":
        s = maps.SumMap([mk(t) for t in c["sum"]])
        e = s
        for a in reversed(c["pre"]):
            e = mk(a) * e
        for a in c["post"]:
            e = e * mk(a)
        last = c["post"][-1] if c["post"] else c["sum"][0]
        n = ALPHA[last][1]

        def ref(m):
            d = np.eye(m.size)
            if c["post"]:
                m, d = rchain(c["post"], m)
            m, ds = rsum(c["sum"], m)
            d = ds @ d
            m, dp = rchain(c["pre"], m)
            return m, dp @ d

        judge(ctx, e, ref, n, 3)
    elif k == "sumchain":
        x, y = c["x"], c["y"]
        e = maps.SumMap([mk(x[0]) * mk(x[1]), mk(y[0]) * mk(y[1])])
        judge(ctx, e, lambda m: rsum([x, y], m), ALPHA[x[1]][1], 4)
    elif k == "badsum":
        a, b = c["ch"]
        ctx.raises(lambda: maps.SumMap([mk(a), mk(b)]), ValueError, "accepted-sum-mismatch", f"{a}+{b}")
        ctx.raises(lambda: mk(a) + mk(b), ValueError, "accepted-sum-mismatch", f"{a}+{b}")
