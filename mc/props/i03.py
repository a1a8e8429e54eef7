"""I03: regularization functions on every active-cell mask of small meshes."""
import itertools

import numpy as np
import scipy.sparse as sp
import discretize
from simpeg import maps, regularization as rg

from mc.zoo.common import vec, mat
from mc.zoo.regref import Grid, Term, lp_weights

ID = "I03"
LEVEL = "model_checking"
RULE = (
    "Every active-cell mask of small 1D/2D/3D tensor meshes x every regularization class and option (reference model, reference in smooth, cell and face "
    "weights, mapping, radian units, norms, gradient type, alphas and length scales). Value, gradient, Hessian and Hessian product are compared with a "
    "loop-written sum over cells and over pairs of adjacent active cells; joint measures with their definition summed cell by cell and with differences; "
    "fully refined tree meshes with the tensor mesh of the same cells; general tree meshes by differences."
)
BOUNDS = {"quick": "all masks on 4 / 3x2 cells, 40 masks on 2x2x2 cells", "thorough": "all masks on 5 / 3x3 / 2x2x2 cells"}
ASSUMPTIONS = ["tolerance 1e-9 relative; differences 1e-6"]
CHUNK = 4
CASE_TIMEOUT = 600

H = {
    1: [np.r_[1.0, 2.0, 1.5, 0.7, 1.1]],
    2: [np.r_[1.0, 2.0, 1.5], np.r_[0.8, 1.3, 0.9]],
    3: [np.r_[1.0, 2.0], np.r_[0.8, 1.3], np.r_[1.7, 0.9]],
}


def hs(dim, tier):
    h = H[dim]
    if tier == "quick":
        return [h[0][:4]] if dim == 1 else ([h[0], h[1][:2]] if dim == 2 else h)
    return h


def masks(dim, tier):
    n = int(np.prod([len(h) for h in hs(dim, tier)]))
    out = [None]
    for b in range(1, 2**n):
        if tier == "quick" and dim == 3 and b % 7 not in (0, 1) and bin(b).count("1") not in (1, 2, 7, 8):
            continue
        out.append([(b >> i) & 1 for i in range(n)])
    return out


def cases(tier, seed):
    for dim in (1, 2, 3):
        for mk in masks(dim, tier):
            for fam in ("l2", "wls", "sparse", "joint", "vector", "full"):
                if dim == 1 and fam in ("vector", "full"):
                    continue
                if mk is not None and sum(mk) == 0:
                    continue
                yield dict(dim=dim, mask=mk, fam=fam, tier=tier)
    for fam in ("l2", "wls", "sparse", "joint"):
        for mesh in ("tree2", "tree3", "tree2u", "tree3u"):
            for mk in ("none", "half", "odd"):
                yield dict(mesh=mesh, mk=mk, fam=fam, tier=tier, dim=0, mask=None)


def mapping_of(kind, n):
    """name -> (simpeg map, f, jac, n_params)"""
    if kind == "id":
        return maps.IdentityMap(nP=n), (lambda m: m), (lambda m: np.eye(n)), n
    if kind == "exp":
        return maps.ExpMap(nP=n), np.exp, (lambda m: np.diag(np.exp(m))), n
    A = mat(n, n + 1, 3)
    return maps.LinearMap(sp.csr_matrix(A)), (lambda m: A @ m), (lambda m: A), n + 1


def compare(ctx, obj, terms, mults, m, tag, hess=True):
    v = vec(m.size, 77)
    val = sum(a * t.value(m) for a, t in zip(mults, terms))
    der = sum((a * t.deriv(m) for a, t in zip(mults, terms)), np.zeros(m.size))
    d2 = sum((a * t.deriv2(m) for a, t in zip(mults, terms)), np.zeros((m.size, m.size)))
    sc = 1e-6
    ctx.close(float(obj(m)), val, "value", rtol=1e-9, scale=sc, msg=tag)
    ctx.close(np.asarray(obj.deriv(m)) + np.zeros(m.size), der, "deriv", rtol=1e-9, scale=sc, msg=tag)
    ctx.close(np.asarray(obj.deriv2(m, v)) + np.zeros(m.size), d2 @ v, "deriv2-v", rtol=1e-9, scale=sc, msg=tag)
    if hess:
        Hm = obj.deriv2(m)
        Hm = Hm.toarray() if sp.issparse(Hm) else np.asarray(Hm) + np.zeros((m.size, m.size))
        ctx.close(Hm, d2, "deriv2", rtol=1e-9, scale=sc, msg=tag)
    ctx.step(4)
    ctx.outcome([float("%.8g" % val)])


def l2(c, ctx, hh, mesh, mask):
    g = Grid(hh, mask)
    opts = list(itertools.product(("id", "exp", "lin"), (0, 1), (0, 1), ("none", "cell", "face", "both")))
    kinds = [("small", None)] + [(k, d) for d in range(g.dim) for k in ("first", "second")]
    for kind, d in kinds:
        for mp, ref, ins, wt in opts:
            if kind == "small" and (ins or wt in ("face", "both")):
                continue
            if kind == "second" and wt in ("face", "both"):
                continue
            for rad in (0, 1):
                if rad and (mp != "id" or kind == "small"):
                    continue
                M, F, Jf, nP = mapping_of(mp, g.n)
                t = Term(g, kind, d)
                t.map, t.jac, t.radian = F, Jf, bool(rad)
                t.insmooth = bool(ins)
                kw = dict(mapping=M)
                if mask is not None:
                    kw["active_cells"] = np.array(mask, bool)
                if ref:
                    t.ref = vec(nP, 5)
                    kw["reference_model"] = t.ref.copy()
                if rad:
                    kw["units"] = "radian"
                if wt in ("cell", "both"):
                    t.weights["mine"] = vec(g.n, 6, 0.5, 2)
                if wt in ("face", "both"):
                    if mask is None:
                        continue  # with no mask the boundary faces count too
                    t.faces["fmine"] = vec(len(g.pairs[d]), 7, 0.5, 2)
                    if len(g.pairs[d]) == g.n:
                        continue  # ambiguous size
                w = {k: v.copy() for k, v in list(t.weights.items()) + list(t.faces.items()) if k != "volume"}
                if w:
                    kw["weights"] = w
                if kind == "small":
                    obj = rg.Smallness(mesh, **kw)
                else:
                    cls = rg.SmoothnessFirstOrder if kind == "first" else rg.SmoothnessSecondOrder
                    obj = cls(mesh, orientation="xyz"[d], reference_model_in_smooth=bool(ins), **kw)
                m = vec(nP, 8) * (4.0 if rad else 1.0)
                compare(ctx, obj, [t], [1.0], m, f"{kind}{d} {mp} ref{ref} ins{ins} {wt} rad{rad}")


def wls(c, ctx, hh, mesh, mask):
    g = Grid(hh, mask)
    base = g.minlen
    ax = "xyz"[: g.dim]
    variants = [
        {},
        dict(alpha_s=0.3, **{f"alpha_{a}": 0.5 + i for i, a in enumerate(ax)}),
        dict(alpha_s=0.0, **{f"length_scale_{a}": 0.5 + i for i, a in enumerate(ax)}, **{f"alpha_{a}{a}": 0.2 + i for i, a in enumerate(ax)}),
        dict(alpha_s=2, **{f"length_scale_{a}": 0.5 + i for i, a in enumerate(ax)}, **{f"alpha_{a}{a}": None for i, a in enumerate(ax)}),
    ]
    for var in variants:
        for ref in (0, 1, 2):
            for ins in (False, True):
                for wt in (0, 1):
                    for mp in ("id", "exp"):
                        M, F, Jf, nP = mapping_of(mp, g.n)
                        kw = dict(var, mapping=M, reference_model_in_smooth=ins)
                        if mask is not None:
                            kw["active_cells"] = np.array(mask, bool)
                        refv = None
                        if ref == 1:
                            refv = vec(nP, 5)
                            kw["reference_model"] = refv.copy()
                        elif ref == 2:
                            refv = np.full(nP, 0.7)
                            kw["reference_model"] = 0.7
                        if wt:
                            kw["weights"] = dict(mine=vec(g.n, 6, 0.5, 2))
                        obj = rg.WeightedLeastSquares(mesh, **kw)
                        terms, mults = [], []
                        for kind, d in [("small", None)] + [(k, d) for d in range(g.dim) for k in ("first", "second")]:
                            t = Term(g, kind, d)
                            t.map, t.jac, t.ref, t.insmooth = F, Jf, refv, ins
                            if wt:
                                t.weights["mine"] = vec(g.n, 6, 0.5, 2)
                            terms.append(t)
                            if kind == "small":
                                mults.append(float(var.get("alpha_s", 1.0)))
                                continue
                            a = ax[d]
                            ls = var.get(f"length_scale_{a}", 1.0)
                            al = var.get(f"alpha_{a}", (ls * base) ** 2)
                            if kind == "first":
                                mults.append(al)
                            else:
                                q = var.get(f"alpha_{a}{a}", 0.0)
                                mults.append((ls * base) ** 4 if q is None else q)
                        ctx.check(obj.nP == nP, "nP", f"{obj.nP} {nP}")
                        compare(ctx, obj, terms, mults, vec(nP, 8), f"wls {sorted(var)} ref{ref} ins{ins} w{wt} {mp}")


def sparse_terms(g, obj_opts, m_upd, refv, ins, F=None, Jf=None):
    norms, gt, scaled, eps = obj_opts
    terms = []
    for i, (kind, d) in enumerate([("small", None)] + [("first", d) for d in range(g.dim)]):
        t = Term(g, kind, d)
        t.ref, t.insmooth = refv, ins
        terms.append(t)
    if m_upd is not None:
        fs = [t.f(m_upd) for t in terms]
        if gt == "total":
            tot = np.zeros(g.n)
            for d in range(g.dim):
                # faces to cells: half of each adjacent interior face
                A = 0.5 * (g.avg(d).T > 0)
                tot += np.abs(A @ fs[1 + d])
            fs = [fs[0]] + [g.avg(d) @ tot for d in range(g.dim)]
        for i, t in enumerate(terms):
            t.faces["irls"] = lp_weights(fs[i], norms[i], eps, scaled)
    return terms


def sparse(c, ctx, hh, mesh, mask):
    g = Grid(hh, mask)
    if mask is None:
        return  # masks include the full one; without a mask boundary faces take part in the norms' shapes
    ax = "xyz"[: g.dim]
    for norms in ([2] * 4, [0, 1, 2, 0.5], [1, 0, 0.3, 1.5]):
        norms = norms[: g.dim + 1]
        for gt in ("total", "components"):
            for scaled in (True, False):
                for eps in (1e-2, 0.3):
                    for ref, ins in ((0, False), (1, False), (1, True)):
                        refv = vec(g.n, 5) if ref else None
                        kw = dict(active_cells=np.array(mask, bool), norms=norms, gradient_type=gt, irls_scaled=scaled, irls_threshold=eps,
                                  reference_model_in_smooth=ins)
                        if ref:
                            kw["reference_model"] = refv.copy()
                        obj = rg.Sparse(mesh, **kw)
                        mults = [1.0] + [g.minlen**2] * g.dim
                        m = vec(g.n, 8)
                        compare(ctx, obj, sparse_terms(g, (norms, gt, scaled, eps), None, refv, ins), mults, m, f"sparse-l2 {norms} {gt}", hess=False)
                        for k in (20, 21):
                            mu = vec(g.n, k)
                            obj.update_weights(mu)
                            compare(ctx, obj, sparse_terms(g, (norms, gt, scaled, eps), mu, refv, ins), mults, m,
                                    f"sparse {norms} {gt} scaled={scaled} eps={eps} ref{ref}{ins}", hess=(k == 21))


FDC = {"quick": 4, "thorough": None}


def fd_check(ctx, obj, m, tag, hessian=True, tol=2e-6, cols=None):
    """gradient and Hessian against differences; cols limits the differences to directions spread over the parameters"""
    n = m.size
    h = 1e-5
    val = float(obj(m))
    der = np.asarray(obj.deriv(m)) + np.zeros(n)
    if cols is None or cols >= n:
        E = np.eye(n)
    else:
        E = np.array([vec(n, 300 + k) for k in range(cols)])
    fd = np.array([(obj(m + h * e) - obj(m - h * e)) / (2 * h) for e in E])
    sc = max(np.abs(fd).max(), abs(val), 1e-6)
    ctx.close(E @ der, fd, "deriv-fd", rtol=tol, scale=sc, msg=tag)
    if hessian:
        H = np.array([np.asarray(obj.deriv2(m, e)) + np.zeros(n) for e in E]).T
        fd2 = np.array([((np.asarray(obj.deriv(m + h * e)) - np.asarray(obj.deriv(m - h * e))) / (2 * h)) for e in E]).T
        ctx.close(H, fd2, "deriv2-fd", rtol=tol, scale=max(np.abs(fd2).max(), 1e-2), msg=tag)
        H2 = obj.deriv2(m)
        H2 = H2.toarray() if sp.issparse(H2) else np.asarray(H2)
        ctx.close(H2 @ E.T, H, "deriv2-matrix", rtol=1e-8, scale=max(np.abs(H).max(), 1e-4), msg=tag)
    ctx.step(2 * len(E))
    ctx.outcome([float("%.8g" % val)])


def cellgrads(g, x):
    """per cell: sum over adjacent interior faces of (weight 1/2) * face gradient products"""
    return [g.G(d) @ x for d in range(g.dim)]


def half(g, d):
    return 0.5 * (g.avg(d).T > 0)


def joint(c, ctx, hh, mesh, mask):
    g = Grid(hh, mask)
    n = g.n
    wires = maps.Wires(("a", n), ("b", n))
    kw = {} if mask is None else dict(active_cells=np.array(mask, bool))
    m = vec(2 * n, 8)
    a, b = m[:n], m[n:]
    dot = lambda x, y: sum(half(g, d) @ (gx * gy) for d, (gx, gy) in enumerate(zip(cellgrads(g, x), cellgrads(g, y))))
    if g.dim > 1:
        for ah in (True, False):
            obj = rg.CrossGradient(mesh, wires, approx_hessian=ah, **kw)
            want = float(np.sum(g.vol * (dot(a, a) * dot(b, b) - dot(a, b) ** 2)))
            ctx.close(float(obj(m)), want, "crossgrad", rtol=1e-9, scale=1e-4)
            fd_check(ctx, obj, m, f"crossgrad {ah}", hessian=not ah)
            v = vec(2 * n, 9)
            Hm = obj.deriv2(m)
            ctx.close(Hm @ v, obj.deriv2(m, v), "crossgrad-H", rtol=1e-9, scale=1e-4)
            # pointwise cross product
            gr = [np.array([half(g, d) @ (g.G(d) @ x) for d in range(g.dim)]).T for x in (a, b)]
            cp = np.cross(gr[0], gr[1])
            if g.dim == 3:
                cp = np.linalg.norm(cp, axis=1)
            ctx.close(obj.calculate_cross_gradient(m), cp, "crossgrad-field", rtol=1e-9, scale=1e-8)
            if mask is None or sum(mask) > 1:
                un = []
                for G_ in gr:
                    nm = np.linalg.norm(G_, axis=1)
                    bad = nm <= nm.max() * 1e-6
                    un.append(np.where(bad[:, None], 0.0, G_ / np.where(bad, 1, nm)[:, None]))
                cp = np.cross(*un)
                if g.dim == 3:
                    cp = np.linalg.norm(cp, axis=1)
                ctx.close(obj.calculate_cross_gradient(m, normalized=True), cp, "crossgrad-normalized", rtol=1e-8, scale=1e-8)
    for wt in (0, 1):
        obj = rg.JointTotalVariation(mesh, wires, eps=1e-2, **kw)
        w = np.ones(n)
        if wt:
            w = vec(n, 6, 0.5, 2)
            obj.set_weights(mine=w.copy())
        want = float(np.sum(g.vol * np.sqrt(w**2 * (dot(a, a) + dot(b, b)) + 1e-2)))
        ctx.close(float(obj(m)), want, "jtv", rtol=1e-9, scale=1e-8, msg=f"w{wt}")
        fd_check(ctx, obj, m, f"jtv w{wt}")
    for k in ([1.0, -1.0, 0.0], [0.5, 2.0, -0.3]):
        obj = rg.LinearCorrespondence(mesh, wires, coefficients=np.array(k), **kw)
        ctx.close(float(obj(m)), float(np.sum((k[0] * a + k[1] * b + k[2]) ** 2)), "lincorr", rtol=1e-10)
        fd_check(ctx, obj, m, "lincorr")


def vector(c, ctx, hh, mesh, mask):
    g = Grid(hh, mask)
    if mask is None:
        return
    n, dim = g.n, g.dim
    act = np.array(mask, bool)
    m = vec(n * dim, 8)
    rd = mat(n, dim, 4)
    for mode in ("tile", "full"):
        R = np.tile(rd[0], (n, 1)) if mode == "tile" else rd
        for wt in (0, 1):
            kw = dict(weights=dict(mine=vec(n, 6, 0.5, 2))) if wt else {}
            obj = rg.CrossReferenceRegularization(mesh, ref_dir=rd[0] if mode == "tile" else rd, active_cells=act,
                                                  mapping=maps.IdentityMap(nP=n * dim), **kw)
            X = m.reshape((n, dim), order="F")
            w = g.vol * (vec(n, 6, 0.5, 2) if wt else 1)
            cr = np.cross(X, R) if dim == 3 else (X[:, 0] * R[:, 1] - X[:, 1] * R[:, 0])[:, None]
            ctx.close(float(obj(m)), float(np.sum(w[:, None] * np.asarray(cr) ** 2)), "crossref", rtol=1e-9, msg=f"{mode} w{wt}")
            fd_check(ctx, obj, m, "crossref", cols=FDC[c["tier"]])
    for ref, ins, wt in itertools.product((0, 1), (False, True), (0, 1, 2, 3)):
        if wt > 1 and (ref or ins):
            continue
        refv = vec(n * dim, 5) if ref else None
        kw = dict(reference_model_in_smooth=ins)
        if ref:
            kw["reference_model"] = refv.copy()
        W2 = 0.5 + np.abs(mat(n, dim, 12))
        cw = [np.ones(n), vec(n, 6, 0.5, 2), np.linalg.norm(W2, axis=1), np.linalg.norm(W2, axis=1)][wt]
        if wt:
            kw["weights"] = dict(mine=[None, vec(n, 6, 0.5, 2), W2.copy(), W2.flatten(order="F")][wt])
        obj = rg.VectorAmplitude(mesh, mapping=maps.IdentityMap(nP=n * dim), active_cells=act, **kw)

        def ref_value(m, irls=None):
            tot = 0.0
            fs = []
            w = g.vol * 1.0
            x = m - refv if ref else m
            fs.append(np.linalg.norm(x.reshape((n, dim), order="F"), axis=1))
            ws = [w * cw]
            x = m - refv if (ref and ins) else m
            for d in range(dim):
                fs.append(np.linalg.norm(g.G(d) @ x.reshape((n, dim), order="F"), axis=1))
                ws.append((g.avg(d) @ w) * (g.avg(d) @ cw))
            al = [1.0] + [g.minlen**2] * dim
            for i in range(dim + 1):
                q = ws[i] if irls is None else ws[i] * irls[i]
                tot += al[i] * np.sum(q * fs[i] ** 2)
            return tot, fs

        want, _ = ref_value(m)
        ctx.close(float(obj(m)), want, "vecamp", rtol=1e-9, msg=f"{ref}{ins}{wt}")
        if (ref, ins, wt) in ((0, False, 0), (1, True, 1)) or c["tier"] == "thorough":
            fd_check(ctx, obj, m, f"vecamp {ref}{ins}{wt}", cols=FDC[c["tier"]])
        for gt in ("total", "components"):
            obj.gradient_type = gt
            obj.norms = [0.5, 1.0, 0.0, 1.5][: dim + 1]
            obj.irls_threshold = 0.1
            mu = vec(n * dim, 21)
            obj.update_weights(mu)
            _, fs = ref_value(mu)
            if gt == "total":
                tot = sum(half(g, d) @ fs[1 + d] for d in range(dim))
                fs = [fs[0]] + [g.avg(d) @ tot for d in range(dim)]
            irls = [lp_weights(f, p, 0.1, True) for f, p in zip(fs, obj.norms)]
            ctx.close(float(obj(m)), ref_value(m, irls)[0], "vecamp-irls", rtol=1e-9, msg=f"{gt} {ref}{ins}{wt}")
            if (ref, ins, wt) == (1, True, 1) or c["tier"] == "thorough":
                fd_check(ctx, obj, m, f"vecamp-irls {gt}", cols=FDC[c["tier"]])


def full(c, ctx, hh, mesh, mask):
    g = Grid(hh, mask)
    n, dim = g.n, g.dim
    act = {} if mask is None else dict(active_cells=np.array(mask, bool))
    m = vec(n, 8)
    th = 0.6
    R = np.eye(dim)
    R[:2, :2] = [[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]
    for dirs in (None, R, "percell"):
        for ref in (0, 1):
            for wt in (0, 1):
                al = np.arange(1.0, dim + 1)
                kw = dict(act, alphas=al)
                if dirs is not None:
                    kw["reg_dirs"] = np.tile(R, (n, 1, 1)) if isinstance(dirs, str) else dirs
                if ref:
                    kw["reference_model"] = vec(n, 5)
                if wt:
                    kw["weights"] = dict(mine=vec(n, 6, 0.5, 2))
                obj = rg.SmoothnessFullGradient(mesh, **kw)
                x = m - vec(n, 5) if ref else m
                w = vec(n, 6, 0.5, 2) if wt else np.ones(n)
                if dirs is None:
                    want = sum(al[d] * np.sum((half(g, d).T @ (g.vol * w)) * (g.G(d) @ x) ** 2) for d in range(dim))
                    ctx.close(float(obj(m)), float(want), "fullgrad", rtol=1e-9, scale=1e-8, msg=f"ref{ref} w{wt}")
                fd_check(ctx, obj, m, f"fullgrad {type(dirs)} ref{ref} w{wt}", cols=FDC[c["tier"]])
                ctx.check(abs(float(rg.SmoothnessFullGradient(mesh, **dict(kw, reference_model=None))(np.ones(n) * 3))) < 1e-12, "fullgrad-const")


def other_mesh(c):
    if c["mesh"] == "tree2":
        m = discretize.TreeMesh([4, 4], origin="00")
        m.refine(1, finalize=False)
        m.insert_cells(np.array([[0.1, 0.1]]), [2], finalize=True)
    elif c["mesh"] == "tree3":
        m = discretize.TreeMesh([4, 4, 4], origin="000")
        m.refine(1, finalize=False)
        m.insert_cells(np.array([[0.1, 0.1, 0.1]]), [2], finalize=True)
    elif c["mesh"] == "tree2u":
        m = discretize.TreeMesh([[(2.0, 4)], [(3.0, 4)]], origin="00")
        m.refine(2)
    elif c["mesh"] == "tree3u":
        m = discretize.TreeMesh([[(2.0, 2)], [(3.0, 2)], [(1.5, 2)]], origin="000")
        m.refine(1)
    else:
        m = discretize.CylindricalMesh([np.r_[1.0, 2, 1.5], 1, np.r_[1.0, 0.7, 1.3]], origin="000")
    return m


def others(c, ctx):
    mesh = other_mesh(c)
    nC = mesh.n_cells
    act = {"none": None, "half": mesh.cell_centers[:, -1] < np.median(mesh.cell_centers[:, -1]) + 1e-9,
           "odd": np.arange(nC) % 3 != 1}[c["mk"]]
    n = nC if act is None else int(act.sum())
    kw = {} if act is None else dict(active_cells=act)
    dims = "xyz"[: mesh.dim] if c["mesh"] != "cyl" else "xz"
    objs = []
    if c["fam"] == "l2":
        objs = [rg.Smallness(mesh, **kw)] + [cls(mesh, orientation=o, **kw) for o in dims for cls in (rg.SmoothnessFirstOrder, rg.SmoothnessSecondOrder)]
    elif c["fam"] == "wls" and c["mesh"] != "cyl":
        objs = [rg.WeightedLeastSquares(mesh, alpha_xx=0.4, reference_model=vec(n, 5), reference_model_in_smooth=True, weights=dict(w=vec(n, 6, 0.5, 2)), **kw)]
    elif c["fam"] == "sparse" and c["mesh"] != "cyl":
        o = rg.Sparse(mesh, norms=[0, 1, 0.5, 2][: mesh.dim + 1], irls_threshold=0.1, **kw)
        o.update_weights(vec(n, 21))
        objs = [o]
    elif c["fam"] == "joint" and c["mesh"] != "cyl":
        w = maps.Wires(("a", n), ("b", n))
        objs = [rg.CrossGradient(mesh, w, approx_hessian=False, **kw), rg.JointTotalVariation(mesh, w, eps=1e-2, **kw)]
    for o in objs:
        m = vec(n * (2 if c["fam"] == "joint" else 1), 8)
        fd_check(ctx, o, m, f"{c['mesh']} {type(o).__name__}")
        if c["fam"] in ("l2",) and not isinstance(o, rg.Smallness):
            ctx.check(abs(float(o(np.full(n, 2.5)))) < 1e-12, "constant", "smoothness of a constant model")
    if c["mesh"].endswith("u"):
        # the same cells as a tensor mesh, in the tree's cell order
        tm = discretize.TensorMesh(mesh.h, origin=mesh.origin)
        key = lambda x: tuple(np.round(x, 6))
        pos = {key(x): i for i, x in enumerate(tm.cell_centers)}
        perm = np.array([pos[key(x)] for x in mesh.cell_centers])  # tensor index of tree cell
        amask = np.ones(nC, bool) if act is None else act
        tmask = np.zeros(nC, bool)
        tmask[perm[amask]] = True
        order = np.argsort(perm[amask])  # tree active order -> tensor active order
        if c["fam"] == "joint":
            return
        kt = dict(active_cells=tmask)
        if c["fam"] == "l2":
            pairs = [(rg.Smallness(mesh, **kw), rg.Smallness(tm, **kt))]
            pairs += [(cls(mesh, orientation=o, **kw), cls(tm, orientation=o, **kt)) for o in dims for cls in (rg.SmoothnessFirstOrder, rg.SmoothnessSecondOrder)]
        elif c["fam"] == "wls":
            pairs = [(rg.WeightedLeastSquares(mesh, alpha_xx=0.4, **kw), rg.WeightedLeastSquares(tm, alpha_xx=0.4, **kt))]
        else:
            a, b = (rg.Sparse(x, norms=[0, 1, 0.5, 2][: mesh.dim + 1], irls_threshold=0.1, gradient_type="components", **k) for x, k in ((mesh, kw), (tm, kt)))
            mu = vec(n, 21)
            a.update_weights(mu)
            b.update_weights(mu[order])
            pairs = [(a, b)]
        m = vec(n, 8)
        for a, b in pairs:
            ctx.close(float(a(m)), float(b(m[order])), "tree-vs-tensor", rtol=1e-9, scale=1e-8, msg=f"{type(a).__name__} {getattr(a, 'orientation', '')}")
            ctx.close(np.asarray(a.deriv(m))[order], np.asarray(b.deriv(m[order])), "tree-vs-tensor-deriv", rtol=1e-9, scale=1e-8)


def run(c, ctx):
    ctx.state({k: c[k] for k in c if k != "tier"})
    if c["dim"] == 0:
        return others(c, ctx)
    hh = hs(c["dim"], c["tier"])
    mesh = discretize.TensorMesh(hh)
    {"l2": l2, "wls": wls, "sparse": sparse, "joint": joint, "vector": vector, "full": full}[c["fam"]](c, ctx, hh, mesh, c["mask"])
