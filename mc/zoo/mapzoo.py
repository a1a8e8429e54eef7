"""Every concrete map class with its option space on tiny meshes, plus an
independent reference for the value of each map."""

import itertools

import numpy as np
import scipy.sparse as sp
import discretize
from scipy.constants import mu_0
from simpeg import maps

from .common import vec, mat, tensor3


def mesh_of(name):
    if name == "t1":
        return discretize.TensorMesh([np.r_[1.0, 2.0, 1.5, 0.7]], origin=[-2.0])
    if name == "t2":
        return discretize.TensorMesh([np.r_[1.0, 1.3, 0.9], np.r_[0.8, 1.1, 1.2, 0.9]], origin=[-1.4, -2.1])
    if name == "t3":
        return discretize.TensorMesh(
            [np.r_[1.0, 1.3], np.r_[0.8, 1.1, 1.2], np.r_[0.9, 1.4, 0.7, 1.0]], origin=[-1.1, -1.6, -2.0]
        )
    if name == "cyl":
        return discretize.CylindricalMesh([np.r_[0.5, 0.6, 0.7], 1, np.r_[0.9, 1.4, 0.7, 1.0]], origin=[0, 0, -2.0])
    if name == "cyl3":
        return discretize.CylindricalMesh([np.r_[0.5, 0.6], 3, np.r_[0.9, 1.4]], origin=[0, 0, -1.0])
    if name == "tree":
        m = discretize.TreeMesh([[(1.0, 4)], [(1.0, 4)]], origin=[-2.0, -2.0])
        m.refine(1, finalize=False)
        m.insert_cells(np.array([[-1.5, -1.5]]), [2], finalize=True)
        return m
    if name == "tree3":
        m = discretize.TreeMesh([[(1.0, 4)]] * 3, origin=[-2.0, -2.0, -2.0])
        m.refine(1, finalize=False)
        m.insert_cells(np.array([[-1.5, -1.5, -1.5]]), [2], finalize=True)
        return m
    raise KeyError(name)


def act_of(mesh, kind):
    n = mesh.n_cells
    if kind is None:
        return None
    if kind == "bool":
        a = vec(n, 21) > -0.2
        a[0] = False
        a[-1] = True
        return a
    if kind == "int":
        return np.where(act_of(mesh, "bool"))[0]
    if kind == "one":
        a = np.zeros(n, dtype=bool)
        a[n // 2] = True
        return a
    raise KeyError(kind)


def at(x, s):
    return np.arctan(s * x) / np.pi + 0.5


BUILD = {}
LIST = []


def reg(name, **opts):
    """Register builder; LIST gets one config per element of the option product."""

    def deco(fn):
        BUILD[name] = fn
        keys = list(opts)
        for vals in itertools.product(*[opts[k] for k in keys]):
            LIST.append(dict(map=name, **dict(zip(keys, vals))))
        return fn

    return deco


def _np(c, mesh):
    """nP / mesh constructor kwargs"""
    return dict(nP=4) if c["by"] == "nP" else dict(mesh=mesh_of("t1"))


BY = ["nP", "mesh"]


@reg("identity", by=BY)
def _(c):
    return maps.IdentityMap(**_np(c, None)), lambda m: m, (-2, 2), {}


@reg("exp", by=BY)
def _(c):
    return maps.ExpMap(**_np(c, None)), np.exp, (-2, 2), dict(inv=1)


@reg("reciprocal", by=BY)
def _(c):
    return maps.ReciprocalMap(**_np(c, None)), lambda m: 1 / m, (0.5, 3), dict(inv=1)


@reg("log", by=BY)
def _(c):
    return maps.LogMap(**_np(c, None)), np.log, (0.5, 3), dict(inv=1)


@reg("logistic", by=BY, bounds=["default", "scalar", "vector", "mixed", "reversed"])
def _(c):
    lo, hi = {
        "default": (0, 1),
        "scalar": (-1.5, 2.5),
        "vector": (np.r_[-1.0, 0.2, 0.5, -3.0], np.r_[1.0, 2.0, 4.0, -1.0]),
        "mixed": (-4.0, np.r_[1.0, 2.0, 4.0, -1.0]),
        "reversed": (2.0, -1.0),
    }[c["bounds"]]
    kw = {} if c["bounds"] == "default" else dict(lower_bound=lo, upper_bound=hi)
    return (
        maps.LogisticSigmoidMap(**_np(c, None), **kw),
        lambda m: lo + (np.asarray(hi) - lo) / (1 + np.exp(-m)),
        (-2, 2),
        dict(inv=1),
    )


@reg("chi", by=BY)
def _(c):
    return maps.ChiMap(**_np(c, None)), lambda m: mu_0 * (1 + m), (0, 2), dict(inv=1)


@reg("effsus", by=BY, amp=[50000.0, 3, -2.5])
def _(c):
    a = c["amp"]
    return maps.EffectiveSusceptibilityMap(a, **_np(c, None)), lambda m: a * m, (-1, 2), dict(inv=1)


@reg("murel", by=BY)
def _(c):
    return maps.MuRelative(**_np(c, None)), lambda m: mu_0 * m, (0.5, 2), dict(inv=1)


@reg("weighting", by=BY, w=["none", "vec"])
def _(c):
    w = None if c["w"] == "none" else np.r_[0.5, 2.0, 3.0, 0.25]
    ww = np.ones(4) if w is None else w
    return maps.Weighting(weights=w, **_np(c, None)), lambda m: ww * m, (-1, 2), dict(inv=1)


@reg("complex", by=["nP", "mesh", "both"])
def _(c):
    kw = dict(nP=8) if c["by"] == "nP" else dict(mesh=mesh_of("t1"))
    if c["by"] == "both":
        kw["nP"] = 8
    return maps.ComplexMap(**kw), lambda m: m[:4] + 1j * m[4:], (-1, 2), {}


@reg("scemt", alpha=[(1.0, 1.0), (0.3, 1.0), (4.0, 0.2)], sig=[(0.1, 2.0), (5.0, 0.3)])
def _(c):
    mp = maps.SelfConsistentEffectiveMedium(
        nP=4, sigma0=c["sig"][0], sigma1=c["sig"][1], alpha0=c["alpha"][0], alpha1=c["alpha"][1],
        rel_tol=1e-11, maxIter=2000,
    )
    return mp, None, (0.1, 0.9), dict(rtol=1e-7, inv=1, scemt=1)


@reg("linear", kind=["dense", "csr", "csc"], b=[0, 1])
def _(c):
    A = mat(3, 4, 5)
    b = vec(3, 6) if c["b"] else None
    AA = {"dense": A, "csr": sp.csr_matrix(A), "csc": sp.csc_matrix(A)}[c["kind"]]
    return maps.LinearMap(AA, b=b), lambda m: A @ m + (0 if b is None else b), (-2, 2), {}


@reg("spherical", n=[1, 2, 3])
def _(c):
    n = c["n"]

    def ref(m):
        a, t, p = m[:n] + 1e-8, m[n : 2 * n], m[2 * n :]
        return np.r_[a * np.cos(t) * np.cos(p), a * np.cos(t) * np.sin(p), a * np.sin(t)]

    return maps.SphericalSystem(nP=3 * n), ref, (0.2, 1.3), dict(inv=1e-6)


@reg("full", mesh=["t1", "t2", "t3", "tree"])
def _(c):
    me = mesh_of(c["mesh"])
    return maps.SurjectFull(me), lambda m: np.full(me.n_cells, m[0]), (-2, 2), {}


@reg("vert1d", mesh=["t1", "t2", "t3", "cyl", "cyl3"])
def _(c):
    me = mesh_of(c["mesh"])
    cc = me.cell_centers.reshape(me.n_cells, -1)[:, -1]
    zs = np.unique(np.round(cc, 9))

    def ref(m):
        return m[np.searchsorted(zs, np.round(cc, 9))]

    return maps.SurjectVertical1D(me), ref, (-2, 2), {}


@reg("2dto3d", normal=["x", "y", "z", "X", "Y", "Z", "default"])
def _(c):
    me = mesh_of("t3")
    nrm = "y" if c["normal"] == "default" else c["normal"].lower()
    kw = {} if c["normal"] == "default" else dict(normal=c["normal"])
    nx, ny, nz = me.shape_cells

    def ref(m):
        out = []
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    out.append(m[{"x": j + ny * k, "y": i + nx * k, "z": i + nx * j}[nrm]])
        return np.array(out)

    return maps.Surject2Dto3D(me, **kw), ref, (-2, 2), {}


@reg("units", mesh=[None, "t2"], kind=["bool", "overlap", "gap", "single"])
def _(c):
    n = 12
    g = np.arange(n)
    ind = {
        "bool": [g % 3 == 0, g % 3 == 1, g % 3 == 2],
        "overlap": [g < 7, g > 4],
        "gap": [g < 3, (g > 5) & (g < 9)],
        "single": [g >= 0],
    }[c["kind"]]
    kw = {} if c["mesh"] is None else dict(mesh=mesh_of(c["mesh"]))

    def ref(m):
        out = np.zeros(n)
        for mi, i in zip(m, ind):
            out[i] += mi
        return out

    return maps.SurjectUnits([i.copy() for i in ind], **kw), ref, (-2, 2), {}


@reg("inject", mesh=["t1", "t2", "t3", "tree", "cyl"], act=["bool", "int", "one"], val=["default", "scalar", "vec"])
def _(c):
    me = mesh_of(c["mesh"])
    a = act_of(me, c["act"])
    mask = np.zeros(me.n_cells, dtype=bool)
    mask[a] = True
    v = {"default": 0.0, "scalar": -3.5, "vec": vec((~mask).sum(), 31)}[c["val"]]
    kw = {} if c["val"] == "default" else dict(value_inactive=v)

    def ref(m):
        out = np.zeros(me.n_cells)
        out[~mask] = v
        out[mask] = m
        return out

    return maps.InjectActiveCells(me, a, **kw), ref, (-2, 2), dict(inv="left")


@reg("projection", idx=["slice", "rev", "list", "repeat", "bool", "arr"])
def _(c):
    idx = {
        "slice": slice(1, 4),
        "rev": slice(None, None, -2),
        "list": [3, 0],
        "repeat": [2, 2, 0, 4],
        "bool": np.array([True, False, False, True, True]),
        "arr": np.array([4, 1, 2]),
    }[c["idx"]]
    return maps.Projection(5, idx), lambda m: m[idx], (-2, 2), {}


@reg("mesh2mesh", dim=["t1", "t2", "t3"], act=[None, "bool", "int"])
def _(c):
    m1 = mesh_of(c["dim"])
    m2 = discretize.TensorMesh([np.full(3, 1.1), np.full(2, 2.3), np.full(3, 1.4)][: m1.dim],
                               origin=[-1.7, -2.2, -2.1][: m1.dim])
    a = act_of(m1, c["act"])
    loc = m1.cell_centers if a is None else m1.cell_centers[a]
    P = m2.get_interpolation_matrix(loc.reshape(-1, m1.dim) if m1.dim > 1 else loc, "CC", zeros_outside=True)
    return maps.Mesh2Mesh([m1, m2], active_cells=a), lambda m: P @ m, (-2, 2), {}


@reg("tile", comp=[1, 3], act=["all", "bool"])
def _(c):
    g = mesh_of("tree")
    lo = discretize.TreeMesh([[(1.0, 4)], [(1.0, 4)]], origin=[-2.0, -2.0])
    lo.refine(1, finalize=True)
    a = np.ones(g.n_cells, dtype=bool) if c["act"] == "all" else act_of(g, "bool")
    loc_cell = lo.get_containing_cells(g.cell_centers)
    active_loc = [i for i in range(lo.n_cells) if np.any(a[loc_cell == i])]
    na = a.sum()

    def ref(m):
        out = []
        for k in range(c["comp"]):
            full = np.zeros(g.n_cells)
            full[a] = m[k * na : (k + 1) * na]
            for i in active_loc:
                s = loc_cell == i
                out.append(np.sum(full[s] * g.cell_volumes[s]) / lo.cell_volumes[i])
        return np.array(out)

    return maps.TileMap(g, a, lo, components=c["comp"]), ref, (-2, 2), {}


@reg("circle", logs=[True, False], slope=[0.1, 2.0], mesh=["t2", "tree"])
def _(c):
    me = mesh_of(c["mesh"])

    def ref(m):
        s1, s2 = (np.exp(m[:2]) if c["logs"] else m[:2])
        r = np.linalg.norm(me.cell_centers - m[2:4], axis=1)
        return s1 + (s2 - s1) * at(r - m[4], c["slope"])

    return maps.ParametricCircleMap(me, logSigma=c["logs"], slope=c["slope"]), ref, [0.5, -0.7, 0.2, 0.3, 1.1], {}


@reg("poly2", logs=[True, False], normal=["X", "Y", "x", "y"], order=[0, 1, 3], act=[None, "bool", "int"])
def _(c):
    me = mesh_of("t2")
    a = act_of(me, c["act"])
    cc = me.cell_centers if a is None else me.cell_centers[a]
    ax = 0 if c["normal"].lower() == "x" else 1

    def ref(m):
        s1, s2 = (np.exp(m[:2]) if c["logs"] else m[:2])
        f = sum(ck * cc[:, 1 - ax] ** k for k, ck in enumerate(m[2:])) - cc[:, ax]
        return s1 + (s2 - s1) * at(f, 1.7)

    return (
        maps.ParametricPolyMap(me, c["order"], logSigma=c["logs"], normal=c["normal"], active_cells=a, slope=1.7),
        ref,
        (-0.6, 0.7),
        {},
    )


@reg("poly3", logs=[True, False], normal=["X", "Y", "Z"], order=[(1, 1), (0, 2), (2, 1)], act=[None, "bool"])
def _(c):
    me = mesh_of("t3")
    a = act_of(me, c["act"])
    cc = me.cell_centers if a is None else me.cell_centers[a]
    ax = "XYZ".index(c["normal"])
    p, q = [k for k in range(3) if k != ax]
    o = c["order"]

    def ref(m):
        s1, s2 = (np.exp(m[:2]) if c["logs"] else m[:2])
        C = m[2:].reshape((o[0] + 1, o[1] + 1), order="F")
        f = -cc[:, ax].copy()
        for i in range(o[0] + 1):
            for j in range(o[1] + 1):
                f += C[i, j] * cc[:, p] ** i * cc[:, q] ** j
        return s1 + (s2 - s1) * at(f, 1.7)

    return (
        maps.ParametricPolyMap(me, list(o), logSigma=c["logs"], normal=c["normal"], active_cells=a, slope=1.7),
        ref,
        (-0.6, 0.7),
        {},
    )


def _cc(me, a):
    cc = me.cell_centers.reshape(me.n_cells, -1)
    return cc if a is None else cc[a]


@reg("layer", mesh=["t2", "t3", "tree"], act=[None, "bool", "int"], slope=[None, 1.3])
def _(c):
    me = mesh_of(c["mesh"])
    a = act_of(me, c["act"])
    z = _cc(me, a)[:, -1]
    mp = maps.ParametricLayer(me, active_cells=a, **({} if c["slope"] is None else dict(slope=c["slope"])))
    s = c["slope"] or 1.0 / me.edge_lengths.min()

    def ref(m):
        L = at(z - (m[2] - m[3] / 2), s) * at(z - (m[2] + m[3] / 2), -s)
        return m[0] + (m[1] - m[0]) * L

    return mp, ref, [0.5, -0.7, 0.2, 1.1], {}


def _block(c, me, a, p, eps, s):
    cc = _cc(me, a)

    def ref(m):
        f = np.ones(len(cc))
        for d in range(me.dim):
            x0, dx = m[2 + 2 * d], m[3 + 2 * d]
            f -= (((cc[:, d] - x0) / (0.5 * dx)) ** 2 + eps**2) ** (p / 2)
        return m[0] + (m[1] - m[0]) * at(f, s)

    return ref, [0.5, -0.7, 0.13, 1.9, 0.21, 2.3, -0.1, 2.2][: 2 + 2 * me.dim]


@reg("block", mesh=["t1", "t2", "t3", "tree"], act=[None, "bool"], opt=[(1e-6, 10, None), (0.1, 4, 0.8)])
def _(c):
    me = mesh_of(c["mesh"])
    a = act_of(me, c["act"])
    eps, p, s = c["opt"]
    mp = maps.ParametricBlock(me, active_cells=a, epsilon=eps, p=p, **({} if s is None else dict(slope=s)))
    ref, m0 = _block(c, me, a, p, eps, s or 1.0 / me.edge_lengths.min())
    return mp, ref, m0, {}


@reg("ellipsoid", mesh=["t1", "t2", "t3"], act=[None, "bool"], sf=[1.0, 3.0])
def _(c):
    me = mesh_of(c["mesh"])
    a = act_of(me, c["act"])
    mp = maps.ParametricEllipsoid(me, active_cells=a, slopeFact=c["sf"])
    ref, m0 = _block(c, me, a, 2, 1e-6, c["sf"] / me.edge_lengths.min())
    return mp, ref, m0, {}


@reg("blockinlayer", mesh=["t2", "t3"], act=[None, "bool"], slope=[None, 1.3])
def _(c):
    me = mesh_of(c["mesh"])
    a = act_of(me, c["act"])
    cc = _cc(me, a)
    mp = maps.ParametricBlockInLayer(me, active_cells=a, **({} if c["slope"] is None else dict(slope=c["slope"])))
    s = c["slope"] or 1.0 / me.edge_lengths.min()
    z = cc[:, -1]

    def ref(m):
        L = at(z - (m[3] - m[4] / 2), s) * at(z - (m[3] + m[4] / 2), -s)
        lay = m[0] + (m[1] - m[0]) * L
        B = L.copy()
        for d in range(me.dim - 1):
            x0 = m[5 + d]
            dx = m[5 + (me.dim - 1) + d]
            B = B * at(cc[:, d] - (x0 - dx / 2), s) * at(cc[:, d] - (x0 + dx / 2), -s)
        return lay + (m[2] - lay) * B

    m0 = [0.5, -0.7, 1.3, 0.2, 1.1, 0.1, 1.2] if me.dim == 2 else [0.5, -0.7, 1.3, 0.2, 1.1, 0.1, -0.2, 1.2, 1.5]
    return mp, ref, m0, {}


@reg("casing", act=[None, "bool"], slope=[None, 1.3])
def _(c):
    me = mesh_of("cyl")
    a = act_of(me, c["act"])
    cc = _cc(me, a)
    mp = maps.ParametricCasingAndLayer(me, active_cells=a, **({} if c["slope"] is None else dict(slope=c["slope"])))
    s = c["slope"] or 1.0 / me.edge_lengths.min()
    r, z = cc[:, 0], cc[:, 2]

    def ref(m):
        L = at(z - (m[4] - m[5] / 2), s) * at(z - (m[4] + m[5] / 2), -s)
        lay = m[0] + (m[1] - m[0]) * L
        length = at(z - m[9], -s) * at(z - m[8], s)
        ra, rb = m[6] - m[7] / 2, m[6] + m[7] / 2
        cas = length * at(r - ra, s) * at(r - rb, -s)
        ins = length * at(r - ra, -s)
        return lay + (m[2] - lay) * cas + (m[3] - lay) * ins

    return mp, ref, [0.5, -0.7, 1.3, 0.9, 0.2, 1.1, 0.8, 0.5, -1.3, 1.2], {}


@reg("spline2", logs=[True, False], normal=["x", "y"], order=[1, 3])
def _(c):
    from scipy.interpolate import UnivariateSpline

    me = mesh_of("t2")
    pts = np.r_[-2.0, -0.8, 0.4, 1.3, 2.0]
    ax = 0 if c["normal"] == "x" else 1

    def ref(m):
        s1, s2 = (np.exp(m[:2]) if c["logs"] else m[:2])
        spl = UnivariateSpline(pts, m[2:], k=c["order"], s=0)
        f = spl(me.cell_centers[:, 1 - ax]) - me.cell_centers[:, ax]
        return s1 + (s2 - s1) * at(f, 1.7)

    return (
        maps.ParametricSplineMap(me, pts, order=c["order"], logSigma=c["logs"], normal=c["normal"], slope=1.7),
        ref,
        (-0.6, 0.7),
        {},
    )


@reg("spline3", logs=[True, False], order=[1, 3])
def _(c):
    from scipy.interpolate import UnivariateSpline

    me = mesh_of("t3")
    pts = np.r_[-2.0, -0.8, 0.4, 1.3, 2.0]

    def ref(m):
        s1, s2 = (np.exp(m[:2]) if c["logs"] else m[:2])
        sb = UnivariateSpline(pts, m[2:7], k=c["order"], s=0)
        st = UnivariateSpline(pts, m[7:], k=c["order"], s=0)
        X, Y, Z = me.cell_centers.T
        w = (Z + 1.5) / (1.2 + 1.5)
        f = (st(Y) - sb(Y)) * w + sb(Y) - X
        return s1 + (s2 - s1) * at(f, 1.7)

    return (
        maps.ParametricSplineMap(me, pts, ptsv=np.r_[-1.5, 1.2], order=c["order"], logSigma=c["logs"], normal="x", slope=1.7),
        ref,
        (-0.6, 0.7),
        {},
    )


def build(c):
    """-> (map, reference function or None, list of models, flags)"""
    mp, ref, rng, flags = BUILD[c["map"]](c)
    n = mp.shape[1]
    if isinstance(rng, tuple):
        models = [vec(n, 40 + k, rng[0], rng[1]) for k in range(4)]
    else:
        base = np.array(rng, dtype=float)
        assert len(base) == n, (c, n)
        models = [base + 0.25 * vec(n, 40 + k) * np.where(np.abs(base) > 0, 0.5, 0) for k in range(4)]
        models[0] = base
    return mp, ref, models, flags
