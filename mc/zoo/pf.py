import numpy as np
import discretize
from simpeg import maps
from simpeg.potential_fields import gravity, magnetics
from .common import physics, Prob, vec, blend, tensor3

NP = 4
PLOC = np.array([[-6.3, 4.1, 3.2], [5.5, -3.7, 4.1], [1.9, 2.3, 2.6]])
GCOMP = ["gx", "gy", "gz", "gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "guv"]
MCOMP = [
    "tmi", "bx", "by", "bz", "bxx", "bxy", "bxz", "byy", "byz", "bzz",
    "tmi_x", "tmi_y", "tmi_z",
]


def pf_mesh(kind="tensor"):
    if kind == "tree":
        m = discretize.TreeMesh([[(5.0, 4)]] * 3, origin="CCN")
        m.refine(1, finalize=False)
        m.insert_cells(np.array([[-2.5, -2.5, -2.5]]), [2], finalize=True)
        return m
    return tensor_pf()


def tensor_pf():
    t = tensor3(n=(3, 2, 3), h=5.0)
    return discretize.TensorMesh(t.h, origin="CCN")


def _actives(mesh, cfg):
    act = np.ones(mesh.n_cells, dtype=bool)
    if cfg.get("active", True):
        act[[1, mesh.n_cells - 2]] = False
    return act


def _rxs(mod, groups):
    R = mod.receivers.Point
    return [R(PLOC[: 3 - (i % 2)] + 0.1 * i, components=list(g)) for i, g in enumerate(groups)]


@physics("grav")
def grav(cfg):
    mesh = pf_mesh(cfg.get("mesh", "tensor"))
    act = _actives(mesh, cfg)
    n = int(act.sum())
    survey = gravity.Survey(gravity.SourceField(_rxs(gravity, cfg["rx"])))
    kw = {}
    if cfg.get("inv", "id") == "id":
        m = maps.IdentityMap(nP=n)
        models = [vec(n, 60 + k, -0.5, 0.8) for k in range(3)]
    elif cfg["inv"] == "exp":
        m = maps.ExpMap(nP=n)
        models = [vec(n, 60 + k, -2.0, 0.5) for k in range(3)]
    else:
        m = blend(n, NP)
        models = [vec(NP, 60 + k, -0.5, 0.8) for k in range(3)]
    if cfg.get("path"):
        kw["sensitivity_path"] = cfg["path"]
    kw["sensitivity_dtype"] = getattr(np, cfg.get("dtype", "float64"))
    if cfg.get("n_processes", "unset") != "unset":
        kw["n_processes"] = cfg["n_processes"]
    if cfg.get("layer"):
        m2 = discretize.TensorMesh(mesh.h[:2], origin=mesh.origin[:2])
        act = np.ones(m2.n_cells, dtype=bool)
        act[1] = False
        n = int(act.sum())
        m = maps.IdentityMap(nP=n)
        models = [vec(n, 60 + k, -0.5, 0.8) for k in range(3)]
        sim = gravity.SimulationEquivalentSourceLayer(
            m2, vec(n, 3, -2.0, -1.0), vec(n, 4, -9.0, -6.0), survey=survey, rhoMap=m,
            active_cells=act, store_sensitivities=cfg.get("store", "ram"),
            engine=cfg.get("engine", "geoana"), **kw
        )
    else:
        sim = gravity.Simulation3DIntegral(
            mesh, survey=survey, rhoMap=m, active_cells=act,
            store_sensitivities=cfg.get("store", "ram"),
            engine=cfg.get("engine", "geoana"), **kw
        )
    return Prob(sim, models)


@physics("mag")
def mag(cfg):
    mesh = pf_mesh(cfg.get("mesh", "tensor"))
    act = _actives(mesh, cfg)
    layer = cfg.get("layer")
    if layer:
        mesh2 = discretize.TensorMesh(mesh.h[:2], origin=mesh.origin[:2])
        act = np.ones(mesh2.n_cells, dtype=bool)
        act[1] = False
    n = int(act.sum())
    mt = cfg.get("mtype", "scalar")
    amp = cfg.get("amp", False)
    src = magnetics.UniformBackgroundField(
        _rxs(magnetics, cfg["rx"]), amplitude=51000.0, inclination=cfg.get("inc", 62.0), declination=-13.0
    )
    survey = magnetics.Survey(src)
    nm = n * (3 if mt == "vector" else 1)
    inv = cfg.get("inv", "id")
    if inv == "id":
        m = maps.IdentityMap(nP=nm)
        models = [vec(nm, 60 + k, 0.01, 0.2) for k in range(3)]
    elif inv == "exp":
        m = maps.ExpMap(nP=nm)
        models = [vec(nm, 60 + k, -4.0, -1.5) for k in range(3)]
    elif inv == "sph":
        m = maps.SphericalSystem(nP=nm)
        models = [
            np.r_[vec(n, 60 + k, 0.05, 0.2), vec(n, 70 + k, -1.0, 1.0), vec(n, 80 + k, -2.0, 2.0)]
            for k in range(3)
        ]
    else:
        m = blend(nm, NP)
        models = [vec(NP, 60 + k, 0.01, 0.2) for k in range(3)]
    kw = {}
    if cfg.get("path"):
        kw["sensitivity_path"] = cfg["path"]
    kw["sensitivity_dtype"] = getattr(np, cfg.get("dtype", "float64"))
    if cfg.get("n_processes", "unset") != "unset":
        kw["n_processes"] = cfg["n_processes"]
    common = dict(
        survey=survey, chiMap=m, active_cells=act, model_type=mt, is_amplitude_data=amp,
        store_sensitivities=cfg.get("store", "ram"), engine=cfg.get("engine", "geoana"), **kw
    )
    if layer:
        sim = magnetics.SimulationEquivalentSourceLayer(
            mesh2, vec(n, 3, -2.0, -1.0), vec(n, 4, -9.0, -6.0), **common
        )
    else:
        sim = magnetics.Simulation3DIntegral(mesh, **common)
    return Prob(sim, models)


@physics("magpde")
def magpde(cfg):
    mesh = pf_mesh(cfg.get("mesh", "tensor"))
    mesh = discretize.TensorMesh([5.0 * (0.7 + 0.6 * vec(4, d, 0, 1)) for d in range(3)], origin="CCC")
    rx = _rxs(magnetics, cfg["rx"])
    src = magnetics.UniformBackgroundField(rx, amplitude=51000.0, inclination=62.0, declination=-13.0)
    n = mesh.n_cells
    parts = cfg.get("inv", "mu").split("+")
    wires = maps.Wires(*[(p, NP) for p in parts])
    kw = {}
    rng = []
    for i, p in enumerate(parts):
        if p == "mu":
            kw["muMap"] = maps.ChiMap(nP=n) * blend(n, NP, i) * wires.mu
            rng.append((0.05, 0.8))
        else:
            kw["remMap"] = blend(3 * n, NP, i) * wires.rem
            rng.append((-1.0, 1.0))
    if "mu" not in parts:
        from scipy.constants import mu_0
        kw["mu"] = mu_0 * (1 + vec(n, 3, 0, 1))
    if cfg.get("rem") and "rem" not in parts:
        kw["rem"] = vec(3 * n, 9, -1, 1)
    sim = magnetics.Simulation3DDifferential(
        mesh, survey=magnetics.Survey(src), storeJ=cfg.get("storeJ", False), **kw
    )
    models = [
        np.concatenate([vec(NP, 60 + k + 7 * i, *b) for i, b in enumerate(rng)]) for k in range(3)
    ]
    return Prob(sim, models)
