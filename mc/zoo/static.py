import numpy as np
import discretize
from simpeg import maps
from simpeg.electromagnetics.static import resistivity as dc
from simpeg.electromagnetics.static import induced_polarization as ip
from simpeg.electromagnetics.static import spectral_induced_polarization as sip
from simpeg.electromagnetics.static import self_potential as spot
from .common import physics, Prob, vec, blend, tensor3

NP = 4


def mesh3(kind="tensor"):
    if kind == "tree":
        m = discretize.TreeMesh([[(10.0, 8)], [(10.0, 4)], [(10.0, 4)]], origin="CCN")
        m.refine(2, finalize=False)
        m.insert_cells(np.array([[-5.0, -5.0, -5.0]]), [3], finalize=True)
        return m
    t = tensor3(n=(6, 5, 4))
    return discretize.TensorMesh(t.h, origin="CCN")


def mesh2(kind="tensor"):
    hx = 10.0 * (0.7 + 0.6 * vec(9, 1, 0, 1))
    hz = 10.0 * (0.7 + 0.6 * vec(5, 2, 0, 1))
    if kind == "tree":
        m = discretize.TreeMesh([[(10.0, 8)], [(10.0, 8)]], origin="CN")
        m.refine(2, finalize=False)
        m.insert_cells(np.array([[-5.0, -5.0]]), [3], finalize=True)
        return m
    return discretize.TensorMesh([hx, hz], origin="CN")


E3 = np.array(
    [
        [-20.5, 3.1, -3.2],
        [-9.7, -4.3, -2.5],
        [2.2, 6.1, -4.1],
        [11.3, -2.7, -3.3],
        [17.9, 8.3, -6.2],
        [-4.4, -9.1, -7.7],
    ]
)
E2 = np.array([[-28.5, -3.2], [-19.7, -2.5], [-7.2, -4.1], [3.3, -3.3], [14.9, -2.2], [25.4, -2.7]])


def dc_survey(E, spec, mod=dc, dtype="volt", rxkw=None):
    """spec: list of sources: [srckind, [rxkind,...], geometry-seed]"""
    rxkw = rxkw or {}
    R, S = dc.receivers, dc.sources
    out = []
    shared = {}
    for k, (sk, rks) in enumerate(spec):
        rxs = []
        for i, rk in enumerate(rks):
            a = [(2 + k) % 6, (4 + k + i) % 6, (5 + k) % 6]
            b = [(3 + k + i) % 6, (5 + k + i) % 6, (1 + k) % 6]
            nloc = 3 - (i % 2)
            M, N = E[a[:nloc]], E[b[:nloc]]
            dt = dtype[(k + i) % len(dtype)] if isinstance(dtype, list) else dtype
            if rk == "d":
                r = R.Dipole(M, N, data_type=dt, **rxkw)
            elif rk == "p":
                r = R.Pole(M + 0.37, data_type=dt, **rxkw)
            elif rk == "shared":
                if "r" not in shared:
                    shared["r"] = R.Dipole(E[[2, 4]], E[[3, 5]], data_type=dt, **rxkw)
                r = shared["r"]
            elif rk[0] in "ej" and len(rk) == 2:
                r = R.Pole(M + 0.37, projField=rk[0], orientation=rk[1], **rxkw)
            else:
                raise ValueError(rk)
            rxs.append(r)
        A, B = E[k % 6] - 0.21, E[(k + 1) % 6] + 0.13
        if sk == "d":
            out.append(S.Dipole(rxs, A, B))
        elif sk == "d2":
            out.append(S.Dipole(rxs, A, B, current=2.5))
        elif sk == "p":
            out.append(S.Pole(rxs, A))
        elif sk == "m":
            out.append(S.Multipole(rxs, np.vstack([A, B, E[(k + 2) % 6]]), [1.0, 0.5, -1.5]))
        else:
            raise ValueError(sk)
    return dc.Survey(out) if mod is dc else mod.Survey(out)


def dc_maps(n, inv):
    if inv == "sigma":
        return dict(sigmaMap=maps.ExpMap(nP=n) * blend(n, NP)), [
            vec(NP, 60 + k, -4.5, -2.0) for k in range(3)
        ]
    if inv == "rho":
        return dict(rhoMap=maps.ExpMap(nP=n) * blend(n, NP)), [
            vec(NP, 60 + k, 2.0, 4.5) for k in range(3)
        ]
    if inv == "sigma_lin":
        return dict(sigmaMap=blend(n, NP)), [vec(NP, 60 + k, 0.01, 0.3) for k in range(3)]
    raise ValueError(inv)


DC3 = {"CC": "Simulation3DCellCentered", "N": "Simulation3DNodal"}
DC2 = {"CC": "Simulation2DCellCentered", "N": "Simulation2DNodal"}


@physics("dc3d")
def dc3d(cfg):
    mesh = mesh3(cfg.get("mesh", "tensor"))
    survey = dc_survey(E3, cfg["src"], dtype=cfg.get("dtype", "volt"))
    if "apparent_resistivity" in str(cfg.get("dtype")):
        survey.set_geometric_factor(cfg.get("space", "halfspace"))
    kw, models = dc_maps(mesh.n_cells, cfg.get("inv", "sigma"))
    sim = getattr(dc, DC3[cfg["form"]])(
        mesh,
        survey=survey,
        bc_type=cfg.get("bc", "Robin"),
        storeJ=cfg.get("storeJ", False),
        miniaturize=cfg.get("mini", False),
        **kw,
    )
    return Prob(sim, models)


@physics("dc2d")
def dc2d(cfg):
    mesh = mesh2(cfg.get("mesh", "tensor"))
    survey = dc_survey(E2, cfg["src"], dtype=cfg.get("dtype", "volt"))
    if "apparent_resistivity" in str(cfg.get("dtype")):
        survey.set_geometric_factor(cfg.get("space", "halfspace"))
    kw, models = dc_maps(mesh.n_cells, cfg.get("inv", "sigma"))
    sim = getattr(dc, DC2[cfg["form"]])(
        mesh,
        survey=survey,
        bc_type=cfg.get("bc", "Robin"),
        storeJ=cfg.get("storeJ", False),
        miniaturize=cfg.get("mini", False),
        nky=cfg.get("nky", 4),
        fix_Jmatrix=cfg.get("fix", False),
        **kw,
    )
    return Prob(sim, models)


@physics("dc1d")
def dc1d(cfg):
    E = E3.copy()
    E[:, 2] = 0.0
    survey = dc_survey(E * 5, cfg["src"], dtype=cfg.get("dtype", "volt"))
    nl = 4
    parts = cfg.get("inv", "rho").split("+")
    sizes = {"sigma": nl, "rho": nl, "thicknesses": nl - 1}
    wires = maps.Wires(*[(p, sizes[p]) for p in parts])
    kw = {p + "Map": maps.ExpMap(nP=sizes[p]) * getattr(wires, p) for p in parts}
    if "thicknesses" not in parts:
        kw["thicknesses"] = np.r_[8.0, 13.0, 21.0]
    if "rho" not in parts and "sigma" not in parts:
        kw["rho"] = np.r_[100.0, 30.0, 250.0, 80.0]
    rng = {"sigma": (-5.0, -2.0), "rho": (2.0, 5.0), "thicknesses": (1.5, 3.0)}
    models = [
        np.concatenate([vec(sizes[p], 60 + k + 5 * i, *rng[p]) for i, p in enumerate(parts)])
        for k in range(3)
    ]
    sim = dc.Simulation1DLayers(survey=survey, **kw)
    return Prob(sim, models)


@physics("ip")
def ip_build(cfg):
    d2 = cfg["form"].startswith("2")
    mesh = mesh2() if d2 else mesh3()
    survey = dc_survey(E2 if d2 else E3, cfg["src"], dtype=cfg.get("dtype", "volt"))
    n = mesh.n_cells
    sig = np.exp(vec(n, 31, -4.0, -2.0))
    kw = dict(sigma=sig) if cfg.get("bg", "sigma") == "sigma" else dict(rho=1 / sig)
    if d2:
        kw["nky"] = 4
    cls = {
        "3CC": ip.Simulation3DCellCentered,
        "3N": ip.Simulation3DNodal,
        "2CC": ip.Simulation2DCellCentered,
        "2N": ip.Simulation2DNodal,
    }[cfg["form"]]
    # the linearised IP problem is defined for chargeability maps that are linear
    em = blend(n, NP) if cfg.get("inv", "eta") == "eta" else blend(n, n, 3) * blend(n, NP)
    sim = cls(mesh, survey=survey, etaMap=em, storeJ=cfg.get("storeJ", False), **kw)
    return Prob(sim, [vec(NP, 60 + k, 0.01, 0.2) for k in range(3)])


@physics("sip")
def sip_build(cfg):
    d2 = cfg["form"].startswith("2")
    mesh = mesh2() if d2 else mesh3()
    E = E2 if d2 else E3
    n = mesh.n_cells
    sig = np.exp(vec(n, 31, -4.0, -2.0))
    times = np.r_[1e-3, 5e-3, 2e-2]
    R, S = sip.receivers, sip.sources
    srcs = []
    for k, (sk, rks) in enumerate(cfg["src"]):
        rxs = []
        for i, rk in enumerate(rks):
            M, N = E[[(2 + k) % 6, (4 + k) % 6]], E[[(3 + k + i) % 6, (5 + k + i) % 6]]
            t = times if (i + k) % 2 == 0 or cfg.get("sametimes") else times[:2]
            if rk == "d":
                rxs.append(R.Dipole(M, N, t))
            else:
                rxs.append(R.Pole(M + 0.37, t))
        A, B = E[k % 6] - 0.21, E[(k + 1) % 6] + 0.13
        srcs.append(S.Dipole(rxs, A, B) if sk == "d" else S.Pole(rxs, A))
    survey = sip.Survey(srcs)
    cls = {
        "3CC": sip.Simulation3DCellCentered,
        "3N": sip.Simulation3DNodal,
        "2CC": sip.Simulation2DCellCentered,
        "2N": sip.Simulation2DNodal,
    }[cfg["form"]]
    parts = cfg.get("inv", "eta+taui").split("+")
    wires = maps.Wires(*[(p, NP) for p in parts])
    kw = {p + "Map": blend(n, NP, i) * getattr(wires, p) for i, p in enumerate(parts)}
    rng = {"eta": (0.05, 0.3), "taui": (1.0, 50.0), "tau": (0.02, 0.5), "c": (0.3, 0.8)}
    if d2:
        kw["nky"] = 4
    else:
        kw["storeJ"] = cfg.get("storeJ", False)
    sim = cls(mesh, survey=survey, rho=1 / sig, **kw)
    models = [
        np.concatenate([vec(NP, 60 + k + 5 * i, *rng[p]) for i, p in enumerate(parts)])
        for k in range(3)
    ]
    return Prob(sim, models)


@physics("sp")
def sp_build(cfg):
    mesh = mesh3()
    n = mesh.n_cells
    rx = [dc.receivers.Dipole(E3[[0, 2, 4]], E3[[1, 3, 5]]), dc.receivers.Pole(E3[:2] + 0.3)]
    survey = spot.Survey([spot.sources.StreamingCurrents(rx)])
    sig = np.exp(vec(n, 31, -4.0, -2.0))
    kind = cfg.get("inv", "lin")
    if kind == "lin":
        qm = blend(n, NP)
    elif kind == "exp":
        qm = maps.ExpMap(nP=n) * blend(n, NP)
    elif kind == "cd":
        cd = spot.CurrentDensityMap(mesh)
        qm = cd * blend(cd.nP, NP)
    else:
        hh = spot.HydraulicHeadMap(mesh, 1e-2 * (1 + vec(n, 3, 0, 1)))
        qm = hh * blend(n, NP)
    sim = spot.Simulation3DCellCentered(
        mesh, survey=survey, sigma=sig, qMap=qm, bc_type=cfg.get("bc", "Robin"),
        storeJ=cfg.get("storeJ", False),
    )
    return Prob(sim, [vec(NP, 60 + k, -1.0, 1.0) for k in range(3)])
