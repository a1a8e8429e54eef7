import numpy as np
import scipy.sparse as sp
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem
from simpeg.electromagnetics import time_domain as tdem
from simpeg.electromagnetics import natural_source as nsem
from simpeg.electromagnetics.time_domain import sources as tsrc
from .common import physics, Prob, vec, blend, mesh_by, tensor3, mat
import discretize

NP = 4  # parameters per invertible property


def em_maps(mesh, inv, sim_kind):
    """Map keyword arguments for an invertible property set, plus a model alphabet."""
    n = mesh.n_cells
    kw = {}
    parts = inv.split("+")
    npar = NP * len(parts)
    wires = maps.Wires(*[(p, NP) for p in parts])
    lo_hi = []
    for ip, p in enumerate(parts):
        w = getattr(wires, p)
        core = blend(n, NP, k=ip)
        if p == "sigma":
            kw["sigmaMap"] = maps.ExpMap(nP=n) * core * w
            lo_hi.append((-3.5, -1.0))
        elif p == "rho":
            kw["rhoMap"] = maps.ExpMap(nP=n) * core * w
            lo_hi.append((1.0, 3.5))
        elif p == "mu":
            kw["muMap"] = maps.ChiMap(nP=n) * core * w
            lo_hi.append((0.2, 2.0))
        elif p == "mui":
            kw["muiMap"] = maps.ExpMap(nP=n) * core * w
            lo_hi.append((np.log(1 / mu_0) - 1.0, np.log(1 / mu_0)))
        else:
            raise ValueError(p)
    fixed = vec(n, 31, -3.0, -1.0)
    if "sigma" not in parts and "rho" not in parts:
        kw["sigma"] = np.exp(fixed)
    if "mu" not in parts and "mui" not in parts:
        kw["mu"] = mu_0 * (1.0 + vec(n, 32, 0.0, 1.0))
    models = []
    for k in range(3):
        models.append(
            np.concatenate([vec(NP, 50 + 10 * k + i, *b) for i, b in enumerate(lo_hi)])
        )
    return kw, models


FD_SIMS = {
    "e": "Simulation3DElectricField",
    "b": "Simulation3DMagneticFluxDensity",
    "h": "Simulation3DMagneticField",
    "j": "Simulation3DCurrentDensity",
}
RX_FD = {
    "e": "PointElectricField",
    "b": "PointMagneticFluxDensity",
    "bs": "PointMagneticFluxDensitySecondary",
    "h": "PointMagneticField",
    "hs": "PointMagneticFieldSecondary",
    "j": "PointCurrentDensity",
}

LOCS = np.array([[-7.3, 4.1, 3.2], [5.5, -3.7, -6.1], [1.9, 2.3, 1.1]])


def fd_rx(kind, orient, comp, locs=LOCS, cylm=False, **kw):
    if cylm:
        locs = np.abs(locs) * np.r_[1, 0, 1] + np.r_[3.0, 0, -4.0]
    if orient == "vec":
        orient = np.r_[1.0, -2.0, 0.5]
    return getattr(fdem.receivers, RX_FD[kind])(
        locs, orientation=orient, component=comp, **kw
    )


def fd_src(kind, rxs, freq, mesh, simkind, k=0):
    nE, nF = mesh.n_edges, mesh.n_faces
    eb = simkind in ("e", "b")
    n_e, n_m = (nE, nF) if eb else (nF, nE)
    loc = np.r_[1.3, -2.4, 2.2] + 0.7 * k
    if mesh.dim == 3 and type(mesh).__name__ == "CylindricalMesh":
        loc = np.r_[0.0, 0.0, 2.2 + 0.7 * k]
    S = fdem.sources
    if kind == "raw_e":
        return S.RawVec_e(rxs, freq, vec(n_e, 5 + k) + 1j * vec(n_e, 6 + k))
    if kind == "raw_m":
        return S.RawVec_m(rxs, freq, vec(n_m, 5 + k) + 1j * vec(n_m, 6 + k))
    if kind == "raw":
        return S.RawVec(rxs, freq, s_m=vec(n_m, 5 + k), s_e=vec(n_e, 6 + k) * (1 + 1j))
    if kind == "magdip":
        return S.MagDipole(rxs, freq, location=loc, orientation="z", moment=2.0 + k)
    if kind == "magdip_x":
        return S.MagDipole(rxs, freq, location=loc, orientation="x", moment=2.0 + k)
    if kind == "magdip_vec":
        return S.MagDipole(
            rxs, freq, location=loc, orientation=np.r_[0.6, 0.0, 0.8], moment=1.5
        )
    if kind == "magdip_mu":  # permeable half of the primary
        return S.MagDipole(rxs, freq, location=loc, orientation="z", mu=2 * mu_0)
    if kind == "magdip_b":
        return S.MagDipole_Bfield(rxs, freq, location=loc, orientation="z")
    if kind == "loop":
        return S.CircularLoop(
            rxs, freq, location=loc, orientation="z", radius=6.0, current=1.7, n_turns=3
        )
    if kind == "line":  # closed wire
        z = 2.0
        c = np.array(
            [[-6.0, -5, z], [6, -5, z], [6, 5, z], [-6, 5, z], [-6, -5, z]]
        ) + 0.3 * k
        return S.LineCurrent(rxs, freq, location=c, current=1.3 + k)
    if kind == "line_open":  # grounded wire
        c = np.array([[-8.0, -3.1, 1.2], [8.0, -3.1, 1.2]]) + 0.3 * k
        return S.LineCurrent(rxs, freq, location=c, current=1.3 + k)
    if kind == "primsec":
        ep = vec(n_e, 8 + k) + 1j * vec(n_e, 9 + k)
        return S.PrimSecSigma(rxs, freq, sigBack=0.02, ePrimary=ep)
    raise ValueError(kind)


@physics("fdem")
def fdem_build(cfg):
    mesh = mesh_by(cfg.get("mesh", "tensor"))
    cylm = cfg.get("mesh") == "cyl"
    kind = cfg["form"]
    freqs = cfg.get("freqs", [0.7e3, 4e3])
    rxdefs = cfg["rx"]  # list of [kind, orient, comp]
    srcs = []
    k = 0
    for f in freqs:
        for s in cfg["src"]:
            defs = rxdefs if (k % 2 == 0 or len(rxdefs) < 2) else rxdefs[::-1][:-1]
            rxs = [
                fd_rx(*d, locs=LOCS[: 3 - (i % 2)] if not cfg.get("one") else LOCS[:1], cylm=cylm)
                for i, d in enumerate(defs)
            ]
            srcs.append(fd_src(s, rxs, f, mesh, kind, k))
            k += 1
    if cfg.get("reverse"):
        srcs = srcs[::-1]
    survey = fdem.Survey(srcs)
    kw, models = em_maps(mesh, cfg["inv"], kind)
    extra = {}
    if cfg.get("permittivity"):
        extra["permittivity"] = 1e-9 * (1 + vec(mesh.n_cells, 3, 0, 1))
    if cfg.get("storeJ"):
        extra["storeJ"] = True
    if cfg.get("fso") is not None:
        extra["forward_only"] = cfg["fso"]
    sim = getattr(fdem, FD_SIMS[kind])(mesh, survey=survey, **kw, **extra)
    return Prob(sim, models, fd_scale=1.0)


# ----------------------------------------------------------------------
TD_SIMS = {
    "e": "Simulation3DElectricField",
    "b": "Simulation3DMagneticFluxDensity",
    "h": "Simulation3DMagneticField",
    "j": "Simulation3DCurrentDensity",
}
RX_TD = {
    "e": "PointElectricField",
    "b": "PointMagneticFluxDensity",
    "dbdt": "PointMagneticFluxTimeDerivative",
    "h": "PointMagneticField",
    "dhdt": "PointMagneticFieldTimeDerivative",
    "j": "PointCurrentDensity",
}
TSTEPS = {
    "var": [(2e-5, 2), (5e-5, 2), (1.3e-4, 2)],
    "uni": [(4e-5, 5)],
    "alt": [(2e-5, 1), (5e-5, 1), (2e-5, 1), (5e-5, 2)],
}


def td_wave(name):
    T = tsrc
    if name == "stepoff":
        return T.StepOffWaveform()
    if name == "rampoff":
        return T.RampOffWaveform(0.0, 9e-5)
    if name == "rampoff_late":
        return T.RampOffWaveform(3e-5, 1.2e-4)
    if name == "raw":
        return T.RawWaveform(
            off_time=1.5e-4,
            waveform_function=lambda t: np.sin(2e4 * t) * (t < 1.5e-4),
        )
    if name == "trap":
        return T.TrapezoidWaveform(np.r_[0, 5e-5], np.r_[9e-5, 1.6e-4])
    if name == "tri":
        return T.TriangularWaveform(0.0, 1.5e-4, 7e-5)
    if name == "qsin":
        return T.QuarterSineRampOnWaveform(np.r_[0, 5e-5], np.r_[9e-5, 1.6e-4])
    if name == "hsin":
        return T.HalfSineWaveform(np.r_[0, 5e-5], np.r_[9e-5, 1.6e-4])
    if name == "vtem":
        return T.VTEMWaveform(off_time=2e-4, peak_time=9e-5)
    if name == "pwl":
        return T.PiecewiseLinearWaveform(
            np.r_[-1e-4, 2e-5, 8e-5, 1.5e-4], np.r_[0.0, 1.0, 0.4, 0.0]
        )
    if name == "exp":
        return T.ExponentialWaveform(0.0, 6e-5, 3e-5, 1.2e-4)
    raise ValueError(name)


def td_rx(kind, orient, times, locs=LOCS, cylm=False, **kw):
    if cylm:
        locs = np.abs(locs) * np.r_[1, 0, 1] + np.r_[3.0, 0, -4.0]
    if orient == "vec":
        orient = np.r_[1.0, -2.0, 0.5]
    return getattr(tdem.receivers, RX_TD[kind])(locs, times, orientation=orient, **kw)


def td_src(kind, rxs, mesh, simkind, wave, k=0):
    eb = simkind in ("e", "b")
    loc = np.r_[1.3, -2.4, 2.2] + 0.7 * k
    if type(mesh).__name__ == "CylindricalMesh":
        loc = np.r_[0.0, 0.0, 2.2 + 0.7 * k]
    S = tdem.sources
    if kind == "magdip":
        return S.MagDipole(rxs, location=loc, orientation="z", moment=2.0 + k, waveform=wave)
    if kind == "magdip_y":
        return S.MagDipole(rxs, location=loc, orientation="y", moment=2.0 + k, waveform=wave)
    if kind == "loop":
        return S.CircularLoop(
            rxs, location=loc, orientation="z", radius=6.0, current=1.7, n_turns=3, waveform=wave
        )
    if kind == "line":
        z = 2.0
        c = np.array(
            [[-6.0, -5, z], [6, -5, z], [6, 5, z], [-6, 5, z], [-6, -5, z]]
        ) + 0.3 * k
        return S.LineCurrent(rxs, location=c, current=1.3 + k, srcType="inductive", waveform=wave)
    if kind == "line_open":
        c = np.array([[-8.0, -3.1, 1.2], [8.0, -3.1, 1.2]]) + 0.3 * k
        return S.LineCurrent(rxs, location=c, current=1.3 + k, srcType="galvanic", waveform=wave)
    if kind == "raw_g":
        n_e = mesh.n_edges if eb else mesh.n_faces
        return S.RawVec_Grounded(rxs, s_e=vec(n_e, 5 + k), waveform=wave)
    raise ValueError(kind)


@physics("tdem")
def tdem_build(cfg):
    mesh = mesh_by(cfg.get("mesh", "tensor"))
    cylm = cfg.get("mesh") == "cyl"
    kind = cfg["form"]
    steps = TSTEPS[cfg.get("steps", "var")]
    tot = sum(a * b for a, b in steps)
    tsets = {
        "mid": np.r_[0.33, 0.71] * tot,
        "late": np.r_[0.2, 0.55, 0.97] * tot,
        "all": np.r_[0.11, 0.33, 0.52, 0.8, 1.0] * tot,
    }
    srcs = []
    waves = cfg.get("wave", ["stepoff"])
    for k, s in enumerate(cfg["src"]):
        defs = cfg["rx"] if (k % 2 == 0 or len(cfg["rx"]) < 2) else cfg["rx"][::-1][:-1]
        rxs = [
            td_rx(
                d[0], d[1], tsets[d[2] if len(d) > 2 else cfg.get("times", "mid")],
                locs=LOCS[: 3 - (i % 2)], cylm=cylm,
            )
            for i, d in enumerate(defs)
        ]
        srcs.append(td_src(s, rxs, mesh, kind, td_wave(waves[k % len(waves)]), k))
    survey = tdem.Survey(srcs)
    extra = dict(time_steps=steps)
    if cfg.get("t0"):
        extra["t0"] = cfg["t0"]
    if cfg.get("storeJ"):
        extra["storeJ"] = True
    kw, models = em_maps(mesh, cfg["inv"], kind)
    sim = getattr(tdem, TD_SIMS[kind])(mesh, survey=survey, **kw, **extra)
    return Prob(sim, models)


# ----------------------------------------------------------------------
@physics("nsem3d")
def nsem3d_build(cfg):
    mesh = tensor3(n=(4, 4, 5), h=300.0)
    mesh = discretize.TensorMesh(mesh.h, origin="CCC")
    n = mesh.n_cells
    locs = 300.0 * np.array([[-0.41, 0.31, -0.22], [0.52, -0.37, -0.61]])
    locs2 = 300.0 * np.array([[0.3, 0.21, -0.12], [-0.2, 0.37, -0.41]])
    R = nsem.receivers
    srcs = []
    for i, f in enumerate(cfg.get("freqs", [1.0, 10.0])):
        rxs = []
        for kind, orient, comp in cfg["rx"]:
            if kind == "Z":
                rxs.append(R.Impedance(locs, orientation=orient, component=comp))
            elif kind == "Z2":
                rxs.append(
                    R.Impedance(locs, locations_h=locs2, orientation=orient, component=comp)
                )
            elif kind == "T":
                rxs.append(R.Tipper(locs, orientation=orient, component=comp))
            elif kind == "T2":
                rxs.append(
                    R.Tipper(locs, locations_base=locs2, orientation=orient, component=comp)
                )
            elif kind == "Y":
                rxs.append(R.Admittance(locs, orientation=orient, component=comp))
            elif kind == "S":
                rxs.append(R.ApparentConductivity(locs))
        if i % 2:
            rxs = rxs[::-1]
        srcs.append(nsem.sources.PlanewaveXYPrimary(rxs, f))
    survey = nsem.Survey(srcs)
    kw = {}
    kw["sigmaMap"] = maps.ExpMap(nP=n) * blend(n, NP)
    sim = nsem.Simulation3DPrimarySecondary(
        mesh, survey=survey, sigmaPrimary=np.ones(n) * 2e-2, **kw
    )
    models = [vec(NP, 60 + k, -4.5, -2.0) for k in range(3)]
    return Prob(sim, models)


@physics("nsem1d")
def nsem1d_build(cfg):
    mesh = discretize.TensorMesh([[(400.0, 6, -1.3), (400.0, 4)]], origin="N")
    n = mesh.n_cells
    R = nsem.receivers
    loc = np.r_[[[-10.0]]]
    if cfg["form"] == "1dr":
        rxs = [R.Impedance(loc, orientation=o, component=c) for _, o, c in cfg["rx"]]
        srcs = [nsem.sources.Planewave(rxs, frequency=f) for f in (0.3, 3.0, 40.0)]
        nl = 4
        parts = cfg.get("inv", "sigma").split("+")
        sizes = {"sigma": nl, "rho": nl, "thicknesses": nl - 1}
        wires = maps.Wires(*[(p, sizes[p]) for p in parts])
        kw = {p + "Map": maps.ExpMap(nP=sizes[p]) * getattr(wires, p) for p in parts}
        if "thicknesses" not in parts:
            kw["thicknesses"] = np.r_[80.0, 130.0, 210.0]
        rng = {"sigma": (-5.0, -2.0), "rho": (2.0, 5.0), "thicknesses": (4.0, 5.5)}
        models = [
            np.concatenate([vec(sizes[p], 60 + k + 5 * i, *rng[p]) for i, p in enumerate(parts)])
            for k in range(3)
        ]
        return Prob(nsem.Simulation1DRecursive(survey=nsem.Survey(srcs), **kw), models)
    srcs = []
    for i, f in enumerate([0.1, 3.0]):
        rxs = [R.Impedance(loc, orientation=o, component=c) for _, o, c in cfg["rx"]]
        srcs.append(nsem.sources.Planewave(rxs, frequency=f))
    cls = {"1de": nsem.Simulation1DElectricField, "1dm": nsem.Simulation1DMagneticField}[cfg["form"]]
    inv = cfg.get("inv", "sigma")
    kw = {}
    if inv == "sigma":
        kw["sigmaMap"] = maps.ExpMap(nP=n) * blend(n, NP)
    else:
        kw["rhoMap"] = maps.ExpMap(nP=n) * maps.LinearMap(-sp.eye(n, format="csr")) * blend(n, NP)
    sim = cls(mesh, survey=nsem.Survey(srcs), **kw)
    return Prob(sim, [vec(NP, 60 + k, -4.5, -2.0) for k in range(3)])


@physics("nsem2d")
def nsem2d_build(cfg):
    hx = 400.0 * (0.8 + 0.5 * vec(6, 1, 0, 1))
    hz = 400.0 * (0.8 + 0.5 * vec(7, 2, 0, 1))
    mesh = discretize.TensorMesh([hx, hz], origin="CN")
    n = mesh.n_cells
    locs = np.array([[-310.0, -220.0], [430.0, -350.0]])
    locs2 = np.array([[210.0, -240.0], [-330.0, -380.0]])
    R = nsem.receivers
    srcs = []
    for f in [0.1, 3.0]:
        rxs = []
        for kind, orient, comp in cfg["rx"]:
            if kind == "Z":
                rxs.append(R.Impedance(locs, orientation=orient, component=comp))
            elif kind == "Z2":
                rxs.append(R.Impedance(locs, locations_h=locs2, orientation=orient, component=comp))
            elif kind == "Y":
                rxs.append(R.Admittance(locs, orientation=orient, component=comp))
            elif kind == "T":
                rxs.append(R.Tipper(locs, locations_base=locs2, orientation=orient, component=comp))
        srcs.append(nsem.sources.Planewave(rxs, frequency=f))
    cls = {"2de": nsem.Simulation2DElectricField, "2dm": nsem.Simulation2DMagneticField}[cfg["form"]]
    kw = dict(sigmaMap=maps.ExpMap(nP=n) * blend(n, NP))
    if cfg.get("inv") == "sigma+mu":
        w = maps.Wires(("s", NP), ("u", NP))
        kw = dict(
            sigmaMap=maps.ExpMap(nP=n) * blend(n, NP) * w.s,
            muMap=maps.ChiMap(nP=n) * blend(n, NP, 1) * w.u,
        )
        models = [
            np.r_[vec(NP, 60 + k, -4.5, -2.0), vec(NP, 70 + k, 0.2, 1.5)] for k in range(3)
        ]
    else:
        models = [vec(NP, 60 + k, -4.5, -2.0) for k in range(3)]
    sim = cls(mesh, survey=nsem.Survey(srcs), **kw)
    return Prob(sim, models)
