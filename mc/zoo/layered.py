import numpy as np
import discretize
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem
from simpeg.electromagnetics import time_domain as tdem
from simpeg.electromagnetics import viscous_remanent_magnetization as vrm
from simpeg.seismic import straight_ray_tomography as tomo
from simpeg import simulation, survey as bsurvey
from .common import physics, Prob, vec, blend
from .em import td_wave

NP = 4


def _layer_kw(inv, nsrc, cfg):
    nl = 3
    parts = inv.split("+")
    sizes = {"sigma": nl, "rho": nl, "mu": nl, "thicknesses": nl - 1, "h": nsrc}
    wires = maps.Wires(*[(p, sizes[p]) for p in parts])
    kw = {}
    rng = {
        "sigma": (-4.5, -2.0), "rho": (2.0, 4.5), "mu": (0.1, 1.0),
        "thicknesses": (2.0, 3.0), "h": (2.5, 3.2),
    }
    for p in parts:
        if p == "mu":
            kw["muMap"] = maps.ChiMap(nP=nl) * wires.mu
        else:
            kw[p + "Map"] = maps.ExpMap(nP=sizes[p]) * getattr(wires, p)
    if "sigma" not in parts and "rho" not in parts:
        kw["sigma"] = np.r_[0.01, 0.1, 0.03]
    if "thicknesses" not in parts:
        kw["thicknesses"] = np.r_[9.0, 15.0]
    if "mu" not in parts and cfg.get("mu"):
        kw["mu"] = mu_0 * np.r_[1.1, 1.5, 1.2]
    if cfg.get("ip"):
        kw.update(eta=np.r_[0.1, 0.3, 0.2], tau=np.r_[1e-3, 1e-2, 1e-4], c=np.r_[0.4, 0.6, 0.8])
    if cfg.get("vrm"):
        kw.update(dchi=np.r_[0.05, 0.01, 0.03], tau1=np.r_[1e-9, 1e-9, 1e-8], tau2=np.r_[1e6, 1e5, 1e4])
    models = [
        np.concatenate([vec(sizes[p], 60 + k + 5 * i, *rng[p]) for i, p in enumerate(parts)])
        for k in range(3)
    ]
    return kw, models


@physics("fdem1d")
def fdem1d(cfg):
    srcs = []
    R, S = fdem.receivers, fdem.sources
    k = 0
    for f in (900.0, 7000.0):
        for s in cfg["src"]:
            rxs = []
            for i, (kind, orient, comp, dt) in enumerate(cfg["rx"]):
                locs = np.array([[6.0, 2.0, 20.5], [8.0, -3.0, 21.0]])[: 2 - (i % 2)] + 0.3 * k
                if orient == "vec":
                    orient = np.r_[0.3, -0.5, 0.8]
                cls = {"hs": R.PointMagneticFieldSecondary, "h": R.PointMagneticField}[kind]
                rxs.append(cls(locs, orientation=orient, component=comp, data_type=dt))
            loc = np.r_[0.2, 0.1, 20.0 + k]
            if s == "loop":
                for r in rxs:
                    r.locations = np.repeat(np.r_[0.2, 0.1, 20.5 + k][None], len(r.locations), 0)
            if s == "magdip":
                src = S.MagDipole(rxs, f, location=loc, orientation="z", moment=2.0)
            elif s == "magdip_x":
                src = S.MagDipole(rxs, f, location=loc, orientation="x", moment=2.0)
            elif s == "loop":
                src = S.CircularLoop(rxs, f, location=loc, radius=5.0, orientation="z", current=1.5)
            elif s == "magdip_y":
                src = S.MagDipole(rxs, f, location=loc, orientation="y", moment=2.0)
            elif s == "line":  # wire loops are limited to one location per receiver
                for r in rxs:
                    r.locations = r.locations[:1]
                c = np.array([[-6.0, -5, 20], [6, -5, 20], [6, 5, 20], [-6, 5, 20], [-6, -5, 20]])
                src = S.LineCurrent(rxs, f, location=c, current=1.3)
            srcs.append(src)
            k += 1
    kw, models = _layer_kw(cfg["inv"], len(srcs), cfg)
    sim = fdem.Simulation1DLayered(survey=fdem.Survey(srcs), **kw)
    return Prob(sim, models)


@physics("tdem1d")
def tdem1d(cfg):
    srcs = []
    R, S = tdem.receivers, tdem.sources
    times = np.r_[2e-4, 5e-4, 1.2e-3]
    for k, s in enumerate(cfg["src"]):
        rxs = []
        for i, (kind, orient) in enumerate(cfg["rx"]):
            locs = np.array([[6.0, 2.0, 20.5], [8.0, -3.0, 21.0]])[: 1 if not cfg.get("multi") else 2 - (i % 2)] + 0.3 * k
            cls = {
                "b": R.PointMagneticFluxDensity, "h": R.PointMagneticField,
                "dbdt": R.PointMagneticFluxTimeDerivative,
            }[kind]
            rxs.append(cls(locs, times[: 3 - (k + i) % 2], orientation=orient))
        w = td_wave(cfg.get("wave", "stepoff"))
        loc = np.r_[0.2, 0.1, 20.0 + k]
        if s == "loop":
            for r in rxs:
                r.locations = np.repeat(np.r_[0.2, 0.1, 20.5 + k][None], len(r.locations), 0)
        if s == "magdip":
            src = S.MagDipole(rxs, location=loc, orientation="z", moment=2.0, waveform=w)
        elif s == "loop":
            src = S.CircularLoop(rxs, location=loc, radius=5.0, orientation="z", current=1.5, waveform=w)
        elif s == "line":  # wire loops are limited to one location per receiver
            for r in rxs:
                r.locations = r.locations[:1]
            c = np.array([[-6.0, -5, 20], [6, -5, 20], [6, 5, 20], [-6, 5, 20], [-6, -5, 20]])
            src = S.LineCurrent(rxs, location=c, current=1.3, waveform=w)
        srcs.append(src)
    kw, models = _layer_kw(cfg["inv"], len(srcs), cfg)
    sim = tdem.Simulation1DLayered(survey=tdem.Survey(srcs), **kw)
    return Prob(sim, models)


@physics("vrm")
def vrm_build(cfg):
    mesh = discretize.TensorMesh([[(2.0, 3)], [(2.0, 2)], [(2.0, 2)]], origin="CCN")
    act = np.ones(mesh.n_cells, dtype=bool)
    act[2] = False
    n = int(act.sum())
    times = np.r_[1e-4, 1e-3]
    loc = np.array([[0.3, 0.4, 0.8], [-1.0, 0.7, 1.1]])
    rxs = []
    for i, (kind, ft, orient) in enumerate(cfg["rx"]):
        kw = dict(times=times, field_type=ft, orientation=orient)
        if kind == "p":
            rxs.append(vrm.Rx.Point(loc[: 2 - i % 2] + 0.1 * i, **kw))
        else:
            rxs.append(vrm.Rx.SquareLoop(loc[: 2 - i % 2] + 0.1 * i, width=0.5, n_turns=2, **kw))
    W = vrm.waveforms
    wave = {
        "off": lambda: W.StepOff(t0=0.0),
        "sq": lambda: W.SquarePulse(delt=0.02),
        "arb": lambda: W.ArbitraryDiscrete(np.r_[-0.02, -0.01, -1e-6, 0.0][:3], np.r_[0.0, 1.0, 0.0]),
        "arbp": lambda: W.ArbitraryPiecewise(np.r_[-0.02, -0.01, 0.0], np.r_[0.0, 1.0, 0.0]),
    }[cfg.get("wave", "sq")]()
    srcs = []
    for s in cfg["src"]:
        if s == "dip":
            srcs.append(vrm.Src.MagDipole(rxs, np.r_[0.1, 0.2, 1.0], np.r_[0.2, -0.1, 1.0], wave))
        elif s == "loop":
            srcs.append(vrm.Src.CircLoop(rxs, np.r_[0.1, 0.2, 1.0], 1.5, np.r_[10.0, 20.0], 2.0, wave))
        else:
            c = np.array([[-2.0, -2, 0.1], [2, -2, 0.1], [2, 2, 0.1], [-2, 2, 0.1], [-2, -2, 0.1]])
            srcs.append(vrm.Src.LineCurrent(rxs, c, 1.3, wave))
    survey = vrm.Survey(srcs)
    if cfg.get("interval"):
        survey.set_active_interval(*cfg["interval"])
    kw = {}
    if cfg.get("inv", "lin") == "lin":
        xm = blend(n, NP)
        models = [vec(NP, 60 + k, 1e-4, 1e-2) for k in range(3)]
    elif cfg["inv"] == "id":
        xm = maps.IdentityMap(nP=n)
        models = [vec(n, 60 + k, 1e-4, 1e-2) for k in range(3)]
    else:
        xm = maps.ExpMap(nP=n) * blend(n, NP)
        models = [vec(NP, 60 + k, -8.0, -5.0) for k in range(3)]
    sim = vrm.Simulation3DLinear(
        mesh, survey=survey, xiMap=xm, active_cells=act,
        refinement_factor=cfg.get("ref", 1), refinement_distance=cfg.get("dist", [2.0]),
    )
    return Prob(sim, models)


@physics("tomo")
def tomo_build(cfg):
    mesh = discretize.TensorMesh([10 * (0.7 + 0.6 * vec(5, 1, 0, 1)), 10 * (0.7 + 0.6 * vec(4, 2, 0, 1))])
    X, Y = mesh.nodes_x[-1], mesh.nodes_y[-1]
    srcs = []
    for k in range(3):
        rxs = [
            tomo.Rx(np.c_[np.full(3 - i, X * 0.97), Y * np.r_[0.13, 0.55, 0.91][: 3 - i]])
            for i in range(1 + k % 2)
        ]
        srcs.append(tomo.Src(rxs, location=np.r_[0.02 * X, Y * (0.2 + 0.3 * k)]))
    survey = tomo.Survey(srcs)
    n = mesh.n_cells
    if cfg.get("inv", "id") == "id":
        m = maps.IdentityMap(nP=n)
        models = [vec(n, 60 + k, 0.2, 1.0) for k in range(3)]
    else:
        m = maps.ReciprocalMap(nP=n) * maps.ExpMap(nP=n) * blend(n, NP)
        models = [vec(NP, 60 + k, -1.0, 1.0) for k in range(3)]
    return Prob(tomo.Simulation(mesh, survey=survey, slownessMap=m), models)


@physics("linear")
def linear(cfg):
    G = np.asarray(vec(20, 3).reshape(5, 4))
    if cfg.get("kind", "linear") == "linear":
        m = maps.IdentityMap(nP=4) if cfg.get("inv", "id") == "id" else maps.ExpMap(nP=4)
        sim = simulation.LinearSimulation(model_map=m, G=G)
        if cfg.get("survey"):
            sim.survey = bsurvey.BaseSurvey([bsurvey.BaseSrc([bsurvey.BaseRx(np.zeros((5, 1)))])])
        return Prob(sim, [vec(4, 60 + k) for k in range(3)])
    mesh = discretize.TensorMesh([7])
    m = maps.IdentityMap(nP=7) if cfg.get("inv", "id") == "id" else maps.ExpMap(nP=7)
    sim = simulation.ExponentialSinusoidSimulation(
        mesh=mesh, model_map=m, n_kernels=5, p=-0.25, q=0.25, j0=0.0, jn=8.0
    )
    return Prob(sim, [vec(7, 60 + k) for k in range(3)])
