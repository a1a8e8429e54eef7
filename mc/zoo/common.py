"""Shared pieces of the tiny-problem zoo: meshes, maps and deterministic models."""

import numpy as np
import discretize
import scipy.sparse as sp
from simpeg import maps

import logging
import simpeg.utils.solver_utils as _su

logging.getLogger("SimPEG").setLevel(logging.ERROR)
_su.set_default_solver(_su.get_default_solver())

REG = {}


def physics(name):
    def deco(cls):
        REG[name] = cls
        return cls

    return deco


class Prob:
    """A freshly built simulation plus the finite alphabet of models used on it."""

    def __init__(self, sim, models, **flags):
        self.sim = sim
        self.models = [np.array(m, dtype=float) for m in models]
        self.flags = flags

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self.flags.get(k)


def vec(n, k=0, lo=-1.0, hi=1.0):
    """Deterministic, generic (no symmetry) vector in [lo, hi]."""
    i = np.arange(1, n + 1)
    x = np.modf(np.abs(np.sin(i * 12.9898 + 78.233 * (k + 1)) * 43758.5453))[0]
    return lo + (hi - lo) * x


def mat(n, m, k=0, lo=-1.0, hi=1.0):
    return vec(n * m, k, lo, hi).reshape(n, m)


def blend(n_out, n_in, k=0):
    """Rows sum to one, every output depends on every input."""
    w = 0.05 + mat(n_out, n_in, k, 0.0, 1.0) ** 2
    return maps.LinearMap(sp.csr_matrix(w / w.sum(axis=1)[:, None]))


def tensor3(seed=0, n=(5, 4, 4), h=10.0, origin="CCC"):
    hs = [h * (0.7 + 0.6 * vec(ni, 7 * seed + d, 0, 1)) for d, ni in enumerate(n)]
    return discretize.TensorMesh(hs, origin=origin)


def uniform3(n=(5, 4, 4), h=10.0, origin="CCC"):
    return discretize.TensorMesh([[(h, ni)] for ni in n], origin=origin)


def tree3():
    m = discretize.TreeMesh([[(10.0, 4)]] * 3, origin="CCC")
    m.refine(1, finalize=False)
    m.insert_cells(np.array([[-5.0, -5.0, 5.0]]), [2], finalize=True)
    return m


def cyl(n=(6, 1, 6), h=8.0):
    hr = h * (0.8 + 0.4 * vec(n[0], 3, 0, 1))
    hz = h * (0.8 + 0.4 * vec(n[2], 4, 0, 1))
    return discretize.CylindricalMesh([hr, 1, hz], origin="00C")


def mesh_by(name):
    return {
        "tensor": tensor3,
        "tree": tree3,
        "cyl": cyl,
    }[name]()
