"""Jacobians of tiny problems, obtained independently of each other."""

import numpy as np

from .zoo.common import vec


def directions(n, tier):
    if tier == "thorough":
        return np.eye(n)
    return np.array([vec(n, 901, 0.2, 1.0), vec(n, 902, 0.2, 1.0) * (-1.0) ** np.arange(n)])


def fd_step(m, v, h):
    """Step so that no parameter moves by more than h relative to its own size."""
    size = np.where(np.abs(m) >= 0.5, np.maximum(1.0, np.abs(m)), np.maximum(np.abs(m), 0.05))
    nz = v != 0
    return h * np.min(size[nz] / np.abs(v[nz]))


def fd_dir(dpred, m, v, h=2e-3):
    """Richardson-extrapolated central difference of dpred along v."""
    e = fd_step(m, v, h)
    d1 = (dpred(m + e * v) - dpred(m - e * v)) / (2 * e)
    d2 = (dpred(m + 2 * e * v) - dpred(m - 2 * e * v)) / (4 * e)
    return (4 * d1 - d2) / 3


def jvec_matrix(sim, m, f=None):
    return np.array([np.asarray(sim.Jvec(m, e, f=f)).ravel() for e in np.eye(m.size)]).T


def jtvec_matrix(sim, m, nD, f=None):
    return np.array([np.asarray(sim.Jtvec(m, e, f=f)).ravel() for e in np.eye(nD)])


def fd_jacobian(sim, m, h=2e-3):
    return np.array([fd_dir(sim.dpred, m, e, h) for e in np.eye(m.size)]).T


def rowcompare(J, R, tol, floor):
    """(worst scaled error, row, worst error) with every row compared on its own scale."""
    J = np.asarray(J)
    R = np.asarray(R)
    if J.ndim == 1:
        J, R = J[:, None], R[:, None]
    if J.shape != R.shape:
        return np.inf, -1, np.inf
    scale = np.maximum(np.max(np.abs(R), axis=1), np.max(np.abs(J), axis=1))
    scale = np.maximum(scale, floor)
    err = np.max(np.abs(J - R), axis=1)
    err = np.where(err == 0, 0.0, err / np.where(scale == 0, 1.0, scale))
    if not np.all(np.isfinite(err)):
        return np.inf, int(np.argmin(np.isfinite(err))), np.inf
    i = int(np.argmax(err))
    return err[i] / tol, i, err[i]
