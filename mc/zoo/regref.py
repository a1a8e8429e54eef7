"""Loop-written reference of the least-squares / sparse regularizations on tensor meshes."""
import numpy as np


class Grid:
    """adjacent active pairs of a tensor mesh with per-axis spacings hs"""

    def __init__(self, hs, mask=None):
        self.hs = [np.asarray(h, float) for h in hs]
        self.dim = len(hs)
        shape = [len(h) for h in hs]
        n = int(np.prod(shape))
        self.mask = np.ones(n, bool) if mask is None else np.asarray(mask, bool)
        idx = -np.ones(n, int)
        idx[self.mask] = np.arange(self.mask.sum())
        self.n = int(self.mask.sum())
        vol = np.zeros(n)
        st = np.cumprod([1] + shape[:-1])
        self.pairs = [[] for _ in range(self.dim)]
        for c in range(n):
            ijk = [(c // st[d]) % shape[d] for d in range(self.dim)]
            vol[c] = np.prod([self.hs[d][ijk[d]] for d in range(self.dim)])
        for d in range(self.dim):
            for c in range(n):  # faces in mesh order = order of their left cell
                i = (c // st[d]) % shape[d]
                if i + 1 < shape[d] and self.mask[c] and self.mask[c + st[d]]:
                    dist = 0.5 * (self.hs[d][i] + self.hs[d][i + 1])
                    self.pairs[d].append((idx[c], idx[c + st[d]], dist))
        self.vol = vol[self.mask]
        self.minlen = min(h.min() for h in self.hs)

    def G(self, d):
        M = np.zeros((len(self.pairs[d]), self.n))
        for f, (a, b, dist) in enumerate(self.pairs[d]):
            M[f, a], M[f, b] = -1 / dist, 1 / dist
        return M

    def avg(self, d):
        """cells to interior faces"""
        M = np.zeros((len(self.pairs[d]), self.n))
        for f, (a, b, _) in enumerate(self.pairs[d]):
            M[f, a] = M[f, b] = 0.5
        return M

    def dist(self, d):
        return np.array([p[2] for p in self.pairs[d]])


def wrap(t):
    """to (-pi, pi]"""
    t = np.array(t, float)
    out = t.copy()
    for i, x in np.ndenumerate(t):
        while x > np.pi:
            x -= 2 * np.pi
        while x < -np.pi:
            x += 2 * np.pi
        out[i] = x
    return out


class Term:
    """one regularization term: value sum w f(m)^2"""

    def __init__(self, grid, kind, d=None):
        self.g, self.kind, self.d = grid, kind, d
        self.weights = {"volume": grid.vol.copy()}  # cell or (irls) face based
        self.faces = {}
        self.ref = None
        self.insmooth = False
        self.map = lambda m: m
        self.jac = lambda m: np.eye(len(m))
        self.radian = False

    def D(self):
        if self.kind == "small":
            return np.eye(self.g.n)
        G = self.g.G(self.d)
        return G if self.kind == "first" else G.T @ G

    def f(self, m):
        x = self.map(m)
        if self.ref is not None and (self.kind == "small" or self.insmooth):
            x = x - self.map(self.ref)
        if self.radian and self.kind != "small":
            df = np.array([x[b] - x[a] for a, b, _ in self.g.pairs[self.d]])
            df = wrap(df) / self.g.dist(self.d) if df.size else df
            return df if self.kind == "first" else self.g.G(self.d).T @ df
        return self.D() @ x

    def w(self):
        if self.kind == "first":
            A = self.g.avg(self.d)
            out = np.ones(A.shape[0])
            for v in self.weights.values():
                out = out * (A @ v)
            for v in self.faces.values():
                out = out * v
            return out
        out = np.ones(self.g.n)
        for v in list(self.weights.values()) + list(self.faces.values()):
            out = out * v
        return out

    def value(self, m):
        f = self.f(m)
        return float(np.sum(self.w() * f * f))

    def J(self, m):
        return self.D() @ self.jac(m)

    def deriv(self, m):
        return 2 * self.J(m).T @ (self.w() * self.f(m))

    def deriv2(self, m):
        J = self.J(m)
        return 2 * J.T @ (self.w()[:, None] * J)


def lp_weights(f, p, eps, scaled):
    f = np.asarray(f, float)
    if f.size == 0:
        return f
    p = np.broadcast_to(p, f.shape)
    out = np.zeros_like(f)
    fmax = np.abs(f).max()
    for i in range(f.size):
        s = 1.0
        if scaled:
            top = fmax if p[i] >= 1 else eps / np.sqrt(1.0 - p[i])
            val = top / (top**2 + eps**2) ** (1 - p[i] / 2)
            if val != 0:
                s = fmax / val
        out[i] = s / (f[i] ** 2 + eps**2) ** (1 - p[i] / 2)
    return out
