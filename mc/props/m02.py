"""M02: map values, derivatives and inverses."""
import numpy as np
import scipy.sparse as sp

from mc.zoo import mapzoo as Z
from mc.zoo.common import vec

ID = "M02"
LEVEL = "model_checking"
RULE = (
    "Every concrete map class x every combination of its constructor options on tiny meshes x several models; at each "
    "model ALL columns of the derivative are compared with central differences of the map itself and the value with an "
    "independent formula; the same object answers a second round in reversed model order (history) with a model array "
    "overwritten in place."
)
BOUNDS = {"quick": "3 models per configuration", "thorough": "4 models per configuration, all ordered pairs of models"}
ASSUMPTIONS = ["central differences with step 1e-5, agreement to 1e-6 of the largest derivative"]
CHUNK = 4


# options that may be reassigned on a live map -> public attributes holding them
SETTABLE = {
    "layer": {"act": ["active_cells"], "slope": ["slope"]},
    "block": {"act": ["active_cells"], "opt": ["epsilon", "p", "slope"]},
    "ellipsoid": {"act": ["active_cells"], "sf": ["slopeFact"]},
    "blockinlayer": {"act": ["active_cells"], "slope": ["slope"]},
    "casing": {"act": ["active_cells"], "slope": ["slope"]},
    "circle": {"logs": ["logSigma"], "slope": ["slope"]},
    "poly2": {"logs": ["logSigma"], "normal": ["normal"], "order": ["order"], "act": ["active_cells"]},
    "poly3": {"logs": ["logSigma"], "normal": ["normal"], "order": ["order"], "act": ["active_cells"]},
    "spline2": {"logs": ["logSigma"], "normal": ["normal"], "order": ["order"]},
    "spline3": {"logs": ["logSigma"], "order": ["order"]},
    "units": {"kind": ["indices"]},
    "mesh2mesh": {"act": ["active_cells"]},
    "linear": {"kind": ["A"], "b": ["b"]},
    "weighting": {"w": ["weights"]},
    "effsus": {"amp": ["ambient_field_magnitude"]},
    "2dto3d": {"normal": ["normal"]},
    "scemt": {"alpha": ["alpha0", "alpha1"], "sig": ["sigma0", "sigma1"]},
}


def cases(tier, seed):
    for c in Z.LIST:
        yield dict(c, tier=tier)
    for name, opts in SETTABLE.items():
        cfg = [c for c in Z.LIST if c["map"] == name]
        for c1 in cfg:
            for c2 in cfg:
                diff = [k for k in c1 if c1[k] != c2[k]]
                if not diff or any(k not in opts for k in diff):
                    continue
                if tier == "quick" and len(diff) > 1:
                    continue
                yield dict(c1, to=c2, diff=diff, tier=tier)


def reassign(c, ctx):
    """evaluate under one configuration, reassign options, compare with a fresh map"""
    c1 = {k: v for k, v in c.items() if k not in ("to", "diff", "tier")}
    live, _, mods1, fl = Z.build(c1)
    fresh, _, mods2, _ = Z.build(c["to"])
    for m in mods1[:2]:
        observe(live, m)
    for k in c["diff"]:
        for attr in SETTABLE[c["map"]][k]:
            setattr(live, attr, getattr(fresh, attr))
            ctx.step()
    ctx.state(c)
    ctx.check(tuple(live.shape) == tuple(fresh.shape), "reassign-shape", f"{live.shape} vs {fresh.shape}")
    rt = 1e-7 if fl.get("scemt") else 1e-12
    for m in mods2[:2]:
        a, b = observe(live, m), observe(fresh, m)
        ctx.close(a[0], b[0], "reassign-value", rtol=rt, msg=f"after reassigning {c['diff']}")
        ctx.close(a[1], b[1], "reassign-deriv", rtol=rt, msg=f"after reassigning {c['diff']}")


def dense(d, n):
    if sp.issparse(d):
        return d.toarray()
    return np.asarray(d @ np.eye(n) if not isinstance(d, np.ndarray) else d)


def observe(mp, m):
    n = mp.shape[1]
    return np.array(mp * m), dense(mp.deriv(m), n)


def run(c, ctx):
    if "to" in c:
        return reassign(c, ctx)
    mp, ref, models, fl = Z.build(c)
    n = mp.shape[1]
    if c["tier"] == "quick":
        models = models[:3]
    rt = fl.get("rtol", 1e-6)
    truth = []
    for k, m in enumerate(models):
        keep = m.copy()
        val = np.array(mp * m)
        ctx.state([c, k])
        ctx.step()
        if ref is not None:
            ctx.close(val, ref(m), "value", rtol=1e-9, msg="map value vs reference")
        ctx.check(np.array_equal(m, keep), "mutated-model", "map changed the caller's model")
        ctx.check(tuple(mp.shape) == (val.size, n), "shape", f"shape {mp.shape} but maps {n} -> {val.size}")
        D = dense(mp.deriv(m), n)
        ctx.check(D.shape == (val.size, n), "deriv-shape", f"{D.shape}")
        h = 1e-5
        f = ref if ref is not None else (lambda x: Z.build(c)[0] * x)
        FD = np.zeros((val.size, n), dtype=val.dtype)
        for j in range(n):
            e = np.zeros(n)
            e[j] = h
            FD[:, j] = (f(m + e) - f(m - e)) / (2 * h)
        tol = 2e-5 if fl.get("scemt") else 1e-6
        ctx.close(D, FD, "deriv-vs-fd", rtol=tol, msg="derivative vs finite difference")
        v = vec(n, 60 + k)
        vk = v.copy()
        dv = mp.deriv(m, v=v)
        ctx.close(np.asarray(dv), D @ v, "deriv-v", rtol=1e-9, msg="deriv(m, v) vs deriv(m) @ v")
        ctx.check(np.array_equal(v, vk) and np.array_equal(m, keep), "mutated-v", "deriv changed its arguments")
        if fl.get("inv"):
            back = np.asarray(mp.inverse(mp * m))
            ctx.close(back, m, "inverse", rtol=1e-5 if fl.get("scemt") else 1e-7, msg="inverse(map * m)")
        if mp.is_linear:
            m2 = models[(k + 1) % len(models)]
            ctx.close(dense(mp.deriv(m2), n), D, "is_linear", rtol=1e-9, msg="map declared linear, derivative varies")
        truth.append((val, D))
        ctx.outcome([c["map"], np.round(val, 6).tolist() if val.dtype != complex else np.round(np.abs(val), 6).tolist()])
    # history: other orders on the same object, through one caller buffer overwritten in place
    buf = np.empty(n)
    orders = [list(range(len(models)))[::-1]]
    if c["tier"] == "thorough":
        orders += [[i, j] for i in range(len(models)) for j in range(len(models))]
    for od in orders:
        for k in od:
            buf[:] = models[k]
            dfirst = dense(mp.deriv(buf), n)
            val = np.array(mp * buf)
            ctx.step()
            ctx.close(val, truth[k][0], "history-value", rtol=max(rt * 1e-3, 1e-9), msg="value depends on earlier calls")
            ctx.close(dfirst, truth[k][1], "history-deriv", rtol=max(rt * 1e-3, 1e-9), msg="derivative depends on earlier calls")
    # a second, separately built object agrees (no sharing between instances)
    mp2 = Z.build(c)[0]
    o = observe(mp2, models[-1])
    ctx.close(o[0], truth[-1][0], "fresh-value", rtol=max(rt * 1e-3, 1e-9))
    ctx.close(o[1], truth[-1][1], "fresh-deriv", rtol=max(rt * 1e-3, 1e-9))
