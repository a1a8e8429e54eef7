"""S03: Jtvec, getJ and getJtJdiag agree with Jvec, for every configuration of the zoo."""

import numpy as np
import scipy.sparse as sp

from mc import jac, zoo
from mc.zoo import lists
from mc.zoo.common import vec

ID = "S03"
LEVEL = "model_checking"
RULE = "a case is one simulation configuration; outcomes are distinct Jacobian matrices"
BOUNDS = {
    "quick": "same configuration lists as S02; full Jvec matrix against Jtvec on 2 generic row-balanced vectors, getJ and getJtJdiag (no weights, two weightings)",
    "thorough": "thorough lists, 3 models, Jtvec on every unit vector",
}
ASSUMPTIONS = ["Jvec itself is decided by S02"]


def cases(tier, seed):
    out = []
    for c in lists.full(tier):
        if c.get("store") == "forward_only" and c.get("engine") == "geoana":
            continue
        for k in (0,) if tier == "quick" else (0, 1, 2):
            out.append(dict(c, tier=tier, model=k))
    return out


def optional(fn):
    try:
        return fn()
    except NotImplementedError:
        return None


def run(case, ctx):
    p = zoo.build(case)
    m = p.models[case["model"]]
    sim = p.sim
    J = jac.jvec_matrix(sim, m)
    nD = J.shape[0]
    rs = np.max(np.abs(J), axis=1)
    rs = np.maximum(rs, 1e-9 * rs.max()) if rs.max() > 0 else np.ones(nD)
    us = np.eye(nD) if case["tier"] == "thorough" else [vec(nD, 911, 0.3, 1) / rs, vec(nD, 912) / rs]
    st = zoo.build(case).sim
    sf = zoo.build(case).sim
    f = sf.fields(m)
    for u in us:
        want = J.T @ u
        scale = np.abs(J.T) @ np.abs(u)
        for name, got in (("fresh", st.Jtvec(m, u)), ("fields", sf.Jtvec(m, u, f=f))):
            ctx.step()
            got = np.asarray(got)
            if not ctx.check(got.shape == (m.size,), "jtvec-shape", f"{got.shape}"):
                continue
            err = np.max(np.abs(got - want) / np.maximum(scale, 1e-9 * scale.max() + 1e-300))
            ctx.check(err <= 1e-8, "jtvec-adjoint", f"({name}) relative error {err:.2e}")
    sj = zoo.build(case).sim
    got = optional(lambda: sj.getJ(m)) if hasattr(sj, "getJ") and case["phys"] not in ("sip", "tomo") else None
    if got is not None and not isinstance(got, dict):
        ctx.step()
        if not isinstance(got, np.ndarray):
            A = np.array([np.asarray(got @ e).ravel() for e in np.eye(m.size)]).T
        else:
            A = got
        _, i, err = jac.rowcompare(A, J, 1e-8, 1e-10 * np.abs(J).max())
        ctx.check(err <= 1e-8, "getJ", f"row {i}: relative error {err:.2e}")
    if hasattr(sim, "getJtJdiag") and case["phys"] != "sip":
        for wi, w in enumerate((None, 1.0 / rs, vec(nD, 915, 0.5, 2.0) / rs)):
            sd = zoo.build(case).sim
            W = None if w is None else sp.diags(w)
            got = optional(lambda: sd.getJtJdiag(m, W=W))
            if got is None:
                continue
            ctx.step()
            ww = np.ones(nD) if w is None else w
            want = np.sum((ww[:, None] * J) ** 2, axis=0)
            ctx.close(got, want, "jtjdiag" if w is not None else "jtjdiag-noW", rtol=1e-7, msg=f"W#{wi}")
    ctx.state({k: case[k] for k in case if k != "tier"})
    ctx.outcome([float("%.6g" % x) for x in J.ravel()])
