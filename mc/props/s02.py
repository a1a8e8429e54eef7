"""S02: Jvec is the derivative of dpred, for every configuration of the zoo."""

import numpy as np

from mc import jac, zoo
from mc.zoo import lists

ID = "S02"
LEVEL = "model_checking"
RULE = "a case is one simulation configuration whose sensitivities were non-zero; outcomes are distinct derivative vectors"
BOUNDS = {
    "quick": "complete product lists of formulation x source x receiver x orientation x component x invertible property x waveform/time-stepping/storage option on tiny meshes; 1 model, 2 generic directions",
    "thorough": "the thorough product lists, 3 models, every unit direction",
}
ASSUMPTIONS = [
    "finite differences (Richardson, rel. error < 1e-6 measured) approximate the derivative of dpred",
    "meshes up to 80 cells and a handful of receivers expose the code paths used by large problems",
]
TOL = 1e-5


def cases(tier, seed):
    out = []
    for c in lists.full(tier):
        if c.get("store") == "forward_only" and c.get("engine") == "geoana":
            continue  # sensitivities are documented as not available there
        for k in (0,) if tier == "quick" else (0, 1, 2):
            out.append(dict(c, tier=tier, model=k))
    return out


def run(case, ctx):
    p = zoo.build(case)
    m = p.models[case["model"]]
    sim = zoo.build(case).sim
    simf = zoo.build(case).sim
    f = simf.fields(m)
    for v in jac.directions(m.size, case["tier"]):
        F = jac.fd_dir(p.sim.dpred, m, v)
        J = np.asarray(sim.Jvec(m, v))
        Jf = np.asarray(simf.Jvec(m, v, f=f))
        ctx.step(6)
        ctx.check(J.shape == F.shape, "jvec-shape", f"{J.shape} vs {F.shape}")
        floor = 1e-7 * np.max(np.abs(F)) if F.size else 0
        _, i, err = jac.rowcompare(J, F, TOL, floor)
        ctx.check(err <= TOL, "jvec-vs-fd", f"row {i}: relative error {err:.2e}")
        _, i, err = jac.rowcompare(Jf, J, 1e-8, 1e-10 * np.max(np.abs(J)) if J.size else 0)
        ctx.check(err <= 1e-8, "jvec-given-fields", f"row {i}: relative error {err:.2e}")
        ctx.outcome([float("%.6g" % x) for x in J])
    ctx.state({k: case[k] for k in case if k != "tier"})
