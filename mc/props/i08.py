"""I08: saving directives record the inversion they observe."""
import gc
import itertools
import os
import shutil
import tempfile

import discretize
import numpy as np
from simpeg import directives, inverse_problem, inversion, regularization

from mc.props.i07 import HX, N, Problem, Scripted
from mc.zoo.common import vec

ID = "I08"
LEVEL = "model_checking"
RULE = (
    "All sequences of iterates (scripted minimizer) x saving directive x on-disk mode x file name x regularization x beta schedule before or after the saver x abort after any iteration: after "
    "every iteration the in-memory records and the files on disk (read back independently) hold exactly one entry per accepted iterate with its iteration number, model, predicted data, beta, "
    "misfit, model objective and terms; earlier entries are untouched; load_results restores the table."
)
BOUNDS = {"quick": "all sequences of at most 4 iterates over 3 models; abort after each iteration", "thorough": "at most 5 iterates"}
CHUNK = 4
CASE_TIMEOUT = 900


def prefork(tier):
    gc.collect()
    gc.freeze()


class Boom(Exception):
    pass


class Abort(directives.InversionDirective):
    def __init__(self, k):
        super().__init__()
        self.k = k

    def endIter(self):
        if self.opt.iter == self.k:
            raise Boom()


class Look(directives.InversionDirective):
    """reads the files as another process would find them after each iteration"""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def initialize(self):
        self.fn(self, 0)

    def endIter(self):
        self.fn(self, self.opt.iter)

    def finish(self):
        self.fn(self, None)


def mkreg(name):
    if name == "2d":
        mesh = discretize.TensorMesh([np.r_[1.0, 2.0, 0.5], np.r_[1.0, 1.5]])
        return regularization.WeightedLeastSquares(mesh, alpha_s=0.3, alpha_x=1.2, alpha_y=0.6, reference_model=vec(N, 5) * 0.1)
    if name == "3d":
        mesh = discretize.TensorMesh([np.r_[1.0, 2.0, 0.5], np.r_[1.0], np.r_[1.0, 1.5]])
        return regularization.WeightedLeastSquares(mesh, alpha_s=0.3, alpha_x=1.2, alpha_y=0.6, alpha_z=0.9, reference_model=vec(N, 5) * 0.1)
    mesh = discretize.TensorMesh([HX])
    if name == "wls":
        return regularization.WeightedLeastSquares(mesh, alpha_s=0.3, alpha_x=1.2, alpha_xx=0.1, reference_model=vec(N, 5) * 0.1)
    if name == "sparse":
        return regularization.Sparse(mesh, alpha_s=0.3, alpha_x=1.2, norms=[0, 1], reference_model=vec(N, 5) * 0.1)
    if name == "small":
        return regularization.Smallness(mesh, reference_model=vec(N, 5) * 0.1)
    if name == "pair":
        return regularization.WeightedLeastSquares(mesh, alpha_s=0.3, alpha_x=1.2, reference_model=vec(N, 5) * 0.1) + regularization.Sparse(mesh, alpha_s=0.5, alpha_x=0.7, reference_model=np.zeros(N))
    raise KeyError(name)


def terms(reg, name, m):
    """small, x, y, z parts"""
    subs = reg.objfcts if name == "pair" else [reg]
    out = np.zeros(4)
    for r in subs:
        if name == "small":
            continue
        for w, o in zip(r.multipliers, r.objfcts):
            cls = type(o).__name__
            if "Small" in cls:
                out[0] += w * o(m)
            elif "Second" in cls:
                continue
            else:
                out[{"x": 1, "y": 2, "z": 3}[o.orientation]] += w * o(m)
    return out


def tree(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def one(c, ctx, seq, scratch):
    prob = Problem(c["nds"], mults=[1.0] * len(c["nds"]))
    ms = [prob.at(x, k) for k, x in enumerate([60.0, 1.6, 0.3])]
    reg = mkreg(c["reg"])
    d = os.path.join(scratch, "out")
    if c["dir"] == "exists":
        os.makedirs(d)
    disk = bool(c["disk"])
    kw = dict(directory=d, name=c["name"]) if disk or c["kind"] == "model" else dict(name=c["name"])
    mk = {"model": directives.SaveModelEveryIteration, "out": directives.SaveOutputEveryIteration, "dict": directives.SaveOutputDictEveryIteration}[c["kind"]]
    sv = mk(**kw) if c["kind"] == "model" else mk(on_disk=disk, **kw)
    hist = []
    before = {}
    tag = f"iterates {seq}"

    class Rec(directives.InversionDirective):
        """independent record taken where the saver stands in the list"""

        def endIter(self):
            m = np.array(self.invProb.model)
            hist.append(dict(it=self.opt.iter, m=m, beta=float(self.invProb.beta), phi_d=prob.phi_d(m), phi_m=float(self.invProb.phi_m), f=float(self.opt.f), t=terms(reg, c["reg"], m), dpred=np.hstack([G @ m for G in prob.G])))

    def look(dv, it):
        files = tree(d) if os.path.isdir(d) else {}
        n = len(hist)
        t = f"{tag} after {it}"
        if not disk and c["kind"] != "model":
            ctx.check(not files, "stray", f"{t}: wrote {list(files)}")
        elif c["kind"] in ("model", "dict"):
            if not ctx.check(len(files) == n, "files", f"{t}: {len(files)} files for {n} iterations: {sorted(files)}"):
                return
            for k, v in before.items():
                ctx.check(files.get(k) == v, "rewritten", f"{t}: {k} was changed")
            before.update(files)
            for h, nm in zip(hist, sorted(files)):
                p = os.path.join(d, nm)
                ctx.check(str(h["it"]) in nm and nm.startswith(c["name"]), "name", f"{t}: {nm}")
                if c["kind"] == "model":
                    ctx.close(np.load(p), h["m"], "model", rtol=0, msg=t)
                else:
                    z = np.load(p, allow_pickle=True)
                    z = z[z.files[0]].item()
                    cmpdict(ctx, z, h, reg, c, t)
        else:
            if not ctx.check(len(files) == 1, "files", f"{t}: {sorted(files)}"):
                return
            nm, raw = list(files.items())[0]
            for k, v in before.items():
                ctx.check(k == nm and raw.startswith(v), "rewritten", f"{t}: earlier lines were changed")
            before.clear()
            before[nm] = raw
            rows = [r.split() for r in raw.decode().splitlines() if r.strip() and not r.strip().startswith("#")]
            if ctx.check(len(rows) == n, "rows", f"{t}: {len(rows)} rows for {n} iterations"):
                for r, h in zip(rows, hist):
                    ctx.check(int(r[0]) == h["it"], "rows", f"{t}: row {r}")
                    rowcheck(ctx, r, h, t)
        if c["kind"] == "out":
            for nm, key in (("beta", "beta"), ("phi_d", "phi_d"), ("phi_m", "phi_m"), ("phi", "f")):
                ctx.close(np.array(getattr(sv, nm), float), np.array([h[key] for h in hist], float), "list", rtol=1e-9, msg=f"{t}: {nm}")
            for j, nm in enumerate(("phi_m_small", "phi_m_smooth_x", "phi_m_smooth_y", "phi_m_smooth_z")):
                ctx.close(np.array(getattr(sv, nm), float), np.array([h["t"][j] for h in hist], float), "list", rtol=1e-9, msg=f"{t}: {nm}")
        if c["kind"] == "dict":
            if ctx.check(sorted(sv.outDict) == [h["it"] for h in hist], "dict", f"{t}: keys {sorted(sv.outDict)}"):
                for h in hist:
                    cmpdict(ctx, sv.outDict[h["it"]], h, reg, c, t)

    dl = [Rec(), sv, Look(look)]
    if c["cool"] == "before":
        dl = [directives.BetaSchedule(coolingFactor=2.0, coolingRate=1)] + dl
    elif c["cool"] == "after":
        dl = dl + [directives.BetaSchedule(coolingFactor=2.0, coolingRate=1)]
    if c["abort"]:
        dl = dl + [Abort(c["abort"])]
    o = Scripted([ms[i] for i in seq], slack=c["slack"])
    ip = inverse_problem.BaseInvProblem(prob.build(), reg, o, beta=4.0, print_version=False)
    inv = inversion.BaseInversion(ip, directiveList=dl)
    if c["slack"]:

        class Stop(directives.InversionDirective):
            def endIter(self):
                if self.opt.iter == len(seq):
                    self.opt.stopNextIteration = True

        inv.directiveList = dl + [Stop()]
    try:
        inv.run(prob.mt * 0)
    except Boom:
        look(None, "abort")
    ctx.check(len(hist) == (min(c["abort"], len(seq)) if c["abort"] else len(seq)), "iterations", tag)
    for h, i in zip(hist, seq):
        ctx.close(h["m"], ms[i], "script", rtol=1e-9, msg=tag)
    if c["kind"] == "out" and disk and hist:
        path = sv.file_abs_path
        fresh = directives.SaveOutputEveryIteration(on_disk=True, directory=d, name="other")
        fresh.inversion = inv
        for who, args in ((fresh, (str(path),)), (sv, ())):
            try:
                who.load_results(*args)
            except (AttributeError, IndexError) as e:
                ctx.check(False, "load-fails", f"{tag}: load_results raises {type(e).__name__}: {e}")
                continue
            for nm, key in (("beta", "beta"), ("phi_d", "phi_d"), ("phi_m", "phi_m"), ("f", "f")):
                ctx.check(np.allclose(getattr(who, nm), [h[key] for h in hist], rtol=1e-4), "load", f"{tag}: {nm}")
            for j, nm in enumerate(("phi_m_small", "phi_m_smooth_x", "phi_m_smooth_y", "phi_m_smooth_z")):
                ctx.check(np.allclose(getattr(who, nm), [h["t"][j] for h in hist], rtol=1e-4), "load", f"{tag}: {nm}")
            nd = sum(c["nds"])
            ctx.check(who.target_misfit == nd, "load", f"{tag}: target {who.target_misfit}")
            below = [k for k, h in enumerate(hist) if h["phi_d"] <= nd]
            want = below[0] if below and hist[-1]["phi_d"] < nd else None
            ctx.check(who.i_target == want, "load", f"{tag}: i_target {who.i_target}, expected {want}")
    ctx.step(len(hist))
    ctx.state([c["kind"], c["disk"], c["reg"], c["cool"], c["abort"], c["name"], seq])
    ctx.outcome([len(hist), np.round([h["f"] for h in hist], 6)])
    ctx.trace()


def rowcheck(ctx, r, h, t):
    got = np.array([float(q) for q in r[1:]])
    want = np.r_[h["beta"], h["phi_d"], h["phi_m"], h["t"], h["f"]]
    ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-4, atol=1e-12), "row", f"{t}: row {got} expected {want}")


def cmpdict(ctx, z, h, reg, c, t):
    ctx.check(z["iter"] == h["it"], "dict", f"{t}: iter {z['iter']}")
    for k in ("beta", "phi_d", "phi_m", "f", "m", "dpred"):
        ctx.close(z[k], h[k], "dict", rtol=1e-9, msg=f"{t}: {k}")
    if c["reg"] == "sparse":
        ctx.close(float(np.unique(z["SparseSmallness.norm"])[0]), 0.0, "dict", scale=1.0, msg=f"{t}: norm")
        ctx.close(float(np.unique(z["x SparseSmoothness.norm"])[0]), 1.0, "dict", scale=1.0, msg=f"{t}: norm")


def cases(tier, seed):
    L = 5 if tier == "thorough" else 4
    for kind in ("model", "out", "dict"):
        for disk in (0, 1) if kind != "model" else (1,):
            for reg in ("wls", "2d", "3d", "sparse", "small", "pair"):
                if kind == "model" and reg not in ("wls", "small"):
                    continue
                for cool in ("no", "before", "after"):
                    for abort in (0, 1, 2, 3):
                        if abort and (cool == "before" or reg not in ("wls", "sparse")):
                            continue
                        for name in ("InversionModel", "run.v1", "a b") if disk and reg == "wls" and cool == "no" else ("InversionModel",):
                            for nds in ([4], [4, 3]) if reg == "wls" and cool != "before" else ([4],):
                                yield dict(kind=kind, disk=disk, reg=reg, cool=cool, abort=abort, name=name, nds=nds, len=L if cool == "no" else 3, dir="exists" if reg == "sparse" else "new", slack=0)
            yield dict(kind=kind, disk=disk, reg="wls", cool="no", abort=0, name="InversionModel", nds=[4], len=3, dir="new", slack=20)


def run(c, ctx):
    for n in range(1, c["len"] + 1):
        for seq in itertools.product(range(3), repeat=n):
            if c["abort"] and n < c["abort"]:
                continue
            scratch = tempfile.mkdtemp(prefix="i08-")
            cwd = os.getcwd()
            try:
                os.chdir(scratch)
                one(c, ctx, seq, scratch)
            finally:
                os.chdir(cwd)
                shutil.rmtree(scratch, ignore_errors=True)
            if len(ctx.violations) > 5:
                return
