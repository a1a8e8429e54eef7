"""M04: physical properties, their maps, reciprocals and the model as a state machine."""
import itertools

import numpy as np
import discretize
from discretize.utils import Zero
from simpeg import maps, props
from simpeg.base import BaseElectricalPDESimulation, BaseMagneticPDESimulation

from mc.zoo.common import vec, mat

ID = "M04"
LEVEL = "model_checking"
RULE = (
    "All sequences, up to the depth bound, of assignments to a physical property, its reciprocal, their maps (3x3, 3x2, None, delete) and the model "
    "(two lengths, None, delete, illegal length) on real simulation classes; after each sequence every property, map, derivative and the model are "
    "read and compared with a reference state machine (at most one source of a property is live, reciprocals invert, failed assignments change nothing)."
)
BOUNDS = {"quick": "depth 3 from a fresh object", "thorough": "depth 4"}
ASSUMPTIONS = ["reference machine: the last non-None assignment among {property, reciprocal, their maps} wins and clears the other three"]
CHUNK = 4
CASE_TIMEOUT = 600

N = 3


def mesh():
    return discretize.TensorMesh([np.ones(N)])


class Custom(props.HasModel):
    a, aMap, aDeriv = props.Invertible("a", optional=True)
    b, bMap, bDeriv = props.Invertible("b")
    c = props.PhysicalProperty("c")
    d = props.PhysicalProperty("d")
    props.Reciprocal(c, d)

    def __init__(self, **kw):
        super().__init__(**kw)


def build(cls):
    if cls == "elec":
        return BaseElectricalPDESimulation(mesh())
    if cls == "mag":
        return BaseMagneticPDESimulation(mesh())
    if cls == "fdem":
        from simpeg.electromagnetics import frequency_domain as fd

        return fd.Simulation3DElectricField(discretize.TensorMesh([[1.0] * N, [1.0], [1.0]]))
    if cls == "dc1d":
        from simpeg.electromagnetics.static import resistivity as dc

        return dc.Simulation1DLayers()
    if cls == "tomo":
        from simpeg.seismic import straight_ray_tomography as t

        return t.Simulation(discretize.TensorMesh([[1.0] * N, [1.0]]))
    if cls == "sip":
        from simpeg.electromagnetics.static import spectral_induced_polarization as sip

        return sip.Simulation3DNodal(discretize.TensorMesh([[1.0] * N, [1.0], [1.0]]))
    if cls == "lin":
        from simpeg.simulation import LinearSimulation

        return LinearSimulation(mesh=mesh())
    if cls == "custom":
        return Custom()
    raise KeyError(cls)


# class -> list of groups (prop, reciprocal or None, has maps, optional, default)
GROUPS = {
    "elec": [("sigma", "rho", 1, 0, None)],
    "mag": [("mu", "mui", 1, 0, "mu0")],
    "fdem": [("sigma", "rho", 1, 0, None), ("mu", "mui", 1, 0, "mu0")],
    "dc1d": [("sigma", "rho", 1, 0, None), ("thicknesses", None, 1, 0, None)],
    "tomo": [("slowness", None, 1, 0, None)],
    "sip": [("tau", "taui", 1, 0, 0.1), ("eta", None, 1, 0, None)],
    "custom": [("a", None, 1, 1, None), ("b", None, 1, 0, None), ("c", "d", 0, 0, None)],
}


def ops_for(groups):
    out = []
    for gi, (p, r, mapped, _, _) in enumerate(groups):
        for nm in [p] + ([r] if r else []):
            for v in ("v", "s", "None", "del"):
                out.append(("prop", gi, nm, v))
            if mapped:
                for v in ("A", "B", "None", "del"):
                    out.append(("map", gi, nm, v))
    if any(g[2] for g in groups):
        for v in ("m3", "m2", "m4", "None", "del"):
            out.append(("model", -1, "", v))
    return out


VAL = {nm: vec(N, k, 0.5, 2.0) for k, nm in enumerate(["sigma", "rho", "mu", "mui", "thicknesses", "slowness", "tau", "taui", "eta", "a", "b", "c", "d"])}
M3, M2, M4 = vec(3, 50, 0.5, 2), vec(2, 51, 0.5, 2), vec(4, 52, 0.5, 2)
A, B = 1 + np.abs(mat(N, 3, 9)), 1 + np.abs(mat(N, 2, 10))


class Ref:
    """what the object must look like"""

    def __init__(self, groups, obj):
        self.groups = groups
        self.src = []  # per group: (kind, name, payload) or None
        for p, r, mapped, opt, default in groups:
            self.src.append(None if default is None else ("val", p, getattr(obj, p)))
        self.model = None
        # names holding each value, to apply "assign None / delete" only to the live holder

    def apply(self, op):
        kind, gi, nm, v = op
        if kind == "prop":
            s = self.src[gi]
            if v in ("None", "del"):
                if s and s[0] == "val" and s[1] == nm:
                    self.src[gi] = None
            else:
                self.src[gi] = ("val", nm, VAL[nm] if v == "v" else 1.7)
        elif kind == "map":
            s = self.src[gi]
            if v in ("None", "del"):
                if s and s[0] == "map" and s[1] == nm:
                    self.src[gi] = None
            else:
                self.src[gi] = ("map", nm, A if v == "A" else B)
        else:
            if v in ("None", "del"):
                self.model = None
                return False
            m = {"m3": M3, "m2": M2, "m4": M4}[v]
            act = [s for s in self.src if s and s[0] == "map"]
            if not act or any(s[2].shape[1] != m.size for s in act):
                return True  # must be refused, nothing changes
            self.model = m
        return False

    def read(self, gi, nm):
        """('val', x) or ('err',) for property nm"""
        s = self.src[gi]
        if s is None:
            return ("none",) if self.groups[gi][3] else ("err", AttributeError)
        if s[0] == "val":
            x = s[2]
        else:
            if self.model is None:
                return ("err", AttributeError)
            if s[2].shape[1] != self.model.size:
                return ("err", ValueError)
            x = s[2] @ self.model
        return ("val", x if nm == s[1] else 1.0 / x)

    def deriv(self, gi, nm):
        s = self.src[gi]
        if s is None or s[0] == "val" or self.model is None:
            return ("zero",)
        if s[2].shape[1] != self.model.size:
            return ("any",)
        if nm == s[1]:
            return ("val", s[2])
        x = s[2] @ self.model
        return ("val", -s[2] / x[:, None] ** 2)


def apply(obj, op):
    kind, gi, nm, v = op
    if kind == "prop":
        if v == "del":
            delattr(obj, nm)
        else:
            setattr(obj, nm, {"v": VAL[nm], "s": 1.7, "None": None}[v])
    elif kind == "map":
        if v == "del":
            delattr(obj, nm + "Map")
        else:
            setattr(obj, nm + "Map", {"A": maps.LinearMap(A), "B": maps.LinearMap(B), "None": None}[v])
    else:
        if v == "del":
            del obj.model
        else:
            obj.model = {"m3": M3.copy(), "m2": M2.copy(), "m4": M4.copy(), "None": None}[v]


def cases(tier, seed):
    depth = 3 if tier == "quick" else 4
    for cls, groups in GROUPS.items():
        ops = ops_for(groups)
        for first in range(len(ops)):
            yield dict(cls=cls, first=first, depth=depth if len(ops) <= 25 or tier == "quick" else 4)


def compare(ctx, obj, ref, seq):
    for gi, (p, r, mapped, opt, _) in enumerate(ref.groups):
        for nm in [p] + ([r] if r else []):
            want = ref.read(gi, nm)
            try:
                got = ("val", getattr(obj, nm))
                if got[1] is None:
                    got = ("none",)
            except Exception as e:
                got = ("err", type(e))
            if want[0] == "err":
                okk = got[0] == "err" and issubclass(got[1], want[1])
                if not okk and want[1] is AttributeError and got[0] == "none":
                    okk = ref.groups[gi][2] == 0  # plain property: None when unset is fine
                ctx.check(okk, "read-error", f"{nm}: {got} want {want} after {seq}")
            elif want[0] == "none":
                ctx.check(got[0] == "none", "read-none", f"{nm}: {got} after {seq}")
            else:
                ctx.check(
                    got[0] == "val" and np.allclose(got[1], want[1], rtol=1e-12, atol=0) and np.shape(got[1]) == np.shape(want[1]),
                    "read-value", f"{nm}: {got} want {want} after {seq}")
            if mapped:
                s = ref.src[gi]
                mp = getattr(obj, nm + "Map")
                ctx.check((mp is None) == (s is None or s[0] == "val"), "map-presence", f"{nm}Map={mp} after {seq}")
                wd = ref.deriv(gi, nm)
                if wd[0] == "zero":
                    ctx.check(isinstance(getattr(obj, nm + "Deriv"), Zero), "deriv-zero", f"{nm}Deriv after {seq}")
                elif wd[0] == "val":
                    d = getattr(obj, nm + "Deriv")
                    d = d.toarray() if hasattr(d, "toarray") else np.asarray(d)
                    ctx.close(d, wd[1], "deriv", rtol=1e-10, msg=f"{nm}Deriv after {seq}")
    if any(g[2] for g in ref.groups):
        m = obj.model
        ctx.check((m is None) == (ref.model is None) and (m is None or np.array_equal(m, ref.model)), "model", f"model {m} want {ref.model} after {seq}")
        ctx.check(obj.needs_model == any(s and s[0] == "map" for s in ref.src), "needs_model", f"after {seq}")


def run(c, ctx):
    groups = GROUPS[c["cls"]]
    ops = ops_for(groups)
    for d in range(1, c["depth"] + 1):
        for tail in itertools.product(range(len(ops)), repeat=d - 1):
            seq = [ops[c["first"]]] + [ops[i] for i in tail]
            obj = build(c["cls"])
            ref = Ref(groups, obj)
            for op in seq:
                ctx.step()
                refuse = ref.apply(op)
                try:
                    apply(obj, op)
                    if refuse:
                        ctx.check(False, "accepted-model", f"{op} accepted after {seq}")
                except ValueError as e:
                    if not refuse:
                        ctx.check(False, "refused", f"{op} refused ({e}) in {seq}")
            ctx.trace()
            compare(ctx, obj, ref, seq)
            st = [c["cls"], [None if s is None else (s[0], s[1], np.shape(s[2])) for s in ref.src], None if ref.model is None else ref.model.size]
            ctx.state(st)
            ctx.outcome(st)
            if len(ctx.violations) > 20:
                return
