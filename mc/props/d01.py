"""D01: survey bookkeeping and the Data container, against list-written references."""
import itertools

import numpy as np
from simpeg import data as sdata
from simpeg.survey import BaseSurvey, BaseSrc, BaseRx, BaseTimeRx, BaseTimeSurvey
from simpeg.electromagnetics import frequency_domain as fdem, time_domain as tdem, natural_source as nsem
from simpeg.electromagnetics.static import resistivity as dc, spectral_induced_polarization as sip
from simpeg.potential_fields import gravity, magnetics

from mc.zoo.common import vec

ID = "D01"
LEVEL = "model_checking"
RULE = (
    "Every survey shape (sources x receivers per source x data per receiver, shared receiver objects) of every survey class: counts, the order of "
    "data, slices, item access of Data, source / receiver / frequency look-ups against a list-written reference, before and after every sequence of "
    "reassignments of the source list, receiver lists and locations; plus all sequences of assignments to a Data object (observed data, item "
    "assignment, relative error, noise floor, standard deviation, refused values) against a reference state machine."
)
BOUNDS = {"quick": "<= 3 sources, <= 2 receivers each, <= 3 data each; reassignment sequences <= 2; Data operation sequences <= 3",
          "thorough": "<= 3 sources, <= 3 receivers each; reassignment sequences <= 3; Data operation sequences <= 4"}
ASSUMPTIONS = []
CHUNK = 8
KINDS = ["base", "time", "fdem", "tdem", "nsem", "dc", "sip", "grav", "mag"]


def locs(n, k):
    return vec(3 * n, k).reshape(n, 3) * 10


def mk_rx(kind, n, k):
    L = locs(n, k)
    t = np.sort(vec(1 + k % 2, k, 1e-4, 1e-3))
    if kind == "base":
        return BaseRx(L), n
    if kind == "time":
        return BaseTimeRx(L, t), n * t.size
    if kind == "fdem":
        return fdem.receivers.PointMagneticFluxDensity(L, orientation="z", component="real"), n
    if kind == "tdem":
        return tdem.receivers.PointMagneticFluxDensity(L, times=t, orientation="z"), n * t.size
    if kind == "nsem":
        return nsem.receivers.Impedance(L, orientation="xy", component="real"), n
    if kind == "dc":
        return (dc.receivers.Pole(L) if k % 2 else dc.receivers.Dipole(L, L + 1.0)), n
    if kind == "sip":
        return (sip.receivers.Pole(L, times=t) if k % 2 else sip.receivers.Dipole(L, L + 1.0, times=t)), n * t.size
    if kind == "grav":
        c = [["gz"], ["gx", "gz"], ["gz", "gx", "gxy"]][k % 3]
        return gravity.receivers.Point(L, components=c), n * len(c)
    if kind == "mag":
        c = [["tmi"], ["bx", "bz"], ["bz", "bx", "tmi"]][k % 3]
        return magnetics.receivers.Point(L, components=c), n * len(c)
    raise ValueError(kind)


FREQS = [10.0, 3.0, 10.0, 1.0]


def mk_src(kind, rxs, k):
    loc = np.r_[1.0 + k, 2.0, 3.0]
    if kind in ("base", "time"):
        return BaseSrc(rxs, location=loc)
    if kind == "fdem":
        return fdem.sources.MagDipole(rxs, frequency=FREQS[k % 4], location=loc)
    if kind == "tdem":
        return tdem.sources.MagDipole(rxs, location=loc)
    if kind == "nsem":
        return nsem.sources.PlanewaveXYPrimary(rxs, FREQS[k % 4])
    if kind == "dc":
        return dc.sources.Pole(rxs, loc) if k % 2 else dc.sources.Dipole(rxs, loc, loc + 2.0)
    if kind == "sip":
        return sip.sources.Pole(rxs, loc) if k % 2 else sip.sources.Dipole(rxs, loc, loc + 2.0)
    if kind == "grav":
        return gravity.sources.SourceField(rxs)
    if kind == "mag":
        return magnetics.sources.UniformBackgroundField(receiver_list=rxs, amplitude=5e4, inclination=60.0, declination=12.0)


def mk_survey(kind, srcs):
    return {
        "base": BaseSurvey, "time": BaseTimeSurvey, "fdem": fdem.Survey, "tdem": tdem.Survey, "nsem": nsem.Survey,
        "dc": dc.Survey, "sip": sip.Survey, "grav": gravity.Survey, "mag": magnetics.Survey,
    }[kind](srcs)


def build_list(kind, shape, share, k0=0):
    """returns source list and reference [(src, [(rx, n)])]"""
    ref, pool = [], None
    k = k0
    for i, s in enumerate(shape):
        rxs = []
        for j, n in enumerate(s):
            if share and pool is not None and j == 0:
                rxs.append(pool)
                continue
            rxs.append(mk_rx(kind, n, k))
            k += 1
            if pool is None:
                pool = rxs[-1]
        ref.append((mk_src(kind, [r for r, _ in rxs], i + k0), rxs))
    return ref


def nfields(kind, src):
    return 2 if kind == "nsem" else 1


def judge(ctx, kind, sv, ref, tag=""):
    n = sum(m for _, rx in ref for _, m in rx)
    ctx.check(sv.nD == n, "nD", f"{tag} {sv.nD} != {n}")
    if kind in ("grav", "mag"):
        want = [m for _, rx in ref for _, m in rx]
        ctx.check(sv.nRx == sum(r.locations.shape[0] for _, rx in ref for r, _ in rx), "nRx", tag)
        it = [(tuple(l), tuple(c)) for l, c in sv._location_component_iterator()]
        ctx.check(it == [(tuple(l), tuple(r.components)) for _, rx in ref for r, _ in rx for l in r.locations], "iterator", tag)
        ctx.check(sv.source_field is ref[0][0], "source_field", tag)
        if kind == "mag":
            ctx.check(np.array_equal(sv.receiver_locations, np.concatenate([r.locations for _, rx in ref for r, _ in rx])), "receiver_locations", tag)
    else:
        want = [sum(m for _, m in rx) for _, rx in ref]
    ctx.check(list(sv.vnD) == want, "vnD", f"{tag} {list(sv.vnD)} != {want}")
    ctx.check(sv.nSrc == len(ref), "nSrc", tag)
    # slices partition [0, n) in source, receiver order
    allsl = sv.get_all_slices()
    pos = 0
    for src, rx in ref:
        ctx.check(list(np.ravel(src.vnD)) == [m for _, m in rx], "src-vnD", tag)
        ctx.check(src.nD == sum(m for _, m in rx), "src-nD", tag)
        for r, m in rx:
            sl = sv.get_slice(src, r)
            ctx.check((sl.start, sl.stop) == (pos, pos + m), "slice", f"{tag} {sl} want {(pos, pos + m)}")
            ctx.check(allsl[src, r] == sl, "all-slices", tag)
            pos += m
            ctx.step()
    ctx.check(len(allsl) == sum(len(rx) for _, rx in ref), "all-slices-n", tag)
    # look-ups
    pos = 0
    idx = []
    for src, _ in ref:
        k = nfields(kind, src)
        idx.append(list(range(pos, pos + k)))
        pos += k
    for order in itertools.permutations(range(len(ref))):
        got = sv.get_source_indices([ref[i][0] for i in order])
        ctx.check(got == [j for i in order for j in idx[i]], "source-indices", f"{tag} {order} {got}")
    other_rx, _ = mk_rx(kind, 1, 77)
    other = mk_src(kind, [other_rx], 5)
    ctx.raises(lambda: sv.get_source_indices([other]), KeyError, "foreign-source", tag)
    ctx.raises(lambda: sv.get_slice(other, other_rx), KeyError, "foreign-slice", tag)
    if ref[0][1]:
        ctx.raises(lambda: sv.get_slice(other, ref[0][1][0][0]), KeyError, "foreign-slice", tag)
        ctx.raises(lambda: sv.get_slice(ref[0][0], other_rx), KeyError, "foreign-slice", tag)
    for src, rx in ref:
        for perm in itertools.permutations(range(len(rx))):
            got = src.get_receiver_indices([rx[i][0] for i in perm])
            ctx.check(got == list(perm), "receiver-indices", f"{tag} {perm} {got}")
        ctx.raises(lambda s=src: s.get_receiver_indices([other_rx]), KeyError, "foreign-receiver", tag)
    if kind in ("fdem", "nsem"):
        fr = sorted({s.frequency for s, _ in ref})
        ctx.check(list(sv.frequencies) == fr and sv.num_frequencies == len(fr), "frequencies", f"{tag} {sv.frequencies} {fr}")
        for f in fr:
            w = [s for s, _ in ref if s.frequency == f]
            g = sv.get_sources_by_frequency(f)
            ctx.check(len(g) == len(w) and all(a is b for a, b in zip(g, w)), "by-frequency", tag)
            ctx.check(sv.num_sources_by_frequency[f] == len(w), "num-by-frequency", tag)
    if kind in ("time", "sip"):
        t = [r.times for _, rx in ref for r, _ in rx]
        if t:
            ctx.check(np.array_equal(sv.unique_times, np.unique(np.concatenate(t))), "unique-times", tag)
    if kind == "dc" and n:
        A, B, M, N = [], [], [], []
        for src, rx in ref:
            for r, m in rx:
                for i in range(m):
                    A.append(src.location[0]), B.append(src.location[-1])
                    M.append((r.locations if isinstance(r, dc.receivers.Pole) else r.locations[0])[i])
                    N.append((r.locations if isinstance(r, dc.receivers.Pole) else r.locations[1])[i])
        for nm, w in zip("abmn", (A, B, M, N)):
            ctx.check(np.array_equal(getattr(sv, "locations_" + nm), np.array(w).reshape(-1, 3)), "abmn", f"{tag} {nm}")
        u = sorted({tuple(x) for x in A + B + M + N})
        ctx.check(np.array_equal(sv.unique_electrode_locations, np.array(u)), "electrodes", tag)
        sl = sv.source_locations
        ctx.check(np.array_equal(sl[0], np.array([s.location[0] for s, _ in ref])) and
                  np.array_equal(sl[1], np.array([s.location[1] if len(s.location) > 1 else np.full(3, np.nan) for s, _ in ref]), equal_nan=True),
                  "source_locations", tag)
    # Data item access
    if n:
        full = vec(n, 3)
        d = sdata.Data(sv, dobs=full.copy())
        pos = 0
        for src, rx in ref:
            for r, m in rx:
                ctx.check(np.array_equal(d[src, r], full[pos : pos + m]), "getitem", tag)
                new = vec(m, 50 + pos)
                d[src, r] = new
                full[pos : pos + m] = new
                ctx.check(np.array_equal(d.dobs, full), "setitem", tag)
                pos += m
        ctx.check(d.nD == n and d.shape == (n,), "data-size", tag)


# --- reassignment histories -------------------------------------------------
REOPS = ["read", "srclist", "reverse", "drop", "rxlist", "rxappend"]


def reassign(op, kind, sv, ref, k, ctx):
    if op == "read":
        judge(ctx, kind, sv, ref, "read")
        return ref
    if op == "srclist":
        shape = ((2,), (1, 3)) if kind not in ("grav", "mag") else ((1, 2),)
        ref = build_list(kind, shape, False, 20 + k)
        sv.source_list = [s for s, _ in ref]
        return ref
    if op == "reverse":
        ref = ref[::-1]
        sv.source_list = [s for s, _ in ref]
        return ref
    if op == "drop":
        ref = ref[:1]
        sv.source_list = [s for s, _ in ref]
        return ref
    if op == "rxlist":
        src = ref[0][0]
        rx = [mk_rx(kind, 3, 31 + k), mk_rx(kind, 1, 32 + k)]
        src.receiver_list = [r for r, _ in rx]
        sv.source_list = [s for s, _ in ref]  # hand the changed sources over again
        return [(src, rx)] + ref[1:]
    if op == "rxappend":
        src, rx = ref[-1]
        rx = rx + [mk_rx(kind, 2, 41 + k)]
        src.receiver_list = [r for r, _ in rx]
        sv.source_list = [s for s, _ in ref]
        return ref[:-1] + [(src, rx)]
    raise ValueError(op)


# --- Data state machine -----------------------------------------------------
DOPS = ["dobs", "dobs_c", "fromvec", "item", "rel_s", "rel_v", "rel_none", "nf_s", "nf_v", "nf_none", "std_s", "std_v", "std_0",
        "bad_dobs", "bad_rel", "bad_nf", "bad_std", "bad_relsize", "bad_stdsize"]


class DRef:
    def __init__(self, n):
        self.n = n
        self.dobs = np.full(n, np.nan)
        self.rel = np.zeros(n)
        self.nf = np.zeros(n)


def dstep(op, d, R, ref, k, ctx):
    n = R.n
    if op == "dobs":
        R.dobs = vec(n, k)
        d.dobs = R.dobs.copy()
    elif op == "dobs_c":
        R.dobs = vec(n, k) + 1j * vec(n, k + 1)
        d.dobs = R.dobs.copy()
    elif op == "fromvec":
        R.dobs = vec(n, k + 2)
        d.fromvec(R.dobs.copy()[:, None])
    elif op == "item":
        src, rx = ref[-1]
        r, m = rx[-1]
        v = vec(m, k + 3)
        d[src, r] = v
        R.dobs = R.dobs.copy()
        R.dobs[n - m :] = v
    elif op == "rel_s":
        d.relative_error = 0.1
        R.rel = np.full(n, 0.1)
    elif op == "rel_v":
        R.rel = vec(n, k + 4, 0, 1)
        d.relative_error = R.rel.copy()
    elif op == "rel_none":
        d.relative_error = None
        R.rel = None
    elif op == "nf_s":
        d.noise_floor = 2
        R.nf = np.full(n, 2.0)
    elif op == "nf_v":
        R.nf = vec(n, k + 5, 0, 1)
        d.noise_floor = R.nf.copy()
    elif op == "nf_none":
        d.noise_floor = None
        R.nf = None
    elif op == "std_s":
        d.standard_deviation = 0.7
        R.rel, R.nf = np.zeros(n), np.full(n, 0.7)
    elif op == "std_v":
        v = vec(n, k + 6, 0, 1)
        d.standard_deviation = v.copy()
        R.rel, R.nf = np.zeros(n), v
    elif op == "std_0":
        d.standard_deviation = 0
        R.rel, R.nf = np.zeros(n), np.zeros(n)
    else:
        bad = {"bad_dobs": ("dobs", np.ones(n + 1)), "bad_rel": ("relative_error", -0.1), "bad_nf": ("noise_floor", -np.ones(n)),
               "bad_std": ("standard_deviation", -1.0), "bad_relsize": ("relative_error", np.ones(n + 1)),
               "bad_stdsize": ("standard_deviation", np.ones(n + 2))}[op]
        try:
            setattr(d, *bad)
            ctx.check(False, "accepted-bad", op)
        except (ValueError, TypeError):
            pass


def djudge(ctx, d, R, seq):
    eq = lambda a, b: (a is None and b is None) or (a is not None and b is not None and np.array_equal(np.asarray(a), b, equal_nan=True))
    ctx.check(eq(d.dobs, R.dobs), "dobs", str(seq))
    ctx.check(eq(d.tovec(), R.dobs), "tovec", str(seq))
    ctx.check(eq(d.relative_error, R.rel), "relative_error", str(seq))
    ctx.check(eq(d.noise_floor, R.nf), "noise_floor", str(seq))
    if R.rel is None and R.nf is None:
        ctx.raises(lambda: d.standard_deviation, TypeError, "std-undefined", str(seq))
    else:
        s = np.zeros(R.n)
        for i in range(R.n):
            a = 0.0 if R.rel is None else R.rel[i] * abs(R.dobs[i])
            b = 0.0 if R.nf is None else R.nf[i]
            s[i] = (a * a + b * b) ** 0.5
        ctx.close(d.standard_deviation, s, "std", rtol=1e-13, msg=str(seq))


def cases(tier, seed):
    per = [(1,), (2,), (1, 2), (2, 1), (3, 3), ()] if tier == "quick" else [(1,), (2,), (1, 2), (2, 1), (3, 3), (), (1, 2, 3), (2, 2, 1)]
    for kind in KINDS:
        ns = (1,) if kind in ("grav", "mag") else (1, 2, 3)
        for n in ns:
            for shape in itertools.product(per, repeat=n):
                if kind in ("grav", "mag") and shape[0] == ():
                    continue
                for share in (0, 1):
                    if share and (n == 1 or not shape[0]):
                        continue
                    yield dict(kind=kind, shape=shape, share=share, mode="shape")
    depth = 2 if tier == "quick" else 3
    for kind in KINDS:
        for d in range(1, depth + 1):
            for seq in itertools.product(REOPS, repeat=d):
                if kind in ("grav", "mag") and set(seq) & {"reverse", "drop"}:
                    continue
                yield dict(kind=kind, seq=list(seq), mode="re")
    for first in DOPS:
        for second in DOPS:
            for cls in ("Data", "Synthetic"):
                yield dict(mode="data", first=first, second=second, depth=3 if tier == "quick" else 4, cls=cls)


def run(c, ctx):
    if c["mode"] == "shape":
        ref = build_list(c["kind"], c["shape"], c["share"])
        sv = mk_survey(c["kind"], [s for s, _ in ref])
        judge(ctx, c["kind"], sv, ref, "fresh")
        judge(ctx, c["kind"], sv, ref, "again")
        ctx.state([c["kind"], c["shape"], c["share"]])
        ctx.outcome([c["kind"], list(map(int, sv.vnD))])
        if c["kind"] not in ("grav", "mag"):
            dup = [s for s, _ in ref] + [ref[0][0]]
            try:
                mk_survey(c["kind"], dup)
                ctx.check(False, "duplicate-source", "accepted")
            except Exception:
                ctx.evaluations += 1
        return
    if c["mode"] == "re":
        kind = c["kind"]
        ref = build_list(kind, ((1, 2),) if kind in ("grav", "mag") else ((1, 2), (3,), (2,)), False)
        sv = mk_survey(kind, [s for s, _ in ref])
        if c["seq"][0] != "read":
            sv.nD, sv.vnD
        for k, op in enumerate(c["seq"]):
            ref = reassign(op, kind, sv, ref, k, ctx)
            ctx.step()
        judge(ctx, kind, sv, ref, "after " + ",".join(c["seq"]))
        ctx.state([kind, c["seq"]])
        ctx.outcome([kind, list(map(int, sv.vnD))])
        return
    seqs = [[c["first"], c["second"]]] + [[c["first"], c["second"], *t] for d in range(1, c["depth"] - 1)
                                          for t in itertools.product(DOPS, repeat=d)]
    if c["second"] == DOPS[0]:
        seqs.append([c["first"]])
    for seq in seqs:
        ref = build_list("base", ((1, 2), (2,)), False)
        sv = mk_survey("base", [s for s, _ in ref])
        d = (sdata.Data if c["cls"] == "Data" else sdata.SyntheticData)(sv)
        R = DRef(sv.nD)
        djudge(ctx, d, R, [])
        for k, op in enumerate(seq):
            dstep(op, d, R, ref, 100 * k, ctx)
            ctx.step()
        djudge(ctx, d, R, seq)
        ctx.state([R.dobs, R.rel, R.nf])
        ctx.trace()
        if len(ctx.violations) > 10:
            return
