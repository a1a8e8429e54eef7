"""Exhaustive bounded exploration engine.

A property module enumerates a finite list of *cases* (configurations, operation
sequences, schedules, fault patterns ...) and a ``run(case, ctx)`` function that
executes one case against the real simpeg code imported from /repo and compares
every observation with an oracle.  The engine runs ALL cases (never a sample),
spread over forked workers, merges the coverage counters, filters listed known
findings and writes the evidence file.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


def jdefault(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return repr(o)


def digest(obj):
    return hashlib.blake2b(
        json.dumps(obj, sort_keys=True, default=jdefault).encode(), digest_size=8
    ).hexdigest()


class Ctx:
    """Collects what a single case observed."""

    def __init__(self, case):
        self.case = case
        self.violations = []
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0

    # --- coverage -----------------------------------------------------
    def state(self, key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(digest(key))

    def trace(self, n=1):
        self.traces += n

    # --- judging ------------------------------------------------------
    def violation(self, key, msg, **detail):
        if len(self.violations) < 50:
            self.violations.append(dict(key=key, msg=msg, detail=detail))

    def check(self, cond, key, msg="", **detail):
        self.evaluations += 1
        if not cond:
            self.violation(key, msg or key, **detail)
        return bool(cond)

    def close(self, got, want, key, rtol=1e-8, atol=0.0, msg="", scale=None, **detail):
        """|got-want| <= atol + rtol*max(|want|_inf, scale), elementwise sizes equal."""
        import numpy as np

        self.evaluations += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.shape != w.shape:
                self.violation(key, f"{msg} shape {g.shape} != {w.shape}", **detail)
                return False
            if g.size == 0:
                return True
            if not (np.all(np.isfinite(g)) and np.all(np.isfinite(w))):
                same = np.array_equal(g, w, equal_nan=True)
                if not same:
                    self.violation(key, f"{msg} non-finite values differ", **detail)
                return same
            ref = max(np.max(np.abs(w)), np.max(np.abs(g)) if scale is None else 0.0)
            if scale is not None:
                ref = max(ref, scale)
            err = np.max(np.abs(g - w))
            if not err <= atol + rtol * ref:
                i = int(np.argmax(np.abs(g - w)))
                self.violation(
                    key,
                    f"{msg} max|diff|={err:.3e} scale={ref:.3e} at flat index {i}: "
                    f"got {g.ravel()[i]!r} want {w.ravel()[i]!r}",
                    **detail,
                )
                return False
            return True
        except TypeError as e:  # incomparable types
            self.violation(key, f"{msg} incomparable: {e}", **detail)
            return False

    def raises(self, fn, exc, key, msg="", **detail):
        self.evaluations += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.violation(
                key, f"{msg} raised {type(e).__name__}: {e} instead", **detail
            )
            return False
        self.violation(key, f"{msg} did not raise", **detail)
        return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case):
    ctx = Ctx(case)
    limit = getattr(mod, "CASE_TIMEOUT", 240)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, ctx)
    except CaseTimeout:
        ctx.violation("timeout", f"case did not finish in {limit}s")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # innermost frame inside /repo names where the code under test failed
        loc = [f for f in tb if "/repo/" in f.filename]
        where = f"{os.path.basename(loc[-1].filename)}:{loc[-1].name}" if loc else "?"
        ctx.violation(
            f"exception:{type(e).__name__}",
            f"unexpected {type(e).__name__} in {where}: {e}",
            traceback="".join(traceback.format_exception(e))[-3000:],
        )
    finally:
        signal.alarm(0)
    return dict(
        violations=ctx.violations,
        states=ctx.states,
        outcomes=ctx.outcomes,
        transitions=ctx.transitions,
        evaluations=ctx.evaluations,
        traces=ctx.traces,
        secs=time.time() - t0,
    )


def _batch(items):
    return [_worker(t) for t in items]


def _worker(args):
    mod, i, case = args
    import importlib

    devnull = open(os.devnull, "w")
    so = sys.stdout
    if not os.environ.get("MC_STDOUT"):
        sys.stdout = devnull
    try:
        m = importlib.import_module(mod)
        return i, run_case(m, case)
    finally:
        sys.stdout = so


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(known, prop, case, vkey):
    for k in known:
        if k.get("status") != "open" or k["property"] != prop:
            continue
        if vkey not in k["keys"]:
            continue
        want = k.get("case", {})
        if all(case.get(a) == b or (isinstance(b, list) and case.get(a) in b) for a, b in want.items()):
            return k
    return None


def explore(modname, tier, seed, jobs=8, only=None, verbose=False):
    import importlib
    import multiprocessing as mp

    t0 = time.time()
    m = importlib.import_module(modname)
    prop = m.ID
    cases = list(m.cases(tier, seed))
    if only is not None:
        cases = [cases[i] for i in only]
    if hasattr(m, "prefork"):
        m.prefork(tier)
    results = [None] * len(cases)
    if jobs > 1 and len(cases) > 1:
        ctxm = mp.get_context("fork")
        # static round-robin order, dynamic pull: every case is executed exactly once
        with ctxm.Pool(jobs, maxtasksperchild=getattr(m, "MAXTASKS", None)) as pool:
            ch = getattr(m, "CHUNK", 1)
            items = [(modname, i, c) for i, c in enumerate(cases)]
            it = pool.imap_unordered(
                _batch, [items[k : k + ch] for k in range(0, len(items), ch)], chunksize=1
            )
            deadline = t0 + float(os.environ.get("MC_DEADLINE", "850"))
            n = 0
            while n < len(cases):
                try:
                    got = it.next(timeout=max(1.0, deadline - time.time()))
                except mp.TimeoutError:
                    if tier == "thorough" and "MC_DEADLINE" not in os.environ:
                        deadline = time.time() + 3600
                        continue
                    print(f"ERROR {prop}: deadline exceeded, {n}/{len(cases)} cases done")
                    pool.terminate()
                    return 2
                for i, r in got:
                    results[i] = r
                    n += 1
    else:
        for i, c in enumerate(cases):
            results[i] = _worker((modname, i, c))[1]

    known = load_known()
    states, outcomes = set(), set()
    tr = ev = traces = 0
    viol, knownhits = [], {}
    for c, r in zip(cases, results):
        states |= r["states"]
        outcomes |= r["outcomes"]
        tr += r["transitions"]
        ev += r["evaluations"]
        traces += r["traces"] or 1
        for v in r["violations"]:
            k = match_known(known, prop, c, v["key"])
            if k is not None:
                knownhits.setdefault(k["id"], (k, 0))
                knownhits[k["id"]] = (k, knownhits[k["id"]][1] + 1)
            else:
                viol.append((c, v))
    if verbose:
        slow = sorted(zip([r["secs"] for r in results], cases), key=lambda t: -t[0])[:8]
        for s, c in slow:
            print(f"  slow {s:.1f}s {json.dumps(c, default=jdefault)[:160]}")
    for k, n in knownhits.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']} [{n} observation(s)]")
    wall = time.time() - t0
    nsamp = min(3, len(cases))
    idx = sorted({0, len(cases) // 2, len(cases) - 1}) if cases else []
    cov = dict(
        states=len(states) or len(cases),
        transitions=tr or ev,
        traces_validated_against_impl=traces,
        cases=len(cases),
        evaluations=ev,
        distinct_nontrivial=len(outcomes) or len({digest(c) for c in cases}),
        rule=m.RULE,
        exhaustive=True,
        bounds=getattr(m, "BOUNDS", {}).get(tier, "") if hasattr(m, "BOUNDS") else "",
        samples=[cases[i] for i in idx][:nsamp],
        known_findings_observed={k: n for k, (_, n) in knownhits.items()},
    )
    evd = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=m.LEVEL,
        coverage=cov,
        assumptions=getattr(m, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(evd, f, indent=1, default=jdefault)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    print(
        f"{prop} [{tier}] cases={len(cases)} states={cov['states']} transitions={cov['transitions']} "
        f"evaluations={ev} distinct={cov['distinct_nontrivial']} wall={wall:.1f}s violations={len(viol)}"
    )
    if viol and os.environ.get("MC_DUMP"):
        with open(os.environ["MC_DUMP"], "w") as fh:
            for c, v in viol:
                fh.write(json.dumps([v["key"], v["msg"][:160], c], default=jdefault) + "\n")
    if viol:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for c, v in viol:
            seen.setdefault(v["key"], []).append((c, v))
        first = None
        for key, lst in list(seen.items())[:20]:
            c, v = lst[0]
            path = os.path.join(rd, f"{prop}-{digest([c, key])}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(property=prop, case=c, violation=v, same_key=len(lst)),
                    f,
                    indent=1,
                    default=jdefault,
                )
            print(f"  violated: {key} ({len(lst)}x): {v['msg'][:300]}")
            print(f"    case: {json.dumps(c, default=jdefault)[:300]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(path):
    import importlib

    with open(path) as f:
        d = json.load(f)
    m = importlib.import_module(f"mc.props.{d['property'].lower()}")
    r = run_case(m, d["case"])
    for v in r["violations"]:
        print("replayed:", v["key"], v["msg"])
        if "traceback" in v["detail"]:
            print(v["detail"]["traceback"])
    if r["violations"]:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("replay: no violation on this tree")
    return 0
