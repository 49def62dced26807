"""C22: polynomial chaos expansions and the samples they are fitted to, against Chaos.tla."""
import json
from math import exp, factorial

from common import Check, MachineryError, pmap, run_tlc

_factors = {}


def factor(n, samples, order):
    from yaocptool.stochastic.pce import get_ls_factor

    key = (n, samples, order)
    if key not in _factors:
        _factors[key] = get_ls_factor(n, samples, order)
    return _factors[key]


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1 + abs(b))


def ordered(a, b, tol, scale):
    return len(a) == len(b) and all(abs(x - y) <= tol * scale for x, y in zip(sorted(a), sorted(b)))


def samples(q, number):
    from casadi import DM, log, mtimes
    from yaocptool.stochastic.util import sample_parameter_log_normal_distribution_with_sobol, sample_parameter_normal_distribution_with_sobol

    L = DM(q["L"])
    cov = mtimes(L, L.T)
    mean = [exp(m) if q["log"] else float(m) for m in q["mean"]]
    mean = list(map(DM, mean)) if q["listed"] else DM(mean)
    kind = sample_parameter_log_normal_distribution_with_sobol if q["log"] else sample_parameter_normal_distribution_with_sobol
    out = kind(mean, cov, number)
    return log(out) if q["log"] else out


def compare(b):
    from casadi import DM, mtimes

    q = b["q"]
    n, order = q["n"], q["order"]
    size = factorial(n + order) // factorial(n) // factorial(order)
    number = size + q["extra"]
    ls, expect, psi = factor(n, number, order)
    if ls.shape != (size, number) or expect.numel() != size:
        return f"shapes {ls.shape} {expect.shape} for {size} coefficients and {number} samples"
    for p in b["at"]:
        got = [float(v) for v in psi(DM(p["z"])).full().ravel()]
        want = [v["v"] for v in p["psi"]]
        if not ordered(got, want, 1e-9, 1 + max(map(abs, want))):
            return f"polynomials at {p['z']}: {sorted(got)}, specification {sorted(want)}"
    want = [factorial_of(v["e"]) for v in b["at"][0]["psi"]]
    if float(expect[0]) != 1:
        return f"expectation of the constant: {expect[0]}"
    if order <= 3 and not all(abs(x - y) <= 0.4 * y for x, y in zip(sorted(expect.full().ravel()), sorted(want))):
        return f"expectations of the squares {expect}, specification {want}"
    if order > 6:
        return None
    xs = samples(q, number)
    if xs.shape != (n, number):
        return f"samples {xs.shape}, specification {(n, number)}"
    xs = xs.full()
    vals = []
    for s in range(number):
        v = 0.0
        for t in b["g"]:
            w = t["c"]
            for i, k in enumerate(t["e"]):
                w *= xs[i][s] ** k
            v += w
        vals.append(v)
    c = mtimes(ls, DM(vals))
    coefs = [float(v) for v in c.full().ravel()]
    want = [v["c"] for v in b["coefs"]]
    scale = 1 + max(map(abs, want))
    if not near(coefs[0], b["mean"], 1e-5 * scale):
        return f"mean {coefs[0]}, specification {b['mean']}"
    if not ordered(coefs, want, 1e-5, scale):
        return f"coefficients {coefs}, specification {want}"
    for p in b["at"]:
        got = float(mtimes(c.T, psi(DM(p["z"]))))
        if abs(got - p["g"]) > 1e-4 * (scale + abs(p["g"])):
            return f"expansion at {p['z']}: {got}, specification {p['g']}"
    if order <= 3:
        var = float(mtimes((c[1:, :] ** 2).T, expect[1:, :]))
        if abs(var - b["var"]) > 0.4 * b["var"] + 1e-6:
            return f"variance {var}, specification {b['var']}"
    return None


def factorial_of(e):
    out = 1
    for k in e:
        out *= factorial(k)
    return out


def replay(ctx, lines):
    import yaocptool  # noqa: F401

    for line in lines:
        b = json.loads(line)
        try:
            d = compare(b)
        except MachineryError:
            raise
        except Exception as exc:
            d = f"{type(exc).__name__}: {str(exc)[:300]}"
        if d:
            return {"clause": "expansion", "detail": d, "case": b}
    return None


CFG = """SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
 Cases <- Cs
 Terms <- Ts
 Pick <- {pick}
CONSTRAINT Emit
"""


def main(prop, tier):
    chk = Check(prop, tier)
    q = chk.quick
    shapes = {(1, d) for d in range(1, 11)} | {(2, d) for d in range(1, 5)} | {(3, 1), (3, 2)} | (set() if q else {(3, 3)})
    groups = {}
    for small, walks in ((True, 900 if q else 12000), (False, 60 if q else 400)):
        sh = {s for s in shapes if (s[1] <= 6) == small}
        res = run_tlc("MC_Chaos", {"Len_": 4, "MaxTerms": 3, "Shapes": sh}, CFG.format(pick="One"), timeout=850, simulate=walks, depth=4, seed=chk.seed)
        chk.add_tlc("walks" if small else "walks, high orders", res)
        lines = sorted(set(res.emitted))
        chk.add_traces("walks" if small else "walks, high orders", len(lines))
        for l in lines:
            c = json.loads(l)["q"]
            groups.setdefault((c["n"], c["order"], c["extra"]), []).append(l)
    if not q:
        res = run_tlc("MC_Chaos", {"Len_": 0, "MaxTerms": 2, "Shapes": {(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1)}}, CFG.format(pick="Every"), timeout=7200)
        chk.add_tlc("all cases", res)
    jobs = [v for _, v in sorted(groups.items())]
    for idx, kind, val in pmap(replay, jobs, case_timeout=600.0):
        if kind == "crash":
            chk.violate("crash", val, jobs[idx][:1])
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    chk.cov["parts"]["shapes"] = sorted({f"{n} variables, order {d}" for n, d, _ in groups})
    chk.sample(json.loads(jobs[0][0]))
    return chk.finish()
