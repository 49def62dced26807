"""C21: estimates of the Kalman filters, against Kalman.tla."""
import contextlib
import io
import json
import random

from common import Check, MachineryError, pmap, run_tlc

TOL = 2e-4


def fr(m):
    return [[a[0] / a[1] for a in row] for row in m]


def close(name, want, got):
    """want: rows of fractions; got: a casadi matrix"""
    from casadi import DM

    want = fr(want)
    got = DM(got)
    rows, cols = len(want), len(want[0]) if want else 0
    if got.shape != (rows, cols):
        return f"{name}: shape {got.shape}, specification {(rows, cols)}"
    got = got.full()
    for i in range(rows):
        for j in range(cols):
            if not abs(got[i][j] - want[i][j]) <= TOL * (1 + abs(want[i][j])):
                return f"{name}: {got.tolist()}, specification {want}"
    return None


def flat(m):
    """column-major, as vec does"""
    return [[m[i][j]] for j in range(len(m[0])) for i in range(len(m))] if m else []


class World:
    def __init__(self, c, rnd):
        import warnings

        warnings.simplefilter("ignore")
        self.c, self.rnd = c, rnd

    def model(self):
        from casadi import vertcat
        from yaocptool.modelling import SystemModel

        m, rnd = self.c["m"], self.rnd
        s = SystemModel(name="plant")
        one = rnd.random() < 0.5
        if one or m["nx"] == 1:
            x = s.create_state("x", m["nx"])
        else:
            x = vertcat(s.create_state("x1"), s.create_state("x2"))
        self.x = x
        u = s.create_control("u")
        self.par = None
        k = 0
        if m["c"] or m["f"]:
            self.par = rnd.choice(["p", "theta"])
            k = s.create_parameter("k") if self.par == "p" else s.create_theta("k")
        x2 = x[1] if m["nx"] == 2 else 0
        ode = [(m["a"] + m["d"] * u + m["f"] * k) * x2 + m["b1"] * u + m["c"] * k + m["g"] * s.t]
        if m["nx"] == 2:
            ode.append(m["b2"] * u)
        alg = None
        if m["y"]:
            y = s.create_algebraic_variable("y")
            alg = 2 * y - 2 * (m["k"][0] * x[0] + m["k"][1] * x2 + m["k"][2] * u + m["k"][3])
        if rnd.random() < 0.5 and m["nx"] == 2:
            s.include_equations(ode=ode[:1], x=x[0], **({} if alg is None else {"alg": alg}))
            s.include_equations(ode=ode[1:], x=x[1])
        else:
            s.include_equations(ode=vertcat(*ode), **({} if alg is None else {"alg": alg}))
        return s

    def options(self, s):
        from casadi import DM, SX, Function, mtimes, vertcat

        c, m, z, rnd = self.c, self.c["m"], self.c["z"], self.rnd
        o = {"x_mean": DM(c["x0"]), "p_k": DM(c["P0"]), "r_n": DM(z["R"]), "t_s": 2.0}
        if any(v for row in c["Q"] for v in row):
            o["r_v"] = DM(c["Q"])
        elif rnd.random() < 0.5 or c["filter"] == "ekf" and m["nx"] == 2:
            o["r_v"] = DM.zeros(m["nx"], m["nx"])
        if c["t0"] or rnd.random() < 0.5:
            o["t"] = float(c["t0"])
        if self.par:
            o[self.par] = DM([c["p"]])
        if m["y"]:
            o["y_guess"] = DM([rnd.choice([0.3, 1.7])])  # 0 where y is 0 makes IDACalcIC give up
        C = DM(z["C"])
        if m["y"]:
            from casadi import horzcat

            C = horzcat(C, DM(z["Cy"]))
        D = DM(z["D"])
        if rnd.random() < 0.5:
            o["c_matrix"] = C
            if any(z["D"]) or rnd.random() < 0.5:
                o["d_matrix"] = D
        else:
            x, y, u = SX.sym("x", m["nx"]), SX.sym("y", 1 if m["y"] else 0), SX.sym("u")
            o["h_function"] = Function("h", [x, y, u], [mtimes(C, vertcat(x, y)) + D * u])
        if c["filter"] == "pce":
            o["pc_order"] = rnd.choice([1, 2, 3])
            if rnd.random() < 0.5:
                n = {1: {1: 2, 2: 3}, 2: {1: 3, 2: 6}, 3: {1: 4, 2: 10}}[o["pc_order"]][m["nx"]]
                o["n_samples"] = n + rnd.choice([0, 1, 3])
        return o

    def run(self, log):
        from casadi import DM
        from yaocptool.estimation import ExtendedKalmanFilter, PCEKalmanFilter, UnscentedKalmanFilter

        c = self.c
        s = self.model()
        o = self.options(s)
        given = {k: DM(v) for k, v in o.items() if isinstance(v, DM)}
        kind = {"ekf": ExtendedKalmanFilter, "ukf": UnscentedKalmanFilter, "pce": PCEKalmanFilter}[c["filter"]]
        f = kind(s, **o)
        kept = []
        late = self.rnd.choice([0, 0, 100])  # readings stamped by another clock
        for i, e in enumerate(log):
            r = DM(e["r"])
            u = DM([e["u"]])
            t_k = float(e["t"] + late)
            x, P = f.estimate(t_k, r, u)
            kept.append((DM(x), DM(P), x, P))
            d = close(f"x of estimate {i + 1}", e["x"], x) or close(f"P of estimate {i + 1}", e["P"], P) \
                or close("x_mean", e["x"], f.x_mean) or close("p_k", e["P"], f.p_k)
            if d:
                return d
            if abs(float(f.t) - e["t"]) > 1e-9:
                return f"time of the filter {f.t}, specification {e['t']}"
        for x0, P0, x, P in kept:
            if (DM(x).full() != x0.full()).any() or (DM(P).full() != P0.full()).any():
                return "an estimate given earlier was changed"
        for k, v in given.items():
            if v.shape != o[k].shape or (v.full() != o[k].full()).any():
                return f"the given {k} was changed"
        want = {"x": lambda e: e["x"], "P": lambda e: flat(e["P"])}
        if c["filter"] == "ukf":
            want["meas"] = lambda e: e["meas"]
            if c["m"]["y"]:
                want["y"] = lambda e: e["y"]
                want["P_y"] = lambda e: flat(e["Py"])
        if c["filter"] == "ekf":
            want["meas"] = lambda e: e["meas"]
        for name, get in want.items():
            entry = f.dataset.data[name]
            times, values = DM(entry.time), DM(entry.values)
            if [round(float(t), 9) for t in times.full().ravel()] != [e["t"] + late for e in log]:
                return f"times of {name} in the data set: {times}"
            for i, e in enumerate(log):
                d = close(f"{name} in the data set, {i + 1}", get(e), values[:, i])
                if d:
                    return d
        return None


def replay(ctx, job):
    import yaocptool  # noqa: F401

    seed, line = job
    b = json.loads(line)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            d = World(b["q"], random.Random(seed)).run(b["log"])
        except MachineryError:
            raise
        except Exception as exc:
            d = f"{type(exc).__name__}: {str(exc)[:300]}"
    return {"clause": b["q"]["filter"], "detail": d, "case": b, "seed": seed} if d else None


def refusals(ctx, case):
    """what cannot be estimated is refused, and no estimate comes out"""
    from casadi import DM
    from yaocptool.estimation import ExtendedKalmanFilter, PCEKalmanFilter, UnscentedKalmanFilter
    from yaocptool.estimation.ideal_estimator import IdealEstimator
    from yaocptool.modelling import SystemModel

    name, what = case
    kind = {"ekf": ExtendedKalmanFilter, "ukf": UnscentedKalmanFilter, "pce": PCEKalmanFilter, "ideal": IdealEstimator}[name]
    with contextlib.redirect_stdout(io.StringIO()):
        if name == "ideal":
            n = what
            f = kind(t_s=2.0, t_0=1.0, n_x=n)
            for y in (DM([4, -1, 3]), DM([0, 2, 5])):
                x, P = f.estimate(3.0, y, DM([1]))
                if x.shape != (n, 1) or any(float(x[i]) != float(y[i]) for i in range(n)):
                    return {"clause": "ideal", "detail": f"{x} from {y}"}
                if DM(P).nnz() and float(abs(DM(P)).full().max()) != 0:
                    return {"clause": "ideal", "detail": f"uncertainty {P}"}
            return None
        s = SystemModel(name="plant")
        x = s.create_state("x")
        u = s.create_control("u")
        o = dict(x_mean=DM([0]), p_k=DM([1]), r_v=DM([1]), r_n=DM([1]), c_matrix=DM([[1]]), t_s=2.0)
        if what == "y_guess":
            y = s.create_algebraic_variable("y")
            s.include_equations(ode=x + u, alg=y - x)
            o["c_matrix"] = DM([[1, 0]])
        else:
            s.include_equations(ode=x + u)
        if what == "measurement":
            del o["c_matrix"]
        if what in ("x_mean", "p_k"):
            del o[what]
        if what == "samples":
            o.update(n_samples=2, pc_order=3)
        try:
            f = kind(s, **o)
            out = f.estimate(2.0, DM([1]), DM([1]))
        except Exception:
            return None
        return {"clause": "refusal", "detail": f"{name} without {what} estimated {out}"}


CFG = """SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
 Cases <- Cs
 Controls <- Us
 Readings <- Rs
 Pick <- {pick}
CONSTRAINT Emit
"""


def main(prop, tier):
    chk = Check(prop, tier)
    q = chk.quick
    jobs = []
    rnd = random.Random(chk.seed)
    for fl, walks, steps in (("ekf", 400 if q else 6000, 3), ("ukf", 400 if q else 6000, 3), ("pce", 24 if q else 400, 2)):
        res = run_tlc("MC_Kalman", {"Filters": {fl}, "Len_": steps + 1, "MaxSteps": steps}, CFG.format(pick="One"), timeout=800, simulate=walks, depth=steps + 1,
                      seed=chk.seed)
        chk.add_tlc(f"walks, {fl}", res)
        lines = sorted(set(res.emitted))
        chk.add_traces(f"walks, {fl}", len(lines))
        jobs += [(rnd.randrange(10**9), l) for l in lines]
    res = run_tlc("MC_Kalman", {"Filters": {"ekf", "ukf"}, "Len_": 0, "MaxSteps": 1 if q else 2}, CFG.format(pick="One" if q else "Every"),
                  timeout=800 if q else 7200)
    chk.add_tlc("all cases", res)
    for idx, kind, val in pmap(replay, jobs):
        if kind == "crash":
            chk.violate("crash", val, json.loads(jobs[idx][1]))
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    cases = [("ideal", 1), ("ideal", 2), ("ideal", 3), ("ekf", "y_guess"), ("pce", "samples")]
    cases += [(f, w) for f in ("ekf", "ukf", "pce") for w in ("measurement", "x_mean", "p_k")]
    for idx, kind, val in pmap(refusals, cases):
        if kind == "crash":
            chk.violate("crash", val, cases[idx])
        elif val:
            chk.violate(val["clause"], val["detail"], {"case": cases[idx]})
    chk.add_traces("refusals and the ideal estimator", len(cases))
    chk.sample(json.loads(jobs[0][1]))
    return chk.finish()
