"""Binding of ClosedLoop.tla to MPC and PlantSimulation: the real DirectMethod with a
stand-in for the NLP solver, the real simulator, and scripted noise."""
import inspect

import numpy
from casadi import DM, Function

from ad_trans import RADAU, Stub, dm, flat, setup

TOL = 1e-4


class StopLoop(Exception):
    pass


def make_model(name, two=True):
    from yaocptool.modelling import SystemModel

    m = SystemModel(name=name)
    x1, x2 = m.create_state("x1"), m.create_state("x2") if two else None
    y = m.create_algebraic_variable("y")
    u1, u2 = m.create_control("u1"), m.create_control("u2")
    return m, x1, x2, y, u1, u2


class Loop:
    def __init__(self, q):
        from yaocptool.methods import DirectMethod
        from yaocptool.modelling import OptimalControlProblem
        from yaocptool.mpc import MPC, PlantSimulation

        setup()
        self.q = q
        m, x1, x2, y, u1, u2 = make_model("plant")
        pp = m.create_parameter("pp")
        m.include_equations(ode=[u1 + pp, u2 - 1], x=[x1, x2])
        m.include_equations(alg=y - x1 - 2 * u2)
        eye = q["c"] == [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        kw = {} if eye else {"c_matrix": DM(numpy.array(q["c"], float))}
        ss = [v / 4 for v in q["ss"]]
        even = ss == [(i + 1) / len(ss) for i in range(len(ss))]
        self.x0 = dm(q["x0"])
        self.plant = PlantSimulation(m, x_0=self.x0, u_0=dm(q["u0"]), y_guess=dm([q["y0"]]), t_0=float(q["t0"]), t_s=4.0, verbosity=0,
                                     super_samling=len(ss) if even else ss, **kw)
        self.plant.p = dm([q["pp"]])
        self.noise = {"process": [], "measure": []}
        if q["noise"]:
            self.plant.has_noise = True
            self.plant.r_v = DM.eye(2)
            self.plant.r_n = 2 * DM.eye(len(q["c"]))
        m, x1, x2, y, u1, u2 = make_model("ocp", two=q["cost"])  # the method adds a cost state of its own
        ps = [m.create_parameter("p1"), m.create_parameter("p2")]
        h = m.create_theta("h") if q["th"] else 0
        if q["cost"]:
            m.include_equations(ode=[u1 + ps[0], u2 + h], x=[x1, x2])
        else:
            m.include_equations(ode=[u1 + ps[0] + u2 + h], x=[x1])
        m.include_equations(alg=y - x1 - 2 * u2)
        ocp = OptimalControlProblem(m, x_0=dm([70, 71] if q["cost"] else [70]), t_f=4.0 * q["n"])
        ocp.L = u1 ** 2 + u2 ** 2 + x1 ** 2
        self.sm = DirectMethod(ocp, discretization_scheme="collocation" if q["sch"] == "coll" else "multiple-shooting", finite_elements=q["n"],
                               degree=3, degree_control=q["dc"], last_control_as_parameter=True)
        self.sm.create_optimization_problem()
        self.stub = Stub(self.sm.opt_problem)
        self.n = int(self.sm.opt_problem.x.numel())
        self.calls, self.script = [], []
        self.index()
        real_solve, sig = self.sm.solve, inspect.signature(self.sm.solve)

        def solve(*a, **k):
            call = dict(sig.bind(*a, **k).arguments)
            self.calls.append({key: (None if v is None else flat(v)) if key != "theta" else v for key, v in call.items()})
            self.stub.answer = self.vector(self.script.pop(0))
            return real_solve(*a, **k)

        self.sm.solve = solve
        opts = dict(p=dm(q["p"]), verbosity=0, include_cost_in_state_vector=q["cost"])
        self.given_p = opts["p"]
        if q["th"]:
            self.theta = {k: dm([k + 5]) for k in range(q["n"])}
            opts["theta"] = self.theta
        if q["mean"]:
            opts.update(mean_as_parameter=True, mean_p_indices=[(i - 1, j - 1) for i, j in q["mean"]])
        if q["cov"]:
            opts.update(covariance_as_parameter=True, cov_p_indices=[(i - 1, j - 1) for i, j in q["cov"]])
        if q["rearr"]:
            opts["state_rearrangement_function"] = lambda x: DM([flat(x)[1], flat(x)[0]] + flat(x)[2:])
        self.seen = []
        if q["est"] == "stub":
            opts["estimator"] = Estimator(self)
        cls = MPC
        if q["hook"]:
            class Hooked(MPC):
                def post_process_get_new_control(self, u):
                    return [v + 1 for v in u]
            cls = Hooked
        self.mpc = cls(self.plant, self.sm, **opts)
        if q["est"] == "ideal":
            inner = self.mpc.estimator.estimate

            def estimate(t_k, y_k, u_k):
                self.seen.append({"t": float(t_k), "m": flat(y_k), "u": flat(u_k)})
                return inner(t_k, y_k, u_k)

            self.mpc.estimator.estimate = estimate
        self.extra = 0

    def index(self):
        model = self.sm.problem.model
        self.stub.answer = list(range(self.n))
        res = self.sm.solve(initial_guess=DM.zeros(self.n), p=DM.zeros(model.n_p),
                            theta={k: DM.zeros(model.n_theta) for k in range(self.q["n"])} if model.n_theta else None,
                            x_0=DM.zeros(model.n_x), last_u=DM.zeros(2))
        self.pos = {}
        for kind, data in (("x", res.x_data), ("y", res.y_data), ("u", res.u_data)):
            for k, lst in enumerate(data["values"]):
                for j, v in enumerate(lst):
                    for i, val in enumerate(flat(v)):
                        self.pos[(kind, k, j, i)] = int(val)

    def value(self, el, kind, j, i):
        if kind == "u":
            tau = 0.0 if self.q["dc"] == 1 else RADAU[2][j]
            return el["a"][i] + el["b"][i] * 4.0 * tau
        return 100.0 * el["tag"] + 10 * j + i + (50 if kind == "y" else 0)

    def vector(self, els):
        n = self.q["n"]
        vec = [0.0] * self.n
        for (kind, k, j, i), pos in self.pos.items():
            if k < n:
                vec[pos] = self.value(els[k], kind, j, i)
        for (kind, k, j, i), pos in self.pos.items():
            if k == n and vec[pos] == 0.0:
                vec[pos] = 100.0 * (els[-1]["tag"]) + 99
        return vec

    def guess_fault(self, want, got):
        """the warm start: entries of every element are those of the specification's element, up to one common factor"""
        if not want:
            return None if got is None else "a warm start before the first solution"
        if got is None:
            return "no warm start after the first solution"
        scale = None
        n = self.q["n"]
        free = {p for (kind, k, j, i), p in self.pos.items() if kind == "x" and k >= n - 1} if self.q["sch"] == "ms" else set()
        for (kind, k, j, i), pos in sorted(self.pos.items()):
            if k >= n or pos in free:
                continue
            w = self.value(want[k], kind, j, i)
            if abs(w) < 1e-12:
                if abs(got[pos]) > 1e-6:
                    return f"{kind}[{i}] of element {k}, point {j}: specification says 0, code {got[pos]}"
                continue
            r = got[pos] / w
            if scale is None:
                scale = r
                if not 0.5 < r < 2:
                    return f"{kind}[{i}] of element {k}, point {j}: specification says {w}, code {got[pos]}"
            if abs(r - scale) > 1e-6:
                return f"{kind}[{i}] of element {k}, point {j}: specification says {w}, code {got[pos]} (factor {scale})"
        return None

    def queue_noise(self, nz, periods):
        self.noise = {"process": [], "measure": []}
        for z in periods:
            self.noise["process"] += [z + k + 1 for k in range(len(self.q["ss"]))]
            self.noise["measure"].append(z)

    def draw(self, mean, cov, *a, **k):
        c = float(numpy.array(DM(cov).full())[0, 0])
        kind = "process" if c == 1.0 else "measure"
        return numpy.ones(len(mean)) * self.noise[kind].pop(0)

    def apply(self, op):
        orig = numpy.random.multivariate_normal
        numpy.random.multivariate_normal = self.draw
        try:
            return "ok", getattr(self, "op_" + op["op"])(op)
        except Exception as exc:  # noqa
            self.last_exc = exc
            return "rejected", None
        finally:
            numpy.random.multivariate_normal = orig

    @staticmethod
    def form(op):
        return [float(v) for v in op["u"]] if op["form"] == "list" else dm(op["u"])

    def op_set(self, op):
        self.queue_noise(op["nz"], [op["nz"]])
        self.plant.set_control(self.form(op))

    def op_fun(self, op):
        self.queue_noise(op["nz"], [op["nz"]])
        f = op["f"]
        t = self.plant.model.t
        self.plant.set_control_function(Function("f", [t], [dm(f["a"]) + dm(f["b"]) * (t - f["from"])]))

    def op_run(self, op):
        n = len(op["ans"])
        self.queue_noise(op["nz"], [op["nz"] + 10 * (k + 1) for k in range(n)])
        self.script = list(op["ans"])
        if not op["forever"]:
            return self.mpc.run(n)
        real, left = self.plant.get_measurement, [n]

        def get_measurement():
            if not left[0]:
                raise StopLoop
            left[0] -= 1
            return real()

        self.plant.get_measurement = get_measurement
        try:
            self.mpc.run(0)
            raise AssertionError("run with iterations=0 came to an end")
        except StopLoop:
            self.extra += 1
        finally:
            self.plant.get_measurement = real

    def op_fixed(self, op):
        self.queue_noise(op["nz"], [op["nz"] + 10 * k for k in range(op["n"])])
        (self.mpc.run_fixed_control_with_estimator if op["est"] else self.mpc.run_fixed_control)(self.form(op), op["n"])


class Estimator:
    """Returns the specification's estimates and records what it is told."""

    def __init__(self, loop):
        self.loop, self.k, self.t_s, self.t = loop, 0, 4.0, 0.0

    def estimate(self, t_k, y_k, u_k):
        self.k += 1
        k = self.k
        self.loop.seen.append({"t": float(t_k), "m": flat(y_k), "u": flat(u_k)})
        return dm([3 * k + 1, -k]), DM(numpy.array([[k, 30 + k], [20 + k, 5 * k]], float))
