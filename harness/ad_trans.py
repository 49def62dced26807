"""Binding of Transcription.tla to DirectMethod: builds the problem of the
specification with the public API and lets a stand-in for the NLP solver hand
back the decision vector of a trajectory of the specification."""
import inspect
import json
import math

from casadi import DM, SX, Function, inf, vertcat

RADAU = {1: [1.0], 2: [1.0 / 3, 1.0], 3: [(4 - math.sqrt(6)) / 10, (4 + math.sqrt(6)) / 10, 1.0]}
INF = 1000000
TOL = 1e-5


def setup():
    from yaocptool import config
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.sb"] = "yes"
    config.INTEGRATOR_OPTIONS.update({"abstol": 1e-10, "reltol": 1e-10})


def num(v):
    return inf if v >= INF else -inf if v <= -INF else float(v)


def dm(vals):
    """column vector without structural zeros"""
    return DM([float(v) for v in vals]) if len(vals) else DM(0, 1)


def flat(v):
    return [float(x) for x in DM(v).full().flatten()]


def peval(poly, s):
    return sum(c * s ** i for i, c in enumerate(poly))


class Problem:
    """The optimal control problem of record q, its clock running ts times as fast."""

    def __init__(self, q, ts=1):
        from yaocptool.modelling import OptimalControlProblem, SystemModel

        self.q = q
        m = SystemModel(name="sys")
        s = {}
        s["x1"] = m.create_state("x1")
        s["x2"] = m.create_state("x2")
        if q["hasy"]:
            s["y"] = m.create_algebraic_variable("y")
        s["u1"] = m.create_control("u1")
        s["u2"] = m.create_control("u2")
        self.porder = ["p2", "p1"] if q["rev"] else ["p1", "p2"]
        self.horder = ["h2", "h1"] if q["rev"] else ["h1", "h2"]
        if not q["np1"]:
            self.porder, self.horder = ["p2"], ["h2"]
        for name in self.porder:
            s[name] = m.create_parameter(name)
        for name in self.horder:
            s[name] = m.create_theta(name)
        s["t"] = m.t * ts
        self.s = s
        m.include_equations(ode=ts * vertcat(self.expr(q["ode1"]), self.expr(q["ode2"])))
        if q["hasy"]:
            m.include_equations(alg=s["y"] - self.expr(q["alg"]))
        ocp = OptimalControlProblem(m, x_0=dm(q["dx0"]), t_0=q["t0"] / ts, t_f=(q["t0"] + q["n"] * q["dt"]) / ts, name="ocp")
        ocp.L = ts * (self.expr(q["L"]) + q["luu"] * s["u1"] ** 2)
        ocp.V = self.expr(q["V"])
        ocp.S = self.expr(q["S"])
        ocp.x_min, ocp.x_max = [DM([num(b[i]) for b in q["xb"]]) for i in (0, 1)]
        ocp.u_min, ocp.u_max = [DM([num(b[i]) for b in q["ub"]]) for i in (0, 1)]
        ocp.delta_u_min, ocp.delta_u_max = [DM([num(b[i]) for b in q["dub"]]) for i in (0, 1)]
        if q["hasy"]:
            ocp.y_min, ocp.y_max = [DM([num(q["yb"][i])]) for i in (0, 1)]
        for i in q["popt"]:
            lo, hi = q["pb"][i - 1]
            ocp.set_parameter_as_optimization_parameter(s[f"p{i}"], DM([num(lo)]), DM([num(hi)]))
        for i in q["hopt"]:
            lo, hi = q["hb"][i - 1]
            ocp.set_theta_as_optimization_theta(s[f"h{i}"], DM([num(lo)]), DM([num(hi)]))
        for g in q["g"]:
            (ocp.include_time_equality if g["k"] == "eq" else ocp.include_time_inequality)(self.expr(g["e"]), when=g["w"])
        if not all(q["pin"]):
            # the user writes the equalities at the initial time
            ocp.h_initial = vertcat(*[s[f"x{i + 1}"] - m.x_0[i] for i in (0, 1) if q["pin"][i]])
        for e in q["hi"]:
            ocp.include_initial_time_equality(self.expr(e))
        for e in q["hf"]:
            ocp.include_final_time_equality(self.expr(e))
        for e in q["h"]:
            ocp.include_equality(self.expr(e))
        if q["last"][0] < INF:
            ocp.last_u = dm(q["dlast"])
        self.ocp = ocp

    def expr(self, e):
        out = SX(float(e["c"]))
        for name, coef in e.items():
            if name != "c" and coef:
                out += coef * self.s[name]
        return out

    def method(self, **kw):
        from yaocptool.methods import DirectMethod

        q = self.q
        opts = dict(discretization_scheme="collocation" if q["sch"] == "coll" else "multiple-shooting",
                    finite_elements=q["n"], degree=q["deg"], degree_control=q["dc"])
        if not q["icp"]:
            opts["initial_condition_as_parameter"] = False
        if q["sum"]:
            opts["cost_as_a_sum"] = True
        opts.update(kw)
        return DirectMethod(self.ocp, **opts)

    def p(self, par):
        return [{"p1": par[0], "p2": par[1]}[n] for n in self.porder]

    def theta(self, h):
        return [{"h1": h[0], "h2": h[1]}[n] for n in self.horder]


class Stub:
    """Stands in for the solve method of the NLP: records, answers what it is told to."""

    def __init__(self, nlp):
        self.nlp = nlp
        self.sig = inspect.signature(nlp.solve)
        self.answer = None
        self.call = None
        nlp.solve = self

    def __call__(self, *a, **kw):
        self.call = dict(self.sig.bind(*a, **kw).arguments)
        x = DM(self.answer)
        self.f, self.g = DM(0.5 + sum(float(v) for v in self.answer)), dm([1.5 * i + 1 for i in range(self.nlp.g.numel())])
        return {"x": x, "f": self.f, "g": self.g, "lam_x": DM.zeros(x.numel()),
                "lam_g": DM.zeros(self.nlp.g.numel()), "lam_p": DM(0, 1), "stats": {"success": True, "return_status": "stub"}}


class TransWorld:
    """One problem, one method object, many calls: q may differ between calls
    in the initial condition and the last control it is asked for."""

    def __init__(self, q, ts=1, **kw):
        setup()
        self.q = q
        self.ts = ts
        self.has_last = q["last"][0] < INF
        self.prob = Problem(q, ts)
        self.met = self.prob.method(**kw)
        self.met.create_optimization_problem()
        self.nlp = self.met.opt_problem
        self.n = int(self.nlp.x.numel())
        self.stub = Stub(self.nlp)
        self.fun = Function("nlp", [self.nlp.x, self.nlp.p], [self.nlp.f, self.nlp.g])
        self.lbx, self.ubx = flat(self.nlp.x_lb), flat(self.nlp.x_ub)
        self.lbg, self.ubg = flat(self.nlp.g_lb), flat(self.nlp.g_ub)
        self.index(self.solve(q, [0, 0], [[0, 0]] * q["n"], list(range(self.n))))

    def args(self, q, par, hs, omit=(), lists=False):
        mk = (lambda v: [float(x) for x in v]) if lists else dm
        # (the elements are keys: the order in which they were written does not matter)
        order = range(len(hs)) if lists else reversed(range(len(hs)))
        args = dict(p=mk(self.prob.p(par)), theta={k: dm(self.prob.theta(hs[k])) for k in order})
        if q["icp"]:
            args["x_0"] = mk(list(q["x0"]) + [0])
        if self.has_last:
            args["last_u"] = mk(q["last"])
        for k in omit:
            args.pop(k, None)
        return args

    def solve(self, q, par, hs, answer, omit=(), lists=False, guess=True):
        self.stub.answer = answer
        args = self.args(q, par, hs, omit, lists)
        if guess:
            args["initial_guess"] = DM.zeros(self.n)
        self.passed = args
        return self.met.solve(**args)

    def index(self, res):
        """Where the result finds each variable in the decision vector."""
        names = list(res.x_names)
        self.xn = ["x1" if n == "x1" else "x2" if n == "x2" else "xc" for n in names]
        self.yn, self.un = list(res.y_names), list(res.u_names)
        pos = {}
        for kind, data, nn in (("x", res.x_data, self.xn), ("y", res.y_data, self.yn), ("u", res.u_data, self.un)):
            for k, lst in enumerate(data["values"]):
                for j, vec in enumerate(lst):
                    vals = flat(vec)
                    if len(vals) != len(nn):
                        raise AssertionError(f"{kind}_data[{k}][{j}] has {len(vals)} entries for {len(nn)} variables")
                    for i, v in enumerate(vals):
                        pos[(kind, nn[i], k, j)] = int(v)
        for j, i in enumerate(self.q["popt"]):
            pos[("p", f"p{i}", 0, 0)] = int(flat(res.p_opt)[j])
        for j, i in enumerate(self.q["hopt"]):
            for k, v in enumerate(res.theta_opt):
                pos[("h", f"h{i}", k, 0)] = int(flat(v)[j])
        self.pos = pos

    def shape(self):
        """The variables the specification says there are."""
        q = self.q
        n = q["n"]
        want = set()
        nx = 1 if q["sch"] == "ms" else q["deg"] + 1
        ny = 1 if q["sch"] == "ms" else q["deg"]
        for v in ("x1", "x2", "xc"):
            want |= {("x", v, k, j) for k in range(n) for j in range(nx)} | {("x", v, n, 0)}
        if q["hasy"]:
            want |= {("y", "y", k, j) for k in range(n) for j in range(ny)}
        for v in ("u1", "u2"):
            want |= {("u", v, k, j) for k in range(n) for j in range(q["dc"])}
        want |= {("p", f"p{i}", 0, 0) for i in q["popt"]}
        want |= {("h", f"h{i}", k, 0) for k in range(n) for i in q["hopt"]}
        return want

    def times(self, pts, k):
        """times of the points of element k (0 based) named by the specification"""
        q = self.q
        out = []
        for i, s in enumerate(pts):
            if s >= INF:
                tau = RADAU[3][i - (len(pts) - 3)]
                s = tau * q["dt"]
            out.append((s, (q["t0"] + k * q["dt"] + s) / self.ts))
        return out

    def value(self, rec, key):
        """value of a variable of the candidate at one of its points"""
        kind, v, k, j = key
        q = self.q
        els = rec["els"]
        if kind == "p":
            return rec["p"][int(v[1]) - 1]
        if kind == "h":
            return els[k]["h"][int(v[1]) - 1]
        if kind == "x":
            if k == q["n"]:
                return 0 if v == "xc" and q["sum"] else peval(els[-1][v], q["dt"])
            return peval(els[k][v], self.times(rec["grid"]["x"], k)[j][0])
        if kind == "y":
            return peval(els[k]["y"], self.times(rec["grid"]["y"], k)[j][0])
        u = els[k]["u"][0 if v == "u1" else 1]
        return peval(u, self.times(rec["grid"]["u"], k)[j][0])

    def vector(self, rec):
        vec = [None] * self.n
        for key, i in self.pos.items():
            if key[0] == "x" and key[2] == self.q["n"] and vec[i] is not None:
                continue
            vec[i] = self.value(rec, key)
        return vec

    def judge(self, rec, **kw):
        vec = self.vector(rec)
        self.result = self.solve(rec["q"], rec["p"], [e["h"] for e in rec["els"]], vec, **kw)
        par = self.stub.call.get("p")
        par = DM(0, 1) if par is None else DM(vertcat(par))
        f, g = self.fun(dm(vec), par)
        viol = max([0.0] + [max(l - v, v - h) for v, l, h in zip(vec, self.lbx, self.ubx)]
                   + [max(l - v, v - h) for v, l, h in zip(flat(g), self.lbg, self.ubg)])
        return viol, float(f)

    def report(self, rec):
        """First difference between the returned result and the trajectory, or None."""
        q, r = rec["q"], self.result
        n = q["n"]
        near = lambda a, b: abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        same = lambda a, b: len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
        hs = [self.prob.theta(e["h"]) for e in rec["els"]]
        p = self.prob.p(rec["p"])
        if not same(flat(r.p), p):
            return f"result.p: specification says {p}, code says {flat(r.p)}"
        for k in range(n):
            if not same(flat(r.theta[k]), hs[k]):
                return f"result.theta[{k}]: specification says {hs[k]}, code says {flat(r.theta[k])}"
        po = [rec["p"][i - 1] for i in q["popt"]]
        if not same(flat(r.p_opt), po):
            return f"result.p_opt: specification says {po}, code says {flat(r.p_opt)}"
        tb = [(q["t0"] + k * q["dt"]) / self.ts for k in range(n + 1)]
        if not same([float(r.t_0), float(r.t_f)], [tb[0], tb[-1]]):
            return f"result interval {r.t_0}, {r.t_f}"
        if not same(list(r.time_breakpoints), tb):
            return f"result.time_breakpoints: specification says {tb}, code says {list(r.time_breakpoints)}"
        if r.success is not True:
            return f"result.success is {r.success} though the solver succeeded"
        if tb[0] >= 0 and r.is_valid is not True:
            return f"result.is_valid is {r.is_valid}"
        if not same(flat(r.x_0), list(q["x0"]) + [0]):
            return f"result.x_0: specification says {list(q['x0']) + [0]}, code says {flat(r.x_0)}"
        if not same(flat(r.raw_decision_variables), self.vector(rec)):
            return "result.raw_decision_variables is not what the solver answered"
        if not same(flat(r.objective_opt_problem), flat(self.stub.f)):
            return f"result.objective_opt_problem: the solver says {self.stub.f}, code says {r.objective_opt_problem}"
        if not same(flat(r.constraint_values), flat(self.stub.g)):
            return f"result.constraint_values: the solver says {self.stub.g}, code says {r.constraint_values}"
        if r.stats.get("return_status") != "stub":
            return f"result.stats: {r.stats}"
        about = (r.finite_elements, r.degree, r.degree_control, r.problem_name, r.method_name, r.discretization_scheme)
        want = (n, q["deg"], q["dc"], "ocp", "DirectMethod", "collocation" if q["sch"] == "coll" else "multiple-shooting")
        if about != want:
            return f"the result describes the method as {about}, it is {want}"
        xc = peval(rec["els"][-1]["xc"], q["dt"])
        if not same(flat(r.x_c_final), [xc]):
            return f"result.x_c_final: specification says {xc}, code says {flat(r.x_c_final)}"
        u0 = [self.value(rec, ("u", v, 0, 0)) for v in ("u1", "u2")]
        if not same(flat(r.first_control()), u0):
            return f"first_control: specification says {u0}, code says {flat(r.first_control())}"
        exp = {"x": [], "y": [], "u": []}
        for k in range(n):
            for kind, nn in (("x", self.xn), ("y", self.yn), ("u", self.un)):
                for j, (_, t) in enumerate(self.times(rec["grid"][kind], k)):
                    exp[kind].append([t] + [self.value(rec, (kind, v, k, j)) for v in nn])
        exp["x"].append([tb[-1]] + [self.value(rec, ("x", v, n, 0)) for v in self.xn])
        if q["hopt"]:
            exp["theta_opt"] = [[tb[k]] + [rec["els"][k]["h"][i - 1] for i in q["hopt"]] for k in range(n)]
        ds = r.to_dataset()
        for kind, want in exp.items():
            if kind == "y" and not self.yn:
                continue
            e = ds.data[kind]
            labels = {"x": r.x_names, "y": r.y_names, "u": r.u_names, "theta_opt": [f"h{i}" for i in q["hopt"]]}[kind]
            if list(e.names) != list(labels):
                return f"dataset {kind}: names {list(e.names)}, the variables are {list(labels)}"
            times, values = flat(e.time), DM(e.values).full()
            got = [[t] + [float(v) for v in values[:, c]] for c, t in enumerate(times)]
            for w in want:
                if not any(same(w, g) for g in got):
                    return f"dataset {kind}: the point {w} (time, values) is missing"
            for g in got:
                if not any(same(w, g) for w in want):
                    return f"dataset {kind}: the point {g} (time, values) is not on the trajectory"
            if any(a > b + 1e-9 for a, b in zip(times, times[1:])):
                return f"dataset {kind}: times are not increasing: {times}"
        for kind, nn, data in (("x", self.xn, r.x_names), ("y", self.yn, r.y_names), ("u", self.un, r.u_names)):
            for v, name in zip(nn, data):
                vals = [[float(z) for z in lst] for lst in r.get_variable_by_name(name)]
                for k in range(n):
                    for j in range(len(rec["grid"][kind])):
                        if not near(vals[k][j], self.value(rec, (kind, v, k, j))):
                            return f"get_variable_by_name({name})[{k}][{j}]: {vals[k][j]}"
        return None

    def refusals(self, rec):
        """Calls that leave out a value nobody else can supply, or give one of the wrong size."""
        q, ocp = rec["q"], self.prob.ocp
        hs = [e["h"] for e in rec["els"]]
        bad = []

        def call(what, omit=(), guess=True, **over):
            self.stub.call = None
            try:
                args = dict(self.args(q, rec["p"], hs, omit), **over)
                if guess:
                    args["initial_guess"] = DM.zeros(self.n)
                self.met.solve(**args)
                bad.append(f"solve accepts {what}")
            except Exception:
                if self.stub.call is not None:
                    bad.append(f"{what}: refused only after the solver was called")

        if len(q["popt"]) < len(self.prob.porder):
            call("a call without parameters", ["p"])
        if len(q["hopt"]) < len(self.prob.horder):
            call("a call without theta", ["theta"])
        call("an initial condition of another size", x_0=DM.zeros(len(q["x0"]) + 2))
        if self.has_last:
            keep, ocp.last_u = ocp.last_u, None
            call("a call without last control", ["last_u"])
            ocp.last_u = keep
        keep, self.met.initial_guess_heuristic = self.met.initial_guess_heuristic, "nothing"
        call("an unknown heuristic", guess=False)
        self.met.initial_guess_heuristic = keep
        return bad

    def unchanged(self, rec, omit, lists):
        """The caller's arguments still hold what was passed."""
        q = rec["q"]
        ref = self.args(q, rec["p"], [e["h"] for e in rec["els"]], omit, lists)
        for k, v in ref.items():
            got = self.passed[k]
            pairs = [(v[i], got[i]) for i in v] if isinstance(v, dict) else [(v, got)]
            if any(flat(a) != flat(b) for a, b in pairs):
                return f"solve changed the argument {k} of the caller"
        return None


class Doubled:
    """The model of the problem in other coordinates: every state counts double."""

    def __init__(self, model):
        self.model = model

    def __getattr__(self, name):
        return getattr(self.model, name)

    def get_dae_system(self):
        from casadi import substitute

        d = self.model.get_dae_system()
        half = d.x / 2
        d.ode = 2 * substitute(d.ode, d.x, half)
        d.alg = substitute(d.alg, d.x, half)
        return d

    @staticmethod
    def enter(x_0, **kw):
        return dict(kw, x_0=2 * DM(x_0))

    @staticmethod
    def leave(res):
        return dict(res, xf=res["xf"] / 2)
