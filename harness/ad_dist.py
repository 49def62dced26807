"""Binding of Distributed.tla to DistributedAugmentedLagrangian.  The package
erised (remote objects) is not part of the sandbox: a stand-in in this process
takes its place.  The solver of a node plays the answers of the specification."""
import inspect
import logging
import math
import random
import sys
import types

from casadi import DM, SX, Function, vertcat

S = 64
NONE = 1000000
RADAU = {1: [1.0], 2: [1.0 / 3, 1.0], 3: [(4 - math.sqrt(6)) / 10, (4 + math.sqrt(6)) / 10, 1.0]}


class Future:
    def __init__(self, get):
        self.value, self.exc = None, None
        try:
            self.value = get()
        except Exception as exc:  # shows when the result is asked for
            self.exc = exc

    def result(self, *_):
        if self.exc is not None:
            raise self.exc
        return self.value


class Remote:
    """An attribute of a remote object, found when it is needed."""

    def __init__(self, get):
        object.__setattr__(self, "_get", get)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        get = object.__getattribute__(self, "_get")
        return Remote(lambda: getattr(get(), name))

    def __setattr__(self, name, value):
        setattr(object.__getattribute__(self, "_get")(), name, value)

    def __call__(self, *a, **k):
        get = object.__getattribute__(self, "_get")
        return Future(lambda: get()(*a, **k))

    def retrieve(self):
        return Future(object.__getattribute__(self, "_get"))

    def terminate(self):
        pass

    def wait_all_futures(self):
        pass


class Proxy(Remote):
    def __init__(self, obj):
        super().__init__(lambda: obj)


def load():
    """The distributed methods, with the stand-in for erised."""
    stub = types.ModuleType("erised")
    stub.Proxy = Proxy
    sys.modules["erised"] = stub
    logging.disable(logging.CRITICAL)
    from yaocptool import config
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.sb"] = "yes"
    from yaocptool.methods.network import distributedaugmetedlagrangian as m
    return m


def method_class(m, c):
    if c["jacobi"]:
        from yaocptool.methods.network.bipartite_jacobi_admm import BipartiteJacobiADMM
        return BipartiteJacobiADMM
    return m.DistributedAugmentedLagrangian


def flat(v):
    return [float(x) for x in DM(v).full().flatten()]


class Mismatch(Exception):
    pass


class DistWorld:
    """The network of the specification, and the answers its solvers give."""

    def __init__(self, rec, distributed):
        m = load()
        from yaocptool.methods import DirectMethod
        from yaocptool.modelling import Network, OptimalControlProblem, SystemModel
        from yaocptool.modelling.network.node import Node

        self.rec, self.c = rec, rec["c"]
        c = self.c
        self.mid = set(c["mid"])
        self.dt = 4.0
        nodes = []
        self.vars = {}
        for n in range(1, c["n"] + 1):
            if n in self.mid:
                continue
            sm = SystemModel(name=f"m{n}")
            x = sm.create_state(f"x{n}")
            u0 = sm.create_control(f"w{n}")
            ys = [sm.create_algebraic_variable(f"y{n}_{i}") for i in range(1, c["ny"][n - 1] + 1)]
            us = [sm.create_control(f"u{n}_{i}") for i in range(1, c["nin"][n - 1] + 1)]
            sm.include_equations(ode=u0, alg=vertcat(*[y - x * (i + 1) for i, y in enumerate(ys)]))
            ocp = OptimalControlProblem(sm, x_0=DM([0.0]), t_0=c["t0"], t_f=c["t0"] + c["e"] * self.dt, name=f"p{n}")
            cost = u0 ** 2
            for i, y in enumerate(ys, 1):
                cost += (2 * i + n) * y
            for i, u in enumerate(us, 1):
                cost += (3 - 5 * i) * u
            ocp.L = cost
            gy, gu = c["gy"][n - 1], c["gu"][n - 1]
            if gy != NONE:
                ocp.y_guess = DM([float(gy)] * len(ys))
            if gu != NONE:
                ocp.u_guess = DM([0.0] + [float(gu)] * len(us))
            nodes.append(Node(name=f"n{n}", model=sm, problem=ocp))
            self.vars[n] = (ys, us)
        net = Network(name="net")
        net.include_nodes(nodes)
        by = {n: nodes[n - 1] for n in range(1, len(nodes) + 1)}
        real = len(nodes)
        ends = {}
        for e in c["edges"]:
            if e["a"] <= real and e["b"] <= real:
                ends[(e["a"], e["b"])] = (e["ys"], e["us"], None)
            elif e["b"] > real:
                ends[e["b"]] = e
        for d in sorted(self.mid):
            first = ends.pop(d)
            last = [e for e in c["edges"] if e["a"] == d][0]
            ends[(first["a"], last["b"])] = (first["ys"], last["us"], d)
        for (a, b), (ys, us, d) in ends.items():
            net.connect(vertcat(*[self.vars[a][0][i - 1] for i in ys]), vertcat(*[self.vars[b][1][i - 1] for i in us]), by[a], by[b])
        if self.mid:
            net.insert_intermediary_nodes()
            for (a, b), (_, _, d) in ends.items():
                mids = [k for k in net.graph.succ[by[a]] if by[b] in net.graph.succ[k] and k not in nodes]
                if len(mids) != 1:
                    raise Mismatch("no intermediary node between two connected nodes")
                by[d] = mids[0]
        self.net, self.by = net, by
        self.ids = {node: n for n, node in by.items()}
        self.blocks = {i: [by[n] for n in b] for i, b in enumerate(c["blocks"])}
        self.played = 0
        self.raw = {}
        world = self

        class Player(DirectMethod):
            """A direct method whose nonlinear program is answered by the specification."""

            def __init__(self, problem, *a, **kw):
                mo = problem.model
                self.view = (problem.L, mo.x, mo.y, mo.u, mo.p, mo.theta, mo.t, mo.tau)
                self.node = [n for n, k in world.by.items() if k.problem is problem][0]
                super().__init__(problem, *a, **kw)

            def solve(self, *a, **kw):
                args = dict(SIG.bind(self, *a, **kw).arguments)
                args.pop("self")
                world.play(self, args)
                args["initial_guess"] = DM.zeros(self.opt_problem.x.numel())
                args.pop("initial_guess_dict", None)
                return super().solve(**args)

        SIG = inspect.signature(DirectMethod.solve)
        opts = dict(degree=c["d"], finite_elements=c["e"], max_iter_inner=c["maxin"], max_iter_outer=c["maxout"], abs_tol=0.5, inner_loop_tol=0.25,
                    distributed=distributed,
                    al_options=dict(mu_0=float(c["mu0"]), mu_max=float(c["mumax"]), beta=float(c["beta"]), beta_decrease=float(c["bdec"]), gamma=1.5, mu_update_rule=c["rule"]))
        if c["maxfirst"]:
            opts["max_iter_inner_first"] = c["maxfirst"]
        self.method = method_class(m, c)(
            net, Player, solution_method_options=dict(degree=c["d"], degree_control=c["d"], finite_elements=c["e"], discretization_scheme="collocation"),
            blocks=self.blocks, options=opts)

    # ---- the solver of a node ----
    def index(self, met):
        """where the result of the node finds its outputs and inputs in the decision vector"""
        if not hasattr(met, "where"):
            if met.opt_problem is None:
                met.create_optimization_problem()
            size = int(met.opt_problem.x.numel())
            n_el = self.c["e"]
            raw = {"x": DM(range(size)), "f": DM(0), "g": DM.zeros(met.opt_problem.g.numel()), "stats": {"success": True}}
            r = met.create_optimization_result(raw, DM.zeros(met.model.n_p), {k: DM.zeros(met.model.n_theta) for k in range(n_el)}, DM.zeros(met.model.n_x))
            met.where = {}
            for names, data in ((r.y_names, r.y_data), (r.u_names, r.u_data)):
                for k, lst in enumerate(data["values"]):
                    for j, vec in enumerate(lst):
                        for name, v in zip(names, flat(vec)):
                            met.where[name, k, j] = int(v)
            met.size = size
        return met.where

    def values(self, step):
        n = step["n"]
        d = self.c["d"]
        out = {}
        for i, row in enumerate(step["y"], 1):
            for p, v in enumerate(row):
                out[f"y{n}_{i}", p // d, p % d] = v / S
        for i, row in enumerate(step["u"], 1):
            for p, v in enumerate(row):
                out[f"u{n}_{i}", p // d, p % d] = v / S
        return out

    def play(self, met, args):
        n = met.node
        if self.played >= len(self.rec["log"]):
            raise Mismatch(f"solve {self.played + 1} (node {n}): the specification has stopped after {self.played}")
        step = self.rec["log"][self.played]
        self.played += 1
        what = f"solve {self.played}"
        if step["n"] != n:
            raise Mismatch(f"{what}: specification solves node {step['n']}, code node {n}")
        where = self.index(met)
        if not hasattr(met, "stub"):
            met.stub = True
            met.opt_problem.solve = lambda *a, **k: met.answer
        vals = self.values(step)
        vec = [0.0] * met.size
        for key, v in vals.items():
            if key not in where:
                raise Mismatch(f"{what}: {key[0]} is not among the variables of node {n}")
            vec[where[key]] = v
        guess = args.get("initial_guess")
        if step["from"] == 0:
            if guess is not None or args.get("initial_guess_dict") is not None:
                raise Mismatch(f"{what}: a guess is given before node {n} has a solution")
        elif guess is None or flat(guess) != self.raw[step["from"]]:
            raise Mismatch(f"{what}: the guess of node {n} is not its last solution")
        self.raw[self.played] = vec
        self.running_cost(met, args, step, vals, what)
        met.answer = {"x": DM(vec), "f": DM(float(step["f"])), "g": DM.zeros(met.opt_problem.g.numel()), "lam_x": DM.zeros(met.size),
                      "lam_g": DM.zeros(met.opt_problem.g.numel()), "lam_p": DM(0, 1), "stats": {"success": step["ok"], "return_status": "stub"}}

    def running_cost(self, met, args, step, vals, what):
        """the running cost of the problem that is being solved, at all points"""
        c = self.c
        cost, x, y, u, p, theta, t, tau = met.view
        if not hasattr(met, "fcost"):
            # the parameters of the model as the method has them now (penalties and multipliers were added before)
            met.fcost = Function("L", [x, y, u, p, theta, t, tau], [cost])
        par = args.get("p")
        par = DM(0, 1) if par is None else DM(par)
        for pt in range(c["e"] * c["d"]):
            k, j = pt // c["d"], pt % c["d"]
            tj = RADAU[c["d"]][j]
            now = c["t0"] + (k + tj) * self.dt
            for key, own in (("cost", vals), ("base", {})):
                val = lambda vec: DM([own.get((vec[i].name(), k, j), 0.0) for i in range(vec.numel())]) if vec.numel() else DM(0, 1)
                got = float(met.fcost(DM.zeros(x.numel()), val(y), val(u), par, DM(args["theta"][k]), now, tj))
                exp = step[key][pt] / (2.0 * S * S)
                if not abs(got - exp) <= 1e-7 * max(1.0, abs(exp)):
                    at = "its answer" if key == "cost" else "zero"
                    raise Mismatch(f"{what}: running cost of node {step['n']} at {at}, element {k}, point {j}: specification says {exp}, code says {got}")

    # ---- the result ----
    def run(self):
        rec, c = self.rec, self.c
        try:
            r = self.method.solve()
        except Mismatch as exc:
            return str(exc)
        if self.played != len(rec["log"]):
            return f"{self.played} problems were solved, the specification solves {len(rec['log'])}"
        return self.report(r)

    def report(self, r):
        rec, c = self.rec, self.c
        d = c["d"]
        has = [n for n in range(1, c["n"] + 1) if rec["ans"][n - 1]["has"]]
        got = sorted(self.ids[k] for k in r.results)
        if got != has:
            return f"results for the nodes {got}, specification says {has}"
        if abs(float(r.objective) - rec["obj"]) > 1e-7:
            return f"objective {float(r.objective)}, specification says {rec['obj']}"
        it = r.number_of_iterations
        if [it["inner"], it["outer"], it["block_iterations"]] != [rec["inner"], rec["outer"], rec["rounds"]]:
            return f"iterations {it}, specification says {rec['inner']} inner, {rec['outer']} outer, {rec['rounds']} blocks"
        if not float(r.times["solution"]) >= 0:
            return f"times {r.times}"
        for n in has:
            a = rec["ans"][n - 1]
            res = r.results[self.by[n]]
            for kind in ("y", "u"):
                for i, row in enumerate(a[kind], 1):
                    if n in self.mid:
                        vals = res.get_variable(kind, i - 1)
                    else:
                        vals = res.get_variable_by_name(f"{kind}{n}_{i}")
                    for p, v in enumerate(row):
                        if abs(float(vals[p // d][p % d]) - v / S) > 1e-7:
                            return f"{kind}{i} of node {n} at element {p // d}, point {p % d}: specification says {v / S}, code says {float(vals[p // d][p % d])}"
        rows = sorted([sorted(round(e / S, 6) for e in rec["errs"][n - 1]) for n in has])
        df = r.constraint_violations
        seen = sorted([sorted(round(float(v), 6) for v in df.iloc[i] if not math.isnan(v)) for i in range(len(df))])
        if len(rows) != len(seen) or any(len(a) != len(b) or any(abs(x - y) > 1e-7 for x, y in zip(a, b)) for a, b in zip(rows, seen)):
            return f"constraint violations {seen}, specification says {rows}"
        return None if self.mid else self.frame(r, has)

    @staticmethod
    def columns(df):
        """name -> set of (time, value)"""
        out = {}
        for q, key in enumerate(df.columns):
            col = df.iloc[:, q]
            cells = {(round(float(t), 7), round(float(v), 7)) for t, v in zip(df.index, col) if v == v}
            out.setdefault(key if isinstance(key, str) else key[-1], set()).update(cells)
        return out

    def frame(self, r, has):
        """one table holds what the results of the nodes hold (their own tables: C11, C15)"""
        cols = self.columns(r.as_dataframe())
        for n in has:
            for name, cells in self.columns(r.results[self.by[n]].dataset.as_dataframe()).items():
                if name.startswith(("y", "u")) and cols.get(name) != cells:
                    return f"dataframe: {name} is {sorted(cols.get(name, []))[:6]}, the result of node {n} says {sorted(cells)[:6]}"
        return None


def blocks(rec):
    """A network with the given connections: the blocks of the method."""
    m = load()
    from ad_net import network
    from yaocptool.methods import DirectMethod

    net, nodes = network(rec)
    meth = m.DistributedAugmentedLagrangian(net, DirectMethod)
    idx = {id(x): i + 1 for i, x in enumerate(nodes)}
    return {"nodes": list(range(1, rec["n"] + 1)), "edges": [list(e) for e in rec["edges"] or []],
            "groups": [[idx.get(id(x), 0) for x in grp] for grp in meth.blocks.values()]}


def consensus(rec, distributed):
    """A network with a known optimum, solved with the real solver."""
    m = load()
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import Network, OptimalControlProblem, SystemModel
    from yaocptool.modelling.network.node import Node

    c = rec["c"]
    fe, T, t0 = 2, c["T"], c["t0"]

    def node(name, takes, offers, cost):
        sm = SystemModel(name=f"m_{name}")
        x = sm.create_state(f"x_{name}")
        v = sm.create_control(f"v_{name}") if takes else None
        y, alg = None, None
        w = sm.create_control(f"w_{name}")
        if offers:
            y = sm.create_algebraic_variable(f"y_{name}")
            alg = y - w
        sm.include_equations(ode=w if not offers else y, alg=alg)
        pr = OptimalControlProblem(sm, x_0=DM([0.0]), t_0=t0, t_f=t0 + T, name=f"p_{name}")
        pr.L = cost(sm.t, y, v) + (0 if offers else w ** 2)
        return Node(name=name, model=sm, problem=pr), y, v

    A, B = (lambda t: c["A"][0] + c["A"][1] * t), (lambda t: c["B"][0] + c["B"][1] * t)
    if c["net"] == "pair":
        a = node("a", False, True, lambda t, y, v: c["al"] * (y - A(t)) ** 2)
        b = node("b", True, False, lambda t, y, v: c["be"] * (v - B(t)) ** 2)
        chain = [a, b]
        want = [(a, "y_a", "y"), (b, "v_b", "y")]
    else:
        a = node("a", False, True, lambda t, y, v: c["al"] * (y - A(t)) ** 2)
        b = node("b", True, True, lambda t, y, v: c["ga"] * (v - y) ** 2)
        d = node("c", True, False, lambda t, y, v: c["al"] * (v - B(t)) ** 2)
        chain = [a, b, d]
        want = [(a, "y_a", "y"), (b, "v_b", "y"), (b, "y_b", "z"), (d, "v_c", "z")]
    net = Network(name="net")
    net.include_nodes([k[0] for k in chain])
    for p, q in zip(chain, chain[1:]):
        net.connect(p[1], q[2], p[0], q[0])
    if c["mid"]:
        net.insert_intermediary_nodes()
    order = None
    if c["order"] != "default":
        real = [k[0] for k in chain]
        mids = [k for k in net.nodes if k not in real]
        order = [[k] for k in real] + ([mids] if mids else [])
        if c["order"] == "backward":
            order = order[::-1]
        order = dict(enumerate(order))
    deg = c["d"]
    meth = method_class(m, c)(
        net, DirectMethod, solution_method_options=dict(degree=deg, degree_control=deg, finite_elements=fe, discretization_scheme="collocation"), blocks=order,
        options=dict(degree=deg, finite_elements=fe, max_iter_outer=400, max_iter_inner=3, abs_tol=1e-4, distributed=distributed,
                     al_options=dict(mu_update_rule="constant", mu_0=3.0)))
    r = meth.solve()
    rounds = r.number_of_iterations["outer"]
    if rounds >= 399:
        return f"does not converge in {rounds + 1} outer iterations (error {float(r.constraint_violations.max().max())})", rounds
    for who, name, key in want:
        vals = r.results[who[0]].get_variable_by_name(name)
        for k in range(fe):
            for j in range(deg):
                t = t0 + (k + RADAU[deg][j]) * T / fe
                exp = (rec[key][0] + rec[key][1] * t) / rec["den"]
                if abs(float(vals[k][j]) - exp) > 5e-3:
                    return f"{name} at {t} is {float(vals[k][j])}, the optimum is {exp}", rounds
    exp = rec["cost3"] / 3.0 / rec["den"]
    if abs(float(r.objective) - exp) > 1e-2 * max(1.0, exp):
        return f"objective {float(r.objective)}, the optimum is {exp}", rounds
    return None, rounds
