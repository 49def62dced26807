"""Binding of AugLag.tla to AugmentedLagrangian over DirectMethod: a stand-in
for the solver of the subproblem answers with the trajectories of the
specification; each subproblem is judged at its trajectory."""
import json

import numpy as np
from casadi import DM, SX, Function, vertcat

from ad_trans import RADAU, Stub, dm, flat, num, setup

TOL = 1e-6


def near(a, b, scale=1.0):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b), scale)


class ALWorld:
    def __init__(self, q, **kw):
        from yaocptool.methods import AugmentedLagrangian, DirectMethod
        from yaocptool.modelling import OptimalControlProblem, SystemModel

        setup()
        self.q = q
        m = SystemModel(name="sys")
        s = {"x": m.create_state("x")}
        self.two = len(q["xb"]) == 2
        s["v"] = m.create_state("v") if self.two else SX(0)
        for y in q["ys"]:
            s[y] = m.create_algebraic_variable(y)
        s["w"] = m.create_control("w")
        for r in q["eqs"]:
            s[r["own"]] = m.create_control(r["own"])
        s["p"] = m.create_parameter("p") if q["haspar"] else SX(0)
        s["h"] = m.create_theta("h") if q["hasth"] else SX(0)
        s["t"] = m.t
        kept = [r for i, r in enumerate(q["alg"]) if i + 1 not in q["rel"]]
        self.zname = kept[0]["own"] if kept else None
        s["z"] = s[self.zname] if kept else SX(0)
        self.s = s
        m.include_equations(ode=vertcat(s["w"], -2 * s["w"]) if self.two else s["w"])
        for r in q["alg"]:
            m.include_equations(alg=self.row(r))
        T = q["n"] * q["dt"]
        ocp = OptimalControlProblem(m, x_0=dm([77] * len(q["xb"])), t_0=float(q["t0"]), t_f=float(q["t0"] + T), name="ocp")
        ocp.L = s["x"] + 2 * s["w"] + 3 * s["v"]
        ocp.x_min, ocp.x_max = [DM([num(b[i]) for b in q["xb"]]) for i in (0, 1)]
        if q["ys"]:
            ocp.y_min, ocp.y_max = [DM([num(b[i]) for b in q["yb"]]) for i in (0, 1)]
        for r in q["eqs"]:
            ocp.include_time_equality(self.row(r), when=r["when"])
        if "y_guess" in kw:
            ocp.y_guess = dm(kw["y_guess"])
        if "u_guess" in kw:
            ocp.u_guess = dm(kw["u_guess"])
        opts = dict(mu_0=float(q["mu0"]), mu_max=float(q["mumax"]), beta=float(q["beta"]), mu_update_rule=q["rule"], only_update_if_improve=q["impr"],
                    mu_min_error_decrease=0.4, tol=q["tol2"] / 2, max_iter=q["maxit"])
        sizes = dict(degree=q["d"], finite_elements=q["n"])
        solver = dict(discretization_scheme="collocation" if q["sch"] == "coll" else "multiple-shooting", degree_control=q["d"])
        solver.update(kw.get("solver", {}))
        if kw.get("conflict"):  # what the inner method is told counts
            opts.update({k: v + 1 for k, v in sizes.items()})
        (solver if kw.get("via_solver") else opts).update(sizes)
        args = {}
        if q["alg"] and (q["expl"] or len(q["rel"]) != len(q["alg"])):
            args["relax_algebraic_index"] = [i - 1 for i in q["rel"]]
        if q["expl"]:
            args["relax_algebraic_var_index"] = [q["ys"].index(q["alg"][i - 1]["own"]) for i in q["rel"]]
        if q["rele"]:
            args["relax_time_equality_index"] = [i - 1 for i in q["rele"]]
        if q["sb"]:
            args["relax_state_bounds"] = True
        if q["noupd"]:
            args["no_update_after_solving"] = True
        if kw.get("nu") and any(v for row in kw["nu"] for el in row for v in el):
            args["nu"] = {k: dm([row[k][j] for j in range(q["d"]) for row in kw["nu"]]) for k in range(q["n"])}
        if q["noupd"]:
            args["block_number"] = 1
        before = dict(solver)
        self.al = AugmentedLagrangian(ocp, DirectMethod, solver_options=solver, options=opts, **args)
        self.changed_options = solver != before
        copies = [f"yx{i + 1}" for i, b in enumerate(q["xb"]) if q["sb"] and not (abs(b[0]) == abs(b[1]) == 1000000)]
        self.rows = [q["alg"][i - 1]["own"] for i in q["rel"]] + copies + [q["eqs"][i - 1]["own"] for i in q["rele"]]
        self.nalg = len(q["rel"]) + len(copies)
        self.copies = copies
        self.al.create_optimization_problem()
        self.nlp = self.al.ocp_solver.opt_problem
        self.n = int(self.nlp.x.numel())
        self.stub = ScriptedStub(self.nlp, self)
        self.fun = Function("nlp", [self.nlp.x, self.nlp.p], [self.nlp.f, self.nlp.g])
        self.lbx, self.ubx = flat(self.nlp.x_lb), flat(self.nlp.x_ub)
        self.lbg, self.ubg = flat(self.nlp.g_lb), flat(self.nlp.g_ub)
        self.index()

    def row(self, r):
        e = r["s"] * self.s[r["own"]] + r["e"]["c"]
        if r["z"]:
            e += r["z"] * self.s["z"]
        for k in ("x", "v", "w", "p", "h", "t"):
            if r["e"][k]:
                e += r["e"][k] * self.s[k]
        return e

    def index(self):
        """positions of the variables in the decision vector, as the result of the inner method shows them"""
        model = self.al.problem.model
        self.stub.script = [list(range(self.n))]
        self.stub.judging = False
        res = self.al.ocp_solver.solve(initial_guess=DM.zeros(self.n), p=DM.zeros(model.n_p) if model.n_p else None,
                                       theta={k: DM.zeros(model.n_theta) for k in range(self.q["n"])} if model.n_theta else None, x_0=DM.zeros(model.n_x))
        self.stub.judging = True
        known = set(self.rows) | {"w", "x", "v", self.zname} | {r["own"] for r in self.q["eqs"]}
        other = [n for n in res.u_names if n not in known]  # the copies of states, in their order
        name = lambda kind, n: n if n in known else ("xc" if kind == "x" else self.copies[other.index(n)] if kind == "u" and other.index(n) < len(self.copies) else n)
        self.pos = {}
        for kind, data, nn in (("x", res.x_data, res.x_names), ("y", res.y_data, res.y_names), ("u", res.u_data, res.u_names)):
            for k, lst in enumerate(data["values"]):
                for j, v in enumerate(lst):
                    for i, val in enumerate(flat(v)):
                        self.pos[(kind, name(kind, nn[i]), k, j)] = int(val)

    def shape(self):
        q = self.q
        n, d, ms = q["n"], q["d"], q["sch"] == "ms"
        want = set()
        for v in ("x", "xc") + (("v",) if self.two else ()):
            want |= {("x", v, k, j) for k in range(n) for j in range(1 if ms else d + 1)} | {("x", v, n, 0)}
        if self.zname:
            want |= {("y", self.zname, k, j) for k in range(n) for j in range(1 if ms else d)}
        for v in set(["w"] + self.rows + [r["own"] for r in q["eqs"]]):
            want |= {("u", v, k, j) for k in range(n) for j in range(d)}
        return want

    def costs(self, run):
        """cost state at the points of every element: the integral of the interpolated running cost"""
        q = self.q
        tau = np.array(RADAU[q["d"]])
        out, acc = [], 0.0
        for k in range(q["n"]):
            poly = np.polynomial.polynomial.polyfit(tau, np.array(run[k], float), q["d"] - 1) if q["d"] > 1 else np.array([run[k][0]], float)
            integ = np.concatenate([[0.0], poly / np.arange(1, len(poly) + 1)]) * q["dt"]
            val = lambda x: acc + float(np.polynomial.polynomial.polyval(x, integ))
            out.append([acc] + [val(x) for x in tau])
            acc = val(1.0)
        return out, acc

    def vector(self, step):
        q, tr = self.q, step["tr"]
        xc, end = self.costs(step["run"])
        own = dict(zip(self.rows, tr["own"]))
        for i, v in (tr["kept"].items() if isinstance(tr["kept"], dict) else enumerate(tr["kept"])):
            own.setdefault(q["eqs"][int(i) - 1 if isinstance(tr["kept"], dict) else i]["own"], v)
        vec = [0.0] * self.n
        for (kind, v, k, j), i in self.pos.items():
            if v == "xc":
                vec[i] = end if k == q["n"] else xc[k][j]
            elif v in ("x", "v"):
                vec[i] = tr[v + "f"] if k == q["n"] else tr[v][k][j]
            elif kind == "y":
                vec[i] = tr["z"][k][j]
            elif v == "w":
                vec[i] = tr["w"][k]
            else:
                vec[i] = own[v][k][j]
        return vec

    def judge(self, vec, call):
        par = call.get("p")
        par = DM(0, 1) if par is None else DM(vertcat(par))
        f, g = self.fun(dm(vec), par)
        viol = max([0.0] + [max(a - v, v - b) for v, a, b in zip(vec, self.lbx, self.ubx)]
                   + [max(a - v, v - b) for v, a, b in zip(flat(g), self.lbg, self.ubg)])
        return viol, float(f)


class ScriptedStub(Stub):
    """answers one scripted vector after the other and keeps what was asked"""

    def __init__(self, nlp, world):
        super().__init__(nlp)
        self.script, self.asked, self.world, self.judging = [], [], world, True

    def __call__(self, *a, **kw):
        if not self.script:
            raise Unexpected("one more subproblem is solved than the specification has iterations")
        self.answer = self.script.pop(0)
        out = super().__call__(*a, **kw)
        out["lam_x"] = DM([float(i + len(self.asked)) for i in range(len(self.answer))])
        out["lam_g"] = DM([float(-i - len(self.asked)) for i in range(self.nlp.g.numel())])
        if self.judging:
            self.asked.append((self.call, self.answer, self.world.judge(self.answer, self.call), out))
        return out


class Unexpected(Exception):
    pass


def cols(data, q):
    """values of other_data as row -> el -> point"""
    vals = [[flat(v) for v in el] for el in data["values"]]
    return vals


def run_call(w, call, steps, i):
    """One solve of the specification on the real object; first difference or None."""
    q = w.q
    a = call["a"]
    vecs = [w.vector(s) for s in steps]
    w.stub.script, w.stub.asked = list(vecs), []
    args = {}
    if q["haspar"]:
        args["p"] = [float(a["p"])] if i % 2 else dm([a["p"]])
    if q["hasth"]:
        args["theta"] = {k: dm([h]) for k, h in enumerate(a["h"])}
    x_0 = [float(a["x0"])] + ([a["x0"] + 1.0] if w.two else []) + [0.0]
    args["x_0"] = x_0 if i % 2 else dm(x_0)
    guess = [float((i + j) % 5) for j in range(w.n)]
    theta_before = {k: flat(v) for k, v in args.get("theta", {}).items()}
    args_of_call = dict(args, initial_guess=dm(guess))
    lam = None
    if call["start"] == "solution":
        # the solution of the last call, multipliers of the NLP included
        raw = dict(w.last[1].raw_solution_dict)
        guess, lam = flat(raw["x"]), (flat(raw["lam_x"]), flat(raw["lam_g"]))
        args_of_call = dict(args, initial_guess_dict=raw)
    try:
        res = w.al.solve(**args_of_call)
    except Unexpected as exc:
        return str(exc)
    if w.stub.script:
        return f"{len(w.stub.asked)} subproblems are solved, the specification has {len(steps)} iterations"
    if theta_before != {k: flat(v) for k, v in args.get("theta", {}).items()}:
        return "solve changed the caller's theta"
    for n, (st, (c, vec, (viol, f), out)) in enumerate(zip(steps, w.stub.asked)):
        scale = max([1.0] + [abs(v) for v in vec])
        where = f"iteration {n + 1} with mu={st['mu']} nu={st['nu']} residuals {st['r']}: "
        if st["bad"] and viol < 1e-2:
            return where + f"the subproblem accepts a trajectory that violates {st['bad']}"
        if not st["bad"] and viol > 1e-6 * scale:
            return where + f"the running cost of the subproblem is not that of the specification (violation {viol:.3g})"
        if not near(f, st["cost4"] / 4, scale):
            return where + f"objective {f}, specification says {st['cost4'] / 4}"
        if n == 0 and flat(c["initial_guess"]) != guess:
            return where + "the initial guess of the caller is not used"
        if n == 0 and lam is not None and (flat(c["lam_x"]), flat(c["lam_g"])) != lam:
            return where + "the multipliers of the caller's solution are not used"
        if n > 0:
            prev = w.stub.asked[n - 1]
            if flat(c["initial_guess"]) != flat(prev[3]["x"]) or flat(c["lam_x"]) != flat(prev[3]["lam_x"]) or flat(c["lam_g"]) != flat(prev[3]["lam_g"]):
                return where + "the iteration does not start from the previous solution"
    st = steps[-1]
    w.last = (args, res)
    for key, want in (("nu", st["nu"]), ("alg_violation", st["r"][: w.nalg]), ("eq_violation", st["r"][w.nalg:])):
        if q["noupd"] and key != "nu":
            continue
        data = res.other_data[key]
        vals = [[flat(v) for v in el] for el in data["values"]]
        for k in range(q["n"]):
            for j in range(q["d"]):
                exp = [row[k][j] for row in want]
                got = vals[k][j]
                if len(got) != len(exp) or not all(near(x, y) for x, y in zip(exp, got)):
                    return f"result {key}[{k}][{j}]: specification says {exp}, code says {got}"
                t = q["t0"] + q["dt"] * (k + RADAU[q["d"]][j])
                if not near(float(data["time"][k][j]), t):
                    return f"result {key} time[{k}][{j}]: specification says {t}, code says {data['time'][k][j]}"
    ds = res.dataset
    for key, want in (("nu", st["nu"]), ("alg_violation", st["r"][: w.nalg]), ("eq_violation", st["r"][w.nalg:])):
        if q["noupd"] and key != "nu" or not want:
            continue
        exp = [(q["t0"] + q["dt"] * (k + RADAU[q["d"]][j]), [row[k][j] for row in want]) for k in range(q["n"]) for j in range(q["d"])]
        times, vals = flat(ds.data[key].time), np.array(DM(ds.data[key].values))
        got = [(t, [float(v) for v in vals[:, c]]) for c, t in enumerate(times)]
        if len(got) != len(exp) or not all(near(a[0], b[0]) and len(a[1]) == len(b[1]) and all(near(x, y) for x, y in zip(a[1], b[1])) for a, b in zip(exp, got)):
            return f"data set of the result, {key}: specification says {exp}, code says {got}"
    if not q["noupd"]:
        got = flat(res.statistics["violation_error"])
        if len(got) != len(st["err"]) or not all(near(x, y) for x, y in zip(st["err"], got)):
            return f"violation_error: specification says {st['err']}, code says {got}"
    want = ([a["p"]] if q["haspar"] else []) + list(st["mu"])
    if not (len(flat(res.p)) == len(want) and all(near(x, y) for x, y in zip(flat(res.p), want))):
        return f"result.p: specification says {want} (the parameters and penalties of the last subproblem), code says {flat(res.p)}"
    for k in range(q["n"]):
        for j in range(q["d"]):
            got = dict(zip(res.u_names, flat(res.u_data["values"][k][j])))
            if not near(got["w"], st["tr"]["w"][k]):
                return f"result control w[{k}][{j}]"
    x = [flat(v[-1])[list(res.x_names).index("x")] for v in res.x_data["values"]]
    if not near(x[-1], st["tr"]["xf"]):
        return f"result final state {x[-1]}, specification says {st['tr']['xf']}"
    return None


def outside(w, e):
    """an update from outside between two calls; first difference or None"""
    if e["op"] == "setmu":
        try:
            w.al.set_mu(DM([float(v) for v in e["m"]]))
        except ValueError:
            return "set_mu refuses %s" % e["m"] if e["ok"] else None
        return None if e["ok"] else "set_mu takes %s" % e["m"]
    args, res = w.last
    p = args.get("p")
    p = DM(p) if p is not None else None
    if e["op"] == "update":
        err = w.al.update_parameters(p, args.get("theta"), res.raw_solution_dict)
    else:
        data = {n: {"data": [[DM(float(x))] for x in v], "block_number": {"n1": 0, "n2": 1, "n3": 2}[n]} for n, v in e["e"].items()}
        out = w.al.compute_primal_dual(p, args.get("theta"), res.raw_solution_dict, exogenous_data={"in": data})
        err = out["error"]
        if not near(float(out["primal"]), e["primal"]):
            return f"compute_primal_dual: primal {out['primal']}, specification says {e['primal']}"
        dual = float(out["dual"])
        if e["dual"] < 0 and dual > -1e300 or e["dual"] >= 0 and not near(dual, e["dual"]):
            return f"compute_primal_dual: dual {dual}, specification says {e['dual'] if e['dual'] >= 0 else '-inf'}"
    if len(flat(err)) != len(e["err"]) or not all(near(x, y) for x, y in zip(e["err"], flat(err))):
        return f"{e['op']}: errors {flat(err)}, specification says {e['err']}"
    return None


def parts(log):
    """the log as calls with their iterations, and the operations between them"""
    out = []
    for e in log:
        if e["op"] == "solve":
            out[-1][1].append(e)
        elif e["op"] != "new":
            out.append((e, []))
    if out and out[-1][0]["op"] == "call" and not (out[-1][1] and out[-1][1][-1]["stop"]):
        out.pop()
    return out
