"""Adapter: drives the real OptimalControlProblem / StochasticOCP with the
operations of Ocp.tla and projects it to the specification's state."""
import json

from ad_model import ModelWorld, near_int
from casadi import DM, SX, vertcat
from common import MachineryError

INF = 1000


def num(v):
    v = float(v)
    if v == float("inf"):
        return INF
    if v == float("-inf"):
        return -INF
    return near_int(v)


def nums(v):
    if v is None:
        return []
    v = DM(vertcat(*v)) if isinstance(v, list) else DM(v)
    return [num(v[i]) for i in range(v.numel())]


def bound(b):
    if b["k"] == "default":
        return None
    if b["k"] == "scalar":
        return float(b["v"])
    v = b["v"] or []
    return [float(x) for x in v] if b["k"] == "list" else DM(v)


def canon_rows(rows):
    """Equalities: e = 0 and -e = 0 are the same; their order carries no meaning."""
    out = []
    for r in rows or []:
        r = r or {}
        if r:
            k = sorted(r)[0]
            if isinstance(r[k], (int, float)) and r[k] < 0:
                r = {a: -c for a, c in r.items()}
        out.append(r)
    return sorted(out, key=lambda r: json.dumps(r, sort_keys=True))


def canon_pairs(rows, tags, sign):
    pairs = []
    for r, t in zip(rows or [], tags or []):
        r = r or {}
        if sign:
            r = canon_rows([r])[0]
        pairs.append([r, t])
    if len(rows or []) != len(tags or []):
        pairs.append(["sizes", [len(rows or []), len(tags or [])]])
    return sorted(pairs, key=lambda r: json.dumps(r, sort_keys=True))


def canon(post):
    """Canonical form of a projected problem (either side)."""
    for P in (post["ps"] or {}).values():
        P["eqs"] = canon_pairs(P.pop("geq"), P.pop("tgeq"), True)
        P["ineqs"] = canon_pairs(P.pop("gineq"), P.pop("tgineq"), False)
        for k in ("h", "hi", "hf"):
            P[k] = canon_rows(P[k])
    return post


class OcpWorld(ModelWorld):
    def __init__(self, slots, stochastic=False, alias=False):
        super().__init__(slots, alias=alias)
        self.stochastic = stochastic
        self.ps = {}
        self.spoiled = set()

    # -- operations -------------------------------------------------------
    def do_user(self, op):
        mop = op["mop"]
        getattr(super(), "do_" + mop["op"])(mop)

    def do_make(self, op):
        from yaocptool.modelling import OptimalControlProblem, StochasticOCP

        cls = StochasticOCP if self.stochastic else OptimalControlProblem
        kw = dict(name=op["s"], t_0=float(op["t0"]), t_f=float(op["tf"]))
        if op["x0"]:
            kw["x_0"] = [float(v) for v in op["x0"]]
        self.ps[op["s"]] = cls(self.ms[op["s"]], **kw)

    def new_labels(self, labels, var):
        for i, l in enumerate(labels):
            self.lb.put(l, var[i])

    def do_state(self, op):
        P = self.ps[op["s"]]
        vs = op["vars"]
        before = P.model.n_x
        kw = {}
        if op["ode"]:
            kw["ode"] = self.lb.exprs(op["ode"])
        if op["x0"]:
            kw["x_0"] = [float(v) for v in op["x0"]] if len(op["x0"]) > 1 else DM(op["x0"])
        lo, hi = bound(op["lo"]), bound(op["hi"])
        if lo is not None:
            kw["x_min"] = lo
        if hi is not None:
            kw["x_max"] = hi
        if op["form"] == "create" and not op["hin"]:
            self.new_labels(vs, P.create_state(self.lb.name(vs[0]), len(vs), **kw))
        else:
            if op["hin"]:
                kw["h_initial"] = self.lb.exprs(op["hin"])
            P.include_state(self.lb.vec(vs), **kw)
        for i, l in enumerate(vs):
            self.lb.put(l + "@0", P.model.x_0[before + i])

    def do_algebraic(self, op):
        P = self.ps[op["s"]]
        vs = op["vars"]
        kw = {}
        lo, hi = bound(op["lo"]), bound(op["hi"])
        if lo is not None:
            kw["y_min"] = lo
        if hi is not None:
            kw["y_max"] = hi
        if op["guess"]:
            kw["y_guess"] = [float(v) for v in op["guess"]] if len(vs) > 1 else DM(op["guess"])
        if op["form"] == "create" and not op["alg"]:
            self.new_labels(vs, P.create_algebraic(self.lb.name(vs[0]), len(vs), **kw))
        else:
            if op["alg"]:
                kw["alg"] = self.lb.exprs(op["alg"])
            P.include_algebraic(self.lb.vec(vs), **kw)

    def do_control(self, op):
        P = self.ps[op["s"]]
        vs = op["vars"]
        kw = {}
        for key, name in (("lo", "u_min"), ("hi", "u_max"), ("dlo", "delta_u_min"), ("dhi", "delta_u_max")):
            b = bound(op[key])
            if b is not None:
                kw[name] = b
        if op["guess"]:
            kw["u_guess"] = [float(v) for v in op["guess"]] if len(op["guess"]) > 1 else DM(op["guess"])
        if op["form"] == "create":
            make = P.create_input if op["dlo"]["k"] == "default" else P.create_control
            self.new_labels(vs, make(self.lb.name(vs[0]), len(vs), **kw))
        else:
            P.include_control(self.lb.vec(vs), **kw)

    def do_param(self, op):
        P = self.ps[op["s"]]
        vs, kind = op["vars"], op["kind"]
        p = kind == "p"
        if op["form"] == "plain":
            if op["how"] == "create":
                self.new_labels(vs, (P.create_parameter if p else P.create_theta)(self.lb.name(vs[0]), len(vs)))
            else:
                (P.include_parameter if p else P.include_theta)(self.lb.vec(vs))
            return
        lo, hi = bound(op["lo"]), bound(op["hi"])
        if op["form"] == "set":
            if p:
                P.set_parameter_as_optimization_parameter(self.lb.vec(vs), lo, hi)
            else:
                P.set_theta_as_optimization_theta(self.lb.vec(vs), lo, hi)
        elif op["how"] == "create":
            new = (P.create_optimization_parameter if p else P.create_optimization_theta)(self.lb.name(vs[0]), len(vs), lo, hi)
            self.new_labels(vs, new)
        elif p:
            P.include_optimization_parameter(self.lb.vec(vs), lo, hi)
        else:
            P.include_optimization_theta(self.lb.vec(vs), lo, hi)

    def do_rmy(self, op):
        P = self.ps[op["s"]]
        v = self.lb.vec(op["vars"])
        if op["eqi"]:
            P.remove_algebraic(v, self.equations_of(P.model, op["eqi"]))
        else:
            P.remove_algebraic(v)

    def do_rmu(self, op):
        self.ps[op["s"]].remove_control(self.lb.vec(op["vars"]))

    def do_constraint(self, op):
        P = self.ps[op["s"]]
        e = [self.lb.expr(x) for x in op["exprs"]]
        if op["form"] == "vec":
            e = vertcat(*e)
        k = op["k"]
        if k in ("ineq", "eq"):
            f = P.include_time_inequality if k == "ineq" else P.include_time_equality
            if op["when"] == "default" and op["form"] == "list":
                f(e)
            else:
                f(e, when=op["when"])
        else:
            {"initial": P.include_initial_time_equality, "final": P.include_final_time_equality,
             "h": P.include_equality}[k](e)

    def do_cost(self, op):
        setattr(self.ps[op["s"]], op["k"], self.lb.expr(op["e"], sparse_zero=False))

    def do_guess(self, op):
        P = self.ps[op["s"]]
        if op["k"] == "pos":
            P.positive_objective = True
        else:
            setattr(P, {"ug": "u_guess", "yg": "y_guess", "lastu": "last_u"}[op["k"]], DM(op["v"]))

    def do_bounds(self, op):
        P, b = self.ps[op["s"]], op["base"]
        m = P.model
        for k, n, off in (("x", m.n_x, 0), ("y", m.n_y, 10), ("u", m.n_u, 20), ("delta_u", m.n_u, 30)):
            v = DM([b + off + i + 1 for i in range(n)]) if n else DM(0, 1)
            setattr(P, k + "_max", v)
            setattr(P, k + "_min", -v)

    def do_spoil(self, op):
        P, k = self.ps[op["s"]], op["k"]
        self.spoiled.add(P.name)
        if k in ("L", "V"):
            e = SX(getattr(P, k))
            setattr(P, k, vertcat(e if e.numel() else SX(0), 1))
            return
        name = "x_0" if k == "x0" else {"x": "x", "y": "y", "u": "u", "du": "delta_u", "popt": "p_opt", "thopt": "theta_opt"}[k[:-3]] + "_" + k[-3:]
        v = [float("inf") if a == INF else -float("inf") if a == -INF else a for a in op["v"] or []]
        setattr(P, name, DM(v) if v else DM(0, 1))

    def do_reset(self, op):
        self.ps[op["s"]].reset_working_model()

    def do_coststate(self, op):
        P = self.ps[op["s"]]
        before = P.model.n_x
        new = P.create_cost_state()
        self.lb.put(op["s"] + "_x_c", new[0])
        self.lb.put(op["s"] + "_x_c@0", P.model.x_0[before])

    def do_replaceP(self, op):
        self.ps[op["s"]].replace_variable(self.lb.vec(op["vars"]), self.lb.exprs(op["exprs"]))

    def do_parametrizeP(self, op):
        up = self.lb.vec(op["upar"]) if op["upar"] else None
        self.ps[op["s"]].parametrize_control(self.lb.vec(op["us"]), self.lb.exprs(op["exprs"]), up)

    def do_connectP(self, op):
        us, ys = [self.lb.sym(l) for l in op["us"]], [self.lb.expr(e) for e in op["ys"]]
        if op["form"] == "vec":
            us, ys = vertcat(*us), vertcat(*ys)
        if op["replace"]:
            self.ps[op["s"]].connect(us, ys, replace=True)
        else:
            self.ps[op["s"]].connect(us, ys)

    def do_mergeP(self, op):
        self.ps[op["s"]].merge([self.ps[f] for f in op["from"]])

    def do_uncertain(self, op):
        P = self.ps[op["s"]]
        vs = op["vars"]
        mean = DM(op["mean"])
        n = len(op["var"])
        cov = DM.zeros(n, n)
        for i, v in enumerate(op["var"]):
            cov[i, i] = v
        if op["k"] == "init":
            P.set_initial_condition_as_uncertain(self.lb.vec(vs), mean, cov, distribution=op["dist"])
        elif op["form"] == "create":
            self.new_labels(vs, P.create_uncertain_parameter(self.lb.name(vs[0]), mean, cov, len(vs), distribution=op["dist"]))
        elif op["form"] == "include":
            P.include_uncertain_parameter(self.lb.vec(vs), mean, cov, distribution=op["dist"])
        else:
            P.set_parameter_as_uncertain_parameter(self.lb.vec(vs), mean, cov, distribution=op["dist"])

    def do_chance(self, op):
        P = self.ps[op["s"]]
        e = [self.lb.expr(x) for x in op["exprs"]]
        prob = [float(v) for v in op["prob"]]
        if op["form"] == "vec":
            e, prob = vertcat(*e), DM(prob)
        kw = {}
        rhs = bound(op["rhs"])
        if rhs is not None:
            kw["rhs"] = rhs
        P.include_time_chance_inequality(e, prob, **kw)

    # -- projection -------------------------------------------------------
    def guess(self, v):
        return {"has": v is not None, "v": nums(v)}

    def project_problem(self, P):
        lb = self.lb
        lin = lb.linear
        m = P.model

        def one(e):
            e = SX(e)
            return lin(e)[0] if e.numel() else {"empty": 1}

        d = {"x0": nums(P.x_0), "t0": num(P.t_0), "tf": num(P.t_f)}
        for k, a in (("x", "x"), ("y", "y"), ("u", "u"), ("du", "delta_u"), ("popt", "p_opt"), ("thopt", "theta_opt")):
            d[k + "min"] = nums(getattr(P, a + "_min"))
            d[k + "max"] = nums(getattr(P, a + "_max"))
        d["popt"], d["thopt"] = lb.labels(P.p_opt), lb.labels(P.theta_opt)
        d.update(h=lin(P.h), hi=lin(P.h_initial), hf=lin(P.h_final), geq=lin(P.g_eq), gineq=lin(P.g_ineq),
                 tgeq=list(P.time_g_eq), tgineq=list(P.time_g_ineq), L=one(P.L), V=one(P.V), S=one(P.S),
                 lastu=self.guess(P.last_u), yg=self.guess(P.y_guess), ug=self.guess(P.u_guess),
                 pos=bool(P.positive_objective), xcost="" if P.x_cost is None else lb.label(P.x_cost))
        d["wide"] = [k for k in ("L", "V") if SX(getattr(P, k)).numel() > 1]
        sizes = [P.n_h_initial, P.n_h_final, P.n_g_eq, P.n_g_ineq, P.n_p_opt, P.n_theta_opt]
        if sizes != [len(d[k]) for k in ("hi", "hf", "geq", "gineq", "popt", "thopt")]:
            d["sizes"] = sizes
        # with vectors of the wrong size only the refusal (checks) is specified
        d["hasdu"] = P.name not in self.spoiled and bool(P.has_delta_u)
        d["pidx"], d["thidx"] = list(P.get_p_opt_indices()), list(P.get_theta_opt_indices())
        if self.stochastic:
            def var(c):
                c = DM(c)
                out = [num(c[i, i]) for i in range(c.shape[0])]
                off = [c[i, j] for i in range(c.shape[0]) for j in range(c.shape[1]) if i != j and float(c[i, j]) != 0]
                return out + (["off-diagonal"] if off else [])
            d.update(gs=lin(SX(P.g_stochastic_ineq)), gsrhs=nums(P.g_stochastic_rhs), gsprob=nums(P.g_stochastic_prob),
                     punc=lb.labels(SX(P.p_unc)), pmean=nums(P.p_unc_mean), pvar=var(P.p_unc_cov), pdist=list(P.p_unc_dist),
                     iunc=lb.labels(SX(P.uncertain_initial_conditions)), imean=nums(P.uncertain_initial_conditions_mean),
                     ivar=var(P.uncertain_initial_conditions_cov),
                     uncidx=list(P.get_p_unc_indices()), certain=lb.labels(P.get_p_without_p_unc()),
                     iidx=list(P.get_uncertain_initial_cond_indices()))
            n = [P.n_p_unc, P.n_g_stochastic, P.n_uncertain_initial_condition]
            if n != [len(d["punc"]), len(d["gs"]), len(d["iunc"])]:
                d["sizes"] = n
        else:
            for k in ("gs", "gsrhs", "gsprob", "punc", "pmean", "pvar", "pdist", "iunc", "imean", "ivar", "uncidx", "iidx"):
                d[k] = []
            d["certain"] = lb.labels(m.p)
        d["model"] = self.project_model(m)
        try:
            P.pre_solve_check()
            d["checks"] = True
        except Exception:
            d["checks"] = False
        return d

    def project(self):
        return {"um": {k: self.project_model(m) for k, m in self.ms.items()},
                "ps": {k: self.project_problem(P) for k, P in self.ps.items()}}
