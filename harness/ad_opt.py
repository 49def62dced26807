"""Adapter for OptProblem.tla: drives yaocptool.optimization."""
import warnings

from common import MachineryError

warnings.filterwarnings("ignore")
from casadi import DM, MX, Function, inf, vertcat  # noqa: E402

INF = 1000


def num(v):
    return inf if v == INF else (-inf if v == -INF else v)


def back(v):
    v = float(v)
    if v == inf:
        return INF
    if v == -inf:
        return -INF
    r = round(v)
    return int(r) if abs(v - r) < 1e-9 else v


class Recorder:
    """Stands in for the solver: remembers the problem it was built from and its call."""

    def __init__(self, world, problem):
        self.world = world
        self.problem = world.read_problem(problem.get_problem_dict())

    def __call__(self, **kw):
        self.world.seen = dict(self.problem)
        for k, kk in (("lbx", "lbx"), ("ubx", "ubx"), ("lbg", "lbg"), ("ubg", "ubg"), ("x0", "x0"),
                      ("lamx", "lam_x0"), ("lamg", "lam_g0")):
            self.world.seen[k] = [back(v) for v in DM(kw.get(kk, DM())).full().reshape(-1)]
        self.world.seen["pv"] = [back(v) for v in DM(kw["p"]).full().reshape(-1)]
        return {"x": kw.get("x0")}

    def stats(self):
        return {"success": True}


class OptWorld:
    def __init__(self, real=None, base="nlp"):
        from yaocptool.optimization.abstract_optimization_problem import AbstractOptimizationProblem
        from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

        world = self
        self.real = real
        if real is None:
            parent = NonlinearOptimizationProblem if base == "nlp" else (
                QuadraticOptimizationProblem if base == "qp" else AbstractOptimizationProblem)

            class Rec(parent):
                def _create_solver(self):
                    return Recorder(world, self)
            self.pr = Rec(name="rec")
            self.other = parent(name="other")
            self.make = lambda: parent(name="late")
        elif real == "nlp":
            self.pr = NonlinearOptimizationProblem(name="nlp", solver_options={
                "ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes", "ipopt.linear_solver": "mumps"})
        else:
            self.pr = QuadraticOptimizationProblem(name="qp", solver_options={"printLevel": "none"})
        self.blocks = []  # (labels, MX)
        self.seen = None

    # symbols ------------------------------------------------------------
    def elem(self, label):
        for labels, s in self.blocks:
            if label in labels:
                return s[labels.index(label)]
        raise MachineryError("unknown symbol " + label)

    def expr(self, coefs):
        e = MX(0)
        for a, c in sorted((coefs or {}).items()):
            e = e + (c if a == "one" else c * self.elem(a))
        return e

    def exprs(self, es):
        return vertcat(*[self.expr(e) for e in es])

    def bound(self, b, n, none=None):
        k = b["k"]
        if k == "default":
            return none
        if k == "scalar":
            v = num(b["v"])
            self.flip = not getattr(self, "flip", False)
            return float(v) if self.flip else v
        if k == "vec":
            return DM([num(v) for v in b["v"]])
        if k == "own":
            return self.pr.x[0] * MX.ones(n)
        if k == "par":
            return self.pr.p[0] * MX.ones(n)
        raise MachineryError(k)

    # operations ---------------------------------------------------------
    def apply(self, op):
        self.val = []
        try:
            getattr(self, "do_" + op["op"])(op)
            return "ok"
        except MachineryError:
            raise
        except Exception as exc:
            self.last_exc = exc
            return "rejected"

    def do_var(self, op):
        names = op["names"]
        kw = {}
        lb, ub = self.bound(op["lb"], len(names)), self.bound(op["ub"], len(names))
        if lb is not None:
            kw["lb"] = lb
        if ub is not None:
            kw["ub"] = ub
        if op["form"] == "create":
            s = self.pr.create_variable(names[0], len(names), **kw)
        else:
            s = MX.sym(names[0], len(names))
            self.pr.include_variable(s, **kw)
        self.blocks.append((names, s))

    def do_par(self, op):
        names = op["names"]
        if op["form"] == "create":
            s = self.pr.create_parameter(names[0], len(names))
        else:
            s = MX.sym(names[0], len(names))
            self.pr.include_parameter(s)
        self.blocks.append((names, s))

    def do_ineq(self, op):
        n = len(op["exprs"])
        e = self.exprs(op["exprs"])
        self.pr.include_inequality(e.T if op["shape"] == "row" else e, lb=self.bound(op["lb"], n), ub=self.bound(op["ub"], n))

    def do_equ(self, op):
        n = len(op["exprs"])
        r = self.bound(op["rhs"], n)
        e = self.exprs(op["exprs"])
        if op["shape"] == "row":
            e = e.T
        if r is None:
            self.pr.include_equality(e)
        else:
            self.pr.include_equality(e, r)

    def do_cons(self, op):
        e = self.exprs(op["exprs"])
        c = self.bound(op["c"], len(op["exprs"]))
        side, rel = op["side"], op["rel"]
        if side == "both":
            a, b = e, e + 1
        elif side == "varpar":
            a, b = e, self.pr.p[0]
        elif side == "parvar":
            a, b = self.pr.p[0], e
        elif side == "neither":
            a, b = MX(1), MX(2)
        elif side == "foreign":
            a, b = e, MX.sym("foreign")
        elif side == "none":
            self.pr.include_constraint(e)
            return
        elif side == "left":
            a, b = e, c
        else:
            a, b = MX(c), e
        con = {"le": lambda: a <= b, "ge": lambda: a >= b, "lt": lambda: a < b, "gt": lambda: a > b,
               "eq": lambda: a == b}[rel]()
        self.pr.include_constraint(con)

    def do_obj(self, op):
        if op["k"] == "vector":
            self.pr.set_objective(self.pr.x ** 2)
        elif op["k"] == "list2":
            self.pr.set_objective([self.pr.x[0] ** 2, self.pr.x[1] ** 2])
        else:
            e = sum((self.elem(v) - c) ** 2 for v, c in sorted(op["c"].items()))
            self.pr.set_objective([e] if op["k"] == "list1" else e)

    def do_opt(self, op):
        self.pr.solver_options["verif_" + op["name"]] = 1

    def do_solve(self, op):
        n = self.pr.x.numel()
        x0 = DM([i + 1 for i in range(n)])
        if self.real is None:
            self.seen = None
            kw = {} if op["np"] == 0 else {"p": DM([11 + i for i in range(op["np"])])}
            n, m = self.pr.x.numel(), self.pr.g.numel()
            if op["lamx"]:
                kw["lam_x"] = DM([21 + i for i in range(n)])
            if op["lamg"]:
                kw["lam_g"] = DM([41 + i for i in range(m)])
            own = None
            if op["cd"] == "own":
                own = {"lbx": -7 * DM.ones(n), "ubx": 8 * DM.ones(n), "lbg": -9 * DM.ones(m), "ubg": 9 * DM.ones(m),
                       "x0": 5 * DM.ones(n)}
                kw["call_dict"] = own
                before = {k: str(v) for k, v in own.items()}
            self.pr.solve(x0 if op["x0"] else None, **kw)
            self.val = self.seen
            self.val["kept"] = own is None or {k: str(v) for k, v in own.items()} == before
        else:
            self.sol = self.pr.solve(x0)
            self.val = None

    # projection ---------------------------------------------------------
    def _eval(self, expr, point):
        f = Function("f", [s for _, s in self.blocks], [expr])
        vals = [DM([point.get(l, 0.0) for l in labels]) for labels, _ in self.blocks]
        r = f(*vals) if vals else f()["o0"]
        return DM(r).full().reshape(-1, order="F")

    def all_labels(self):
        return [l for labels, _ in self.blocks for l in labels]

    def linear(self, expr):
        n = expr.numel()
        if n == 0:
            return []
        base = self._eval(expr, {})
        out = [dict() for _ in range(n)]
        for i in range(n):
            if back(base[i]) != 0:
                out[i]["one"] = back(base[i])
        pred = base.copy()
        pt = {l: 0.5 + 0.25 * k for k, l in enumerate(self.all_labels())}
        for l in self.all_labels():
            d = self._eval(expr, {l: 1.0}) - base
            pred = pred + d * pt[l]
            for i in range(n):
                if back(d[i]) != 0:
                    out[i][l] = back(d[i])
        real = self._eval(expr, pt)
        for i in range(n):
            if abs(real[i] - pred[i]) > 1e-8 * (1 + abs(real[i])):
                out[i] = {"nonlinear": str(expr[i])}
        return out

    def vec_labels(self, vec):
        out = []
        for c in self.linear(vec):
            out.append(next(iter(c)) if len(c) == 1 and list(c.values()) == [1] else str(c))
        return out

    def objective(self, f):
        if f.numel() == 0:
            return {"has": False, "c": {}}
        if f.numel() != 1:
            return {"has": True, "c": "not scalar"}
        base = self._eval(f, {})[0]
        c, total = {}, 0.0
        for l in self.all_labels():
            up, dn = self._eval(f, {l: 1.0})[0] - base, self._eval(f, {l: -1.0})[0] - base
            curv = (up + dn) / 2
            if abs(curv) > 1e-12 or abs(up) > 1e-12:
                c[l] = back(-(up - dn) / 4)
                total += ((up - dn) / 4) ** 2
                if abs(curv - 1) > 1e-9:
                    c[l] = f"curvature {curv}"
        if abs(total - base) > 1e-9 * (1 + abs(base)):
            c["constant"] = back(base - total)
        return {"has": True, "c": c}

    def read_problem(self, d):
        return {"x": self.vec_labels(d["x"]), "p": self.vec_labels(d["p"]), "g": self.linear(d["g"]),
                "f": self.objective(d["f"])}

    def project(self):
        d = self.read_problem(self.pr.get_problem_dict())
        cd = self.pr.get_default_call_dict()
        for k, kk in (("lb", "lbx"), ("ub", "ubx"), ("glb", "lbg"), ("gub", "ubg")):
            d[k] = [back(v) for v in DM(cd[kk]).full().reshape(-1)]
        mine = lambda pr: sorted(k[6:] for k in pr.solver_options if k.startswith("verif_"))
        d["opts"] = mine(self.pr)
        d["others"] = sorted(set(mine(self.other)) | set(mine(self.make()))) if self.real is None else []
        return d
