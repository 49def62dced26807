"""Adapter: drives the real SystemModel with the operations of Modelling.tla
and projects it to the specification's state."""
import warnings

from common import MachineryError

warnings.filterwarnings("ignore")
from casadi import DM, SX, Function, densify, jacobian, symvar, vertcat  # noqa: E402


def sx_key(s):
    return s.element_hash()


class Labels:
    """Two-way table between specification labels and CasADi symbols."""

    def __init__(self, alias=False):
        self.alias = alias  # every symbol gets the same name: identity must not depend on names
        self.by_label = {}
        self.by_hash = {}
        self.keep = []

    def put(self, label, sym):
        self.by_label[label] = sym
        self.by_hash[sx_key(sym)] = label
        self.keep.append(sym)

    def sym(self, label):
        if label not in self.by_label:
            self.put(label, SX.sym(self.name(label)))
        return self.by_label[label]

    def name(self, label):
        return "v" if self.alias else label

    def label(self, sym):
        if not sym.is_symbolic():
            return "expr:" + str(sym)
        return self.by_hash.get(sx_key(sym), "?" + sym.name())

    def vec(self, labels):
        if not labels:
            return SX(0, 1)
        return vertcat(*[self.sym(l) for l in labels])

    def expr(self, coefs, sparse_zero=True):
        """Build a CasADi expression for a linear form."""
        coefs = coefs or {}
        if not coefs:
            return SX(1, 1) if sparse_zero else SX(0)
        e = 0
        for a in sorted(coefs):
            c = coefs[a]
            e = e + (c if a == "one" else c * self.sym(a))
        return SX(e)

    def exprs(self, seq):
        if not seq:
            return SX(0, 1)
        return vertcat(*[self.expr(e) for e in seq])

    def labels(self, vector):
        return [self.label(vector[i]) for i in range(vector.numel())]

    def linear(self, vector):
        """Coefficients of every entry of an expression vector."""
        n = vector.numel()
        if n == 0:
            return []
        syms = symvar(vector)
        if not syms:
            f = Function("f", [], [vector])
            vals = DM(f()["o0"]).full().reshape(-1)
            return [coefs_from([], [], v) for v in vals]
        s = vertcat(*syms)
        labs = [self.label(v) for v in syms]
        f = Function("f", [s], [vector, jacobian(vector, s)])
        z = DM.zeros(s.numel())
        pt = DM([0.37 + 0.11 * i for i in range(s.numel())])
        v0, j0 = f(z)
        v1, j1 = f(pt)
        v0 = v0.full().reshape(-1, order="F")
        j0 = j0.full()
        v1 = v1.full().reshape(-1, order="F")
        pred = v0 + j0.dot(pt.full().reshape(-1))
        out = []
        for i in range(n):
            if abs(pred[i] - v1[i]) > 1e-8 * (1 + abs(v1[i])):
                out.append({"nonlinear": str(vector[i])})
            else:
                out.append(coefs_from(labs, j0[i], v0[i]))
        return out


def coefs_from(labs, row, const):
    d = {}
    for l, c in zip(labs, row):
        c = near_int(c)
        if c != 0:
            d[l] = d.get(l, 0) + c
    c = near_int(const)
    if c != 0:
        d["one"] = c
    return d


def near_int(v):
    v = float(v)
    r = round(v) if abs(v) < 1e15 and v == v else v
    if abs(v - r) < 1e-9 * (1 + abs(v)):
        return int(r)
    return round(v, 9)


CREATE = {"x": "create_state", "y": "create_algebraic_variable", "u": "create_control",
          "p": "create_parameter", "th": "create_theta"}
INCLUDE = {"x": "include_state", "y": "include_algebraic", "u": "include_control",
           "p": "include_parameter", "th": "include_theta"}
REMOVE = {"x": "remove_state", "y": "remove_algebraic", "u": "remove_control",
          "p": "remove_parameter", "th": "remove_theta"}
ATTR = {"x": "x", "y": "y", "u": "u", "p": "p", "th": "theta"}


class ModelWorld:
    def __init__(self, slots, prefixes=(), alias=False):
        from yaocptool.modelling import SystemModel

        self.SystemModel = SystemModel
        self.lb = Labels(alias)
        self.ms = {}
        for m in slots:
            self.ms[m] = SystemModel(name=m, model_name_as_prefix=m in prefixes)
            self.lb.put("t:" + m, self.ms[m].t)
            self.lb.put("tau:" + m, self.ms[m].tau)

    # -- operations -------------------------------------------------------
    def apply(self, op):
        try:
            getattr(self, "do_" + op["op"])(op)
            return "ok"
        except MachineryError:
            raise
        except Exception as exc:
            self.last_exc = exc
            return "rejected"

    def do_create(self, op):
        m = self.ms[op["m"]]
        n = op["n"]
        labels = [op["name"]] if n == 1 else [f"{op['name']}_{i}" for i in range(n)]
        if self.lb.alias and n > 1:
            # the elements of a created vector have distinct names: include same-named symbols instead
            for l in labels:
                self.lb.put(l, SX.sym("v"))
            self.do_include({"m": op["m"], "kind": op["kind"], "vars": labels, "eq": None})
            return
        size = (2, 2) if n == 4 else n
        new = getattr(m, CREATE[op["kind"]])(self.lb.name(op["name"]), size)
        flat = new.reshape((n, 1))
        for l, i in zip(labels, range(n)):
            self.lb.put(l, flat[i])
        if op["kind"] == "x":
            x0 = m.x_0
            k = x0.numel()
            for i, l in enumerate(labels):
                if k - n + i >= 0:
                    self.lb.put(l + "@0", x0[k - n + i])

    def do_include(self, op):
        m = self.ms[op["m"]]
        v = self.lb.vec(op["vars"])
        kind = op["kind"]
        if kind == "x":
            if op["eq"]:
                x0 = m.include_state(v, ode=self.lb.exprs(op["eq"]))
            else:
                # the caller provides the initial-condition symbols
                x0 = vertcat(*[SX.sym(self.lb.name(l) + "_init") for l in op["vars"]])
                m.include_state(v, x_0=x0)
            for i, l in enumerate(op["vars"]):
                self.lb.put(l + "@0", x0[i])
        elif kind == "y" and op["eq"]:
            m.include_algebraic(v, alg=self.lb.exprs(op["eq"]))
        else:
            getattr(m, INCLUDE[kind])(v)

    def equations_of(self, m, eqi):
        if 0 in eqi:
            return self.lb.sym("no-such-equation") - 1
        return m.alg[[i - 1 for i in eqi]]

    def do_remove(self, op):
        m = self.ms[op["m"]]
        v = self.lb.vec(op["vars"])
        if op["eqi"]:
            m.remove_algebraic(v, self.equations_of(m, op["eqi"]))
        else:
            getattr(m, REMOVE[op["kind"]])(v)

    def do_equations(self, op):
        from yaocptool.modelling import der

        m = self.ms[op["m"]]
        form = op["form"]
        ode = [self.lb.expr(e) for e in (op["ode"] or [])]
        alg = [self.lb.expr(e) for e in (op["alg"] or [])]
        xs = op["xs"] or []
        kw = {}
        args = []
        if form == "kw":
            if ode:
                kw["ode"] = vertcat(*ode)
                kw["x"] = self.lb.vec(xs)
            if alg:
                kw["alg"] = vertcat(*alg)
        elif form == "kwlist":
            if ode:
                kw["ode"] = ode
                kw["x"] = [self.lb.sym(l) for l in xs]
            if alg:
                kw["alg"] = alg
        elif form == "guess":
            kw["ode"] = ode
        elif form == "der":
            args = [der(self.lb.sym(l)) == SX(e) for l, e in zip(xs, ode)]
        elif form == "eq":
            args = [e == self.lb.sym("rhs0") for e in alg]
            # a == b with b on the right: subtract b's coefficient again
            args = [(e + self.lb.sym("rhs0")) == self.lb.sym("rhs0") for e in alg]
        elif form == "mixed":
            args = [der(self.lb.sym(l)) == SX(e) for l, e in zip(xs, ode)]
            args += [(2 * e) == SX(e) for e in alg]
        elif form in ("kweq", "derkw", "mixkw"):
            # the keyword form and the equality form in one call
            if form == "kweq" and ode:
                kw["ode"] = vertcat(*ode)
                kw["x"] = self.lb.vec(xs)
            elif ode:
                args = [der(self.lb.sym(l)) == SX(e) for l, e in zip(xs, ode)]
            n_kw = len(alg) if form == "derkw" else 1
            kw["alg"] = vertcat(*alg[:n_kw])
            args += [(2 * e) == SX(e) for e in alg[n_kw:]]
        else:
            raise MachineryError("form " + form)
        m.include_equations(*args, **kw)

    def do_replace(self, op):
        self.ms[op["m"]].replace_variable(self.lb.vec(op["vars"]), densify(self.lb.exprs(op["exprs"])))

    def do_parametrize(self, op):
        up = self.lb.vec(op["upar"]) if op["upar"] else None
        self.ms[op["m"]].parametrize_control(self.lb.vec(op["us"]), self.lb.exprs(op["exprs"]), up)

    def do_connect(self, op):
        self.ms[op["m"]].connect(self.lb.vec(op["us"]), self.lb.exprs(op["ys"]), replace=op["replace"]) \
            if op["replace"] else self.ms[op["m"]].connect(self.lb.vec(op["us"]), self.lb.exprs(op["ys"]))

    def do_merge(self, op):
        m = self.ms[op["m"]]
        src = [self.ms[f] for f in op["from"]]
        if op["form"] == "include":
            m.include_models(src[0])
        elif op["form"] == "list":
            m.include_models(src)
        else:
            if op["alg"]:
                m.merge(src if len(src) > 1 else src[0], connecting_equations=self.lb.exprs(op["alg"]))
            else:
                m.merge(src)

    def do_copy(self, op):
        self.ms[op["to"]] = self.ms[op["m"]].get_copy()

    def do_deepcopy(self, op):
        src = self.ms[op["m"]]
        new = src.get_deepcopy()
        self.ms[op["to"]] = new
        suffix = "~" + op["to"]
        known = set(self.lb.by_hash)
        pairs = []
        for a in ("x", "x_0", "y", "u", "p", "theta", "u_par"):
            s, n = getattr(src, a), getattr(new, a)
            for i in range(min(s.numel(), n.numel())):
                pairs.append((s[i], n[i]))
        pairs += [(src.t, new.t), (src.tau, new.tau)]
        for s, n in pairs:
            # a deep copy shares no symbol with anything that existed before
            if sx_key(n) not in known and sx_key(n) not in self.lb.by_hash:
                self.lb.put(self.lb.label(s) + suffix, n)

    # -- projection -------------------------------------------------------
    light = False  # leave out the questions whose answers follow from the vectors

    def project_model(self, m):
        lb = self.lb
        dae = m.get_dae_system()
        d = {
            "x": lb.labels(m.x), "x0": lb.labels(m.x_0), "ode": lb.linear(m.ode),
            "y": lb.labels(m.y), "alg": lb.linear(m.alg), "u": lb.labels(m.u),
            "uexpr": lb.linear(m.u_expr), "upar": lb.labels(m.u_par), "p": lb.labels(m.p),
            "th": lb.labels(m.theta), "t": lb.label(m.t), "tau": lb.label(m.tau),
            "par": [bool(m.control_is_parametrized(m.u[i])) for i in range(m.u.numel())],
            "anypar": bool(m.is_parametrized()),
            "names": m.x_names + m.y_names + m.u_names + m.p_names + m.theta_names,
            "type": m.system_type, "daep": lb.labels(dae.p),
        }
        sizes = [m.n_x, m.n_y, m.n_u, m.n_p, m.n_theta, m.n_u_par]
        if sizes != [len(d[k]) for k in ("x", "y", "u", "p", "th", "upar")]:
            d["sizes"] = sizes
        if lb.labels(dae.x) != d["x"] or lb.linear(dae.ode) != d["ode"]:
            d["dae"] = ["dae system differs from model", lb.labels(dae.x), lb.linear(dae.ode)]
        if d["y"] and (lb.labels(dae.y) != d["y"] or lb.linear(dae.alg) != d["alg"]):
            d["dae"] = ["dae system differs from model", lb.labels(dae.y), lb.linear(dae.alg)]
        if lb.label(dae.t) != d["t"] or lb.label(dae.tau) != d["tau"]:
            d["dae"] = ["dae system time differs", lb.label(dae.t)]
        if self.light:
            return d
        mine = set(d["x"]) | set(d["y"]) | set(d["u"]) | set(d["p"]) | set(d["th"]) | set(d["upar"])
        wrong = [l for l, s in lb.by_label.items() if bool(m.has_variable(s)) != (l in mine)]
        if wrong:
            d["has_variable"] = sorted(wrong)
        syms = m.all_sym
        want = [d["t"]] + d["x"] + d["y"] + d["p"] + d["th"] + d["upar"]
        got = [l for v in syms for l in lb.labels(v)]
        if want != got:
            d["all_sym"] = got
        return d

    def project(self):
        return {k: self.project_model(m) for k, m in self.ms.items()}
