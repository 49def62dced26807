"""C05: simulation against Simulation.tla, DaeSystem.tla and Steady.tla."""
import json

from common import Check, diff, norm, pmap, run_tlc

TOL = 2e-4


def close(a, b):
    return abs(a - b) <= TOL * (1 + abs(a))


def build(fam):
    from casadi import SX, vertcat
    from yaocptool.modelling import SystemModel

    m = SystemModel(name="sim")
    x = m.create_state("x", 2)
    u = m.create_control("u", 2)
    p1 = p2 = th1 = th2 = 0
    if fam != "plain":
        p = m.create_parameter("p", 2)
        th = m.create_theta("th", 2)
        p1, p2, th1, th2 = p[0], p[1], th[0], th[1]
    ydef = x[0] + 2 * p2 + 3 * th2 + 4
    ode1 = 2 * u[0] + 3 * p1 + 5 * th1 + 2 * m.t + 1
    if fam in ("dae", "par", "feed"):
        y = m.create_algebraic_variable("y")
        m.include_equations(ode=vertcat(ode1, y + 7 * u[1]), x=x, alg=y - ydef)
    else:
        m.include_equations(ode=vertcat(ode1, ydef + 7 * u[1]), x=x)
    if fam in ("par", "feed"):
        w = SX.sym("w", 2)
        back = x[0] + 2 * y if fam == "feed" else 0
        m.parametrize_control(u, vertcat(w[0] + 2 * w[1] + m.t + 2 * th1, w[1] + 3 * p1 - th2 + back), w)
    return m


def cols(mat):
    from casadi import DM
    mat = DM(mat)
    return [[float(v) for v in mat[:, j].full().reshape(-1)] for j in range(mat.shape[1])]


def cmp_cols(name, exp, got, scale=6.0):
    exp = [[v / scale for v in c] for c in exp]
    if all(not c for c in exp) and all(not c for c in got):
        return None
    if len(exp) != len(got) or any(len(a) != len(b) for a, b in zip(exp, got)):
        return f"{name}: specification says {exp}, code says {got}"
    for i, (a, b) in enumerate(zip(exp, got)):
        if not all(close(s, g) for s, g in zip(a, b)):
            return f"{name} at point {i}: specification says {a}, code says {b}"
    return None


def replay_sim(ctx, line):
    from casadi import DM

    rec = json.loads(line)
    r = rec["r"]
    m = build(r["fam"])
    us = r["us"]
    if r["uform"] == "dict":
        u = {k: DM(v) for k, v in enumerate(us)}
    elif r["uform"] == "list":
        u = list(us[0])
    else:
        u = DM(us[0])
    x0 = [v / 6.0 for v in r["x0"]]
    x0 = DM(x0) if r["uform"] != "list" else x0
    kw = {}
    if r["p"]:
        kw["p"] = DM(r["p"]) if r["uform"] != "list" else list(r["p"])
        kw["theta"] = {k: DM(v) for k, v in enumerate(r["ths"])}
    if r["integ"] != "default":
        kw["integrator_type"] = r["integ"]
    if r["fam"] in ("dae", "par", "feed"):
        kw["y_0"] = DM([1.5]) if r["uform"] != "list" else [1.5]
    t_f = r["grid"][0] if r["scalar"] else list(r["grid"])
    snap = repr((x0, t_f, u, kw))
    desc = {"request": r}
    try:
        res = m.simulate(x0, t_f, r["t0"], u, **kw)
        out = "ok"
    except Exception as exc:
        out, err = "rejected", exc
    if out != rec["out"]:
        return {"clause": "outcome of simulate", "history": desc,
                "detail": f"specification says {rec['out']}, code {out}" + (f" ({err})" if out == "rejected" else "")}
    if out == "rejected":
        return None
    if snap != repr((x0, t_f, u, kw)):
        return {"clause": "simulate changed its arguments", "detail": snap, "history": desc}
    e = rec["res"]
    tx, X = res.get_entry("x")
    ty, Y = res.get_entry("y")
    tu, U = res.get_entry("u")
    for d in (cmp_cols("time of x", [[t] for t in e["tx"]], cols(tx), 1), cmp_cols("x", e["x"], cols(X)),
              cmp_cols("time of y", [[t] for t in e["ty"]], cols(ty), 1), cmp_cols("y", e["y"], cols(Y)),
              cmp_cols("time of u", [[t] for t in e["ty"]], cols(tu), 1), cmp_cols("u", e["u"], cols(U)),
              cmp_cols("x property", e["x"], [c for v in res.x for c in cols(v)]),
              cmp_cols("u property", e["u"], [c for v in res.u for c in cols(v)]),
              cmp_cols("t property", [[t] for t in e["tx"]], cols(res.t), 1)):
        if d:
            return {"clause": "simulated trajectory", "detail": d, "history": desc}
    f = res.final_condition()
    for k in "xyu":
        d = cmp_cols("final " + k, [e["final"][k]], cols(f[k]))
        if d:
            return {"clause": "final condition", "detail": d, "history": desc}
    meta = {"t0": res.t_0, "tf": res.t_f, "elements": res.finite_elements}
    d = diff({k: e[k] for k in meta}, meta)
    if d:
        return {"clause": "result attributes", "detail": d, "history": desc}
    if (res.x_names, res.u_names, res.n_x, res.n_u) != (["x_0", "x_1"], ["u_0", "u_1"], 2, 2):
        return {"clause": "result names", "detail": str((res.x_names, res.u_names)), "history": desc}
    return None


class DaeWorld:
    def __init__(self, w):
        from casadi import SX, vertcat
        from yaocptool.modelling import DAESystem

        self.sym = {}
        self.w = {}
        for m, s in sorted(w.items()):
            vec = {k: vertcat(*[self.get(next(iter(e))) for e in s[k]]) if s[k] else None for k in ("x", "y", "p")}
            kw = {}
            if vec["y"] is not None:
                kw.update(y=vec["y"], alg=self.ex(s["alg"]))
            if vec["p"] is not None:
                kw["p"] = vec["p"]
            if s["tau"]:
                kw["tau"] = self.get(s["tau"])
            self.w[m] = DAESystem(x=vec["x"], ode=self.ex(s["ode"]), t=self.get(s["t"]), **kw)

    def get(self, a):
        from casadi import SX
        if a not in self.sym:
            self.sym[a] = SX.sym(a)
        return self.sym[a]

    def ex(self, es):
        from casadi import SX, vertcat
        return vertcat(*[sum((c * (1 if a == "one" else self.get(a)) for a, c in (e or {}).items()), SX(0)) for e in es])

    def apply(self, op):
        s = self.w[op["m"]]
        try:
            if op["op"] == "join":
                s.join(self.w[op["from"]])
            elif op["op"] == "subst":
                from casadi import vertcat
                s.substitute_variable(vertcat(*[self.get(v) for v in op["vars"]]), self.ex(op["exprs"]))
            else:
                s.convert_from_tau_to_time(op["tk"], op["tk"] + op["h"])
            return "ok"
        except Exception as exc:
            self.exc = exc
            return "rejected"

    def lin(self, vec):
        from casadi import DM, Function, vertcat
        n = vec.numel()
        if n == 0:
            return []
        names = sorted(self.sym)
        f = Function("f", [vertcat(*[self.sym[a] for a in names])], [vec])

        def at(pt):
            return f(DM([pt.get(a, 0.0) for a in names])).full().reshape(-1)
        base = at({})
        out = [{} for _ in range(n)]
        pt = {a: 0.3 + 0.2 * i for i, a in enumerate(names)}
        pred = base.copy()
        for a in ["one"] + names:
            c = base if a == "one" else at({a: 1.0}) - base
            if a != "one":
                pred = pred + c * pt[a]
            for i in range(n):
                if abs(c[i]) > 1e-9:
                    out[i][a] = int(round(c[i])) if abs(c[i] - round(c[i])) < 1e-9 else float(c[i])
        real = at(pt)
        for i in range(n):
            if abs(real[i] - pred[i]) > 1e-7:
                out[i] = {"nonlinear": str(vec[i])}
        return out

    def project(self, asked):
        from casadi import DM
        out = {}
        for m, s in self.w.items():
            o = {k: self.lin(getattr(s, k)) for k in ("x", "y", "p", "ode", "alg")}
            o["type"] = s.type
            if (s.is_ode, s.is_dae) != (s.type == "ode", s.type == "dae"):
                o["type"] = "inconsistent"
            o["has"] = {a: bool(s.has_variable(self.get(a))) for a in asked}
            o["dep"] = {a: bool(s.depends_on(self.get(a))) for a in asked}
            try:
                s.simulate(x_0=DM.zeros(s.x.numel()), t_f=0.1, p=DM.ones(s.p.numel()),
                           y_0=DM.ones(s.y.numel()) if s.y.numel() else None)
                o["simulable"] = True
            except AttributeError:
                o["simulable"] = False
            except Exception:
                o["simulable"] = "any"
            out[m] = o
        return out


def replay_dae(ctx, line):
    rec = json.loads(line)
    h = rec["h"]
    w = DaeWorld(h[0]["w"])
    ops = [s["op"] for s in h[1:]]
    for s in h[1:]:
        out = w.apply(s["op"])
        if out != s["out"]:
            return {"clause": f"outcome of {s['op']['op']}", "history": ops,
                    "detail": f"specification says {s['out']}, code {out} {getattr(w, 'exc', '')}"}
    asked = sorted(rec["post"]["a"]["has"])
    got = w.project(asked)
    for m in got:
        if got[m]["simulable"] == "any":
            got[m]["simulable"] = rec["post"][m]["simulable"]
    d = diff(norm(rec["post"]), norm(got))
    return {"clause": "system equations", "detail": d, "history": [h[0]] + ops} if d else None


def replay_steady(ctx, line):
    from casadi import DM, SX, Function, vertcat
    from yaocptool import config
    from yaocptool.modelling import SystemModel

    r = json.loads(line)
    m = SystemModel(name="s")
    if r["k"] == "linearize":
        x, u = m.create_state("x", 2), m.create_control("u", 2)
        m.include_equations(ode=vertcat(x[0] * x[1] + 2 * x[0] * u[0] + 3 * u[1],
                                        x[1] ** 2 - 4 * u[0] * u[1] + x[0]), x=x)
        try:
            lm = m.linearize(DM(r["xb"]), DM(r["ub"]))
            val = Function("f", [lm.x, lm.u], [lm.ode])(DM(r["dx"]), DM(r["du"])).full().reshape(-1)
        except Exception as exc:
            return {"clause": "linearize", "detail": f"failed: {exc}", "history": r}
        if (lm.n_x, lm.n_u, lm.n_y) != (2, 2, 0):
            return {"clause": "linearize", "detail": "wrong dimensions", "history": r}
        d = cmp_cols("linear dynamics", [r["ode"]], [list(val)], 1)
    elif r["k"] == "branch":
        kw = {"y_0": [2.0 * r["y0"]] if r["u"] % 2 else DM([2.0 * r["y0"]])} if r["y0"] else {}
        args = {"t_f": [float(t) for t in r["grid"]], "t_0": 0.0, "u": DM([r["u"]])}
        try:
            if r["via"] == "model":
                x, y, u = m.create_state("x"), m.create_algebraic_variable("y"), m.create_control("u")
                m.include_equations(ode=y + u, x=x, alg=y ** 2 - 9)
                res = m.simulate(x_0=DM([r["x"]]), **args, **kw)
            else:
                from yaocptool.modelling import OptimalControlProblem
                x, u, y = m.create_state("x"), m.create_control("u"), SX.sym("y")
                m.include_equations(ode=y + u, x=x)
                pb = OptimalControlProblem(m, x_0=DM([r["x"]]), t_f=3.0)
                pb.include_algebraic(y, alg=y ** 2 - 9, y_guess=[2.0 * r["guess"]] if r["guess"] else None)
                res = pb.simulate(**args, **kw)
        except Exception as exc:
            return {"clause": "branch", "detail": f"failed: {exc}", "history": r}
        xs, ys = cols(res.get_entry("x")[1]), cols(res.get_entry("y")[1])
        d = cmp_cols("states", [[v] for v in r["res"]], [c[:1] for c in xs], 1) or \
            cmp_cols("algebraic variables", [[r["y"]]] * len(ys), ys, 1)
    elif r["k"] == "algebraic":
        x, y, u = m.create_state("x", 2), m.create_algebraic_variable("y", 2), m.create_control("u")
        p = m.create_parameter("p") if r["full"] else 0
        th = m.create_theta("th") if r["full"] else 0
        m.include_equations(ode=x, x=x, alg=vertcat(y[0] - x[0] - 2 * u - 3 * m.t - p, y[1] - y[0] + x[1] - 5 * th))
        config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
        config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.sb"] = "yes"
        kw = {"p": DM(r["p"]), "theta_value": r["th"], "guess": [2.0, 0.0]} if r["full"] else {}
        if r["t"]:
            kw["t"] = float(r["t"])
        try:
            got = m.find_algebraic_variable(DM(r["x"]), DM(r["u"]), **kw)
        except Exception as exc:
            return {"clause": "find_algebraic_variable", "detail": f"failed: {exc}", "history": r}
        d = cmp_cols("algebraic variables", [r["y"]], cols(got), 1)
    else:
        x, y, u = m.create_state("x", 2), m.create_algebraic_variable("y"), m.create_control("u")
        a, b, c, d_, t0 = r["x"][0], r["x"][1], r["y"][0], r["u"][0], r["t0"]
        m.include_equations(ode=vertcat((x[0] - a) + 2 * (x[1] - b) + 3 * (m.t - t0),
                                        (x[1] - b) + (y - c) + (u - d_) + 5 * m.tau), x=x,
                            alg=2 * (y - c) + (x[0] - a))
        config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
        config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.sb"] = "yes"
        try:
            kw = {"guess": [0.5, 2, -1, 3]} if r["guess"] else {}
            got = m.find_equilibrium([u - d_] if r["guess"] else u - d_, t_0=t0, **kw)
        except Exception as exc:
            return {"clause": "find_equilibrium", "detail": f"failed: {exc}", "history": r}
        d = cmp_cols("equilibrium", [r["x"], r["y"], r["u"]], [c2 for g in got for c2 in cols(g)], 1)
    return {"clause": r["k"], "detail": d, "history": r} if d else None


def drive(chk, part, fn, lines, cap=None):
    if cap and len(lines) > cap:
        lines = chk.rng.sample(lines, cap)
    n = 0
    for idx, kind, val in pmap(fn, lines):
        n += 1
        if kind == "crash":
            chk.violate("crash", val, lines[idx])
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    chk.add_traces(part, n)
    if lines:
        chk.sample({"part": part, "case": json.loads(lines[len(lines) // 3])})


def main(prop, tier):
    chk = Check(prop, tier)
    grids = {(1,), (2, 3), (1, 2, 4), (0, 1), (1, 1)} if chk.quick else \
        {(1,), (3,), (2, 3), (1, 2, 4), (1, 3, 4, 6), (0, 1), (1, 1), (0,)}
    res = run_tlc("MC_Simulation", {"Grids": grids, "Starts": {0, 2} if chk.quick else {0, 1, 3}},
                  "SPECIFICATION Spec\nACTION_CONSTRAINT Emit\nCONSTRAINT EmitR\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc("simulate", res)
    drive(chk, "simulate", replay_sim, sorted(set(res.emitted)), 1900 if chk.quick else None)
    res = run_tlc("MC_DaeSystem", {"D": 2 if chk.quick else 3},
                  "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc("dae-system", res)
    drive(chk, "dae-system", replay_dae, res.emitted, 2500 if chk.quick else 40000)
    pts = {(0, 0), (1, -2), (3, 2)} if chk.quick else {(0, 0), (1, -2), (3, 2), (-1, -1), (2, 0)}
    res = run_tlc("Steady", {"Pts": pts}, "SPECIFICATION Spec\nCONSTRAINT Emit\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc("steady", res)
    drive(chk, "steady", replay_steady, res.emitted)
    return chk.finish()
