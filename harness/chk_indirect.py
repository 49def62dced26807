"""C19: the indirect method against Adjoint.tla (necessary conditions) and Extremal.tla (exact extremals)."""
import json
import random
import warnings

from common import Check, pmap, run_tlc

CFG = "INIT Init\nNEXT Next\nCONSTANTS Pick <- {pick}\nINVARIANT Inv\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
INF = 1000000
SC = 120
TOL = 1e-6


def setup():
    from ad_trans import setup as base

    base()


def sym_poly(terms, s):
    from casadi import SX

    out = SX(0)
    for t in terms:
        mono = SX(t["c"])
        for v, e in (t["m"] or {}).items():
            for _ in range(e):
                mono = mono * s[v]
        out = out + mono
    return out


def val_poly(terms, at):
    out = 0.0
    for t in terms:
        mono = float(t["c"])
        for v, e in (t["m"] or {}).items():
            mono *= at[v] ** e
        out += mono
    return out


def build(rec):
    from casadi import DM, inf, vertcat
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    m = SystemModel(name="sys")
    s = {}
    for v in rec["x"]:
        s[v] = m.create_state(v)
    for v in rec["y"]:
        s[v] = m.create_algebraic_variable(v)
    for v in rec["u"]:
        s[v] = m.create_control(v)
    s["p"] = m.create_parameter("p")
    s["h"] = m.create_theta("h")
    s["t"] = m.t
    kw = {"ode": vertcat(*[sym_poly(f, s) for f in rec["f"]])}
    if rec["y"]:
        kw["alg"] = vertcat(*[sym_poly(g, s) for g in rec["g"]])
    m.include_equations(**kw)
    num = lambda v: inf if v >= INF else -inf if v <= -INF else float(v)
    extra = {}
    if rec["xb"]:
        extra = {"x_max": DM([5.0] * len(rec["x"])), "x_min": DM([-5.0] * len(rec["x"]))}
        if rec["y"]:
            extra.update({"y_max": DM([6.0] * len(rec["y"])), "y_min": DM([-6.0] * len(rec["y"]))})
    L = sym_poly(rec["L"], s)
    if rec["singular"] and len(rec["L"]) % 2:  # nothing, written so that it shows only in the value of the second derivative
        L = L + (s["u1"] + 1) ** 2 - s["u1"] ** 2 - 2 * s["u1"] - 1
    o = OptimalControlProblem(m, x_0=[1.0] * len(rec["x"]), t_f=2.0, L=L, V=sym_poly(rec["V"], s),
                              u_min=DM([num(b[0]) for b in rec["ub"]]), u_max=DM([num(b[1]) for b in rec["ub"]]), **extra)
    if rec["hf"]:
        o.h_final = vertcat(o.h_final, *[sym_poly(h, s) for h in rec["hf"]])
    return o, s


def points(rec, seed, n=3):
    rng = random.Random(seed)
    names = rec["x"] + rec["y"] + rec["u"] + ["p", "h", "t"] + rec["lam"] + rec["nu"] + rec["eta"]
    return [{v: rng.choice([-1, 1]) * rng.uniform(0.3, 2.5) for v in names} for _ in range(n)]


def args_of(o, rec, at, s, x_extra=0):
    """the problem's own symbols and their values: adjoint variables by position"""
    from casadi import vertcat

    nx, ny = len(rec["x"]), len(rec["y"])
    m = o.model
    syms = [m.x, m.y, m.u, m.p, m.theta, m.t, o.eta]
    vals = [[at[v] for v in rec["x"] + rec["lam"]] + [0.7] * x_extra, [at[v] for v in rec["y"] + rec["nu"]], [at[v] for v in rec["u"]], [at["p"]], [at["h"]],
            [at["t"]], [at[v] for v in rec["eta"]]]
    for a, b, what in zip(syms, vals, ("x", "y", "u", "p", "theta", "t", "eta")):
        if a.numel() != len(b):
            return None, f"{what} has {a.numel()} entries, specification says {len(b)}"
    from casadi import DM
    return (vertcat(*syms), DM([v for b in vals for v in b])), None


def evaluate(expr, arg):
    from casadi import DM, SX, Function

    syms, vals = arg
    f = Function("f", [syms], [SX(expr)])
    return [float(v) for v in f(vals).full().flatten()]


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= TOL * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def observe(out, rec, o, s, want, clause, at, x_extra=0):
    arg, bad = args_of(o, rec, at, s, x_extra)
    what = json.dumps({k: rec[k] for k in ("x", "y", "u", "f", "g", "L", "V", "hf", "ub", "cost")})
    if bad:
        out.append({"clause": clause, "detail": f"{bad}: {what}"})
        return
    for name, expr, exp in want:
        try:
            got = evaluate(expr, arg)
        except RuntimeError as exc:
            out.append({"clause": f"{clause}: {name}", "detail": f"{str(exc)[-300:]}: {what}"})
            continue
        if not near(exp, got):
            out.append({"clause": f"{clause}: {name}", "detail": f"specification says {exp}, code says {got}: {what}"})


def replay_adjoint(ctx, line):
    from casadi import DM, inf
    from yaocptool.methods import IndirectMethod

    setup()
    rec = json.loads(line)
    out = []
    if not rec["singular"]:
        o, s = build(rec)
        o.create_adjoint_states()
        for at in points(rec, line):
            P = lambda ts: [val_poly(t, at) for t in ts]
            observe(out, rec, o, s, [("H", o.H, P([rec["H"]])), ("ode", o.model.ode, P(rec["f"] + rec["aode"])),
                                     ("alg", o.model.alg, P(rec["g"] + rec["aalg"])), ("h_final", o.h_final, P(rec["hf"] + rec["tv"])),
                                     ("L", o.L, P([rec["L"]])), ("V", o.V, P([rec["V"]]))], "create_adjoint_states", at)
        shape = [o.x_0.numel(), o.x_min.numel(), o.x_max.numel(), o.y_min.numel(), o.y_max.numel()]
        n = [2 * len(rec["x"])] * 3 + [2 * len(rec["y"])] * 2
        if shape != n:
            out.append({"clause": "create_adjoint_states: sizes", "detail": f"specification says {n}, code says {shape}"})
    o, s = build(rec)
    raised = None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            met = IndirectMethod(o, create_cost_state=rec["cost"], finite_elements=2, degree=2)
            met.create_optimization_problem()
        except Exception as exc:
            raised = exc
    if rec["singular"]:
        if raised is None:
            out.append({"clause": "Hamiltonian linear in u", "detail": f"accepted: {line[:600]}"})
        return out
    if raised is not None:
        return out + [{"clause": "indirect method", "detail": f"raised {type(raised).__name__}: {str(raised)[-300:]}: {line[:600]}"}]
    if rec["xb"]:
        if not any("state constraints" in str(w.message) for w in caught):
            out.append({"clause": "state bounds", "detail": "ignored without a warning"})
        if rec["y"] and not any("algebraic constraints" in str(w.message) for w in caught):
            out.append({"clause": "algebraic bounds", "detail": "ignored without a warning"})
    for b, v in (("x_min", -inf), ("x_max", inf), ("y_min", -inf), ("y_max", inf)):
        got = [float(x) for x in getattr(o, b).full().flatten()][: 2 * len(rec[b[0]])]
        if any(x != v for x in got):
            out.append({"clause": "state bounds", "detail": f"{b} is {got}"})
    ext = 1 if rec["cost"] else 0
    for at in points(rec, line + "u"):
        ustar = []
        for ts, b in zip(rec["num"], rec["ub"]):
            v = val_poly(ts, at) / rec["det"]
            ustar.append(min(max(v, b[0]), b[1]))
        # where u has been replaced, its own value does not matter any more
        full = dict(at, **dict(zip(rec["u"], ustar)))
        P = lambda ts: [val_poly(t, full) for t in ts]
        want = [("control", o.model.u_expr, ustar), ("ode", o.model.ode, P(rec["f"] + rec["aode"]) + P([rec["L"]]) * ext),
                ("alg", o.model.alg, P(rec["g"] + rec["aalg"])), ("L", o.L, P([rec["L"]])), ("h_final", o.h_final, P(rec["hf"] + rec["tv"]))]
        observe(out, rec, o, s, want, "indirect method", at, ext)
    if o.model.u_par.numel():
        out.append({"clause": "indirect method", "detail": f"free controls left: {o.model.u_par}"})
    return out


# ---------------------------------------------------------------------------------------------------------------
def build_extremal(rec):
    from casadi import DM, inf, vertcat
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    q = rec["q"]
    v = lambda k: q[k] / SC
    num = lambda z: inf if z >= INF else -inf if z <= -INF else z / SC
    m = SystemModel(name="sys")
    x1 = m.create_state("x1")
    x2 = m.create_state("x2") if q["order"] == 2 else None
    u = m.create_control("u")
    p = m.create_parameter("p")
    h = m.create_theta("h")
    y = m.create_algebraic_variable("y") if q["alg"] != "no" else 0
    last = q["b"] * u + q["e"] * h
    if q["order"] == 1:
        ode = last
    else:
        ode = vertcat(x2 + (y if q["alg"] == "chain" else 0), last)
    m.include_equations(ode=ode)
    if q["alg"] == "cost":
        m.include_equations(alg=y - (q["al"] * x1 + q["be"] * u + q["ga"] * p + q["de"] * h))
    elif q["alg"] == "chain":
        m.include_equations(alg=y - (q["al"] * x2 + q["ga"] * p))
    L = v("q1") * x1 + v("ka") * m.t * x1 + v("w") * y + u ** 2 / 2 + (q["s"] * p + q["k"] * h) * u
    V = v("v1") * x1 + q["m"] * p * x1
    if x2 is not None:
        L = L + v("q2") * x2
        V = V + v("v2") * x2
    n = q["order"]
    o = OptimalControlProblem(m, x_0=[z / SC for z in q["x0"][:n]], t_0=float(q["t0"]), t_f=float(q["t0"] + q["n"] * q["dt"]), L=L, V=V,
                              u_min=DM([num(q["umin"])]), u_max=DM([num(q["umax"])]))
    for i in sorted(q["fix"]):
        o.h_final = vertcat(o.h_final, (x1, x2)[i - 1] - rec["xf"][i - 1] / SC)
    return o


def pv(poly, s):
    return sum(c * s ** i for i, c in enumerate(poly)) / SC


def degree(rec):
    return max([i for e in rec["sol"] for p in e.values() for i, c in enumerate(p) if c] + [1])


def compare(out, rec, res, sch, what):
    q = rec["q"]
    data = [("x", ["x1", "x2"][:q["order"]] + ["l1", "l2"][:q["order"]]), ("u", ["u"])]
    if q["alg"] != "no":
        data.append(("y", ["y", "nu"]))
    for kind, names in data:
        d = getattr(res, kind + "_data")
        seen = 0
        for k, (ts, vs) in enumerate(zip(d["time"], d["values"])):
            for t, val in zip(ts, vs):
                e = min(k, q["n"] - 1)
                tau = float(t) - (q["t0"] + e * q["dt"])
                if tau < -1e-9 or tau > q["dt"] + 1e-9:
                    out.append({"clause": "times", "detail": f"{sch} {kind}: element {k} has a point at {float(t)}: {what}"})
                    return
                exp = [pv(rec["sol"][e][nm], tau) for nm in names]
                got = [float(z) for z in val.full().flatten()][:len(exp)]
                seen += 1
                if len(got) != len(exp) or any(abs(a - b) > 2e-4 * max(1, abs(a)) for a, b in zip(exp, got)):
                    out.append({"clause": f"extremal {kind}", "detail": f"{sch}: {names} at t={float(t)}: specification says {exp}, code says {got}: {what}"})
                    return
        if seen < q["n"]:
            out.append({"clause": f"extremal {kind}", "detail": f"{sch}: {seen} points for {q['n']} elements: {what}"})


def replay_extremal(ctx, line):
    from casadi import DM
    from yaocptool.methods import IndirectMethod

    setup()
    rec = json.loads(line)
    q = rec["q"]
    out = []
    what = json.dumps(q)
    for sch in ("collocation", "multiple-shooting"):
        o = build_extremal(rec)
        cost = q["m"] == 1
        met = IndirectMethod(o, create_cost_state=cost, finite_elements=q["n"], degree=max(2, degree(rec)), discretization_scheme=sch,
                             integrator_type="implicit")
        try:
            res = met.solve(p=DM([q["p"] / SC]), theta={k: DM([q["h"][k] / SC]) for k in range(q["n"])})
        except RuntimeError as exc:
            if any(w in str(exc) for w in ("IDA", "CVode", "CV_")):
                continue
            raise
        if sch == "multiple-shooting" and res.stats.get("return_status") == "Invalid_Number_Detected":
            continue  # the integrator gave up: no verdict
        if not res.success:
            out.append({"clause": "solve", "detail": f"{sch}: {res.stats.get('return_status')}: {what}"})
            continue
        compare(out, rec, res, sch, what)
    return out


def collect(chk, part, fn, lines, **extra):
    for idx, kind, val in pmap(fn, lines, case_timeout=120.0):
        if kind == "crash":
            chk.violate("crash", val + " " + lines[idx][:800], lines[idx])
        else:
            for v in val:
                chk.violate(v["clause"], v["detail"], v)
    chk.add_traces(part, len(lines), **extra)
    chk.sample(json.loads(lines[len(lines) // 2]))


def main(prop, tier=None):
    chk = Check(prop, tier)
    q = chk.quick
    sizes = {(a, b, c, d) for a in (1, 2) for b in (0, 1, 2) for c in (1, 2) for d in (0, 1, 2, 3)}
    res = run_tlc("MC_Adjoint", {"Sizes": sizes}, CFG.format(pick="Rnd"), simulate=1500 if q else 20000, depth=16, seed=chk.seed, timeout=1500)
    chk.add_tlc("adjoint", res)
    lines = sorted(set(res.emitted))
    collect(chk, "adjoint", replay_adjoint, lines, singular=sum(json.loads(l)["singular"] for l in lines))
    res = run_tlc("MC_Extremal", {"SC": SC}, CFG.format(pick="Rnd"), simulate=500 if q else 8000, depth=6, seed=chk.seed, timeout=1500)
    chk.add_tlc("extremal", res)
    lines = sorted(set(res.emitted))
    collect(chk, "extremal", replay_extremal, lines, bounded=sum(json.loads(l)["q"]["umax"] < INF or json.loads(l)["q"]["umin"] > -INF for l in lines))
    return chk.finish()
