"""C12: the augmented Lagrangian method against AugLag.tla."""
import json

from common import Check, pmap, run_tlc

CFG = """SPECIFICATION Spec
CONSTRAINT {constraint}
INVARIANT Inv
CHECK_DEADLOCK FALSE
{view}
CONSTANTS
  Problems <- Probs
  Residuals <- Rs
  Speeds <- Ws
  Args <- AsFix
  Slips <- Sl
  Pick <- {pick}
  Mus <- MusOf
  Starts <- StartsOf
  Exos <- ExosOf
"""
CFG_TRACK = """SPECIFICATION Spec
CONSTRAINT Emit
INVARIANT Optimal
CHECK_DEADLOCK FALSE
CONSTANTS
  Problems <- Pick
"""


def tag(q):
    return f"problem {q['name']} ({q['sch']}, n={q['n']} degree={q['d']} relaxed {q['rel']}/{q['rele']}/{q['sb']} {q['rule']} improve={q['impr']} tol={q['tol2'] / 2} max_iter={q['maxit']})"


def replay(ctx, case):
    from ad_al import ALWorld, outside, parts, run_call

    i, line = case
    rec = json.loads(line)
    q = rec["q"]
    kw = {"via_solver": True} if i % 2 else {}
    if i % 4 == 1:
        kw["conflict"] = True
    kw["solver"] = {"initial_guess_heuristic": "problem_info"} if i % 3 == 0 else {}
    w = ALWorld(q, nu=rec["log"][0]["nu"], **kw)
    odd = w.shape() ^ set(w.pos)
    if odd or len(set(w.pos.values())) != w.n:
        return [{"clause": "variables of the subproblem", "detail": f"{tag(q)}: {sorted(odd)[:4]}"}]
    if w.changed_options:
        return [{"clause": "options", "detail": f"{tag(q)}: the caller's solver_options were changed"}]
    for n, (call, steps) in enumerate(parts(rec["log"])):
        d = run_call(w, call, steps, n) if call["op"] == "call" else outside(w, call)
        if d:
            return [{"clause": "augmented Lagrangian", "detail": f"{tag(q)}, {n + 1}: {call['op']} with {call.get('a')}: {d}", "history": rec["log"]}]
    return []


def replay_guess(ctx, line):
    """the relaxed variables keep their guess"""
    from ad_al import ALWorld, dm, flat

    q = json.loads(line)
    out = []
    yg = [11.0 + 2 * i for i in range(len(q["ys"]))]
    ug = [5.0 + i for i in range(1 + len(q["eqs"]))]
    for kw in ({"y_guess": yg, "u_guess": ug}, {}):
        w = ALWorld(q, solver={"initial_guess_heuristic": "problem_info"}, **kw)
        w.stub.script = [[0.0] * w.n] * 50
        w.stub.asked = []
        try:
            w.al.solve(x_0=dm([1] * len(q["xb"]) + [0]), **({"p": dm([1])} if q["haspar"] else {}), **({"theta": {k: dm([0]) for k in range(q["n"])}} if q["hasth"] else {}))
        except Exception as exc:
            out.append({"clause": "guess", "detail": f"{tag(q)} with {kw}: {type(exc).__name__} {exc}"})
            continue
        got = flat(w.stub.asked[0][0]["initial_guess"])
        want = {y: (yg[i] if kw else 0) for i, y in enumerate(q["ys"])}
        want.update({u: (ug[i] if kw else 0) for i, u in enumerate(["w"] + [r["own"] for r in q["eqs"]])})
        for (kind, v, k, j), i in w.pos.items():
            if v in want and abs(got[i] - want[v]) > 1e-9:
                out.append({"clause": "guess", "detail": f"{tag(q)}: guess of {v} is {got[i]}, the problem says {want[v]}"})
                break
    return out


def replay_track(ctx, line):
    """real solves: the relaxed problem ends at the optimum of the problem"""
    from ad_trans import dm, flat, num, setup
    from casadi import DM
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    setup()
    rec = json.loads(line)
    q = rec["q"]
    out = []
    for sch in ("collocation", "multiple-shooting"):
        for way in ("alg", "eq"):
            m = SystemModel(name="trk")
            m.create_state("x")
            u = m.create_control("u")
            p = m.create_parameter("p1")
            h = m.create_theta("h1")
            z = m.create_algebraic_variable("z") if way == "alg" else m.create_control("z")
            m.include_equations(ode=u)
            if way == "alg":
                m.include_equations(alg=z - u + p)
            ocp = OptimalControlProblem(m, x_0=[9.0], t_0=float(q["t0"]), t_f=float(q["t0"] + q["n"] * q["dt"]))
            ocp.L = (z - h) ** 2
            if way == "eq":
                ocp.include_time_equality(z - u + p)
            lo, hi = [num(v) for v in q["ub"]]
            dlo, dhi = [num(v) for v in q["dub"]]
            inf = float("inf")
            ocp.u_min, ocp.u_max = (DM([lo]), DM([hi])) if way == "alg" else (DM([lo, -inf]), DM([hi, inf]))
            ocp.delta_u_min, ocp.delta_u_max = (DM([dlo]), DM([dhi])) if way == "alg" else (DM([dlo, -inf]), DM([dhi, inf]))
            kw = {}
            if q["last"] < 1000:
                if way == "alg":  # the variable that becomes a control has no last value
                    continue
                kw["last_u"] = dm([q["last"], 0])
                ocp.last_u = dm([3, 0])
            args = dict(relax_time_equality_index=[0]) if way == "eq" else {}
            al = AugmentedLagrangian(ocp, DirectMethod, solver_options=dict(discretization_scheme=sch), options=dict(
                degree=2, finite_elements=q["n"], mu_0=4.0, beta=3.0, mu_max=1e4, tol=1e-5, max_iter=30), **args)
            res = al.solve(p=dm([q["p1"]]), theta={k: dm([q["h"][k]]) for k in range(q["n"])}, x_0=dm([q["x0"], 0]), **kw)
            what = f"{way} relaxed, {sch} {json.dumps(q)}"
            us = [flat(res.u_data["values"][k][0])[0] for k in range(q["n"])]
            want = [v / 6 for v in rec["u"]]
            if not all(abs(a - b) <= 2e-3 for a, b in zip(us, want)):
                out.append({"clause": "optimal control of the relaxed problem", "detail": f"specification says {want}, code says {us}: {what}"})
            zs = [flat(res.u_data["values"][k][0])[1] for k in range(q["n"])]
            if not all(abs(a - b + q["p1"]) <= 2e-3 for a, b in zip(zs, want)):
                out.append({"clause": "relaxed equation holds in the end", "detail": f"z={zs} for u={want}: {what}"})
            if max(flat(res.statistics["violation_error"])) > 1e-5:
                out.append({"clause": "violation error under the tolerance", "detail": what})
    return out


def main(prop, tier=None):
    chk = Check(prop, tier)
    quick = chk.quick
    res = run_tlc("MC_AugLag", {"Names": {"one", "eq", "sb"} if quick else set(), "MaxIts": {2}, "Len_": 0, "MaxCalls": 2},
                  CFG.format(constraint="Small", view="VIEW View", pick="Every"), workers=8, timeout=3000)
    chk.add_tlc("protocol", res)
    walks = 700 if quick else 8000
    res = run_tlc("MC_AugLag", {"Names": set(), "MaxIts": {1, 2, 4}, "Len_": 22, "MaxCalls": 30},
                  CFG.format(constraint="Emit", view="", pick="One"), simulate=walks, depth=22, seed=chk.seed, timeout=3000)
    chk.add_tlc("walks", res)
    cases = list(enumerate(sorted(res.emitted)))
    for idx, kind, val in pmap(replay, cases):
        if kind == "crash":
            chk.violate("crash", val + " in " + tag(json.loads(cases[idx][1])["q"]), cases[idx][1])
        else:
            for v in val:
                chk.violate(v["clause"], v["detail"], v)
    its = sum(1 for _, l in cases for e in json.loads(l)["log"] if e["op"] == "solve")
    chk.add_traces("walks", len(cases), iterations=its)
    probs = sorted({json.dumps(json.loads(l)["q"], sort_keys=True) for _, l in cases if json.loads(l)["q"]["maxit"] == 1})
    for idx, kind, val in pmap(replay_guess, probs):
        if kind == "crash":
            chk.violate("crash", val + " in " + tag(json.loads(probs[idx])), probs[idx])
        else:
            for v in val:
                chk.violate(v["clause"], v["detail"], v)
    chk.add_traces("guess", len(probs))
    res = run_tlc("MC_Tracking", {"Ns": {1, 2} if quick else {1, 2, 3}}, CFG_TRACK, timeout=3000)
    chk.add_tlc("tracking", res)
    lines = sorted(l for l in res.emitted)
    if quick:
        lines = chk.rng.sample(lines, min(60, len(lines)))
    for idx, kind, val in pmap(replay_track, lines):
        if kind == "crash":
            chk.violate("crash", val, lines[idx])
        else:
            for v in val:
                chk.violate(v["clause"], v["detail"], v)
    chk.add_traces("tracking", len(lines))
    if cases:
        chk.sample(json.loads(cases[0][1]))
    return chk.finish()
