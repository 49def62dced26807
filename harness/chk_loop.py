"""C14: closed loop of MPC and PlantSimulation against ClosedLoop.tla."""
import json

from common import Check, pmap, run_tlc

CFG = """SPECIFICATION Spec
CONSTANTS Pick <- {pick}
CONSTRAINT {constraint}
{view}
INVARIANTS SamplesInOrder LastSample MeasureEveryPeriod SampleEverySub Consistent GuessIsPrevious
CHECK_DEADLOCK FALSE
"""


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-4 * max(1, abs(x)) for x, y in zip(a, b))


def replay(ctx, line):
    from ad_loop import Loop
    from ad_trans import flat

    rec = json.loads(line)
    q, out = rec["q"], []
    tag = json.dumps({k: q[k] for k in ("c", "ss", "noise", "est", "cost", "rearr", "hook", "mean", "cov", "dc", "n", "sch", "th")})

    def bad(clause, want, got, i=None):
        out.append({"clause": clause, "detail": f"specification says {want}, code {got}; configuration {tag}",
                    "history": [s["op"] for s in rec["log"][: (i + 1) if i is not None else None]]})
        return out

    w = Loop(q)
    t, meas, u = w.plant.get_measurement()
    first = rec["pl"]["ms"][0]
    if not (near([t], [first["t"]]) and near(flat(meas), first["m"]) and near(flat(u), q["u0"])):
        return bad("first measurement", first, [float(t), flat(meas), flat(u)])
    for i, step in enumerate(rec["log"]):
        op = step["op"]
        w.calls, w.seen = [], []
        res, _ = w.apply(op)
        if res != step["out"]:
            return bad(f"outcome of {op['op']}", step["out"], f"{res}: {getattr(w, 'last_exc', None)!r}"[:300], i)
        t, meas, u = w.plant.get_measurement()
        if not (near([step["meas"]["t"]], [t]) and near(step["meas"]["m"], flat(meas)) and near(step["meas"]["u"], flat(u))):
            return bad(f"measurement after {op['op']}", step["meas"], [float(t), flat(meas), flat(u)], i)
        if op["op"] == "run":
            if len(w.calls) != len(step["calls"]) or len(w.seen) != len(step["calls"]):
                return bad("number of optimisations and estimations", len(step["calls"]), [len(w.calls), len(w.seen)], i)
            for want, got, seen in zip(step["calls"], w.calls, w.seen):
                s = want["seen"]
                if not (near([s["t"]], [seen["t"]]) and near(s["m"], seen["m"]) and near(s["u"], seen["u"])):
                    return bad("what the estimator is given", s, seen, i)
                for key, name in (("x0", "x_0"), ("p", "p"), ("last", "last_u")):
                    if got.get(name) is None or not near(want[key], got[name]):
                        return bad(f"{name} given to the solution method", want[key], got.get(name), i)
                d = w.guess_fault(want["guess"], got.get("initial_guess"))
                if d:
                    return bad("warm start", "the previous solution one element later", d, i)
                if q["th"]:
                    th = got.get("theta")
                    if th is None or any(not near(flat(w.theta[k]), flat(th[k])) for k in w.theta):
                        return bad("theta given to the solution method", w.theta, th, i)
        elif w.calls:
            return bad("optimisations during " + op["op"], 0, len(w.calls), i)
        if op["op"] == "fixed" and len(w.seen) != (op["n"] if op["est"] else 0):
            return bad("estimations during " + op["op"], op["n"] if op["est"] else 0, len(w.seen), i)
        if w.mpc.iteration - w.extra != step["it"]:
            return bad("number of iterations", step["it"], w.mpc.iteration, i)
        if len(w.mpc.statistics["iteration_time"]) != step["solves"]:
            return bad("iteration times", step["solves"], len(w.mpc.statistics["iteration_time"]), i)
    for e, rows, key in (("x", rec["pl"]["sm"], "x"), ("y", rec["pl"]["sm"], "y"), ("u", rec["pl"]["sm"], "u"),
                         ("meas", rec["pl"]["ms"], "m"), ("meas_wo_noise", rec["pl"]["ms"], "w")):
        time, values = w.plant.dataset.get_entry(e)
        if not near([r["t"] for r in rows], flat(time)):
            return bad(f"times of {e} in the data set", [r["t"] for r in rows], flat(time))
        full = values.full()
        for i, r in enumerate(rows):
            if not near(r[key], [float(v) for v in full[:, i]]):
                return bad(f"{e} in the data set at time {r['t']}", r[key], [float(v) for v in full[:, i]])
        if w.plant.dataset.get_entry_size(e) != full.shape[0] or len(w.plant.dataset.get_entry_names(e)) != full.shape[0]:
            return bad(f"size of {e} in the data set", full.shape[0], w.plant.dataset.get_entry_size(e))
    if not near(q["p"], flat(w.given_p)) or not near(q["x0"], flat(w.x0)):
        return bad("the caller's vectors", [q["p"], q["x0"]], [flat(w.given_p), flat(w.x0)])
    return out


def replay_run(ctx, line):
    """closed loop with the real optimiser on problems whose optimum the specification knows"""
    from casadi import DM
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel
    from yaocptool.mpc import MPC, PlantSimulation

    from ad_trans import dm, flat, setup

    setup()
    rec = json.loads(line)
    q = rec["q"]

    def model(name, par):
        m = SystemModel(name=name)
        x, u = m.create_state("x"), m.create_control("u")
        p = m.create_parameter("p") if par else None
        m.include_equations(ode=u)
        return m, u, p

    m, u, p = model("ctl", True)
    ocp = OptimalControlProblem(m, x_0=[50.0], t_f=3.0)
    ocp.L = (u - (q["r"] - p)) ** 2
    ocp.u_min, ocp.u_max = dm([q["lo"]]), dm([q["hi"]])
    ocp.delta_u_min, ocp.delta_u_max = dm([-q["d"]]), dm([q["d"]])
    sm = DirectMethod(ocp, discretization_scheme="collocation" if q["sch"] == "coll" else "multiple-shooting", finite_elements=3, degree=2,
                      last_control_as_parameter=True)
    pm, _, _ = model("plant", False)
    plant = PlantSimulation(pm, x_0=dm([q["x0"]]), u_0=dm([q["u0"]]), y_guess=DM(0, 1), t_s=1.0, verbosity=0)
    mpc = MPC(plant, sm, p=DM([99.0]), verbosity=0, include_cost_in_state_vector=True, mean_as_parameter=True, mean_p_indices=[(0, 0)])
    mpc.run(len(rec["us"]))
    xs, us = flat(plant.dataset.get_entry("x")[1]), flat(plant.dataset.get_entry("u")[1])[1:]
    ok = all(abs(a - b) < 2e-3 for a, b in zip(rec["xs"] + rec["us"], xs + us)) and len(xs + us) == len(rec["xs"] + rec["us"])
    return [] if ok else [{"clause": "closed loop with the real optimiser", "detail": f"specification says x={rec['xs']} u={rec['us']}, code x={xs} u={us}: {q}",
                           "history": q}]


def main(prop, tier):
    chk = Check(prop, tier)
    res = run_tlc("MC_ClosedLoop", {"Ts": 4, "Len_": 0, "MaxLen": 3 if chk.quick else 4}, CFG.format(pick="Every", constraint="Depth", view="VIEW View"),
                  workers=8, timeout=3000)
    chk.add_tlc("model", res)
    n, length = (1500, 8) if chk.quick else (6000, 12)
    res = run_tlc("MC_ClosedLoop", {"Ts": 4, "Len_": length, "MaxLen": 0}, CFG.format(pick="One", constraint="Emit", view=""), simulate=n, depth=length,
                  seed=chk.seed, timeout=3000)
    chk.add_tlc("walks", res)
    lines = sorted(res.emitted)
    for idx, k, val in pmap(replay, lines):
        if k == "crash":
            chk.violate("crash", val, lines[idx])
        else:
            for v in val:
                chk.violate(v["clause"], v["detail"], v)
    res = run_tlc("LoopRun", {"N": 4, "X0s": {-4, 3}, "U0s": {0, 2, -1}, "Rs": {0, 5}, "Bounds": {(-3, 4), (-1, 2)}, "Moves": {1, 2}} if chk.quick else
                  {"N": 7, "X0s": {-4, 0, 3, 6}, "U0s": {0, 1, 2, -1, -2}, "Rs": {-3, 0, 5}, "Bounds": {(-3, 4), (-1, 2), (-2, 2)}, "Moves": {1, 2, 3}},
                  "SPECIFICATION Spec\nCONSTRAINT Emit\nINVARIANTS Limits Nearest\nCHECK_DEADLOCK FALSE\n", timeout=3000)
    chk.add_tlc("optimal", res)
    runs = sorted(res.emitted)
    if chk.quick:
        runs = chk.rng.sample(runs, min(len(runs), 48))
    for idx, k, val in pmap(replay_run, runs):
        if k == "crash":
            chk.violate("crash", val, runs[idx])
        else:
            for v in val:
                chk.violate(v["clause"], v["detail"], v)
    chk.add_traces("optimal", len(runs))
    ops = {}
    for l in lines:
        for s in json.loads(l)["log"]:
            ops[s["op"]["op"]] = ops.get(s["op"]["op"], 0) + 1
    chk.add_traces("walks", len(lines), operations=ops)
    if lines:
        chk.sample(json.loads(lines[0]))
    return chk.finish()
