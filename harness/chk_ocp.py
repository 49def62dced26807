"""C07, C08: OptimalControlProblem and StochasticOCP against Ocp.tla."""
import json

from common import Check, diff, norm, pmap, run_tlc

CFG = """SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""
SLOTS = {"book": ["a"], "trans": ["a"], "merge": ["a", "b", "c"], "stoch": ["a"]}


def replay(ctx, case):
    from ad_ocp import OcpWorld, canon

    focus, line, alias = case
    rec = json.loads(line)
    world = OcpWorld(SLOTS[focus], focus == "stoch", alias)
    hist = rec["h"]
    ops = [s["op"] for s in hist]
    for i, step in enumerate(hist):
        out = world.apply(step["op"])
        if out != step["out"]:
            exc = getattr(world, "last_exc", None)
            return {"step": i, "clause": f"outcome of {step['op']['op']}",
                    "detail": f"specification says {step['out']}, code {out}"
                              + (f" ({type(exc).__name__}: {str(exc)[:200]})" if out == "rejected" else "")
                              + " for " + json.dumps(step["op"])[:400], "history": ops}
    try:
        got = world.project()
    except Exception as exc:  # observing the problem must always be possible
        return {"step": len(hist), "clause": f"state after {ops[-1]['op']}",
                "detail": f"cannot be observed: {type(exc).__name__}: {str(exc)[:200]}", "history": ops}
    if alias:
        for w in (rec["post"], got):
            for m in list(w["um"].values()) + [P["model"] for P in (w["ps"] or {}).values()]:
                m.pop("names")
    d = diff(norm(canon(rec["post"])), norm(canon(got)))
    if d:
        return {"step": len(hist), "clause": f"state after {ops[-1]['op']}", "detail": d + " op " + json.dumps(ops[-1])[:300], "history": ops}
    return None


def run_focus(chk, focus, depth, limit=None, walks=None):
    kw = dict(simulate=walks, depth=depth + 1, seed=chk.seed) if walks else {}
    res = run_tlc("MC_Ocp", {"Focus": focus, "D": depth}, CFG, timeout=1500, **kw)
    part = focus + ("-deep" if walks else "")
    chk.add_tlc(part, res)
    lines = res.emitted
    if limit and len(lines) > limit:
        lines = chk.rng.sample(lines, limit)
    cases = [(focus, l, i % 2 == 1) for i, l in enumerate(lines)]
    n, ops, rejected = 0, {}, 0
    for idx, kind, val in pmap(replay, cases):
        n += 1
        if kind == "crash":
            chk.violate("crash", val, cases[idx][1])
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    for l in lines:
        rec = json.loads(l)["h"][-1]
        ops[rec["op"]["op"]] = ops.get(rec["op"]["op"], 0) + 1
        rejected += rec["out"] == "rejected"
    chk.add_traces(part, n, last_op=ops, rejected_steps=rejected)
    if lines:
        chk.sample({"focus": focus, "history": [s["op"] for s in json.loads(lines[len(lines) // 2])["h"]][-3:]})


def replay_run(ctx, line):
    """OCP.simulate and the quadratic objective."""
    from casadi import DM, Function
    from chk_sim import build, close, cmp_cols, cols
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    rec = json.loads(line)
    c = rec["c"]
    if c["k"] == "sim":
        o, a = c["o"], c["a"]
        P = OptimalControlProblem(build(o["fam"]), x_0=[v / 6.0 for v in o["x0"]], t_0=o["t0"], t_f=o["tf"])
        P.u_guess = DM(o["u"])
        kw = {"p": DM(o["p"]), "theta": {k: DM(o["th"]) for k in range(8)}}
        if o["fam"] == "dae":
            P.y_guess = DM([1.5])
        for k, name in (("t0", "t_0"), ("tf", "t_f"), ("u", "u")):
            if a[k]["has"]:
                kw[name] = DM(a[k]["v"]) if k == "u" else a[k]["v"]
        if a["x0"]["has"]:
            kw["x_0"] = DM([v / 6.0 for v in a["x0"]["v"]])
        if a["n"]:
            kw["finite_elements"] = a["n"]
        if a["grid"]:
            kw["t_f"] = list(a["grid"])
        res = P.simulate(**kw)
        e = rec["res"]
        tx, X = res.get_entry("x")
        tu, U = res.get_entry("u")
        for d in (cmp_cols("time of x", [[t] for t in e["tx"]], cols(tx), 1), cmp_cols("x", e["x"], cols(X)),
                  cmp_cols("y", e["y"], cols(res.get_entry("y")[1])),
                  cmp_cols("time of u", [[t] for t in e["ty"]], cols(tu), 1), cmp_cols("u", e["u"], cols(U))):
            if d:
                return {"clause": "OCP.simulate", "detail": d, "history": c}
        return None
    m = SystemModel(name="q")
    x, u = m.create_state("x", 2), m.create_control("u", 2)
    m.include_equations(ode=x + u, x=x)
    obj = {k: DM(c["obj"][k]) for k in ("Q", "R", "Qv", "Rv") if c["obj"][k]}
    if c["hasx"]:
        obj["x_ref"] = DM(c["obj"]["xref"])
    if c["hasu"]:
        obj["u_ref"] = DM(c["obj"]["uref"])
    snap = repr(sorted(obj.items()))
    if c["how"] == "obj":
        P = OptimalControlProblem(m, x_0=[0, 0], obj=obj)
    else:
        P = OptimalControlProblem(m, x_0=[0, 0])
        P.create_quadratic_cost(obj)
    if repr(sorted(obj.items())) != snap:
        return {"clause": "quadratic cost", "detail": "the caller's dictionary was changed", "history": c}
    got = Function("f", [x, u], [P.L, P.V])(DM(c["x"]), DM(c["u"]))
    for k, v in zip("LV", got):
        if v.numel() != 1 or not close(rec[k], float(v)):
            return {"clause": "quadratic cost", "detail": f"{k}: specification says {rec[k]}, code says {v}", "history": c}
    return None


def run_calls(chk):
    res = run_tlc("MC_OcpRun", {}, "SPECIFICATION Spec\nCONSTRAINT Emit\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc("calls", res)
    n = 0
    for idx, kind, val in pmap(replay_run, res.emitted):
        n += 1
        if kind == "crash":
            chk.violate("crash", val, res.emitted[idx])
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    chk.add_traces("calls", n)


def run_branch(chk):
    """y_0 and the guess of the problem, told apart by an algebraic equation with two solutions."""
    from chk_sim import drive, replay_steady
    res = run_tlc("Steady", {"Pts": {(1, 2), (-2, 3)}}, "SPECIFICATION Spec\nCONSTRAINT Emit\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc("algebraic-guess", res)
    drive(chk, "algebraic-guess", replay_steady, [l for l in res.emitted if json.loads(l)["k"] == "branch"])


def main(prop, tier):
    chk = Check(prop, tier)
    q = chk.quick
    if prop == "C07":
        run_focus(chk, "book", 1)
        run_focus(chk, "book", 6, 2500 if q else 40000, walks=10 if q else 200)
        run_focus(chk, "stoch", 2, 1500 if q else None)
        if not q:
            run_focus(chk, "book", 2, 60000)
            run_focus(chk, "stoch", 5, 10000, walks=100)
    else:
        run_calls(chk)
        run_branch(chk)
        run_focus(chk, "trans", 2, 1500 if q else None)
        run_focus(chk, "merge", 2, 1200 if q else None)
        run_focus(chk, "trans", 5, 600 if q else 20000, walks=10 if q else 150)
        run_focus(chk, "merge", 4, 300 if q else 10000, walks=15 if q else 150)
        if not q:
            run_focus(chk, "trans", 3, 40000)
            run_focus(chk, "merge", 3, 20000)
    return chk.finish()
