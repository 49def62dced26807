"""C06: optimization problem container against OptProblem.tla."""
import json

from common import Check, diff, norm, pmap, run_tlc

CFG = """SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


def third_party_fault(post, sol):
    """qpOASES itself answers wrongly on some problems with bounds and no constraints: build the
    specification's problem directly with CasADi, with none of the code under test involved."""
    import casadi as ca
    from ad_opt import num

    names = post["x"]
    x = ca.MX.sym("x", len(names))
    pos = {n: i for i, n in enumerate(names)}
    f = sum((x[pos[v]] - c) ** 2 for v, c in post["f"]["c"].items())
    g = [sum((cf * (1 if v == "one" else x[pos[v]]) for v, cf in row.items()), ca.MX(0)) for row in
         (r if isinstance(r, dict) else {} for r in post["g"])]

    solver = ca.qpsol("ref", "qpoases", {"x": x, "f": f, "g": ca.vertcat(*g)})
    ref = solver(x0=ca.DM([i + 1 for i in range(len(names))]), lbx=[num(v) for v in post["lb"]],
                 ubx=[num(v) for v in post["ub"]], lbg=[num(v) for v in post["glb"]],
                 ubg=[num(v) for v in post["gub"]])["x"].full().reshape(-1)
    return all(abs(a - b) < 1e-6 for a, b in zip(ref, sol))


def replay(ctx, case):
    from ad_opt import OptWorld

    real, line = case
    rec = json.loads(line)
    w = OptWorld(real, ("nlp", "qp", "abstract")[len(line) % 3])
    hist = rec["h"]
    ops = [s["op"] for s in hist]
    for i, step in enumerate(hist):
        out = w.apply(step["op"])
        if out != step["out"]:
            exc = getattr(w, "last_exc", None)
            return {"clause": f"outcome of {step['op']['op']}", "history": ops, "real": real,
                    "detail": f"specification says {step['out']}, code {out}"
                              + (f" ({type(exc).__name__}: {str(exc)[:200]})" if out == "rejected" else "")}
        if real is None and step["op"]["op"] == "solve" and out == "ok":
            d = diff(norm(step["val"]), norm(w.val))
            if d:
                return {"clause": "problem handed to the solver", "detail": d, "history": ops}
    try:
        got = w.project()
    except Exception as exc:
        return {"clause": "state", "detail": f"cannot be observed: {exc}", "history": ops}
    d = diff(norm(rec["post"]), norm(got))
    if d:
        return {"clause": f"state after {ops[-1]['op']}", "detail": d, "history": ops, "real": real}
    if real and rec["min"]:
        if ops[-1]["op"] != "solve":
            out = w.apply({"op": "solve", "np": 0})
            if out != "ok":
                return {"clause": "solve", "detail": f"refused: {w.last_exc}", "history": ops, "real": real}
        sol = [float(v) for v in w.sol["x"].full().reshape(-1)]
        if any(abs(a - b) > 1e-4 for a, b in zip(sol, rec["min"])):
            if real == "qp" and third_party_fault(rec["post"], sol):
                return {"excused": True}
            return {"clause": "minimiser returned by solve", "history": ops, "real": real,
                    "detail": f"specification says {rec['min']}, code returned {sol}"}
    return None


def main(prop, tier):
    chk = Check(prop, tier)
    for focus, depth, cap in ((("all", 2, 8000), ("box", 2, None), ("box3", 3, 2500)) if chk.quick else
                              (("all", 2, None), ("all3", 3, 60000), ("box", 2, None), ("box3", 3, None))):
        res = run_tlc("MC_OptProblem", {"Focus": focus.rstrip("3"), "D": depth}, CFG, timeout=1500)
        chk.add_tlc(focus, res)
        lines = res.emitted
        if cap and len(lines) > cap:
            first = [l for l in lines if '"lvl":1,' in l]
            deep = [l for l in lines if '"lvl":1,' not in l]
            solves = [l for l in deep if '"op":"solve"' in l]
            lines = first + chk.rng.sample(deep, min(cap, len(deep))) + chk.rng.sample(solves, min(cap // 4, len(solves)))
        if focus.startswith("box"):
            cases = [(("nlp", "qp")[i % 2] if json.loads(l)["min"] else None, l) for i, l in enumerate(lines)]
        else:
            cases = [(None, l) for l in lines]
        n, ops, excused = 0, {}, 0
        for idx, kind, val in pmap(replay, cases):
            n += 1
            if kind == "crash":
                chk.violate("crash", val, cases[idx][1])
            elif val and val.get("excused"):
                excused += 1
            elif val:
                chk.violate(val["clause"], val["detail"], val)
        for l in lines:
            o = json.loads(l)["h"][-1]["op"]["op"]
            ops[o] = ops.get(o, 0) + 1
        chk.add_traces(focus, n, last_op=ops, real_solves=sum(1 for c in cases if c[0]),
                       third_party_solver_faults=excused)
        if lines:
            chk.sample({"focus": focus, "history": [s["op"] for s in json.loads(lines[-1])["h"]]})
    return chk.finish()
