"""C01-C04: SystemModel against Modelling.tla."""
import json

from common import Check, diff, norm, pmap, run_tlc

CFG = """SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""
FOCUS = {
    "vars": (["m"], ["m"]), "copy": (["m", "n"], ["m"]), "subst": (["m"], []), "compose": (["m", "n", "o"], []),
}


def replay(ctx, case):
    from ad_model import ModelWorld

    slots, prefixes, line, alias = case
    rec = json.loads(line)
    world = ModelWorld(slots, prefixes, alias)
    hist = rec["h"]
    for i, step in enumerate(hist):
        out = world.apply(step["op"])
        if out != step["out"]:
            exc = getattr(world, "last_exc", None)
            return {"step": i, "clause": f"outcome of {step['op']['op']}",
                    "detail": f"specification says {step['out']}, code {out}"
                              + (f" ({type(exc).__name__}: {str(exc)[:200]})" if out == "rejected" else ""),
                    "history": [s["op"] for s in hist]}
    try:
        got = world.project()
    except Exception as exc:  # observing the model must always be possible
        return {"step": len(hist), "clause": f"state after {hist[-1]['op']['op']}",
                "detail": f"cannot be observed: {type(exc).__name__}: {str(exc)[:200]}",
                "history": [s["op"] for s in hist]}
    if alias:
        for m in list(rec["post"].values()) + list(got.values()):
            m.pop("names")
    d = diff(norm(rec["post"]), norm(got))
    if d:
        return {"step": len(hist), "clause": f"state after {hist[-1]['op']['op']}", "detail": d,
                "history": [s["op"] for s in hist]}
    return None


def run_focus(chk, focus, depth, limit=None, walks=None):
    if walks:
        res = run_tlc("MC_Modelling", {"Focus": focus, "D": depth}, CFG, timeout=1500, simulate=walks,
                      depth=depth + 1, seed=chk.seed)
    else:
        res = run_tlc("MC_Modelling", {"Focus": focus, "D": depth}, CFG, timeout=1500)
    part = focus + ("-deep" if walks else "")
    chk.add_tlc(part, res)
    lines = res.emitted
    if limit and len(lines) > limit:
        lines = chk.rng.sample(lines, limit)
    slots, prefixes = FOCUS[focus]
    cases = [(slots, prefixes, l, i % 2 == 1) for i, l in enumerate(lines)]
    n, ops, rejected = 0, {}, 0
    for idx, kind, val in pmap(replay, cases):
        n += 1
        if kind == "crash":
            chk.violate("crash", val, cases[idx][2])
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    for l in lines:
        rec = json.loads(l)["h"][-1]
        ops[rec["op"]["op"]] = ops.get(rec["op"]["op"], 0) + 1
        rejected += rec["out"] == "rejected"
    chk.add_traces(part, n, last_op=ops, rejected_steps=rejected)
    if lines:
        chk.sample({"focus": focus, "history": [s["op"] for s in json.loads(lines[len(lines) // 2])["h"]][-3:]})


def main(prop, tier):
    chk = Check(prop, tier)
    focus = {"C01": "vars", "C02": "subst", "C03": "compose", "C04": "copy"}[prop]
    run_focus(chk, focus, 2 if chk.quick else 3, None if chk.quick else 150000)
    # random deep histories from TLC's simulator (every one-step neighbour of each walk is a candidate)
    run_focus(chk, focus, 9, 2500 if chk.quick else 40000, walks=24 if chk.quick else 300)
    return chk.finish()
