"""C16: Network and Node against Network.tla."""
import json

from common import Check, diff, norm, pmap, run_tlc

CFG = """SPECIFICATION Spec
CONSTANTS Pick <- {pick}
  Often <- {often}
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


def replay(ctx, case):
    from ad_net import NetWorld, canon

    focus, pre, line, alias = case
    rec = json.loads(line)
    w = NetWorld(focus == "inter", json.loads(pre), alias)
    hist = rec["h"]
    ops = [s["op"] for s in hist]
    for i, step in enumerate(hist):
        out = w.apply(step["op"])
        if out != step["out"]:
            exc = f" ({type(w.last_exc).__name__}: {str(w.last_exc)[:200]})" if out == "rejected" else ""
            return {"clause": f"outcome of {step['op']['op']}", "detail": f"specification says {step['out']}, code {out}{exc} for "
                    + json.dumps(step["op"])[:300], "history": ops}, None
    try:
        got = w.project()
        bad = w.lookups()
    except Exception as exc:
        return {"clause": f"state after {ops[-1]['op']}", "detail": f"cannot be observed: {type(exc).__name__}: {str(exc)[:200]}", "history": ops}, None
    d = diff(norm(canon(rec["post"], alias)), norm(canon(got, alias)))
    if d:
        exc = [str(e)[:200] for e in (getattr(w, "model_exc", None), getattr(w, "problem_exc", None)) if e]
        return {"clause": f"state after {ops[-1]['op']}", "detail": d + (" " + str(exc) if exc else ""), "history": ops}, None
    if bad:
        return {"clause": "looking up nodes", "detail": "; ".join(bad[:3]), "history": ops}, None
    d = diff(norm(w.before), norm(w.o.project()))
    if d:
        return {"clause": "the subsystems stay as they were", "detail": d, "history": ops}, None
    groups = w.groups()
    if focus == "ic":
        v = w.initial_condition(2.0)
        if isinstance(v, str):
            return {"clause": "get_initial_condition", "detail": v, "history": ops}, None
        return None, [groups, v is True]
    return None, [groups, False]


def graph(ctx, line):
    from ad_net import graph as run

    return run(json.loads(line))


def judge(chk, part, recs, few=True):
    """Recorded groupings are judged by the specification."""
    recs = [json.loads(t) for t in sorted({json.dumps(r, sort_keys=True) for r in recs})]
    size = 1000
    for at in range(0, len(recs), size):
        res = run_tlc("MC_Groups", {"Recs": recs[at: at + size], "Sizes": {1}, "Walks": 0, "Few": few},
                      "SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", timeout=900)
        chk.add_tlc(part, res)
        for i in res.emitted:
            r = recs[at + int(i) - 1]
            chk.violate("groups", f"not a partition into groups without neighbours{', within one more than the largest number of neighbours' if few else ''}: {json.dumps(r)[:400]}", r)


def graphs(chk, limit):
    """Graphs to colour: all of four nodes, and random ones."""
    q = chk.quick
    res = run_tlc("MC_Groups", {"Recs": [], "Sizes": {5, 7, 9} if q else {3, 5, 6, 7, 8, 9, 12, 15}, "Walks": 60 if q else 400, "Few": True},
                  "SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", timeout=900)
    chk.add_tlc("graphs", res)
    lines = sorted(set(res.emitted))
    return chk.rng.sample(lines, min(len(lines), limit)) if q else lines


def main(prop, tier):
    chk = Check(prop, tier)
    q = chk.quick
    pre = {}
    groups = []
    plan = [("plain", 1, 0, None, None), ("inter", 1, 0, None, None), ("plain", 0, 9, 450 if q else 12000, 3), ("inter", 0, 7, 250 if q else 4000, 3),
            ("ic", 0, 6, 200 if q else 3000, 3)]
    if not q:
        plan += [("plain", 2, 0, None, 20000), ("inter", 2, 0, None, 10000)]
    for focus, depth, length, walks, limit in plan:
        const = {"Focus": focus, "D": depth or length, "Len_": length}
        if walks:
            res = run_tlc("MC_Network", const, CFG.format(pick="One", often="MostlyA") + "CONSTRAINT EmitEnd\n", simulate=walks, depth=length, seed=chk.seed, timeout=1500)
            limit = None
        else:
            res = run_tlc("MC_Network", const, CFG.format(pick="Every", often="AlwaysB") + "VIEW View\nACTION_CONSTRAINT Emit\n", timeout=1500)
        if focus not in pre:
            p = run_tlc("MC_Network", {"Focus": focus, "D": 0, "Len_": 0}, "INIT Init\nNEXT Next\nCONSTRAINT EmitPre\nCHECK_DEADLOCK FALSE\n")
            pre[focus] = p.emitted[0]
        part = focus + ("-walks" if walks else f"-depth{depth}")
        chk.add_tlc(part, res)
        lines = sorted(set(res.emitted))
        if limit and len(lines) > limit:
            lines = chk.rng.sample(lines, limit)
        cases = [(focus, pre[focus], l, i % 3 == 1) for i, l in enumerate(lines)]
        ops, rejected, ics, composed = {}, 0, 0, 0
        for idx, kind, val in pmap(replay, cases):
            if kind == "crash":
                chk.violate("crash", val, lines[idx])
                continue
            bad, extra = val
            if bad:
                chk.violate(bad["clause"], bad["detail"], bad)
            else:
                groups.append(extra[0])
                ics += extra[1]
        for l in lines:
            rec = json.loads(l)
            composed += bool(rec["post"]["problem"])
            for s in rec["h"]:
                ops[s["op"]["op"]] = ops.get(s["op"]["op"], 0) + 1
                rejected += s["out"] == "rejected"
        chk.add_traces(part, len(lines), operations=ops, rejected_steps=rejected, initial_conditions=ics, composed_problems=composed)
        if lines:
            chk.sample({"focus": focus, "history": [s["op"] for s in json.loads(lines[len(lines) // 2])["h"]][-4:]})
    lines = graphs(chk, 500)
    recs = []
    for idx, kind, val in pmap(graph, lines):
        if kind == "crash":
            chk.violate("crash", val, lines[idx])
        else:
            recs.append(val)
    judge(chk, "groups", groups + recs)
    chk.add_traces("graphs", len(recs))
    return chk.finish()
