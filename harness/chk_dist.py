"""C13: distributed solution of networks against Distributed.tla and Consensus.tla."""
import json

from chk_net import graphs, judge
from common import Check, pmap, run_tlc

CFG = """SPECIFICATION Spec
CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 Configs <- ConfigSet
 Pick <- One
"""


def proper(c):
    """no two connected nodes in one block: the order inside a block does not matter"""
    return all(not any(e["a"] in b and e["b"] in b for b in c["blocks"]) for e in c["edges"])


def replay(ctx, case):
    line, distributed = case
    from ad_dist import DistWorld

    rec = json.loads(line)
    d = DistWorld(rec, distributed).run()
    if d:
        c = rec["c"]
        return {"clause": "distributed solve" if not distributed else "distributed solve with processes",
                "detail": f"{d}; edges {[(e['a'], e['b'], e['ys'], e['us']) for e in c['edges']]}, blocks {c['blocks']}, degree {c['d']}, {c['rule']}", "rec": rec}
    return None


def blocks(ctx, line):
    from ad_dist import blocks as run

    return run(json.loads(line))


def solve(ctx, case):
    from ad_dist import consensus

    return consensus(json.loads(case[0]), case[1])


def optima(chk):
    """Networks with a known optimum, solved with IPOPT."""
    res = run_tlc("Consensus", {"Focus": "all"}, "SPECIFICATION Spec\nCONSTRAINT Emit\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", timeout=600)
    chk.add_tlc("optima", res)
    lines = sorted(set(res.emitted))
    if chk.quick:
        lines = chk.rng.sample(lines, 220)
    cases = [(l, i % 4 == 0) for i, l in enumerate(lines)]
    rounds = 0
    for idx, kind, val in pmap(solve, cases):
        rec = json.loads(cases[idx][0])
        if kind == "crash":
            chk.violate("crash", val, rec)
            continue
        rounds = max(rounds, val[1])
        if val[0]:
            chk.violate("optimum of the composed problem", f"{val[0]}; {json.dumps(rec['c'])}", rec)
    chk.add_traces("optima", len(cases), most_outer_iterations=rounds)


def main(prop, tier):
    chk = Check(prop, tier)
    q = chk.quick
    jobs = []
    for focus, walks in (("plain", 700 if q else 12000), ("mid", 500 if q else 8000), ("fail", 400 if q else 6000), ("jacobi", 400 if q else 6000)):
        res = run_tlc("MC_Distributed", {"Focus": focus, "Fs": {3, 4, 8, 16}}, CFG, simulate=walks, depth=80, seed=chk.seed, timeout=1500)
        chk.add_tlc(focus, res)
        lines = sorted(set(res.emitted))
        n = 0
        for i, l in enumerate(lines):
            c = json.loads(l)["c"]
            dist = focus != "fail" and proper(c) and i % 3 == 0
            n += dist
            jobs.append((l, dist))
        chk.add_traces(focus, len(lines), with_processes=n)
        chk.sample({k: v for k, v in json.loads(lines[len(lines) // 2]).items() if k in ("c", "inner", "outer", "errs")})
    for idx, kind, val in pmap(replay, jobs):
        if kind == "crash":
            chk.violate("crash", val, json.loads(jobs[idx][0]))
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    recs = []
    for idx, kind, val in pmap(blocks, graphs(chk, 250)):
        if kind == "crash":
            chk.violate("crash", val, idx)
        else:
            recs.append(val)
    judge(chk, "blocks", recs, few=False)
    chk.add_traces("blocks", len(recs))
    optima(chk)
    return chk.finish()
