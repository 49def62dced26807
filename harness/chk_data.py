"""C15: DataSet and SimulationResult against DataSet.tla."""
import json

from common import Check, diff, norm, pmap, run_tlc

CFG = """SPECIFICATION Spec
CONSTANTS Pick <- {pick}
CONSTRAINT {constraint}
CHECK_DEADLOCK FALSE
INVARIANTS Shapes MergeKeeps SortIdem
"""
PROPS = "VIEW View\nPROPERTIES RejectedChangesNothing OnlyNamedChange\n"


def replay(ctx, case):
    from ad_data import World, cells, expected_lines, project

    kind, line = case
    rec = json.loads(line)
    w = World(kind)
    ops = [s["op"] for s in rec["log"]]
    try:
        for i, step in enumerate(rec["log"]):
            op = step["op"]
            out, val = w.apply(op)
            where = {"history": ops[: i + 1]}
            if out != step["out"]:
                exc = f" ({type(w.last_exc).__name__}: {str(w.last_exc)[:200]})" if out == "rejected" else ""
                return {"clause": f"outcome of {op['op']}", "detail": f"specification says {step['out']}, code {out}{exc}", **where}
            if op["op"] == "plot" and out == "ok":
                if isinstance(val, str):
                    return {"clause": "figures of a plot", "detail": val, **where}
                d = diff(expected_lines(step["val"]), val)
                if d:
                    return {"clause": "lines of a plot", "detail": d, **where}
        for d in (1, 2):
            post = rec["post"][d - 1]
            st = post["st"]
            where = {"history": ops}
            got = project(w.ds[d])
            dd = diff(norm(st["en"]), norm(got))
            if dd:
                return {"clause": f"contents of data set {d}", "detail": dd, **where}
            if kind == "sim":
                ds = w.ds[d]
                dd = diff({k: st[k] for k in ("t0", "tf", "fe")}, {"t0": int(ds.t_0), "tf": int(ds.t_f), "fe": ds.finite_elements})
                if dd:
                    return {"clause": "time span of the result", "detail": dd, **where}
                en = st["en"]
                if all(en[e]["size"] != -1 for e in "xyu"):
                    dd = diff([en["x"]["size"], en["y"]["size"], en["u"]["size"], en["x"]["names"], en["y"]["names"], en["u"]["names"]],
                              [ds.n_x, ds.n_y, ds.n_u, list(ds.x_names), list(ds.y_names), list(ds.u_names)])
                    if dd:
                        return {"clause": "sizes and names of the result", "detail": dd, **where}
                    for e, cols in (("x", ds.x), ("y", ds.y), ("u", ds.u)):
                        dd = diff([p["v"] for p in en[e]["pts"]], [[int(v) for v in c.full().reshape(-1)] for c in cols])
                        if dd:
                            return {"clause": f"columns of {e}", "detail": dd, **where}
                    dd = diff([p["t"] for p in en["x"]["pts"]], [int(v) for v in ds.t.full().reshape(-1)])
                    if dd:
                        return {"clause": "times of the result", "detail": dd, **where}
                    if all(en[e]["pts"] for e in "xyu"):
                        fc = ds.final_condition()
                        dd = diff({e: en[e]["pts"][-1]["v"] for e in "xyu"}, {e: [int(v) for v in fc[e].full().reshape(-1)] for e in "xyu"})
                        if dd:
                            return {"clause": "final condition", "detail": dd, **where}
            if post["framable"] and st["en"]:
                try:
                    cs, times = cells(w.ds[d])
                except Exception as exc:
                    return {"clause": "table of the data set", "detail": f"{type(exc).__name__}: {str(exc)[:200]}", **where}
                dd = diff(sorted([c["t"], c["e"], c["n"], c["v"]] for c in post["cells"]), cs) or \
                    diff(sorted({p["t"] for en in st["en"].values() for p in en["pts"]}), times)
                if dd:
                    return {"clause": "table of the data set", "detail": dd, **where}
    finally:
        w.close()
    return None


def main(prop, tier):
    chk = Check(prop, tier)
    res = run_tlc("MC_DataSet", {"Kind": "data", "Len_": 0, "D": 4 if chk.quick else 5}, CFG.format(pick="Every", constraint="Depth") + PROPS,
                  workers=8, timeout=3000)
    chk.add_tlc("model", res)
    for kind, n, length in (("data", 1000, 18), ("sim", 800, 18)) if chk.quick else (("data", 40000, 24), ("sim", 25000, 24)):
        res = run_tlc("MC_DataSet", {"Kind": kind, "Len_": length, "D": 0}, CFG.format(pick="One", constraint="Emit"), simulate=n, depth=length,
                      seed=chk.seed, timeout=3000)
        chk.add_tlc("walks " + kind, res)
        cases = [(kind, l) for l in sorted(res.emitted)]
        ops = {}
        for idx, k, val in pmap(replay, cases):
            if k == "crash":
                chk.violate("crash", val, cases[idx][1])
            elif val:
                chk.violate(val["clause"], val["detail"], val)
        for _, l in cases:
            for s in json.loads(l)["log"]:
                key = s["op"]["op"] + ("" if s["out"] == "ok" else " rejected")
                ops[key] = ops.get(key, 0) + 1
        chk.add_traces("walks " + kind, len(cases), operations=ops)
        if cases:
            chk.sample({"kind": kind, "history": [s["op"] for s in json.loads(cases[0][1])["log"]]})
    return chk.finish()
