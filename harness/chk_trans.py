"""C09, C10, C11: the direct method against Transcription.tla and Tracking.tla."""
import json
import zlib

from common import Check, pmap, run_tlc, short

CFG = """SPECIFICATION Spec
CONSTRAINT Emit
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Problems <- Probs
  Us <- USet
  Hs <- HSet
  Ps <- PSet
"""
CFG_TRACK = """SPECIFICATION Spec
CONSTRAINT Emit
INVARIANT Optimal
CHECK_DEADLOCK FALSE
CONSTANTS
  Problems <- Pick
"""
SUNDIALS = ("IDACalcIC", "IDASolve", "CVode returned", "IDA_", "CV_")


def key(q):
    return json.dumps({k: v for k, v in q.items() if k not in ("x0", "last")}, sort_keys=True) + str(q["last"][0] < 1000000)


def tag(q):
    return f"problem {q['name']} ({q['sch']}, {q['n']} elements, degree {q['deg']}, control degree {q['dc']}, t_0={q['t0']})"


def world(q, **kw):
    from ad_trans import TransWorld

    w = TransWorld(q, ts=7 if zlib.crc32(key(q).encode()) % 2 else 1, **kw)
    want = w.shape()
    if want != set(w.pos):
        odd = sorted(want ^ set(w.pos))[:4]
        return None, {"clause": "variables of the result", "detail": f"{tag(q)}: {odd}"}
    if len(set(w.pos.values())) != w.n:
        return None, {"clause": "variables of the result", "detail": f"{tag(q)}: {w.n} decision variables, the result shows {len(set(w.pos.values()))}"}
    return w, None


def replay(ctx, case):
    """feasibility and objective of every candidate of one problem"""
    recs = [json.loads(l) for l in case]
    q = recs[0]["q"]
    if not recs[0]["ok"]:
        try:
            world(q)
        except Exception:
            return []
        return [{"clause": "refusal", "detail": f"limits on the change of a polynomial control were accepted: {tag(q)}", "rec": recs[0]}]
    w, bad = world(q)
    if bad:
        return [bad]
    out = []
    for rec in recs:
        try:
            viol, f = w.judge(rec)
        except RuntimeError as exc:
            if any(s in str(exc) for s in SUNDIALS):  # the integrator gave up: no verdict
                continue
            raise
        what = f"{tag(q)}, p={rec['p']}, controls {[e['u'] for e in rec['els']]}, theta {[e['h'] for e in rec['els']]}"
        scale = max([1.0] + [abs(v) for v in w.vector(rec)])
        if rec["viol"] and viol < 1e-2:
            out.append({"clause": "infeasible trajectory accepted", "detail": f"violates {rec['viol']} but the NLP accepts it: {what}", "rec": rec})
        if not rec["viol"] and viol > 1e-5 * scale:
            out.append({"clause": "feasible trajectory refused", "detail": f"constraint violation {viol:.3g}: {what}", "rec": rec})
        if not rec["broken"] and abs(f - rec["cost"]) > 1e-5 * max(scale, abs(f)):
            out.append({"clause": "objective", "detail": f"specification says {rec['cost']}, NLP says {f:.9g}: {what}", "rec": rec})
        if len(out) > 3:
            break
    return out


def replay_calls(ctx, case):
    """histories of solve calls on one method object"""
    from ad_trans import flat

    recs = [json.loads(l) for l in case]
    q0 = recs[0]["q"]
    w, bad = world(q0)
    if bad:
        return [bad]
    out = []
    for i, rec in enumerate(recs):
        q = rec["q"]
        omit = []
        if q["x0"] == q["dx0"] and (i // 2) % 2 == 0:
            omit.append("x_0")
        if q["last"] == q["dlast"] and i % 2 == 0:
            omit.append("last_u")
        if not q["np1"] and i % 3 == 0:
            omit += ["p", "theta"]
        lists = i % 3 == 1
        viol, f = w.judge(rec, omit=omit, lists=lists)
        what = f"call {i} of {tag(q)}, x_0={q['x0']} last_u={q['last']} p={rec['p']} omitted {omit} theta {[e['h'] for e in rec['els']]} controls {[e['u'] for e in rec['els']]}"
        scale = max([1.0] + [abs(v) for v in w.vector(rec)])
        if (viol > 1e-5 * scale) != bool(rec["viol"]):
            out.append({"clause": "values that reach the NLP", "detail": f"violation {viol:.3g}, specification {rec['viol'] or 'feasible'}: {what}", "rec": rec})
        if not rec["broken"] and abs(f - rec["cost"]) > 1e-5 * max(scale, abs(f)):
            out.append({"clause": "objective", "detail": f"specification says {rec['cost']}, NLP says {f:.9g}: {what}", "rec": rec})
        d = w.report(rec) or (w.unchanged(rec, omit, lists) if not lists else None)
        if d:
            out.append({"clause": "result", "detail": f"{d}: {what}", "rec": rec})
        if len(out) > 3:
            break
    return out


def replay_guess(ctx, case):
    """the starting point of the solver"""
    from ad_trans import Doubled, dm, flat

    recs = [json.loads(l) for l in case]
    q = recs[0]["q"]
    out = []
    w, bad = world(q)
    if bad:
        return [bad]
    v, bad = world(q, initial_guess_heuristic="problem_info")
    if bad:
        return [bad]
    doubled, bad = world(q)
    if bad:
        return [bad]
    doubled.met.initial_guess_model = Doubled(doubled.prob.ocp.model)
    doubled.met.initial_guess_in_transform, doubled.met.initial_guess_out_transform = Doubled.enter, Doubled.leave
    for rec in recs:
        us = [e["u"] for e in rec["els"]]
        u = [us[0][0][0], us[0][1][0]]
        what = f"{tag(q)}, p={rec['p']}, u_guess={u}, theta {[e['h'] for e in rec['els']]}"
        hs = [e["h"] for e in rec["els"]]
        kinds = [(w, "simulation"), (v, "problem_info"), (doubled, "simulation in other coordinates")]
        if w.has_last:
            kinds.append((w, "simulation, last control"))
        elif u == [0, 0]:
            kinds += [(w, "simulation, no control"), (v, "problem_info")]
        for ww, kind in kinds:
            ww.prob.ocp.u_guess = dm(u) if kind in ("simulation", "simulation in other coordinates") or u != [0, 0] and kind == "problem_info" else None
            if kind == "simulation, last control":
                ww.prob.ocp.last_u = dm(u)
            vec = ww.vector(rec)
            if kind == "problem_info":
                y_guess = 7.0
                if q["hasy"]:
                    ww.prob.ocp.y_guess = dm([y_guess])
                for (k_, name, k, j), i in ww.pos.items():
                    if k_ == "x":
                        vec[i] = {"x1": q["dx0"][0], "x2": q["dx0"][1], "xc": 0}[name]
                    elif k_ == "y":
                        vec[i] = y_guess
            try:
                ww.solve(q, rec["p"], hs, vec, guess=False)
            except RuntimeError as exc:
                if any(s in str(exc) for s in SUNDIALS):
                    continue
                raise
            got = flat(ww.stub.call["initial_guess"])
            bad = [k for k, i in ww.pos.items() if i >= len(got) or abs(got[i] - vec[i]) > 1e-4 * max(1.0, abs(vec[i]))] if len(got) == len(vec) else ["size"]
            if bad:
                k = bad[0]
                det = f"size {len(got)} for {len(vec)} variables" if k == "size" else f"{k}: specification says {vec[ww.pos[k]]}, code says {got[ww.pos[k]]}"
                out.append({"clause": f"initial guess ({kind})", "detail": f"{det}: {what}", "rec": rec})
        # what the caller gives is used as it is
        g = [float(i % 7) - 3 for i in range(w.n)]
        w.stub.answer = g
        args = w.args(q, rec["p"], hs)
        w.met.solve(initial_guess=dm(g), **args)
        if flat(w.stub.call["initial_guess"]) != g:
            out.append({"clause": "initial guess (given)", "detail": what, "rec": rec})
        raw = {"x": dm(g), "lam_x": dm([1.0 + i for i in range(w.n)]), "lam_g": dm([2.0 + i for i in range(w.nlp.g.numel())])}
        w.met.solve(initial_guess_dict=raw, **args)
        c = w.stub.call
        out += [{"clause": "refusal", "detail": f"{d}: {what}", "rec": rec} for d in w.refusals(rec)]
        if flat(c["initial_guess"]) != g or flat(c["lam_x"]) != flat(raw["lam_x"]) or flat(c["lam_g"]) != flat(raw["lam_g"]):
            out.append({"clause": "warm start", "detail": what, "rec": rec})
        if len(out) > 3:
            break
    return out


def replay_track(ctx, line):
    """a real solve: the returned control is the optimum found by search"""
    from ad_trans import dm, flat, num, setup
    from casadi import DM, SX, vertcat
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    setup()
    rec = json.loads(line)
    q = rec["q"]
    out = []
    for sch in ("collocation", "multiple-shooting"):
        m = SystemModel(name="trk")
        x = m.create_state("x")
        u = m.create_control("u")
        p = m.create_parameter("p1")
        p2 = m.create_parameter("p2")
        h = m.create_theta("h1")
        m.include_equations(ode=u)
        ocp = OptimalControlProblem(m, x_0=[9.0], t_0=float(q["t0"]), t_f=float(q["t0"] + q["n"] * q["dt"]))
        ocp.L = (u - h - p) ** 2
        ocp.V = (p2 - q["w"]) ** 2
        ocp.u_min, ocp.u_max = DM(num(q["ub"][0])), DM(num(q["ub"][1]))
        ocp.delta_u_min, ocp.delta_u_max = DM(num(q["dub"][0])), DM(num(q["dub"][1]))
        ocp.set_parameter_as_optimization_parameter(p2, DM(q["pb"][0]), DM(q["pb"][1]))
        kw = {}
        if q["last"] < 1000:
            ocp.last_u = DM(3)
            kw["last_u"] = DM(q["last"])
        met = DirectMethod(ocp, discretization_scheme=sch, finite_elements=q["n"], degree=2)
        res = met.solve(p=dm([q["p1"], 0]), theta={k: dm([q["h"][k]]) for k in range(q["n"])}, x_0=dm([q["x0"], 0]), **kw)
        what = f"{sch} {json.dumps(q)}"
        if not res.success:
            out.append({"clause": "solve", "detail": f"the solver did not succeed ({res.stats.get('return_status')}): {what}"})
            continue
        near = lambda a, b: len(a) == len(b) and all(abs(x - y) <= 2e-3 for x, y in zip(a, b))
        us = [flat(res.u_data["values"][k][0])[0] for k in range(q["n"])]
        want = [v / 6 for v in rec["u"]]
        if not near(us, want):
            out.append({"clause": "optimal control", "detail": f"specification says {want}, code says {us}: {what}"})
        xs = [flat(res.x_data["values"][k + 1][0])[0] for k in range(q["n"])]
        wx = [v / 6 for v in rec["x"]]
        if not near(xs, wx):
            out.append({"clause": "optimal state", "detail": f"specification says {wx}, code says {xs}: {what}"})
        if not near(flat(res.p_opt), [rec["p2"]]) or not near(flat(res.p), [q["p1"], rec["p2"]]):
            out.append({"clause": "optimal parameter", "detail": f"specification says {rec['p2']}, code says {flat(res.p_opt)} {flat(res.p)}: {what}"})
        if abs(float(res.objective_opt_problem) - rec["v"] / 36) > 2e-3 * max(1, rec["v"] / 36):
            out.append({"clause": "optimal value", "detail": f"specification says {rec['v'] / 36}, code says {float(res.objective_opt_problem)}: {what}"})
    return out


def groups(lines, size):
    by = {}
    for l in lines:
        by.setdefault(key(json.loads(l)["q"]), []).append(l)
    out = []
    for ls in by.values():
        out += [ls[i:i + size] for i in range(0, len(ls), size)]
    return out, len(by)


def collect(chk, part, fn, cases, count, **extra):
    for idx, kind, val in pmap(fn, cases):
        if kind == "crash":
            c = cases[idx]
            chk.violate("crash", val + " in " + tag(json.loads(c[0])["q"]) if isinstance(c, list) else val, c if isinstance(c, str) else c[0])
        else:
            for v in val:
                chk.violate(v["clause"], v["detail"], v)
    chk.add_traces(part, count, **extra)


def candidates(chk, focus, ns, faults, limit=None):
    cfg = CFG.replace("USet", "UFlat") if focus == "guess" else CFG
    res = run_tlc("MC_Transcription", {"Focus": focus, "Schemes": {"coll", "ms"}, "Ns": set(ns), "WithFaults": faults}, cfg, timeout=1500, workers=8)
    chk.add_tlc(f"{focus}-{max(ns)}", res)
    lines = sorted(res.emitted)
    if limit and len(lines) > limit:
        lines = chk.rng.sample(lines, limit)
    return lines


def verdicts(lines):
    out = {}
    for l in lines:
        rec = json.loads(l)
        for v in rec["viol"] or ["feasible"]:
            out[v] = out.get(v, 0) + 1
    return out


def feasibility(chk, focus, ns, faults, limit=None):
    lines = candidates(chk, focus, ns, faults, limit)
    cases, n = groups(lines, 200)
    collect(chk, f"{focus}-{max(ns)}", replay, cases, len(lines), problems=n, verdicts=verdicts(lines))
    chk.sample(json.loads(lines[len(lines) // 2]))


def main(prop, tier=None):
    chk = Check(prop, tier)
    q = chk.quick
    if prop == "C09":
        feasibility(chk, "traj", {1, 2}, True, 24000 if q else None)
        if not q:
            feasibility(chk, "traj", {3}, False)
            feasibility(chk, "traj", {3}, True, 120000)
    elif prop == "C10":
        feasibility(chk, "cons", {1, 2}, False)
        feasibility(chk, "start", {1, 2}, True, 4000 if q else None)
        feasibility(chk, "cons", {3}, False, 12000 if q else None)
        if not q:
            feasibility(chk, "cons", {2}, True)
    elif prop == "C11":
        lines = candidates(chk, "calls", {1, 2} if q else {1, 2, 3}, False, None if q else 60000)
        chk.rng.shuffle(lines)
        cases, n = groups(lines, 60)
        collect(chk, "calls", replay_calls, cases, len(lines), problems=n, verdicts=verdicts(lines))
        flat = []
        lines = candidates(chk, "guess", {1, 2} if q else {1, 2, 3}, False)
        for l in lines:
            rec = json.loads(l)
            if rec["q"]["x0"] == rec["q"]["dx0"] and all(e["u"] == [[e["u"][0][0]] + [0] * 5, [e["u"][1][0]] + [0] * 5] for e in rec["els"]) \
                    and all(e["u"] == rec["els"][0]["u"] for e in rec["els"]):
                flat.append(l)
        cases, n = groups(flat, 40)
        collect(chk, "guess", replay_guess, cases, len(flat), problems=n)
        res = run_tlc("MC_Tracking", {"Ns": {1, 2} if q else {1, 2, 3}}, CFG_TRACK, timeout=3000)
        chk.add_tlc("tracking", res)
        lines = sorted(res.emitted)
        collect(chk, "tracking", replay_track, lines, len(lines))
        chk.sample(json.loads(lines[len(lines) // 2]))
    return chk.finish()
