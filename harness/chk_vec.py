"""C20: vectors, thetas, polynomial pieces, against Vectors.tla."""
import json

from common import Check, MachineryError, diff, norm, pmap, run_tlc


def letters(seq):
    return "".join(seq or [])


def pattern(p):
    return letters(p["s"]) + ("$" if p["end"] else "")


def num(v):
    v = float(v)
    if v != v or v in (float("inf"), float("-inf")):
        return str(v)
    return round(v, 6) + 0.0


def column(m):
    from casadi import DM

    m = DM(m)
    if m.numel() and m.shape[1] != 1:
        return f"not a column: {m.shape}"
    return [num(x) for x in m.full().reshape(-1)]


class World:
    def sym(self, kind, name):
        from casadi import MX, SX

        return (SX if kind == "SX" else MX).sym(name)

    def vector(self, kind, names):
        from casadi import DM, MX, SX, vertcat

        syms = {n: self.sym(kind, n) for n in "abcde"}
        return syms, vertcat(*[syms[n] for n in names]) if names else ({"SX": SX, "MX": MX}[kind](0, 1))

    def index(self, op):
        from casadi import vertcat
        from yaocptool.util import find_variables_indices_in_vector

        syms, vec = self.vector(op["k"], op["vec"] or [])
        return [int(i) for i in find_variables_indices_in_vector(vertcat(*[syms[n] for n in op["var"]]), vec)]

    def remove(self, op):
        from casadi import vertcat
        from yaocptool.util import remove_variables_from_vector

        syms, vec = self.vector(op["k"], op["vec"] or [])
        before = [vec[i].name() for i in range(vec.numel())]
        out = remove_variables_from_vector(vertcat(*[syms[n] for n in op["var"]]), vec)
        if [vec[i].name() for i in range(vec.numel())] != before:
            return "the given vector was changed"
        return self.names(out, op)

    def names(self, out, op):
        from casadi import DM, Function, is_equal, vertcat

        if out.numel() and out.shape[1] != 1 or out.shape[1] > 1:
            return f"not a column: {out.shape}"
        return [out[i].name() for i in range(out.numel())]

    def removeat(self, op):
        from casadi import DM, Function, vertcat
        from yaocptool.util import remove_variables_from_vector_by_indices

        names = op["vec"] or []
        idx = list(op["idx"] or [])
        if op["k"] == "SX":
            syms, vec = self.vector("SX", names)
            out = remove_variables_from_vector_by_indices(idx, vec)
            res = self.names(out, op)
        else:
            table = {n: i + 1 for i, n in enumerate("abcde")}
            back = {v: k for k, v in table.items()}
            if op["k"] == "DM":
                vec = DM([table[n] for n in names]) if names else DM(0, 1)
                out = remove_variables_from_vector_by_indices(idx, vec)
                val = out
            else:
                syms, vec = self.vector("MX", names)
                out = remove_variables_from_vector_by_indices(idx, vec)
                val = Function("f", list(syms.values()), [out])(*[table[n] for n in syms])
            res = column(val)
            res = [back[int(v)] for v in res] if isinstance(res, list) else res
        if idx != list(op["idx"] or []):
            return "the given indices were changed"
        if out.shape != (out.numel(), 1):
            return f"not a column: {out.shape}"
        return res

    def find(self, op):
        from casadi import is_equal, vertcat
        from yaocptool.util import find_variables_in_vector_by_name

        vs = [self.sym("SX", letters(n)) for n in op["names"]]
        pats = [letters(p["s"]) if op["exact"] else pattern(p) for p in op["ps"]]
        arg = pats[0] if len(pats) == 1 else list(pats)
        out = find_variables_in_vector_by_name(arg, vertcat(*vs), exact=op["exact"])
        return [1 + [i for i, v in enumerate(vs) if is_equal(v, o)][0] for o in out]

    def lookup(self, op):
        from casadi import is_equal, vertcat
        from yaocptool.modelling import SystemModel

        m = SystemModel(name="m")
        groups = {t: [self.sym("SX", letters(n)) for n in op["all"][i] or []] for i, t in enumerate(("x", "y", "u", "p", "theta"))}
        m.include_variables(**{t: vs if op["listed"] else vertcat(*vs) for t, vs in groups.items() if vs})
        for t, vs in groups.items():
            held = getattr(m, t)
            if held.numel() != len(vs) or not all(is_equal(held[i], v) for i, v in enumerate(vs)):
                return f"{t} of the model: {held}"
        types = op["types"] or None
        if types and len(types) == 1:
            types = types[0]
        pat = pattern(op["ps"][0])
        out = [m.get_variable_by_name(pat, types)] if op["single"] else m.get_variables_by_names([pat] if op["listed"] else pat, types)
        return [[{"t": t, "i": i + 1} for t, vs in groups.items() for i, v in enumerate(vs) if is_equal(v, o)][0] for o in out]

    def join(self, op):
        from casadi import DM
        from yaocptool.util import join_thetas

        args = []
        for t in op["ts"]:
            t = list(t or [])
            if op["back"]:
                t = t[::-1]
            args.append(None if not t and op["none"] else {e["k"]: DM(e["v"]) if e["v"] else DM(0, 1) for e in t})
        before = [None if a is None else {k: column(v) for k, v in a.items()} for a in args]
        out = join_thetas(*args)
        res = [{"k": k, "v": column(v)} for k, v in sorted(out.items())]
        for v in out.values():
            if v.numel():
                v[0] = 99
        out.clear()
        if [None if a is None else {k: column(v) for k, v in a.items()} for a in args] != before:
            return "a given theta was changed, or changes with the result"
        return res

    def const(self, op):
        from casadi import DM, reshape
        from yaocptool.util import create_constant_theta

        v, r, c = op["v"], op["r"], op["c"]
        dim = r if c == 1 else (r, c)
        value = v[0] if len(v) == 1 else reshape(DM(v), r, c)
        out = create_constant_theta(value, dim, op["el"])
        res = [{"k": k, "v": column(x)} for k, x in sorted(out.items())]
        for k in list(out)[:1]:
            if out[k].numel():
                out[k][0] = 77
        again = [{"k": k, "v": column(x)} for k, x in sorted(out.items())]
        if again[1:] != res[1:]:
            return "the elements share their values"
        return res

    def approx(self, op):
        from casadi import DM, SX, Function, collocation_points, vertcat
        from yaocptool.util import create_polynomial_approximation

        deg, size, cs = op["deg"], op["size"], [list(c) for c in op["cs"] or []]
        tau = SX.sym("tau")
        names = [f"w{i}" for i in range(size)] if op["named"] else "w"
        pol, par = create_polynomial_approximation(tau, size, deg, name=names, point_at_zero=op["zero"])
        nodes = list(collocation_points(deg, "radau"))
        if op["zero"] and deg > 1:
            nodes = [0.0] + nodes
        if pol.shape != (size, 1) or par.numel() != size * len(nodes):
            return f"shapes {pol.shape} {par.shape}"
        if size == 0:
            return []
        val = [sum(c[k] * t**k for k in range(len(c))) for t in nodes for c in cs]
        f = Function("f", [tau, par], [pol])
        return [[num(64 * float(f(q / 4, DM(val))[i])) for q in range(9)] for i in range(size)]

    def time(self, op):
        from casadi import SX, Function
        from yaocptool.util import convert_expr_from_tau_to_time

        t, tau, w = SX.sym("t"), SX.sym("tau"), SX.sym("w")
        expr = sum(c * tau**k for k, c in enumerate(op["c"])) + w
        out = convert_expr_from_tau_to_time(expr, t, tau, op["tk"], op["tk"] + op["h"])
        f = Function("f", [t, w], [out])
        return [num(64 * (float(f(op["tk"] + op["h"] * q / 4, 5)) - 5)) for q in range(9)]

    def expm(self, op):
        from casadi import DM, MX, Function, sparsify
        from yaocptool.util import expm

        a = DM(op["A"])
        if op["sparse"]:
            a = sparsify(a)
        if op["sym"]:
            s = MX.sym("A", a.sparsity())
            out = Function("f", [s], [expm(s)])(a)
        else:
            out = expm(a)
        m = 6 * DM(out).full()
        return [[num(round(v)) if abs(v - round(v)) < 1e-2 else num(v) for v in row] for row in m]

    def watch(self, op):
        from yaocptool.util import Timer

        now = [float(op["a"])]
        t = Timer()
        t.timer = lambda: now[0]
        out = []
        for d in op["ds"] or []:
            with t:
                now[0] += d
            now[0] += 3
            out.append(num(t.elapsed_milisecs if op["ms"] else t.elapsed))
        if not op["ds"]:
            with t:
                return num(t.elapsed_milisecs if op["ms"] else t.elapsed)
        return out

    def rel(self, op):
        from yaocptool.util import is_equality, is_inequality

        x = self.sym(op["k"], "x")
        e = {"le": lambda: x <= 1, "lt": lambda: x < 1, "ge": lambda: x >= 1, "gt": lambda: x > 1, "eq": lambda: x == 1, "plus": lambda: x + 1,
             "number": lambda: 3.0, "ne": lambda: x != 1}[op["r"]]()
        return {"ineq": bool(is_inequality(e)), "eq": bool(is_equality(e))}


def replay(ctx, line):
    import yaocptool  # noqa: F401

    for s in json.loads(line):
        op = s["op"]
        try:
            got, exc = getattr(World(), op["op"])(op), None
        except MachineryError:
            raise
        except Exception as e:
            got, exc = None, e
        if not s["ok"]:
            if exc is None:
                return {"clause": op["op"], "detail": f"specification refuses, code gives {got}", "case": op}
            if not isinstance(exc, ValueError):
                return {"clause": op["op"], "detail": f"refused with {type(exc).__name__}: {str(exc)[:200]}", "case": op}
            continue
        if exc is not None:
            return {"clause": op["op"], "detail": f"{type(exc).__name__}: {str(exc)[:200]}", "case": op}
        d = diff(norm(s["out"]), norm(json.loads(json.dumps(got))))
        if d:
            return {"clause": op["op"], "detail": d, "case": op}
    return None


CFG = "SPECIFICATION Spec\nCONSTANTS Pick <- One\nCONSTRAINT EmitEnd\nCHECK_DEADLOCK FALSE\n"


def main(prop, tier):
    chk = Check(prop, tier)
    n = 6000 if chk.quick else 60000
    res = run_tlc("MC_Vectors", {"Len_": 8}, CFG, timeout=900, simulate=n, depth=10, seed=chk.seed)
    chk.add_tlc("cases", res)
    lines = sorted(set(res.emitted))
    chk.add_traces("cases", len(lines))
    for idx, kind, val in pmap(replay, lines):
        if kind == "crash":
            chk.violate("crash", val, json.loads(lines[idx]))
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    ops = {}
    for l in lines:
        for s in json.loads(l):
            name = s["op"]["op"] + ("" if s["ok"] else ", refused")
            ops[name] = ops.get(name, 0) + 1
    chk.cov["parts"]["operations"] = ops
    chk.sample(json.loads(lines[-1]))
    return chk.finish()
