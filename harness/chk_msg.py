"""C17: CasADi expressions between processes, against Messages.tla."""
import io
import json
import os
import pickle
import signal
import struct

from common import Check, MachineryError, diff, norm, pmap, run_tlc


def forking_dumps(obj):
    import multiprocessing as mp

    buf = io.BytesIO()
    mp.reduction.ForkingPickler(buf, pickle.HIGHEST_PROTOCOL).dump(obj)
    return buf.getvalue()


class Nest:
    """Writes a message of its own while the outer one is being written."""

    def __init__(self, content):
        self.content = content

    def __reduce__(self):
        return unnest, (forking_dumps(self.content),)


def unnest(data):
    return Nest(pickle.loads(data))


class Child:
    """Another process: reads messages and writes them again."""

    def __init__(self):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                while True:
                    data = read(a)
                    if data is None:
                        break
                    write(b, forking_dumps(pickle.loads(data)))
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    def relay(self, data):
        write(self.w, data)
        return read(self.r)

    def stop(self):
        os.close(self.w)
        os.close(self.r)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def read(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            part = os.read(fd, n - len(out))
            if not part:
                return None
            out += part
        return out

    head = exactly(8)
    return None if head is None else exactly(struct.unpack("q", head)[0])


def write(fd, data):
    os.write(fd, struct.pack("q", len(data)) + data)


class World:
    def __init__(self):
        self.syms = {}
        self.msgs = []
        self.child = Child()

    def sym(self, label, kind):
        from casadi import MX, SX

        name = "p" if label in ("p1", "p2") else label
        if (label, kind) not in self.syms:
            self.syms[label, kind] = (SX if kind == "SX" else MX).sym(name)
        return self.syms[label, kind]

    def expr(self, e, kind):
        from casadi import MX, SX

        out = (SX if kind == "SX" else MX)(0)
        for a in sorted(e or {}):
            out = out + ((e or {})[a] if a == "one" else e[a] * self.sym(a, kind))
        if e and len(e) == 1 and list(e.values()) == [1] and "one" not in e:
            return self.sym(list(e)[0], kind)
        return out

    def content(self, m, kind, form):
        from casadi import diagcat, vertcat

        items = [(t["k"], self.expr(t["e"], kind) if t["k"] == "e" else Nest(self.content(t["m"], kind, form))) for t in m or []]
        es = [v for k, v in items if k == "e"]
        if form in ("vec", "mat") and len(es) == len(items) and es:
            return {"form": form, "kind": kind, form: vertcat(*es) if form == "vec" else diagcat(*es)}
        if form == "dict":
            return {"form": form, "kind": kind, **{f"{i}": v for i, (k, v) in enumerate(items)}}
        return {"form": "list", "kind": kind, "items": [v for k, v in items]}

    def entries(self, c):
        if c["form"] == "vec" and "vec" in c:
            return [c["vec"][i] for i in range(c["vec"].numel())]
        if c["form"] == "mat" and "mat" in c:
            return [c["mat"][i, i] for i in range(c["mat"].size1())]
        if c["form"] == "dict":
            return [c[k] for k in sorted((k for k in c if k.isdigit()), key=int)]
        return c["items"]

    def see(self, c):
        """What can be said about a read message."""
        from casadi import DM, Function, densify, jacobian, symvar, vertcat

        items = self.entries(c)
        whole = c.get("vec", c.get("mat"))
        shape = [] if whole is None else [*whole.shape, whole.nnz()]
        es = [v for v in items if not isinstance(v, Nest)]
        inner = [self.see(v.content) for v in items if isinstance(v, Nest)]
        if not es:
            return {"syms": [], "consts": [], "inner": inner, "shape": shape}
        v = vertcat(*es)
        ss = symvar(v)
        if not ss:
            f = Function("f", [], [v])
            return {"syms": [], "consts": [round(float(x), 9) for x in DM(f()["o0"]).full().reshape(-1)], "inner": inner, "shape": shape}
        f = Function("f", ss, [densify(v), densify(jacobian(v, vertcat(*ss)))])
        val, jac = f(*[0] * len(ss))
        names = [s.name() for s in ss]
        jac = jac.full()
        return {"syms": [{"name": n, "row": [round(float(x), 9) for x in jac[:, i]]} for i, n in enumerate(names)],
                "consts": [round(float(x), 9) for x in val.full().reshape(-1)], "inner": inner, "shape": shape}

    def apply(self, op):
        if op["op"] == "dump":
            self.msgs.append(forking_dumps(self.content(op["m"], op["k"], op["f"])))
        elif op["op"] == "relay":
            back = self.child.relay(self.msgs[op["i"] - 1])
            if back is None:
                raise RuntimeError("the other process died while reading or writing")
            self.msgs.append(back)
        elif op["op"] == "restart":
            self.child.stop()
            self.child = Child()
        elif op["op"] == "load":
            return self.see(pickle.loads(self.msgs[op["i"] - 1]))
        else:
            raise MachineryError(op["op"])
        return None


def canon(v):
    v = dict(v)
    v["syms"] = sorted(v["syms"] or [], key=lambda s: json.dumps(s, sort_keys=True))
    v["inner"] = [canon(x) for x in v["inner"] or []]
    # a symbol with no part in any expression cannot be seen
    v["syms"] = [s for s in v["syms"] if any(s["row"])]
    return v


def replay(ctx, line):
    import yaocptool  # noqa: F401  installs the pickler

    log = json.loads(line)
    ops = [s["op"] for s in log]
    w = World()
    try:
        for i, s in enumerate(log):
            try:
                got = w.apply(s["op"])
            except MachineryError:
                raise
            except Exception as exc:
                return {"clause": s["op"]["op"], "detail": f"{type(exc).__name__}: {str(exc)[:200]}", "history": ops[: i + 1]}
            if s["op"]["op"] == "load":
                d = diff(norm(json.loads(json.dumps(canon(s["see"][0])))), norm(json.loads(json.dumps(canon(got)))))
                if d:
                    return {"clause": "what is read", "detail": d, "history": ops[: i + 1]}
    finally:
        w.child.stop()
    return None


CFG = "SPECIFICATION Spec\nCONSTANTS Pick <- {pick}\nCONSTRAINT {emit}\nCHECK_DEADLOCK FALSE\n"


def main(prop, tier):
    chk = Check(prop, tier)
    q = chk.quick
    lines = []
    for part, const, pick, emit, kw, limit in (
            ("depth2", {"D": 2, "Len_": 2}, "Every", "Emit", {}, None), ("depth3", {"D": 3, "Len_": 3}, "Every", "Emit", {}, 1500 if q else 8000),
            ("walks", {"D": 10, "Len_": 10}, "One", "EmitEnd", {"simulate": 800 if q else 8000, "depth": 10, "seed": chk.seed}, None),
            ("long", {"D": 24, "Len_": 20}, "One", "EmitEnd", {"simulate": 100 if q else 2000, "depth": 20, "seed": chk.seed}, None)):
        res = run_tlc("MC_Messages", const, CFG.format(pick=pick, emit=emit), timeout=900, **kw)
        chk.add_tlc(part, res)
        new = sorted(set(res.emitted))
        if limit and len(new) > limit:
            new = chk.rng.sample(new, limit)
        chk.add_traces(part, len(new))
        lines += new
    ops = {}
    for idx, kind, val in pmap(replay, lines):
        if kind == "crash":
            chk.violate("crash", val, json.loads(lines[idx]))
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    for l in lines:
        for s in json.loads(l):
            ops[s["op"]["op"]] = ops.get(s["op"]["op"], 0) + 1
    chk.cov["parts"]["operations"] = ops
    chk.sample(json.loads(lines[-1]))
    return chk.finish()
