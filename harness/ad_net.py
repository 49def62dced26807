"""Adapter: drives the real Network / Node with the operations of Network.tla."""
import json

from ad_ocp import OcpWorld, canon_pairs, canon_rows
from casadi import DM, SX
from common import MachineryError

SLOTS = ["a", "b", "c", "d", "e"]


def canon_model(m):
    """The order of the algebraic variables and equations of a composition carries no meaning."""
    n = len(m["x"] or []), len(m["y"] or [])
    names = m.pop("names")
    m["ynames"] = {k: names[n[0] + i] for i, k in enumerate(m["y"] or [])}
    m["names"] = names[: n[0]] + names[n[0] + n[1]:]
    m["y"] = sorted(m["y"] or [])
    m["alg"] = canon_rows(m["alg"])
    return m


def canon_problem(P):
    y = list(P["model"]["y"] or [])
    yg = P["yg"]["v"] if P["yg"]["has"] else [None] * len(y)
    P["ydata"] = {k: [a, b, c] for k, a, b, c in zip(y, P.pop("ymin") or [], P.pop("ymax") or [], yg or [])}
    P["yg"] = P["yg"]["has"]
    P["eqs"] = canon_pairs(P.pop("geq"), P.pop("tgeq"), True)
    P["ineqs"] = canon_pairs(P.pop("gineq"), P.pop("tgineq"), False)
    for k in ("h", "hi", "hf"):
        P[k] = canon_rows(P[k])
    canon_model(P["model"])
    return P


def canon(post, alias):
    post["edges"] = sorted(post["edges"] or [], key=lambda e: json.dumps(e, sort_keys=True))
    post["single"] = [canon_model(m) for m in post["single"] or []]
    post["problem"] = [canon_problem(P) for P in post["problem"] or []]
    if alias:
        for m in post["single"] + [P["model"] for P in post["problem"]] + list((post["models"] or {}).values()):
            m.pop("names")
            m.pop("ynames", None)
    return post


class NetWorld:
    def __init__(self, inter, pre, alias):
        from yaocptool.modelling.network.network import Network

        self.o = OcpWorld(SLOTS, alias=alias)
        self.o.light = True
        for op in pre:
            if self.o.apply(op) != "ok":
                raise MachineryError("prelude refused: " + json.dumps(op))
        self.inter = inter
        self.net = Network(name="net", intermediary_nodes=inter)
        self.obj = {}     # key -> Node
        self.edges = []   # pairs of keys, in the specification's order
        self.made = 0
        self.last_exc = None
        self.before = self.o.project()

    def apply(self, op):
        try:
            getattr(self, "do_" + op["op"])(op)
        except MachineryError:
            raise
        except Exception as exc:
            self.last_exc = exc
            return "rejected"
        return "ok"

    def key(self, node):
        for k, n in self.obj.items():
            if n is node:
                return k
        return "?" + repr(node)

    # -- operations ---------------------------------------------------------
    def do_newnode(self, op):
        from yaocptool.modelling.network.node import Node

        kw = {}
        if op["id"] >= 0:
            kw["node_id"] = op["id"]
        if op["name"]:
            kw["name"] = op["name"]
        if op["prob"]:
            kw["problem"] = self.o.ps[op["s"]]
            if op["how"] == "both":
                kw["model"] = self.o.ps[op["s"]].model
        else:
            kw["model"] = self.o.ms[op["s"]]
        self.obj[op["k"]] = Node(**kw)

    def do_include(self, op):
        from yaocptool.modelling.network.network import Network

        ns = [self.obj[k] for k in op["ks"]]
        if op["form"] == "init":
            if len(self.net.nodes):
                raise MachineryError("not the first nodes")
            self.net = Network(ns, name="net", intermediary_nodes=self.inter)
        elif op["form"] == "one":
            self.net.include_nodes(ns[0])
        else:
            self.net.include_nodes(ns)

    def middle(self, a, b):
        """Name the node that now stands between a and b, and its variables."""
        self.made += 1
        s = f"i{self.made}"
        g = self.net.graph
        new = [n for n in g.nodes if self.key(n).startswith("?") and g.has_edge(self.obj[a], n) and g.has_edge(n, self.obj[b])]
        if not new:
            return
        n = min(new, key=lambda n: (n.node_id is None, n.node_id))
        self.obj[s] = n
        m = n.model
        for kind, vec in (("u", m.u), ("y", m.y)):
            for i in range(vec.numel()):
                self.o.lb.put(f"{s}.{kind}{i + 1}", vec[i])
        self.o.lb.put("t:" + s, m.t)
        self.o.lb.put("tau:" + s, m.tau)
        self.wire(a, s)
        self.wire(s, b)

    def wire(self, a, b):
        if (a, b) not in self.edges:
            self.edges.append((a, b))

    def do_connect(self, op):
        lb = self.o.lb
        self.net.connect(lb.vec(op["ys"]), lb.vec(op["us"]), self.obj[op["a"]], self.obj[op["b"]])
        if self.inter:
            self.middle(op["a"], op["b"])
        else:
            self.wire(op["a"], op["b"])

    def do_disconnect(self, op):
        self.net.remove_connection(self.obj[op["a"]], self.obj[op["b"]])
        self.edges.remove((op["a"], op["b"]))

    def do_insert(self, op):
        nodes = [self.key(n) for n in self.net.nodes]
        self.net.insert_intermediary_nodes()
        old, self.edges = sorted(self.edges, key=lambda e: nodes.index(e[0]) if e[0] in nodes else -1), []
        for a, b in old:
            self.middle(a, b)

    # -- observation ----------------------------------------------------------
    def lookups(self):
        """Faults in finding nodes."""
        net = self.net
        bad = []
        nodes = list(net.nodes)
        names = [n.name for n in nodes]
        for n in nodes:
            if net[n.node_id] is not n or net.get_node_by_id(n.node_id) is not n:
                bad.append(f"net[{n.node_id}] is not {n}")
            if names.count(n.name) == 1 and (net[n.name] is not n or net.get_node_by_name(n.name) is not n):
                bad.append(f"net[{n.name!r}] is not {n}")
        for k, err in ((997, IndexError), ("no such node", KeyError)):
            try:
                bad.append(f"net[{k!r}] gives {net[k]}")
            except err:
                pass
        return bad

    def project(self):
        net, lb = self.net, self.o.lb
        nodes = list(net.nodes)
        out = {"nodes": {self.key(n): {"id": n.node_id, "name": n.name} for n in nodes},
               "models": {self.key(n): self.o.project_model(n.model) for n in nodes}}
        by_model = {id(n.model): self.key(n) for n in nodes}
        out["order"] = [by_model.get(id(m), "?") for m in net.models]
        if all(n.problem is not None for n in nodes):
            by_prob = {id(n.problem): self.key(n) for n in nodes}
            order = [by_prob.get(id(P), "?") for P in net.problems]
            if order != out["order"]:
                out["order"] = order
        out["edges"] = [{"a": self.key(a), "b": self.key(b), "y": lb.labels(SX(net.connections[a, b]["y"])),
                         "u": lb.labels(SX(net.connections[a, b]["u"]))} for a, b in net.connections]
        try:
            m = net.get_model()
            lb.put("t:net", m.t)
            lb.put("tau:net", m.tau)
            out["single"] = [self.o.project_model(m)]
        except Exception as exc:
            out["single"] = []
            self.model_exc = exc
        try:
            P = net.get_problem()
            lb.put("t:net", P.model.t)
            lb.put("tau:net", P.model.tau)
            out["problem"] = [self.o.project_problem(P)]
        except Exception as exc:
            out["problem"] = []
            self.problem_exc = exc
        return out

    def groups(self):
        idx = {id(n): i + 1 for i, n in enumerate(self.net.nodes)}
        return {"nodes": sorted(idx.values()), "edges": [[idx[id(a)], idx[id(b)]] for a, b in self.net.connections],
                "groups": [[idx.get(id(n), 0) for n in grp] for grp in self.net.get_map_coloring_groups()]}

    def initial_condition(self, t_f):
        """None, or what is wrong with get_initial_condition."""
        try:
            P = self.net.get_problem()
            fin = P.simulate(t_f=t_f).final_condition()
        except Exception:
            return None
        val = {}
        for kind, vec in (("x", P.model.x), ("y", P.model.y), ("u", P.model.u)):
            for i, l in enumerate(self.o.lb.labels(vec)):
                val[l] = float(fin[kind][i])
        if any(v != v for v in val.values()):
            return None
        got = self.net.get_initial_condition(t_f)
        names = [n.name for n in self.net.nodes]
        if sorted(got) != sorted(set(names)):
            return f"entries {sorted(got)} for nodes {sorted(names)}"
        for n in self.net.nodes:
            if names.count(n.name) > 1:
                continue
            for kind in ("x", "y", "u"):
                want = [val[l] for l in self.o.lb.labels(getattr(n.model, kind))]
                have = DM(got[n.name][kind]).full().reshape(-1).tolist()
                if len(want) != len(have) or any(abs(a - b) > 1e-4 * (1 + abs(a)) for a, b in zip(want, have)):
                    return f"{n.name} {kind}: the simulation ends at {want}, get_initial_condition says {have}"
        return True


def network(rec):
    """A network with the given connections."""
    from yaocptool.modelling import SystemModel
    from yaocptool.modelling.network.network import Network
    from yaocptool.modelling.network.node import Node

    n, edges = rec["n"], [tuple(e) for e in rec["edges"] or []]
    models, nodes = [], []
    for i in range(n):
        m = SystemModel(name=f"m{i}")
        m.create_state("x")
        m.create_control("u", max(1, sum(1 for e in edges if e[1] == i + 1)))
        models.append(m)
        nodes.append(Node(name=f"n{i}", model=m))
    net = Network(nodes)
    used = [0] * n
    for a, b in edges:
        net.connect(models[a - 1].x, models[b - 1].u[used[b - 1]], nodes[a - 1], nodes[b - 1])
        used[b - 1] += 1
    return net, nodes


def graph(rec):
    """A network with the given connections: its groups."""
    net, nodes = network(rec)
    idx = {id(x): i + 1 for i, x in enumerate(nodes)}
    return {"nodes": list(range(1, rec["n"] + 1)), "edges": [list(e) for e in rec["edges"] or []],
            "groups": [[idx.get(id(x), 0) for x in grp] for grp in net.get_map_coloring_groups()]}
