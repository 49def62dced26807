"""Replay of DataSet.tla walks on yaocptool.modelling.DataSet / SimulationResult."""
import os
import pickle
import re
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import pandas  # noqa: E402
from casadi import DM  # noqa: E402

try:  # the installed seaborn asks for an option which the installed pandas no longer has
    pandas.get_option("mode.use_inf_as_null")
except Exception:  # noqa
    from pandas._config import config as _config

    _config.register_option("mode.use_inf_as_null", False)

SIZES = {"x": (2, ["x_0", "x_1"]), "y": (1, ["yn"]), "u": (1, ["u_0"])}


def build(rec):
    from yaocptool.modelling import DataSet, SimulationResult

    if rec["kind"] == "data":
        return DataSet(name="d")
    return SimulationResult(n_x=2, n_y=1, n_u=1, x_names=["x_0", "x_1"], y_names=["yn"], u_names=["u_0"],
                            t_0=rec["t0"], t_f=rec["tf"], finite_elements=rec["fe"])


def number(v):
    f = float(v)
    return int(f) if f == int(f) else f


def project(ds):
    en = {}
    for e in ds.data:
        time, values = ds.get_entry(e)
        size = ds.get_entry_size(e)
        n = time.numel()
        if values.shape[1] != n and not (n == 0 and values.numel() == 0):
            raise ValueError(f"entry {e}: {n} times for values of shape {values.shape}")
        if n and size is not None and values.shape[0] != size:
            raise ValueError(f"entry {e}: size {size} for values of shape {values.shape}")
        full, tt = values.full(), time.full().reshape(-1)
        en[e] = {"size": -1 if size is None else size, "names": list(ds.get_entry_names(e)), "style": ds.data[e].plot_style,
                 "pts": [{"t": number(tt[i]), "v": [number(full[r, i]) for r in range(values.shape[0])]} for i in range(n)]}
    return en


def cells(ds):
    df = ds.as_dataframe()
    out = []
    for t, row in df.iterrows():
        for (e, n), v in row.items():
            if v == v:
                out.append([number(t), e, n, number(v)])
    times = sorted(number(t) for t in df.index)
    if len(times) != len(set(times)):
        raise ValueError(f"several rows for one time: {times}")
    return sorted(out), times


class World:
    def __init__(self, kind):
        if kind == "sim":
            self.ds = {1: build({"kind": "sim", "t0": 0, "tf": 3, "fe": 2}), 2: build({"kind": "sim", "t0": 3, "tf": 5, "fe": 4})}
        else:
            self.ds = {1: build({"kind": "data"}), 2: build({"kind": "data"})}
        self.tmp = tempfile.mkdtemp(prefix="verif_ds_")
        self.n = 0
        self.given = []  # lists handed over by the caller, which must stay as they were

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def apply(self, op):
        """Returns (outcome, value)."""
        try:
            return "ok", getattr(self, "op_" + op["op"])(op)
        except Exception as exc:  # noqa
            self.last_exc = exc
            return "rejected", None

    def op_create(self, op):
        kw = {}
        if op["names"] != ["default"]:
            kw["names"] = list(op["names"])
        self.ds[op["d"]].create_entry(op["e"], None if op["size"] == -1 else op["size"], plot_style=op["style"], **kw)

    def op_insert(self, op):
        ts, cols, rows = op["ts"], op["cols"], op["rows"]
        value = DM.zeros(rows, len(cols))
        for i, col in enumerate(cols):
            for r, v in enumerate(col):
                value[r, i] = v
        if op["form"] == "float":
            time = float(ts[0])
        elif op["form"] == "int":
            time = int(ts[0])
        elif op["form"] == "list":
            time = [float(t) for t in ts]
        else:
            time = DM.zeros(1, len(ts))
            for i, t in enumerate(ts):
                time[0, i] = t
        self.ds[op["d"]].insert_data(op["e"], time, value)
        # the caller goes on using its own objects
        if value.numel():
            value[0, 0] = -99
        if isinstance(time, DM) and time.numel():
            time[0, 0] = -99

    def op_sort(self, op):
        if op["es"]:
            self.ds[op["d"]].sort(list(op["es"]))
        else:
            self.ds[op["d"]].sort()

    def op_extend(self, op):
        self.ds[op["d"]].extend(self.ds[op["o"]])

    def op_copy(self, op):
        self.ds[op["o"]] = self.ds[op["d"]].get_copy()

    def op_save(self, op):
        self.n += 1
        path = os.path.join(self.tmp, f"new{self.n}", "deeper", "data.p") if self.n % 2 else os.path.join(self.tmp, "data.p")
        self.ds[op["d"]].save(path)
        with open(path, "rb") as fh:
            self.ds[op["o"]] = pickle.load(fh)

    def op_poke(self, op):
        self.ds[op["d"]].data[op["e"]].values[op["r"] - 1, op["i"] - 1] = op["v"]

    def op_rename(self, op):
        self.ds[op["d"]].data[op["e"]].names[op["r"] - 1] = op["n"]

    def op_plot(self, op):
        plt.close("all")
        figs = [plt.figure(50 + 3 * i) for i in range(op["nfig"])]
        sels = []
        for sel in op["sels"]:
            out = {}
            for e, items in sel.items():
                if items[0]["k"] == "all":
                    out[e] = "all"
                else:
                    out[e] = [it["i"] if it["k"] == "idx" else it["n"] if it["k"] == "name"
                              else "(" + "|".join(re.escape(x) for x in sorted(it["s"])) + ")$" for it in items]
            sels.append(out)
        before = repr(sels), list(figs)
        kw = {"figures": figs} if figs else {}
        try:
            if op["form"] == "list":
                used = self.ds[op["d"]].plot(sels, show=False, exact=op["exact"], **kw)
            elif op["form"] == "all":
                used = self.ds[op["d"]].plot("all", show=False, exact=op["exact"])
            elif op["form"] == "default":
                used = self.ds[op["d"]].plot(show=False, exact=op["exact"])
            else:
                used = self.ds[op["d"]].plot(*sels, show=False, exact=op["exact"], **kw)
            if len(used) != len(sels) or len({f.number for f in used}) != len(sels):
                return f"{len(used)} figures for {len(sels)} plots"
            for i, f in enumerate(figs[: len(sels)]):
                if used[i] is not f:
                    return f"plot {i} is not drawn on the given figure"
            got = []
            for f in used:
                lines = []
                for ax in f.axes:
                    for ln in ax.lines:
                        pts = sorted([number(a), number(b)] for a, b in zip(ln.get_xdata(), ln.get_ydata()))
                        lines.append([ln.get_label(), "step" if ln.get_drawstyle() == "steps-post" else "plot", pts])
                got.append(sorted(lines))
            for f in figs[len(sels):]:
                if any(ax.lines for ax in f.axes):
                    return "a figure without a plot was drawn on"
            return got
        finally:
            plt.close("all")
            if (repr(sels), list(figs)) != before:
                self.last_exc = None
                raise AssertionError("the caller's plot list was changed")


def expected_lines(val):
    out = []
    for per in val["lines"]:
        lines = []
        for e, ls in (per.items() if isinstance(per, dict) else []):
            for ln in ls:
                lines.append([ln["label"], ln["style"], sorted([p[0], p[1]] for p in ln["pts"])])
        out.append(sorted(lines))
    return out
