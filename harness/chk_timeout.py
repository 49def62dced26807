"""C18: time limits, against Timeout.tla.  Time and alarms are virtual."""
import json
import signal
import time

from common import Check, MachineryError, diff, norm, pmap, run_tlc


class Killed(BaseException):
    """An alarm nobody handles ends the program."""


class Stop(BaseException):
    """The code left the path of the specification."""


class Clock:
    """Virtual time, and the alarm signal of a process."""

    def __init__(self):
        self.now = 1000.0
        self.due = None
        self.handler = signal.SIG_DFL

    def alarm(self, seconds):
        old = 0 if self.due is None else max(1, int(-(-(self.due - self.now) // 1)))
        if not isinstance(seconds, int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        self.due = self.now + seconds if seconds else None
        return old

    def setitimer(self, which, seconds, interval=0.0):
        if which != signal.ITIMER_REAL:
            raise MachineryError("another timer")
        if seconds < 0 or interval:
            raise MachineryError(f"setitimer({seconds}, {interval})")
        old = self.getitimer(which)
        self.due = self.now + seconds if seconds else None
        return old

    def getitimer(self, which):
        return (0.0 if self.due is None else max(self.due - self.now, 1e-6), 0.0)

    def signal(self, signum, handler):
        if signum != signal.SIGALRM:
            raise MachineryError("another signal")
        old, self.handler = self.handler, handler
        return old

    def getsignal(self, signum):
        return self.handler

    def work(self, seconds):
        until = self.now + seconds
        while self.due is not None and self.due <= until:
            self.now = max(self.now, self.due)
            self.due = None
            if self.handler == signal.SIG_IGN:
                continue
            if not callable(self.handler):
                raise Killed()
            self.handler(int(signal.SIGALRM), None)
        self.now = until


CLOCK = [None]


def install():
    """Before the code under test is imported: its alarms and clocks are ours."""
    for name in ("alarm", "setitimer", "getitimer", "signal", "getsignal"):
        real = getattr(signal, name)

        def fake(*a, _real=real, _name=name, **k):
            return _real(*a, **k) if CLOCK[0] is None else getattr(CLOCK[0], _name)(*a, **k)

        setattr(signal, name, fake)
    for name in ("monotonic", "time", "perf_counter"):
        real = getattr(time, name)
        setattr(time, name, lambda _real=real: _real() if CLOCK[0] is None else CLOCK[0].now)
    import yaocptool.util  # noqa: F401


class World:
    def __init__(self, log):
        from yaocptool.util import timeout

        self.make = timeout
        self.log = log
        self.pos = 0
        self.depth = 0
        self.objs = []
        self.rang = 0
        self.exc = None
        self.bad = None
        self.clock = CLOCK[0] = Clock()
        self.start = self.clock.now
        self.mode = log[0]["see"]["app"]
        self.clock.handler = self.app = {"count": self.app_handler, "ignore": signal.SIG_IGN, "default": signal.SIG_DFL}[self.mode]

    def app_handler(self, signum, frame):
        self.rang += 1

    def describe(self, at, exc):
        wraps = 0
        while isinstance(exc, RuntimeError) and str(exc) == "wrapped":
            wraps, exc = wraps + 1, exc.__cause__
        by = 0
        kind = {ValueError: "value", TimeoutError: "timeout"}.get(type(exc), f"{type(exc).__name__}: {exc}")
        if type(exc) is KeyError and str(exc) == "'swapped'":
            kind = "swap"
        if type(exc) is TimeoutError and str(exc) != "unrelated":
            kind, by = "limit", int(str(exc).split()[-1])
        return {"at": at, "by": by, "kind": kind, "wraps": wraps}

    def see(self, limits):
        outs = [{None: "none", True: "yes", False: "no"}.get(o.timedout, str(o.timedout)) for o in self.objs]
        idle = -1
        if not limits:
            idle = 0 if self.clock.due is None else (self.clock.due - self.start) * 4
            if self.clock.handler != self.app:
                idle = "the handler of the application is not back"
        return {"app": self.mode, "now": (self.clock.now - self.start) * 4, "depth": self.depth, "outs": outs, "rang": self.rang,
                "exc": self.exc or {"at": "", "by": 0, "kind": "", "wraps": 0}, "idle": idle}

    def fetch(self, limits):
        if self.pos:
            want = dict(self.log[self.pos - 1]["see"])
            got = self.see(limits)
            if want["idle"] > 0 and isinstance(got["idle"], float) and abs(got["idle"] - want["idle"]) < 1e-3:
                got["idle"] = want["idle"]
            got["outs"] = ["-" if i < len(want["outs"]) and want["outs"][i] == "-" else o for i, o in enumerate(got["outs"])]
            d = diff(norm(want), norm(json.loads(json.dumps(got))))
            if d:
                self.bad = {"clause": self.log[self.pos - 1]["op"]["op"], "detail": d}
                raise Stop()
        self.exc = None
        if self.pos == len(self.log):
            raise Stop()
        self.pos += 1
        return self.log[self.pos - 1]["op"]

    def run(self, limits):
        while True:
            op = self.fetch(limits)
            kind = op["op"]
            if kind == "enter":
                if op["o"] > len(self.objs):
                    self.objs.append(self.make(op["s"] // 4 if op["s"] % 4 == 0 else op["s"] / 4, raise_exc=op["r"], error_message=f"limit {op['o']}"))
                with self.objs[op["o"] - 1]:
                    self.inside(limits + 1)
            elif kind == "leave":
                return
            elif kind == "work":
                self.clock.work(op["d"] / 4)
            elif kind == "raise":
                raise ValueError("no") if op["k"] == "value" else TimeoutError("unrelated")
            elif kind == "alarm":
                self.clock.setitimer(signal.ITIMER_REAL, op["d"] / 4)
            elif kind == "try" and op["k"] == "catch":
                try:
                    self.inside(limits)
                except Exception as exc:
                    self.exc = self.describe("catch", exc)
            elif kind == "try" and op["k"] == "swap":
                try:
                    self.inside(limits)
                except Exception:
                    raise KeyError("swapped")
            elif kind == "try":
                try:
                    self.inside(limits)
                except Exception as exc:
                    raise RuntimeError("wrapped") from exc
            else:
                raise MachineryError(kind)

    def inside(self, limits):
        self.depth += 1
        try:
            self.run(limits)
        finally:
            self.depth -= 1

    def top(self):
        while True:
            try:
                self.run(0)
                raise MachineryError("left the outermost frame")
            except Stop:
                return
            except Killed:
                self.bad = {"clause": self.log[self.pos - 1]["op"]["op"], "detail": "an alarm went off that nobody handles"}
                return
            except MachineryError:
                raise
            except Exception as exc:
                self.exc = self.describe("top", exc)


def replay(ctx, line):
    log = json.loads(line)
    w = World(log)
    try:
        w.top()
    finally:
        CLOCK[0] = None
    if w.bad:
        return dict(w.bad, history=[s["op"] for s in log[: w.pos]])
    return None


CFG = "SPECIFICATION Spec\nCONSTANTS Pick <- {pick}\nCONSTRAINT {emit}\nCHECK_DEADLOCK FALSE\nINVARIANT Good\n"


def main(prop, tier):
    chk = Check(prop, tier)
    q = chk.quick
    lines = []
    for part, const, pick, emit, kw, limit in (
            ("depth4", {"D": 4, "Len_": 4}, "Every", "Emit", {}, None),
            ("walks", {"D": 13, "Len_": 12}, "One", "EmitEnd", {"simulate": 12000 if q else 150000, "depth": 12, "seed": chk.seed}, None),
            ("long", {"D": 31, "Len_": 30}, "One", "EmitEnd", {"simulate": 4000 if q else 60000, "depth": 30, "seed": chk.seed}, None)):
        res = run_tlc("MC_Timeout", const, CFG.format(pick=pick, emit=emit), timeout=900, **kw)
        chk.add_tlc(part, res)
        new = sorted(set(res.emitted))
        if limit and len(new) > limit:
            new = chk.rng.sample(new, limit)
        chk.add_traces(part, len(new))
        lines += new
    ops = {}
    for idx, kind, val in pmap(replay, lines, init=install):
        if kind == "crash":
            chk.violate("crash", val, json.loads(lines[idx]))
        elif val:
            chk.violate(val["clause"], val["detail"], val)
    for l in lines:
        for s in json.loads(l):
            name = s["op"]["op"] if s["op"]["op"] != "work" or not s["see"]["exc"]["at"] else "work, interrupted"
            ops[name] = ops.get(name, 0) + 1
    chk.cov["parts"]["operations"] = ops
    chk.sample(json.loads(lines[-1]))
    return chk.finish()
