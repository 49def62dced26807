"""Shared machinery: TLC runner, crash-proof parallel replay, verdicts, evidence."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The checking machinery itself failed (never a verdict about the code)."""


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla_value(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.emitted = []
        self.text = []


def run_tlc(module, constants=None, config="", timeout=600, workers=1, simulate=None, depth=None,
            seed=None, on_line=None, files=None, heap="6g"):
    """Run TLC on spec/<module>.tla.  Lines printed as quoted JSON are collected."""
    tmp = tempfile.mkdtemp(prefix="verif_tlc_")
    try:
        for name in os.listdir(SPEC):
            if name.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, name), tmp)
        for name, content in (files or {}).items():
            with open(os.path.join(tmp, name), "w") as fh:
                fh.write(content)
        cfg = os.path.join(tmp, module + ".cfg")
        top = module
        structured = {k: v for k, v in (constants or {}).items() if isinstance(v, (list, tuple, set, frozenset, dict))}
        if structured:  # a configuration file holds only scalars: define the rest in a module
            top = "Run_" + module
            with open(os.path.join(tmp, top + ".tla"), "w") as fh:
                fh.write(f"---- MODULE {top} ----\nEXTENDS {module}\n")
                fh.write("".join(f"Run_{k} == {tla_value(v)}\n" for k, v in structured.items()) + "====\n")
        with open(cfg, "w") as fh:
            if constants:
                fh.write("CONSTANTS\n" + "\n".join(f"  {k} <- Run_{k}" if k in structured else f"  {k} = {tla_value(v)}"
                                                   for k, v in constants.items()) + "\n")
            fh.write(config)
        cmd = ["java", "-Xss64m", "-XX:+UseParallelGC", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE", "-config", cfg]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 30)]
            if seed is not None:
                cmd += ["-seed", str(seed)]
        cmd.append(top + ".tla")
        res = TLCResult()
        proc = subprocess.Popen(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        deadline = time.time() + timeout
        timer = None
        import threading
        timer = threading.Timer(timeout, proc.kill)
        timer.start()
        try:
            for line in proc.stdout:
                line = line.rstrip("\n")
                if line.startswith('"'):
                    payload = json.loads(line)
                    if on_line:
                        on_line(payload)
                    else:
                        res.emitted.append(payload)
                else:
                    res.text.append(line)
            proc.wait()
        finally:
            timer.cancel()
        text = "\n".join(res.text)
        if time.time() > deadline:
            raise MachineryError(f"TLC timed out on {module}\n{text[-2000:]}")
        if proc.returncode != 0 or "Error:" in text:
            raise MachineryError(f"TLC failed on {module} rc={proc.returncode}\n{text[-6000:]}")
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", text):
            res.generated = int(m.group(1).replace(",", ""))
            res.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", text)
        if m and not res.generated:
            res.generated = res.distinct = int(m.group(1).replace(",", ""))
        if simulate and os.environ.get("VERIF_DEBUG"):
            print(f"DEBUG {module}: {len(res.emitted)} emitted of {simulate} walks", file=sys.stderr)
        m = re.search(r"depth of the complete state graph search is (\d+)", text)
        if m:
            res.depth = int(m.group(1))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------
# crash-proof parallel map over cases
# --------------------------------------------------------------------------
def coverage_start():
    """With VERIF_COV=<directory>: which lines of the code under test the replays reach (tools/coverage.sh)."""
    where = os.environ.get("VERIF_COV")
    if not where:
        return lambda: None
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "yaocptool")
    mon, hit = sys.monitoring, set()
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def on_line(code, line):
        if code.co_filename.startswith(root):
            hit.add((code.co_filename[len(root) + 1:], line))
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def dump():
        with open(os.path.join(where, f"{os.getpid()}.json"), "w") as fh:
            json.dump(sorted(hit), fh)

    return dump


def _worker(conn, fn, items, init):
    sys.stdout = open(os.devnull, "w")
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    except OSError:
        pass
    dump = coverage_start()
    ctx = init() if init else None
    for idx, item in items:
        conn.send(("start", idx, None))
        try:
            out = fn(ctx, item)
        except MachineryError as exc:
            conn.send(("machinery", idx, str(exc)))
            continue
        except BaseException:  # noqa: the code under test may raise anything
            conn.send(("raised", idx, "unexpected exception: " + traceback.format_exc()[-1500:]))
            continue
        conn.send(("done", idx, out))
    dump()
    conn.send(("end", -1, None))
    conn.close()


def pmap(fn, cases, init=None, nproc=NPROC, case_timeout=60.0, stop_after=25, budget=None):
    """Apply fn(ctx, case) to every case in forked workers.

    Yields (index, kind, value): kind 'done' with fn's value, or 'crash' when
    the worker died (e.g. a segfault) or hung on that case.
    """
    cases = list(enumerate(cases))
    if not cases:
        return
    nproc = max(1, min(nproc, len(cases)))
    ctx = mp.get_context("fork")
    # small interleaved batches, so that a slow region is spread over workers
    queues = [cases[i::nproc] for i in range(nproc)]
    live = {}
    deadline = time.time() + budget if budget else None

    def spawn(queue):
        parent, child = ctx.Pipe(False)
        proc = ctx.Process(target=_worker, args=(child, fn, queue, init), daemon=True)
        proc.start()
        child.close()
        live[parent] = [proc, queue, None, time.time()]

    for q in queues:
        spawn(q)
    from multiprocessing.connection import wait
    crashes = 0
    while live:
        ready = wait(list(live), timeout=1.0)
        now = time.time()
        for conn in ready:
            rec = live[conn]
            try:
                kind, idx, val = conn.recv()
            except (EOFError, ConnectionResetError):
                rec[0].join(5)
                cur = rec[2]
                del live[conn]
                if cur is None and not rec[1]:
                    continue
                idx = cur if cur is not None else rec[1][0][0]
                crashes += 1
                yield idx, "crash", f"worker died with exit code {rec[0].exitcode}"
                rest = [c for c in rec[1] if c[0] > idx]
                if rest and crashes < stop_after:
                    spawn(rest)
                continue
            rec[3] = now
            if kind == "start":
                rec[2] = idx
            elif kind == "done":
                yield idx, "done", val
            elif kind == "raised":
                yield idx, "crash", val
            elif kind == "machinery":
                for c in live.values():
                    c[0].kill()
                raise MachineryError(val)
            elif kind == "end":
                rec[0].join(5)
                del live[conn]
        for conn in list(live):
            rec = live[conn]
            if conn not in ready and now - rec[3] > case_timeout:
                rec[0].kill()
                rec[0].join(5)
                del live[conn]
                idx = rec[2] if rec[2] is not None else rec[1][0][0]
                crashes += 1
                yield idx, "crash", f"no answer within {case_timeout:.0f} s"
                rest = [c for c in rec[1] if c[0] > idx]
                if rest and crashes < stop_after:
                    spawn(rest)
        if deadline and now > deadline:
            for rec in live.values():
                rec[0].kill()
            return


# --------------------------------------------------------------------------
# comparison
# --------------------------------------------------------------------------
def norm(v):
    """JSON-normal form: empty functions come out of TLC as []."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()} if v else []
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def diff(exp, got, path=""):
    """First difference between two JSON values, as text, or None."""
    if isinstance(exp, (list, tuple)) and isinstance(got, dict) and not exp and not got:
        return None
    if isinstance(exp, dict) and isinstance(got, (list, tuple)) and not exp and not got:
        return None
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in sorted(set(exp) | set(got), key=str):
            if k not in exp:
                return f"{path}.{k}: specification has no such entry, code has {short(got[k])}"
            if k not in got:
                return f"{path}.{k}: specification says {short(exp[k])}, code has no such entry"
            d = diff(exp[k], got[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(exp) != len(got):
            return f"{path}: specification says {short(exp)}, code says {short(got)}"
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(exp, bool) or isinstance(got, bool):
        return None if exp is got else f"{path}: specification says {exp}, code says {got}"
    if isinstance(exp, (int, float)) and isinstance(got, (int, float)):
        return None if exp == got else f"{path}: specification says {exp}, code says {got}"
    return None if exp == got else f"{path}: specification says {short(exp)}, code says {short(got)}"


def short(v, n=300):
    s = json.dumps(v, default=str)
    return s if len(s) <= n else s[: n - 3] + "..."


# --------------------------------------------------------------------------
# one check run
# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.violations = []
        self.known_hit = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "parts": {}}
        self.known = []
        stale = os.path.join(EVID, "replay", prop + ".json")
        if os.path.exists(stale):
            os.remove(stale)
        # lines "known: {json}" list findings, "fixed: ..." lines suppress nothing
        path = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(path):
            with open(path) as fh:
                for line in fh:
                    if line.startswith("known:"):
                        rec = json.loads(line[6:])
                        if rec.get("property") == prop:
                            self.known.append(rec)

    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def add_tlc(self, part, res):
        self.cov["states"] += res.distinct
        self.cov["transitions"] += res.generated
        p = self.cov["parts"].setdefault(part, {})
        p["tlc_states_distinct"] = p.get("tlc_states_distinct", 0) + res.distinct
        p["tlc_states_generated"] = p.get("tlc_states_generated", 0) + res.generated

    def add_traces(self, part, n, **extra):
        self.cov["traces_validated_against_impl"] += n
        p = self.cov["parts"].setdefault(part, {})
        p["traces"] = p.get("traces", 0) + n
        for k, v in extra.items():
            if isinstance(v, dict):
                d = p.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                p[k] = v

    def sample(self, obj, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(obj)

    def violate(self, clause, detail, replay=None, finding_key=None):
        if finding_key is not None:
            for rec in self.known:
                if rec.get("key") == finding_key:
                    self.known_hit[finding_key] = rec
                    return
        self.violations.append({"clause": clause, "detail": detail, "replay": replay})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        wall = time.time() - self.t0
        for key, rec in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {rec['what']}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(wall, 3),
              "violations": len(self.violations), "violation_details": [
                  {"clause": v["clause"], "detail": v["detail"]} for v in self.violations[:20]]}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        if not self.violations:
            print(f"OK property={self.prop} tier={self.tier} states={self.cov['states']} "
                  f"transitions={self.cov['transitions']} traces={self.cov['traces_validated_against_impl']} "
                  f"wall={wall:.1f}s")
            return 0
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.prop + ".json")
        with open(path, "w") as fh:
            json.dump(self.violations[:50], fh, indent=1, default=str)
        for v in self.violations[:5]:
            print(f"  {v['clause']}: {v['detail']}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1
