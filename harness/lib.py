"""Shared machinery: TLC runner, scenario workers, verdicts, evidence.

Nothing in here knows anything about a particular property.  The deciding step is always
a TLC run on a module in /verif/spec; this file only moves JSON between TLC and pyPMM.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, queue, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PYPMM_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r"The number of states generated: (\d+)", out)   # simulation mode
        if m and not self.generated:
            self.generated = int(m[-1]); self.distinct = int(m[-1])

    def lines(self, tag):
        """PrintT(<<"TAG", x, y, ...>>) lines, parsed."""
        res, acc = [], None
        for ln in self.out.splitlines():
            if acc is None:
                if re.match(r'<<\s*"%s",' % tag, ln):
                    acc = ln
            else:
                acc += " " + ln.strip()
            if acc is not None and acc.rstrip().endswith(">>"):
                try:
                    res.append(parse_tuple(acc.strip()))
                    acc = None
                except IndexError:
                    pass            # ">>" inside a string that goes on
        return res


def parse_tuple(s):
    """Parses a flat TLA+ tuple of ints / strings / booleans."""
    body = s[2:-2]
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c in " ,":
            i += 1
        elif c == '"':
            j = i + 1
            while body[j] != '"':
                j += 2 if body[j] == "\\" else 1
            out.append(json.loads(body[i:j + 1])); i = j + 1
        else:
            j = i
            while j < len(body) and body[j] != ",":
                j += 1
            t = body[i:j].strip()
            out.append(True if t == "TRUE" else False if t == "FALSE" else int(t)); i = j
    return out


def tlc(module, cfg_text, env=None, workers=NWORK, args=(), timeout=800, heap="6g", check=True):
    """Runs TLC on spec/<module>.tla with the given configuration text, in a scratch copy."""
    d = tempfile.mkdtemp(prefix="vtlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
               f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "run.cfg", *args, module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        r = TLCResult(p.returncode, p.stdout, time.time() - t)
        if check and p.returncode != 0:
            raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + p.stdout[-4000:])
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg_text, stats, **kw):
    """Exhaustive exploration of a design spec. Design specs are fixed files: failure = machinery."""
    r = tlc(module, cfg_text, **kw)
    stats.add_tlc(r)
    return r


def behaviours(module, cfg_text, stats, tag="BEH", limit=None, rng=None, **kw):
    """Behaviours printed by TLC as PrintT(<<"BEH", ToJson(history)>>)."""
    r = tlc(module, cfg_text, **kw)
    stats.add_tlc(r)
    beh = sorted(set(x[1] for x in r.lines(tag)))
    total = len(beh)
    if limit is not None and total > limit:
        beh = (rng or random.Random(1)).sample(beh, limit)
    return [json.loads(b) for b in beh], total


TRACE_CFG = """SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
"""


def judge(module, traces, stats, cfg_text=TRACE_CFG, chunk=4000, timeout=800):
    """Hands recorded traces to a trace specification. Every trace gets a verdict:
    module prints <<"ACCEPT", i>> or <<"REJECT", i, step, reason>> (i: 1-based line number).
    A trace on which TLC cannot even evaluate the specification is isolated and rejected."""
    verdicts = {}

    def run(idx):
        if not idx:
            return
        d = tempfile.mkdtemp(prefix="vtr_")
        try:
            fn = os.path.join(d, "traces.ndjson")
            with open(fn, "w") as f:
                for i in idx:
                    f.write(json.dumps(traces[i]) + "\n")
            r = tlc(module, cfg_text, env={"TRACES": fn}, check=False, timeout=timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        stats.add_tlc(r)
        got = {}
        for x in r.lines("ACCEPT"):
            got.setdefault(idx[x[1] - 1], ("ACCEPT", None, None))
        for x in r.lines("REJECT"):
            got[idx[x[1] - 1]] = ("REJECT", x[2], x[3])
        if r.rc == 0 and len(got) == len(idx):
            verdicts.update(got)
            return
        if len(idx) == 1:
            i = idx[0]
            tail = "\n".join(l for l in r.out.splitlines() if "rror" in l or "ttempt" in l)[:600]
            verdicts[i] = got[i] if i in got and r.rc == 0 else (
                "REJECT", -1, "trace is not a behaviour TLC can evaluate: " + tail)
            return
        h = len(idx) // 2
        run(idx[:h]); run(idx[h:])

    for a in range(0, len(traces), chunk):
        run(list(range(a, min(len(traces), a + chunk))))
    return [verdicts[i] for i in range(len(traces))]


def oracle(module, cases, stats, timeout=800, chunk=3000):
    """Evaluates `Expected(case)` of a specification for every case; returns list of results.
    The module prints <<"OUT", i, ToJson(...)>> for each case i."""
    res = [None] * len(cases)
    for a in range(0, len(cases), chunk):
        d = tempfile.mkdtemp(prefix="vor_")
        try:
            fn = os.path.join(d, "traces.ndjson")
            part = cases[a:a + chunk]
            with open(fn, "w") as f:
                for c in part:
                    f.write(json.dumps(c) + "\n")
            r = tlc(module, TRACE_CFG, env={"TRACES": fn}, timeout=timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        stats.add_tlc(r)
        for x in r.lines("OUT"):
            res[a + x[1] - 1] = json.loads(x[2])
    if any(x is None for x in res):
        raise MachineryError(f"oracle {module}: missing answers")
    return res


# --------------------------------------------------------------------------- workers
WORKER_ENV = dict(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                  OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TQDM_DISABLE="1",
                  XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")


class Worker:
    def __init__(self, driver, scratch, extra_env=None):
        self.driver, self.scratch = driver, scratch
        self.extra_env = extra_env or {}
        self.p = None

    def start(self):
        env = dict(os.environ); env.update(WORKER_ENV); env.update(self.extra_env)
        env["PYTHONPATH"] = REPO + os.pathsep + os.path.join(VERIF, "harness")
        env["TMPDIR"] = self.scratch
        self.err = open(os.path.join(self.scratch, f"worker_{id(self)}.err"), "ab")
        self.p = subprocess.Popen([PY, os.path.join(VERIF, "harness", "worker.py"), self.driver],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env, cwd=self.scratch, text=True)
        self.n = 0

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p.wait()
            self.p = None

    def ask(self, scn, timeout):
        if self.p is None or self.p.poll() is not None:
            self.start()
        timer = threading.Timer(timeout, self.p.kill)
        timer.start()
        try:
            try:
                self.p.stdin.write(json.dumps(scn) + "\n"); self.p.stdin.flush()
                while True:
                    line = self.p.stdout.readline()
                    if not line or line.startswith("@@RESULT "):
                        break
            except (BrokenPipeError, OSError):
                line = ""
        finally:
            dead = not timer.is_alive()
            timer.cancel()
        if not line:
            self.p.wait(); rc = self.p.returncode; self.p = None
            tail = ""
            try:
                with open(self.err.name, "rb") as f:
                    tail = f.read()[-1500:].decode("utf8", "replace")
            except OSError:
                pass
            return {"crash": "timeout" if dead else f"worker exited {rc}", "tail": tail}
        r = json.loads(line[len("@@RESULT "):])
        self.n += 1
        if self.n >= 150:      # bound memory of compiled programs
            self.stop()
        return r


def run_scenarios(driver, scenarios, scratch, timeout=240, nwork=NWORK, deadline=None, extra_env=None):
    """Runs every scenario through harness/<driver>.py:run(scn). Result list, same order.
    A scenario that kills its worker twice (or exceeds the time limit twice) yields {"crash": ...}.
    A scenario not started before `deadline` yields None (it was not explored)."""
    q = queue.Queue()
    for i, s in enumerate(scenarios):
        q.put((i, s))
    res = [None] * len(scenarios)

    def loop():
        w = Worker(driver, scratch, extra_env)
        try:
            while True:
                try:
                    i, s = q.get_nowait()
                except queue.Empty:
                    return
                if deadline is not None and time.time() > deadline:
                    continue
                r = w.ask(s, timeout)
                if "crash" in r:
                    r = w.ask(s, timeout)
                res[i] = r
        finally:
            w.stop()

    ths = [threading.Thread(target=loop) for _ in range(min(nwork, max(1, len(scenarios))))]
    [t.start() for t in ths]; [t.join() for t in ths]
    return res


# --------------------------------------------------------------------------- verdict + evidence
class Stats:
    def __init__(self):
        self.states = 0; self.transitions = 0; self.tlc_runs = 0
        self.traces = 0; self.samples = []; self.extra = {}

    def add_tlc(self, r):
        self.states += r.distinct; self.transitions += r.generated; self.tlc_runs += 1

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


class Check:
    """One run of one check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.stats = Stats()
        self.rng = random.Random(f"{prop}-{seed}-{tier}")
        self.violations = []          # (replay object, reason)
        self.known_hit = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.known = load_known(prop)
        for f in os.listdir(os.path.join(VERIF, "replays")) if os.path.isdir(os.path.join(VERIF, "replays")) else []:
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(VERIF, "replays", f))
        self.level = "model_checking"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, reason, replay, key=None):
        """key: stable identification of the failing input, compared with the known findings."""
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    self.known_hit[k["key"]] = k
                    return
        self.violations.append((reason, replay))

    def run_and_judge(self, driver, module, scenarios, to_trace=None, timeout=240, deadline=None,
                      key=None, extra_env=None):
        """scenarios -> real code -> traces -> TLC. Records violations."""
        res = run_scenarios(driver, scenarios, self.scratch, timeout=timeout, deadline=deadline,
                            extra_env=extra_env)
        todo, trs = [], []
        for s, r in zip(scenarios, res):
            if r is None:
                self.stats.count("scenarios_skipped_for_time"); continue
            if "machinery" in r:
                raise MachineryError(f"driver {driver}: {r['machinery']}\nscenario {json.dumps(s)[:2000]}")
            if "crash" in r:
                self.violation(f"the implementation did not return: {r['crash']}",
                               {"driver": driver, "extra_env": extra_env, "scenario": s, "result": r}, key and key(s, r))
                continue
            todo.append((s, r)); trs.append(to_trace(s, r) if to_trace else r["trace"])
        if not trs:
            return []
        vs = judge(module, trs, self.stats)
        out = []
        for (s, r), t, v in zip(todo, trs, vs):
            self.stats.traces += 1
            out.append((s, r, t, v))
            if len(self.stats.samples) < 3 and v[0] == "ACCEPT":
                self.stats.samples.append({"scenario": s, "trace": t})
            if v[0] == "REJECT":
                self.violation(f"step {v[1]}: {v[2]}",
                               {"driver": driver, "spec": module, "extra_env": extra_env, "scenario": s, "trace": t,
                                "rejected_at": v[1], "reason": v[2]}, key and key(s, r))
        return out

    def finish(self):
        try:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                  "coverage": {"states": self.stats.states, "transitions": self.stats.transitions,
                               "traces_validated_against_impl": self.stats.traces,
                               "tlc_runs": self.stats.tlc_runs,
                               "samples": [shorten(s) for s in self.stats.samples], **self.stats.extra},
                  "assumptions": self.assumptions,
                  "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
            with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
            for k in self.known_hit.values():
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            if self.violations:
                rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
                for n, (reason, rep) in enumerate(self.violations[:5]):
                    fn = os.path.join(rd, f"{self.prop}-{n}.json")
                    with open(fn, "w") as f:
                        json.dump({"property": self.prop, "reason": reason, **rep}, f, indent=1, default=str)
                    print(f"VIOLATION property={self.prop} replay={fn}")
                    print("   " + reason[:700])
                print(f"{len(self.violations)} violation(s)")
                return 1
            print(f"OK {self.prop} tier={self.tier} traces={self.stats.traces} states={self.stats.states} "
                  f"transitions={self.stats.transitions} wall={time.time() - self.t0:.1f}s "
                  + json.dumps(self.stats.extra)[:600])
            return 0
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)


def shorten(x, n=6000):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)).get("findings", []) if k["property"] == prop]
