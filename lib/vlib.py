"""Shared machinery of the checks: builds drivers, runs TLC on the specifications, executes scenarios in the
real code, and has TLC check the recorded executions against the specifications."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from build_driver import build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = f"{HERE}/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tlc(module, cfg, meta, env=None, workers=4, heap="3g", args=(), timeout=3000):
    """runs TLC, yields its output lines"""
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, min(4, workers))}", f"-Xmx{heap}", "-Xss16m", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", f"{SPEC}/{cfg}", *args,
           f"{SPEC}/{module}.tla"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPEC,
                         env={**os.environ, **(env or {})})
    return p


class Model:
    """one model-checking run of a design specification"""
    def __init__(self, module, cfg, workers=3, heap="4g", simulate=None, seed=1, keep=4000, env=None):
        self.module, self.cfg, self.keep = module, cfg, keep
        self.simulate = simulate
        self.states = self.transitions = 0
        self.gens, self.ngen = [], 0
        self.error = None
        self.meta = tempfile.mkdtemp(prefix="tlc_")
        args = []
        if simulate:
            args = ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(seed)]
        self.seed = seed
        self.p = tlc(module, cfg, self.meta, workers=workers, heap=heap, args=args, env=env)

    def wait(self):
        """collects the result; of the printed scenarios a uniform sample of `keep` is kept"""
        rnd = random.Random(self.seed)
        tail = []
        ok = False
        for line in self.p.stdout:
            if line.startswith('"GEN '):
                self.ngen += 1
                if len(self.gens) < self.keep:
                    self.gens.append(line)
                else:
                    j = rnd.randrange(self.ngen)
                    if j < self.keep:
                        self.gens[j] = line
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                self.transitions, self.states = int(m.group(1)), int(m.group(2))
            m = re.search(r"The number of states generated: (\d+)", line)
            if m:
                self.states = self.transitions = int(m.group(1))
            if "No error has been found" in line or (self.simulate and "Finished in" in line):
                ok = True
            if line.startswith("Error:"):
                ok, self.error = False, self.error or line
            tail.append(line)
            tail = tail[-60:]
        self.p.wait()
        shutil.rmtree(self.meta, ignore_errors=True)
        if self.error or not ok:
            raise RuntimeError(f"specification {self.module}/{self.cfg} is broken:\n" + "".join(tail))
        self.gens = sorted(set(self.gens))
        return self

    def hists(self):
        for g in self.gens:
            yield json.loads(json.loads(g.strip())[4:])


def run_driver(binary, lines, env=None, timeout=600):
    """runs scenario lines `id|...` in the driver (in parallel); returns {id: [events]}; a scenario in which the
    process dies ends with a crash event"""
    e = {**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", **(env or {})}
    chunks = [lines[i::NPROC] for i in range(NPROC)]
    def go(chunk):
        out = {}
        todo = list(chunk)
        deaths = 0
        while todo:
            d = tempfile.mkdtemp(prefix="drv_")
            with open(f"{d}/in", "w") as f:
                f.write("\n".join(todo) + "\n")
            with open(f"{d}/out", "wb") as o, open(f"{d}/err", "wb") as er:
                try:
                    rc = subprocess.run([binary, f"{d}/in"], stdout=o, stderr=er, env=e, timeout=timeout, cwd=d).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            cur, last, done = None, None, set()
            for l in open(f"{d}/out", "r", errors="replace"):
                i, _, j = l.rstrip("\n").partition(" ")
                try:
                    x = json.loads(j)
                except ValueError:
                    continue
                if x["e"] == "begin":
                    out[i] = []
                    last = i
                elif x["e"] == "done":
                    done.add(i)
                else:
                    out.setdefault(i, []).append(x)
            err = open(f"{d}/err", "r", errors="replace").read()
            shutil.rmtree(d, ignore_errors=True)
            if rc == 0:
                break
            if last is None:
                raise RuntimeError(f"driver {binary} does not start (rc {rc}): {err[-800:]}")
            stuck = rc == 95 and last not in done and out[last] and out[last][-1]["e"] == "stuck"   # may be right
            deaths += .1 if stuck else 1
            if last not in done and not stuck and not (out[last] and out[last][-1]["e"] == "hang"):
                m = re.search(r"(Assertion|AddressSanitizer:|runtime error|terminate called|ThreadSanitizer).*", err)
                out[last].append({"e": "crash", "why": (m.group(0) if m else f"exit {rc}")[:300]})
            elif last in done:
                out[last].append({"e": "crash", "why": f"at exit: {rc} {err[-200:]}"})
            idx = next(k for k, l in enumerate(todo) if l.split("|", 1)[0] == last)
            todo = todo[idx + 1:]
            deaths += 5 * (out[last][-1]['e'] == 'hang' if out[last] else 0)
            if deaths > 40:   # enough to report; do not spend the budget on a broken build
                break
        return out
    res = {}
    with ThreadPoolExecutor(max_workers=NPROC) as ex:
        for r in ex.map(go, chunks):
            res.update(r)
    return res


def validate(module, traces, nproc=6):
    """traces: list of dicts (id, ev, ...); returns [(id, index of the first event that has no explanation)]"""
    uniq = {}
    for t in traces:
        k = hashlib.sha1(json.dumps({x: y for x, y in t.items() if x != "id"}, sort_keys=True).encode()).hexdigest()
        uniq.setdefault(k, t)
    ts = list(uniq.values())
    nproc = max(1, min(nproc, (len(ts) + 199) // 200))
    known = []     # accepted with known deviations only
    stats = {"known": known, "unique": len(ts), "events": sum(len(t["ev"]) for t in ts), "states": 0}
    def go(chunk):
        if not chunk:
            return []
        d = tempfile.mkdtemp(prefix="tv_")
        with open(f"{d}/t.ndjson", "w") as f:
            for t in chunk:
                f.write(json.dumps(t) + "\n")
        p = tlc(module, module + ".cfg", d + "/m", env={"TRACES": f"{d}/t.ndjson"}, workers=1, heap="3g")
        out = p.stdout.read()
        p.wait()
        rej = [json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"REJECT ')]
        for l in out.splitlines():
            if l.startswith('"KNOWN '):
                k = json.loads(json.loads(l)[6:])
                known.append((k["id"], k["dev"]))
        if "Model checking completed" not in out or "Error:" in out:
            keep = f"/tmp/failed_{module}.ndjson"
            shutil.copy(f"{d}/t.ndjson", keep)
            shutil.rmtree(d, ignore_errors=True)
            raise RuntimeError(f"trace validation with {module} failed (traces in {keep}):\n" + out[-3000:])
        m = re.search(r"^(\d+) states generated", out, re.M)
        stats["states"] += int(m.group(1)) if m else 0
        shutil.rmtree(d, ignore_errors=True)
        return [(r["id"], r["at"]) for r in rej]
    rejected = []
    with ThreadPoolExecutor(max_workers=nproc) as ex:
        for r in ex.map(go, [ts[i::nproc] for i in range(nproc)]):
            rejected += r
    return rejected, stats


def load_known():
    """known_findings.txt: lines `known: property=ID,ID.. component=NAME deviation=NAME TEXT` (the specification has the
    deviating behaviour as an alternative of this name, and nothing else is accepted) or
    `known: property=ID component=NAME scenario=/regex/ event=/regex/ TEXT`; lines
    starting with `fixed:` record repaired defects and suppress nothing"""
    out = []
    p = f"{HERE}/known_findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) component=(\S+) scenario=/(.*?)/ event=/(.*?)/ (.*)", l)
        if m:
            out.append(dict(zip(("property", "component", "scenario", "event", "what"), m.groups())))
        m = re.match(r"known: property=(\S+) component=(\S+) deviation=(\S+) (.*)", l)
        if m:
            out.append(dict(zip(("property", "component", "deviation", "what"), m.groups())))
    return out


class Check:
    """one property: model checking of the design, then conformance of the real code"""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "scenarios_executed": 0,
                    "events_validated": 0, "models": [], "samples": [], "components": {}}
        self.violations = []
        self.known_hits = []
        self.replay = f"{HERE}/build/replay/{pid}"
        shutil.rmtree(self.replay, ignore_errors=True)
        os.makedirs(self.replay, exist_ok=True)
        self.known = [k for k in load_known() if pid in k["property"].split(",")]

    def quick(self):
        return self.tier == "quick"

    def add_model(self, m):
        self.cov["states"] += m.states
        self.cov["transitions"] += m.transitions
        self.cov["models"].append({"spec": m.module, "cfg": m.cfg, "states": m.states, "transitions": m.transitions,
                                   "mode": "simulation" if m.simulate else "exhaustive", "scenarios_printed": m.ngen})

    def is_known(self, comp, line, ev, at):
        bad = ev[at - 1] if at <= len(ev) else {"e": "(end)"}
        for k in self.known:
            if k["component"] == comp and "event" in k and re.search(k["scenario"], line) and re.search(k["event"], json.dumps(bad)):
                return k
        return None

    def report(self, comp, line, trace, at):
        """trace rejected at event `at` (1-based)"""
        ev = trace["ev"]
        bad = ev[at - 1] if at <= len(ev) else {"e": "(end)"}
        k = self.is_known(comp, line, ev, at)
        if k:
            self.known_hits.append((k, line))
            return
        n = len(self.violations) + 1
        path = f"{self.replay}/{comp}_{n}.txt"
        if n <= 20:
            with open(path, "w") as f:
                f.write(f"property {self.pid}, component {comp}\nscenario (replay: bin/replay {comp} '<line>'):\n{line}\n\n"
                        f"event {at} has no explanation in the specification:\n  {json.dumps(bad)}\n\nrecorded events:\n")
                for i, x in enumerate(ev, 1):
                    f.write(("->" if i == at else "  ") + json.dumps(x) + "\n")
        self.violations.append((path, line, bad))

    def conform(self, comp, module, binary, lines, to_trace, env=None):
        """executes the scenarios and validates what was recorded"""
        by_id = {l.split("|", 1)[0]: l for l in lines}
        assert len(by_id) == len(lines), "scenario ids must be distinct"
        devs = {k["deviation"]: k for k in self.known if k["component"] == comp and "deviation" in k}
        t0 = time.time()
        res = run_driver(binary, lines, env)
        t1 = time.time()
        traces = {}
        for i, ev in res.items():
            t = to_trace(by_id[i], ev)
            t["id"] = i
            if "dev" in t:
                t["dev"] = sorted(devs)
            traces[i] = t
        rej, st = validate(module, list(traces.values()))
        t2 = time.time()
        for i, ds in st["known"]:
            for d in ds:
                self.known_hits.append((devs[d], by_id[i]))
        confirmed, fresh = [], []
        for i, at in rej:     # listed findings first, so that they cannot crowd out anything else
            (confirmed if self.is_known(comp, by_id[i], traces[i]["ev"], at) else fresh).append((i, at))
        for i, at in fresh[:60]:
            ev = traces[i]["ev"]
            bad = ev[at - 1] if at <= len(ev) else {}
            if bad.get("e") in ("hang",):     # could be the machine; must happen again
                again = run_driver(binary, [by_id[i]], env).get(i, [])
                if not any(x["e"] in ("hang", "crash") for x in again):
                    continue
            confirmed.append((i, at))
        for i, at in confirmed:
            self.report(comp, by_id[i], traces[i], at)
        c = self.cov["components"].setdefault(comp, {"scenarios": 0, "distinct_traces": 0, "events": 0, "rejected": 0,
                                                     "seconds_execute": 0, "seconds_validate": 0})
        c["scenarios"] += len(res); c["distinct_traces"] += st["unique"]; c["events"] += st["events"]; c["rejected"] += len(rej)
        c["seconds_execute"] += round(t1 - t0, 1); c["seconds_validate"] += round(t2 - t1, 1)
        self.cov["scenarios_executed"] += len(res)
        self.cov["traces_validated_against_impl"] += st["unique"]
        self.cov["events_validated"] += st["events"]
        rnd = random.Random(self.seed)
        for i in rnd.sample(sorted(res), min(3, len(res))):
            self.cov["samples"].append({"component": comp, "scenario": by_id[i], "events": [json.dumps(x) for x in traces[i]["ev"]][:60]})
        log(f"[{self.pid}] {comp}: {len(res)} scenarios, {st['unique']} distinct traces, {st['events']} events, "
            f"{len(rej)} rejected; run {t1-t0:.1f}s validate {t2-t1:.1f}s")
        return rej

    def finish(self, assumptions=()):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in {json.dumps(k): k for k, _ in self.known_hits}.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for path, line, bad in self.violations[:5]:
            log(f"  {line}\n    rejected: {json.dumps(bad)}")
        if self.violations:
            print(f"VIOLATION property={self.pid} replay={self.violations[0][0]}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.cov['states']} "
              f"traces={self.cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
        return 0
