#!/usr/bin/env python3
"""Decides one property:  python3 check.py <ID>   (VERIF_SEED, VERIF_TIER)

Every check is a list of stages (see PLANS at the end):
  mc      TLC explores the specification exhaustively within the stated
          constants, checking the design level invariants, and prints every
          explored state / transition as a replay case;  the cases are then
          replayed through the real code and the results compared.
  trace   a seeded driver runs the real code and records what it did; TLC
          then checks the recorded behaviour against the specification.
Exit 0: held.  Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the check itself could not be carried out.
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
TARGET = os.path.join(BUILD, "target")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ building
def build(package):
    """Builds a harness package against /repo's working tree."""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN="1.85.1", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env["RUSTFLAGS"] = "--cfg aftermath_verif -Awarnings"
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", package], cwd=os.path.join(HERE, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (package, p.stdout[-4000:]))
    return os.path.join(TARGET, "debug", package)


def build_front():
    """Bundles the frontend of /repo's working tree with the stand-in for the browser."""
    build("hfront")
    out = os.path.join(BUILD, "front", "%d.mjs" % os.getpid())
    os.makedirs(os.path.dirname(out), exist_ok=True)
    p = subprocess.run(["node", os.path.join(HERE, "harness", "frontend", "build.mjs"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    if p.returncode != 0:
        raise ToolError("bundling the frontend failed:\n" + p.stdout[-4000:])
    FRONT.append(out)


FRONT = []


def command(package):
    exe = os.path.join(TARGET, "debug", package)
    return ["node", os.path.join(HERE, "harness", "frontend", "driver.mjs"), FRONT[-1], exe] if package == "hfront" else [exe]


# ----------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.generated = self.distinct = self.cases = 0
        self.violated = None
        self.error = None
        self.text = []
        self.wall = 0.0


def tlc(work, module, constants, invariants, spec="Spec", cases_to=None, env=None, workers=None, timeout=600, heap="6g",
        extra=(), properties=(), constraint=None):
    """Runs TLC in `work` (a fresh directory with the specification copied in)."""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), work)
    cfg = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if invariants:
        cfg.append("INVARIANTS " + " ".join(invariants))
    if properties:
        cfg.append("PROPERTIES " + " ".join(properties))
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if constants:
        cfg.append("CONSTANTS")
        for k, v in constants.items():
            cfg.append("  %s = %s" % (k, json.dumps(v) if isinstance(v, str) else (str(v).upper() if isinstance(v, bool) else v)))
    name = "run_" + module
    with open(os.path.join(work, name + ".cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + work, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers or CPUS),
           "-noGenerateSpecTE", "-metadir", os.path.join(work, "states"), "-config", name + ".cfg", *extra, module + ".tla"]
    r = TlcResult()
    t0 = time.time()
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, errors="replace")
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    out = open(cases_to, "w") if cases_to else None
    try:
        for line in p.stdout:
            if line.startswith('"CASE '):
                if out:
                    out.write(json.loads(line)[5:] + "\n")
                    r.cases += 1
                continue
            if len(r.text) < 5000:
                r.text.append(line.rstrip("\n")[:2000])
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r.generated, r.distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"Error: Invariant (\S+) is violated", line)
            if m:
                r.violated = m.group(1)
            if line.startswith("Error:") and not r.violated and not r.error:
                r.error = line.strip()
    finally:
        killer.cancel()
        if out:
            out.close()
    rc = p.wait()
    r.wall = time.time() - t0
    if r.violated is None and (rc != 0 or r.error):
        raise ToolError("TLC on %s ended with %d: %s\n%s" % (module, rc, r.error, "\n".join(r.text[-40:])))
    return r


# ------------------------------------------------------------------ the check
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.transitions = self.replayed = self.traces = self.events = 0
        self.samples, self.stages, self.known_seen = [], [], []
        self.violations = []
        self.exhaustive = True
        self.n = 0
        self.known = load_known(prop)

    def dir(self, name):
        self.n += 1
        d = os.path.join(self.work, "%02d_%s" % (self.n, name))
        os.makedirs(d)
        return d

    def violation(self, what, detail):
        for k in self.known:
            if k["match"] and all(x in json.dumps(detail, sort_keys=True) for x in k["match"]):
                if k["id"] not in self.known_seen:
                    self.known_seen.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return
        self.violations.append(what)
        if len(self.violations) > 5:
            return
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": SEED, "tier": TIER, "detail": detail}, f, indent=1, ensure_ascii=False)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + what[:300])
        sys.stdout.flush()

    # --- stage: model checking, and replaying what was explored
    def mc(self, module, constants, invariants, package, timeout=400, sample=1, constraint=None, properties=(), replay=True, limit=None, shards=None):
        d = self.dir(module)
        cases = os.path.join(d, "cases.ndjson")
        r = tlc(d, module, constants, invariants, cases_to=cases, timeout=timeout, constraint=constraint, properties=properties)
        if r.violated:
            # a broken design is a mistake of the specification, never of the code
            raise ToolError("specification %s violates its own invariant %s\n%s" % (module, r.violated, "\n".join(r.text[-60:])))
        self.states += r.distinct
        self.transitions += r.generated
        if replay and r.cases == 0:
            raise ToolError("%s %s explored nothing" % (module, constants))
        stage = dict(stage="model checking " + module, constants=constants, invariants=list(invariants), distinct_states=r.distinct,
                     states_generated=r.generated, cases=r.cases, tlc_s=round(r.wall, 1))
        if replay:
            t = time.time()
            stage["replayed"] = self.replay(package, cases, r.cases, shards)
            stage["replay_s"] = round(time.time() - t, 1)
        self.stages.append(stage)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r

    def replay(self, package, cases, total, shards=None):
        exe = os.path.join(TARGET, "debug", package)
        if total == 0:
            return 0
        with open(cases) as f:
            self.samples.append(json.loads(f.readline()))
        shards = shards or max(1, min(CPUS, total // 200))
        step = (total + shards - 1) // shards
        jobs = [(a, min(total, a + step)) for a in range(0, total, step)]
        ran = 0
        procs = [(a, b, subprocess.Popen([exe, "replay", cases, str(a), str(b)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for a, b in jobs]
        for a, b, p in procs:
            ran += self.collect(exe, cases, a, b, p)
        self.replayed += ran
        if ran == 0:
            raise ToolError("no case was replayed")
        return ran

    def collect(self, exe, cases, a, b, p):
        try:
            out, _ = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
        ran = None
        for line in out.split("\n"):
            if line.startswith("BAD "):
                _, i, diff = line.split(" ", 2)
                self.violation("replaying a case of the specification: " + diff[:400], {"case": nth_line(cases, int(i)), "difference": json.loads(diff)})
            elif line.startswith("RAN "):
                ran = int(line.split()[1])
        if p.returncode == 99:
            raise ToolError("the harness could not run a case of %s" % cases)
        if ran is None:
            # the process died or hung: find the case that did it
            i = self.first_killer(exe, cases, a, b)
            if i is None:
                raise ToolError("the harness ended with %s without naming a case" % p.returncode)
            self.violation("the implementation ends or hangs the process on a case", {"case": nth_line(cases, i), "status": p.returncode})
            return i - a
        return ran

    def first_killer(self, exe, cases, a, b):
        lo, hi = a, b
        t0 = time.time()
        while hi - lo > 1 and time.time() - t0 < 200:
            mid = (lo + hi) // 2
            try:
                q = subprocess.run([exe, "replay", cases, str(lo), str(mid)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
                dead = q.returncode != 0
            except subprocess.TimeoutExpired:
                dead = True
            if dead:
                hi = mid
            else:
                lo = mid
        return lo if hi - lo == 1 else None

    # --- stage: recorded behaviour against the specification
    def trace(self, module, constants, package, what, count, timeout=500, shards=4, drive_timeout=200, min_events=1):
        """A seeded driver records runs of the code; TLC checks the records."""
        d = self.dir(module)
        exe = os.path.join(TARGET, "debug", package)
        jobs = []
        for k in range(shards):
            log = os.path.join(d, "part%d.ndjson" % k)
            seed = SEED * 1000 + k
            jobs.append((log, [exe, "drive", what, str(seed), str((count + shards - 1) // shards), log], {"driver": what, "seed": seed}))
        self.record(jobs, drive_timeout)
        self.judge(d, module, constants, [j[0] for j in jobs], dict(driver=what), min_events, timeout)

    def histories(self, alphabet, length, twin="none", package="heditor", timeout=400, invariants=("TypeOk", "UndoOk", "NoTraceOk", "PopupOk", "AutoOk", "Facet")):
        """TLC explores the editor and prints the histories it explored; the code
        executes them, and TLC judges what the code did."""
        d = self.dir("EditorMC")
        cases = os.path.join(d, "cases.ndjson")
        constants = dict(Alphabet=alphabet, MaxLen=length)
        r = tlc(d, "EditorMC", constants, invariants, cases_to=cases, timeout=timeout)
        if r.violated:
            raise ToolError("specification EditorMC violates its own invariant %s\n%s" % (r.violated, "\n".join(r.text[-60:])))
        if r.cases == 0:
            raise ToolError("EditorMC %s explored nothing" % constants)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        self.states += r.distinct
        self.transitions += r.generated
        self.stages.append(dict(stage="model checking EditorMC", constants=constants, invariants=list(invariants), distinct_states=r.distinct,
                                states_generated=r.generated, cases=r.cases, tlc_s=round(r.wall, 1)))
        self.run_cases(d, cases, r.cases, package, "histories", [twin], "EditorTrace", {}, dict(histories=r.cases, of=constants), timeout)

    def rows(self, lang, alphabet, length, how="plain", timeout=400):
        """TLC explores the rows over an alphabet, relating the views of the grammar
        to each other; the code parses the rows, and TLC judges the trees."""
        d = self.dir("ParserMC")
        cases = os.path.join(d, "cases.ndjson")
        constants = dict(Lang=lang, Alphabet=alphabet, MaxLen=length)
        r = tlc(d, "ParserMC", constants, ["TypeOk", "Facet"], cases_to=cases, timeout=timeout)
        if r.violated:
            raise ToolError("specification ParserMC violates its own invariant %s\n%s" % (r.violated, "\n".join(r.text[-60:])))
        if r.cases == 0:
            raise ToolError("ParserMC %s explored nothing" % constants)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        self.states += r.distinct
        self.transitions += r.generated
        self.stages.append(dict(stage="model checking ParserMC", constants=constants, invariants=["TypeOk", "Facet"], distinct_states=r.distinct,
                                states_generated=r.generated, cases=r.cases, tlc_s=round(r.wall, 1)))
        self.run_cases(d, cases, r.cases, "hparser", "record", [how], "ParserTrace", {}, dict(rows=r.cases, of=constants), timeout)

    def selections(self, which, alphabet, mods, length, timeout=400):
        """TLC explores selections of grammar modules and rows; a parser of just
        these modules parses the row, and TLC judges tree, offers and names."""
        d = self.dir("ModulesMC")
        cases = os.path.join(d, "cases.ndjson")
        constants = dict(Which=which, Alphabet=alphabet, MaxMods=mods, MaxLen=length)
        r = tlc(d, "ModulesMC", constants, ["TypeOk", "Facet"], cases_to=cases, timeout=timeout)
        if r.violated:
            raise ToolError("specification ModulesMC violates its own invariant %s\n%s" % (r.violated, "\n".join(r.text[-60:])))
        if r.cases == 0:
            raise ToolError("ModulesMC %s explored nothing" % constants)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        self.states += r.distinct
        self.transitions += r.generated
        self.stages.append(dict(stage="model checking ModulesMC", constants=constants, invariants=["TypeOk", "Facet"], distinct_states=r.distinct,
                                states_generated=r.generated, cases=r.cases, tlc_s=round(r.wall, 1)))
        self.run_cases(d, cases, r.cases, "hparser", "modules", [], "ParserTrace", {}, dict(selections=r.cases, of=constants), timeout)

    def random_selections(self, count, timeout=500, shards=4):
        d = self.dir("selections")
        jobs = []
        for k in range(shards):
            log = os.path.join(d, "part%d.ndjson" % k)
            jobs.append((log, command("hparser") + ["drivemodules", str(SEED * 1000 + k), str(count // shards), log], dict(driver="drivemodules", seed=SEED * 1000 + k)))
        self.record(jobs, 200)
        self.judge(d, "ParserTrace", {}, [j[0] for j in jobs], dict(driver="drivemodules"), 1, timeout)

    # --- stages of the frontend: documents, elements and histories of events
    def shown(self, verb, profile, count, timeout=500):
        """random documents, shown by the frontend"""
        d = self.dir("rows")
        cases = os.path.join(d, "cases.ndjson")
        subprocess.run([os.path.join(TARGET, "debug", "hfront"), "rows", profile, str(SEED * 1000 + self.n), str(count), cases],
                       stdout=subprocess.DEVNULL, check=True, timeout=200)
        self.run_cases(d, cases, count, "hfront", verb, [], "FrontendTrace", {}, dict(documents=count, profile=profile, what=verb), timeout)

    def explored(self, module, constants, invariants, verb, about, count=None, length=None, timeout=500):
        """TLC explores a specification and prints what it explored, the frontend is run on that"""
        d = self.dir(module)
        cases = os.path.join(d, "cases.ndjson")
        extra = ("-simulate", "num=%d" % ((count + CPUS - 1) // CPUS), "-depth", str(length + 1), "-seed", str(SEED)) if count else ()
        r = tlc(d, module, constants, invariants, cases_to=cases, timeout=timeout, extra=extra)
        if r.violated:
            raise ToolError("specification %s violates its own invariant %s\n%s" % (module, r.violated, "\n".join(r.text[-60:])))
        if r.cases == 0:
            raise ToolError("%s %s explored nothing" % (module, constants))
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        self.states += r.distinct
        self.transitions += r.generated
        self.stages.append(dict(stage=("random behaviours of " if count else "model checking ") + module, constants=constants, invariants=list(invariants),
                                distinct_states=r.distinct, states_generated=r.generated, cases=r.cases, tlc_s=round(r.wall, 1)))
        self.run_cases(d, cases, r.cases, "hfront", verb, [], "FrontendTrace", {}, {about: r.cases, "of": constants}, timeout)

    def page(self, alphabet=None, length=None, count=None, timeout=500):
        """histories of the editor (explored by TLC, or random ones), given again
        through the bindings a page uses"""
        d = self.dir("page")
        if alphabet:
            cases = os.path.join(d, "cases.ndjson")
            constants = dict(Alphabet=alphabet, MaxLen=length)
            invariants = ["TypeOk", "UndoOk", "NoTraceOk", "PopupOk", "AutoOk", "Facet"]
            r = tlc(d, "EditorMC", constants, invariants, cases_to=cases, timeout=timeout)
            if r.violated:
                raise ToolError("specification EditorMC violates its own invariant %s\n%s" % (r.violated, "\n".join(r.text[-60:])))
            if r.cases == 0:
                raise ToolError("EditorMC %s explored nothing" % constants)
            shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
            self.states += r.distinct
            self.transitions += r.generated
            self.stages.append(dict(stage="model checking EditorMC", constants=constants, invariants=invariants, distinct_states=r.distinct,
                                    states_generated=r.generated, cases=r.cases, tlc_s=round(r.wall, 1)))
            count, of, first = r.cases, constants, lambda a, b, log, k: ["histories", cases, str(a), str(b), log, "shipped"]
        else:
            of, first = "random", lambda a, b, log, k: ["drive", "shipped", str(SEED * 1000 + k), str(b - a), log]
        shards = CPUS if count > 4000 else 4
        step = (count + shards - 1) // shards
        one, two = [], []
        for k, a in enumerate(range(0, count, step)):
            b = min(count, a + step)
            own, log = os.path.join(d, "editor%d.ndjson" % k), os.path.join(d, "part%d.ndjson" % k)
            one.append((own, [os.path.join(TARGET, "debug", "heditor")] + first(a, b, own, k), dict(histories=[a, b], of=of)))
            two.append((log, command("hfront") + ["commands", own, "0", str(b - a), log], dict(histories=[a, b], of=of)))
        self.record(one, 300)
        self.record(two, 300)
        self.judge(d, "FrontendTrace", {}, [j[0] for j in two], dict(histories=count, of=of), 1, timeout)

    def elements(self, count, timeout=500):
        d = self.dir("elements")
        cases = os.path.join(d, "cases.ndjson")
        subprocess.run(command("hfront") + ["elements", str(SEED * 1000 + self.n), str(count), cases], stdout=subprocess.DEVNULL, check=True, timeout=200)
        self.run_cases(d, cases, count, "hfront", "import", [], "FrontendTrace", {}, dict(elements=count), timeout)

    def run_cases(self, d, cases, total, package, verb, args, module, constants, about, timeout):
        exe = command(package)
        shards = CPUS if total > 4000 else 4
        step = (total + shards - 1) // shards
        jobs = []
        for k, a in enumerate(range(0, total, step)):
            log = os.path.join(d, "part%d.ndjson" % k)
            b = min(total, a + step)
            jobs.append((log, exe + [verb, cases, str(a), str(b), log, *args], dict(cases=[a, b], **{k: v for k, v in about.items() if k == "of"})))
        self.record(jobs, 300)
        self.judge(d, module, constants, [j[0] for j in jobs], about, 1, timeout)

    def record(self, jobs, drive_timeout):
        procs = [(log, about, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)) for log, cmd, about in jobs]
        for log, about, p in procs:
            try:
                out, err = p.communicate(timeout=drive_timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                out += "HANG 0\n"
            if p.returncode == 99 or "HARNESS" in err:
                raise ToolError("driver failed: " + (out or "")[-500:] + (err or "")[-2000:])
            if p.returncode != 0:
                self.violation("the implementation ends or hangs the process during the recorded run (%s)" % about,
                               dict(about, status=p.returncode, stdout=out[-500:], stderr=err[-2000:]))
                continue

    def judge(self, d, module, constants, logs, about, min_events, timeout):
        """TLC checks every log on its own, several at a time."""
        if self.violations:
            return
        kinds, events = {}, 0
        for log in logs:
            with open(log) as f:
                for line in f:
                    m = re.search(r'"c":"(\w+)"', line) if module == "EditorTrace" else None
                    m = m or re.search(r'"op":"(\w+)"', line)
                    k = m.group(1) if m else "load"
                    kinds[k] = kinds.get(k, 0) + 1
                    events += 1
        if events < min_events:
            raise ToolError("the driver recorded only %d events" % events)
        with open(logs[0]) as f:
            for _ in range(2):
                self.samples.append(json.loads(f.readline() or "{}"))
        results = [None] * len(logs)
        many = min(len(logs), 4)

        def one(k):
            lines = sum(1 for _ in open(logs[k]))
            try:
                r = tlc(os.path.join(d, "tlc%d" % k), module, dict(constants, Property=self.prop, Chunks=8), ["Accepted"], env={"EVENTS": logs[k]},
                        timeout=timeout, heap="6g", workers=max(1, CPUS // many))
                results[k] = (r, lines)
            except Exception as e:
                results[k] = e

        todo = list(range(len(logs)))
        lock = threading.Lock()

        def worker():
            while True:
                with lock:
                    if not todo:
                        return
                    k = todo.pop(0)
                one(k)

        t0 = time.time()
        ts = [threading.Thread(target=worker) for _ in range(many)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        failed = next((x for x in results if isinstance(x, Exception)), None)
        distinct = 0
        for k, x in enumerate(results):
            if isinstance(x, Exception):
                continue
            r, lines = x
            distinct += r.distinct
            self.states += r.distinct
            self.transitions += r.generated
            if r.violated:
                ls = [int(m.group(1)) for m in (re.match(r"(?:/\\ )?l = (\d+)", y) for y in r.text) if m]
                i = ls[-1] if ls else 1
                ev = nth_line(logs[k], i - 1)
                before = history_before(logs[k], i - 1)
                what = ev.get("cmd", {}).get("c") or ev.get("op")
                self.violation("recorded behaviour is not allowed by the specification: event %d (%s)" % (i, what),
                               dict(about, event=ev, before=before, log_line=i))
            elif r.distinct < lines:
                failed = failed or ToolError("only %d of %d recorded events were checked" % (r.distinct, lines))
        if failed:
            raise failed
        self.events += events
        self.stages.append(dict(about, stage="trace validation " + module, constants=constants, recorded_events=events, events_by_kind=kinds,
                                states=distinct, tlc_s=round(time.time() - t0, 1)))
        starts = kinds.get("load", 0) if module == "EditorTrace" else sum(v for k, v in kinds.items() if k not in ("edit", "back", "step", "again", "make"))
        self.traces += starts or events

    def finish(self, level_note=""):
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.replayed + self.traces,
                   replayed_spec_cases=self.replayed, recorded_traces=self.traces, recorded_events=self.events,
                   samples=[shorten(s) for s in self.samples[:6]], stages=self.stages,
                   known_findings_seen=self.known_seen)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
                  assumptions=ASSUMPTIONS, wall_s=round(wall, 1), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        shutil.rmtree(self.work, ignore_errors=True)
        for f in FRONT:
            os.remove(f)
        if self.violations:
            return 1
        print("OK property=%s states=%d cases=%d traces=%d events=%d wall=%.0fs" %
              (self.prop, self.states, self.replayed, self.traces, self.events, wall))
        return 0


ASSUMPTIONS = [
    "TLC 1.8 evaluates the specification correctly; exhaustive only within the constants listed per stage",
    "the projection in harness/common (documents, positions, edits to JSON) is faithful",
    "the debug build (overflow checks on) of /repo's sources with rustc 1.85.1 behaves as the shipped wasm build where it does not panic",
]


def history_before(path, i, most=40):
    """the recorded events of the same history in front of line i"""
    out = []
    with open(path) as f:
        for k, line in enumerate(f):
            if k >= i:
                break
            e = json.loads(line)
            if e.get("op") in ("load", "start", "history"):
                out = []
            out.append(e if len(line) < 3000 else shorten(e, 3000))
            if e.get("op") == "load" and len(out) > most:
                out = out[-most:]
    return out[-most:]


def nth_line(path, i):
    with open(path) as f:
        for k, line in enumerate(f):
            if k == i:
                return json.loads(line)
    return {}


def shorten(v, limit=1500):
    s = json.dumps(v, ensure_ascii=False)
    return v if len(s) <= limit else s[:limit] + " ..."


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def q(quick, thorough):
    return thorough if TIER == "thorough" else quick


PACKAGES = ["htree", "heditor", "hparser", "hfront"]


# ---------------------------------------------------------------------- plans
def tree_mc(c, mode, shapes, nodes, log=0, timeout=400):
    c.mc("TreeMC", dict(Mode=mode, ShapeSet=shapes, MaxNodes=nodes, MaxLog=log), ["TypeOk", "UndoRestores", "Facet"], "htree", timeout=timeout)


def c01(c):
    build("htree")
    tree_mc(c, "edit", "mixed", 3)
    tree_mc(c, "edit", "two", q(3, 4))
    if TIER == "thorough":
        tree_mc(c, "edit", "all", 3)
    c.trace("TreeTrace", {}, "htree", "history", q(1500, 12000))


def c02(c):
    build("htree")
    tree_mc(c, "grid", "tables", 2)
    tree_mc(c, "grid", "table", q(3, 4))
    c.trace("TreeTrace", {}, "htree", "history", q(2500, 15000))


def c03(c):
    build("htree")
    tree_mc(c, "undo", "mixed", q(2, 2), q(2, 2))
    tree_mc(c, "undo", "two", 2, q(2, 3), timeout=800)
    tree_mc(c, "undo", "table", 1, q(2, 3), timeout=800)
    c.trace("TreeTrace", {}, "htree", "history", q(1500, 12000))


def c04(c):
    build("htree")
    tree_mc(c, "track", "two", 3)
    tree_mc(c, "track", "mixed", q(2, 3))
    c.trace("TreeTrace", {}, "htree", "track", q(2000, 12000))


def c05(c):
    build("htree")
    tree_mc(c, "order", "all", 3)
    if TIER == "thorough":
        tree_mc(c, "order", "fixed", 4)
        tree_mc(c, "order", "mixed", 4)
    c.trace("TreeTrace", {}, "htree", "order", q(2000, 15000))


def c06(c):
    build("htree")
    tree_mc(c, "span", "mixed", 3)
    if TIER == "thorough":
        tree_mc(c, "span", "all", 3, timeout=800)
    c.trace("TreeTrace", {}, "htree", "span", q(2000, 15000))


def c07(c):
    build("htree")
    tree_mc(c, "walk", "all", 3)
    if TIER == "thorough":
        tree_mc(c, "walk", "mixed", 4)
        tree_mc(c, "walk", "fixed", 4)
    c.trace("TreeTrace", {}, "htree", "walk", q(1500, 8000))


def c08(c):
    build("htree")
    c.mc("TextMC", dict(MaxNodes=3, SymbolSet="few"), ["Facet"], "htree")
    c.mc("TextMC", dict(MaxNodes=q(2, 3), SymbolSet="odd"), ["Facet"], "htree")
    if TIER == "thorough":
        c.mc("TextMC", dict(MaxNodes=4, SymbolSet="few"), ["Facet"], "htree", timeout=800)
    c.trace("TreeTrace", {}, "htree", "text", q(2000, 15000))


def c09(c):
    build("heditor")
    inv = ["TypeOk", "Facet"]
    c.mc("SerialMC", dict(Mode="deep", MaxNodes=1), inv, "heditor", shards=1)
    c.mc("SerialMC", dict(Mode="round", MaxNodes=q(2, 3)), inv, "heditor")
    c.mc("SerialMC", dict(Mode="value", MaxNodes=q(1, 2)), inv, "heditor")
    c.mc("SerialMC", dict(Mode="token", MaxNodes=q(1, 2)), inv, "heditor")
    c.trace("SerialTrace", {}, "heditor", "serial", q(1500, 12000))


def c10(c):
    build("htree")
    c.mc("GridMC", dict(Mode="index", MaxW=q(7, 11), MaxH=q(7, 11)), ["Facet"], "htree", shards=4)
    c.mc("GridMC", dict(Mode="index", MaxW=q(20, 60), MaxH=2), ["Facet"], "htree", shards=4)
    c.mc("GridMC", dict(Mode="index", MaxW=2, MaxH=q(20, 60)), ["Facet"], "htree", shards=4)
    c.mc("GridMC", dict(Mode="bigindex", MaxW=300, MaxH=500), ["Facet"], "htree", shards=8)


def c11(c):
    build("htree")
    c.mc("GridMC", dict(Mode="rect", MaxW=q(5, 7), MaxH=q(5, 7)), ["Facet"], "htree")
    c.mc("GridMC", dict(Mode="rect", MaxW=q(12, 24), MaxH=2), ["Facet"], "htree")
    c.mc("GridMC", dict(Mode="rect", MaxW=2, MaxH=q(12, 24)), ["Facet"], "htree")
    c.mc("GridMC", dict(Mode="bigrect", MaxW=100, MaxH=1400), ["Facet"], "htree")
    build("heditor")
    caret_mc(c, "rect", q([("tables", 2), ("mixed", 3)], [("tables", 3), ("mixed", 4)]))


def caret_mc(c, mode, sets, timeout=400):
    for shapes, nodes in sets:
        c.mc("CaretMC", dict(Mode=mode, ShapeSet=shapes, MaxNodes=nodes), ["TypeOk", "Facet"], "heditor", timeout=timeout)


def editor_trace(c, what, quick, thorough):
    c.trace("EditorTrace", {}, "heditor", what, q(quick, thorough), shards=q(4, 8))


def c12(c):
    build("heditor")
    c.histories("undo", q(3, 4))
    if TIER == "thorough":
        for a in ("popup", "auto", "select", "remove"):
            c.histories(a, 3)
    editor_trace(c, "undo", 800, 6000)
    editor_trace(c, "long", 20, 80)


def c13(c):
    build("heditor")
    for a in ("undo", "popup", "auto", "select", "remove"):
        c.histories(a, 3)
    editor_trace(c, "general", 1000, 8000)


def c14(c):
    build("heditor")
    caret_mc(c, "horizontal", q([("mixed", 3), ("tables", 2), ("long", 2)], [("all", 3), ("two", 4), ("tables", 2), ("long", 2)]))
    editor_trace(c, "move", 500, 4000)


def c15(c):
    build("heditor")
    caret_mc(c, "vertical", q([("mixed", 3), ("tables", 2), ("long", 2)], [("all", 3), ("two", 4), ("tables", 2), ("long", 2)]))
    editor_trace(c, "move", 500, 4000)


def c16(c):
    build("heditor")
    caret_mc(c, "insert", q([("mixed", 3)], [("all", 3), ("two", 4)]))
    editor_trace(c, "edit", 600, 5000)


def c17(c):
    build("heditor")
    caret_mc(c, "remove", q([("mixed", 3), ("two", 3), ("tables", 2)], [("all", 3), ("two", 4), ("tables", 2)]))
    editor_trace(c, "edit", 600, 5000)


def c18(c):
    build("heditor")
    caret_mc(c, "drag", q([("mixed", 3), ("tables", 2)], [("all", 3), ("tables", 3)]))
    editor_trace(c, "select", 600, 5000)


def c19(c):
    build("heditor")
    c.mc("AutocompleteMC", dict(MaxLen=q(4, 6), Symbols="few", MaxMin=3), ["TypeOk", "Facet"], "heditor")
    c.mc("AutocompleteMC", dict(MaxLen=q(4, 5), Symbols="odd", MaxMin=3), ["TypeOk", "Facet"], "heditor", timeout=800)
    editor_trace(c, "popup", 800, 6000)
    editor_trace(c, "shipped", 300, 3000)


def c20(c):
    build("heditor")
    c.histories("popup", q(3, 4))
    editor_trace(c, "popup", 800, 6000)
    editor_trace(c, "shipped", 300, 3000)


def c21(c):
    build("heditor")
    c.histories("auto", q(3, 4))
    editor_trace(c, "auto", 800, 6000)
    editor_trace(c, "shipped", 300, 3000)


def c22(c):
    build("heditor")
    c.histories("undo", q(3, 4), twin="fail")
    editor_trace(c, "fail:fail", 600, 5000)


def c23(c):
    build("heditor")
    c.histories("ask", q(4, 5), twin="syntax")
    editor_trace(c, "syntax:syntax", 900, 6000)


def c24(c):
    build("heditor")
    caret_mc(c, "copy", q([("mixed", 3)], [("all", 3), ("two", 4)]))
    editor_trace(c, "edit", 600, 5000)


def parser_trace(c, what, quick, thorough):
    c.trace("ParserTrace", {}, "hparser", what, q(quick, thorough), shards=8)


def c25(c):
    build("hparser")
    for a, n in (("brackets", q(5, 6)), ("strings", q(5, 6)), ("spaces", q(5, 6)), ("scripts", q(4, 5)), ("boxes", q(3, 4)), ("lexing", q(4, 5))):
        c.rows("std", a, n)
    parser_trace(c, "any", 3000, 20000)
    parser_trace(c, "broken", 800, 6000)
    # the time it takes does not depend on the input but on its size
    exe = os.path.join(TARGET, "debug", "hparser")
    for n in (6, 24):
        try:
            p = subprocess.run([exe, "unclosed", str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=q(20, 60))
            if p.returncode != 0:
                c.violation("parsing %d opening brackets ends the process" % n, dict(unclosed=n, observed="status %d" % p.returncode, stderr=p.stderr[-500:]))
        except subprocess.TimeoutExpired:
            c.violation("parsing %d opening brackets does not end" % n, dict(unclosed=n, observed="no answer"))


def c26(c):
    build("hparser")
    for a, n in (("ops", q(4, 5)), ("logic", q(4, 5)), ("calculus", q(4, 5)), ("more", q(4, 5)), ("scripts", q(4, 5)), ("names", q(5, 6)), ("boxes", q(3, 4)), ("cells", 1)):
        c.rows("std", a, n)
    for a, n in (("own", q(4, 5)), ("ownlong", q(4, 6))):
        c.rows("own", a, n)
    for a, n in (("brackets", q(4, 5)), ("spaces", q(4, 5)), ("odd", q(4, 5))):
        c.rows("std", a, n)
    parser_trace(c, "expr", 1500, 8000)
    parser_trace(c, "broken", 500, 4000)


def c27(c):
    build("hparser")
    for a, n in (("brackets", q(5, 6)), ("spaces", q(5, 6)), ("strings", q(4, 6)), ("ops", q(4, 5)), ("scripts", q(4, 5)), ("lexing", q(4, 5))):
        c.rows("std", a, n)
    c.rows("own", "own", q(4, 5))
    c.rows("std", "odd", q(3, 4))
    parser_trace(c, "broken", 1500, 8000)


def c28(c):
    build("hparser")
    c.rows("std", "boxes", q(4, 5), "nested")
    c.rows("std", "scripts", q(4, 5), "nested")
    c.rows("std", "cells", 1, "nested")
    parser_trace(c, "any:nested", 1500, 8000)
    parser_trace(c, "expr:nested", 500, 3000)
    parser_trace(c, "broken:nested", 500, 3000)


def c34(c):
    build("hparser")
    for a, n in (("boxes", q(3, 4)), ("scripts", q(4, 5)), ("strings", q(4, 6)), ("calculus", q(3, 4)), ("brackets", q(4, 5)), ("cells", 1)):
        c.rows("std", a, n)
    # trees that no document has: with values, and with names that are not in the map
    c.mc("SyntaxMC", dict(Depth=1, Names="more"), ["TypeOk", "Facet"], "hparser")
    c.mc("SyntaxMC", dict(Depth=q(2, 3), Names="one"), ["TypeOk", "Facet"], "hparser")
    parser_trace(c, "any", 1500, 10000)
    parser_trace(c, "expr", 500, 4000)
    parser_trace(c, "broken", 500, 4000)


def c36(c):
    build("hparser")
    for which, alphabet, mods, n in (("std", "each", q(3, 4), 1), ("std", "each", 2, q(2, 3)), ("clash", "clash", 3, q(3, 4)), ("calls", "calls", 4, q(3, 4)), ("crowd", "clash", 3, q(1, 2))):
        c.selections(which, alphabet, mods, n)
    c.random_selections(q(3000, 30000))


def c29(c):
    build_front()
    for a, n in (("boxes", q(3, 4)), ("scripts", q(4, 5)), ("spaces", q(4, 5)), ("strings", q(4, 5)), ("ops", q(3, 4)), ("calculus", q(3, 4)), ("cells", 1)):
        c.explored("ParserMC", dict(Lang="std", Alphabet=a, MaxLen=n), ["TypeOk", "Facet"], "render", "documents")
    for p, n in (("expr", q(600, 6000)), ("broken", q(300, 3000)), ("any", q(1200, 8000))):
        c.shown("render", p, n)


def c30(c):
    build_front()
    for a, n in (("boxes", q(3, 4)), ("scripts", q(3, 4)), ("spaces", q(3, 4)), ("names", q(3, 5)), ("cells", 1)):
        c.explored("ParserMC", dict(Lang="std", Alphabet=a, MaxLen=n), ["TypeOk", "Facet"], "place", "documents")
    for p, n in (("expr", q(600, 4000)), ("broken", q(300, 2000)), ("any", q(600, 4000))):
        c.shown("place", p, n)


def c37(c):
    build_front()
    for a, n in (("boxes", q(3, 4)), ("scripts", q(4, 5)), ("spaces", q(4, 5)), ("brackets", q(4, 5)), ("cells", 1)):
        c.explored("ParserMC", dict(Lang="std", Alphabet=a, MaxLen=n), ["TypeOk", "Facet"], "address", "documents")
    for p, n in (("expr", q(400, 4000)), ("broken", q(300, 3000)), ("any", q(500, 5000))):
        c.shown("address", p, n)


def c31(c):
    build_front()
    for a, n in (("every", q(3, 3)), ("scripts", q(3, 4)), ("tables", q(4, 5)), ("grids", q(6, 7)), ("bad", q(3, 4))):
        c.explored("ImportMC", dict(TagSet=a, MaxNodes=n), ["TypeOk", "Facet"], "import", "elements")
    c.elements(q(4000, 30000))


def c32(c):
    build_front()
    for a, n in (("keys", q(4, 5)), ("typing", q(5, 6)), ("pointer", q(5, 6)), ("clip", q(4, 5)), ("attr", q(4, 5)), ("drag", q(3, 4))):
        c.explored("ComponentMC", dict(Alphabet=a, MaxLen=n), ["TypeOk", "Facet"], "events", "histories")
    c.explored("ComponentMC", dict(Alphabet="all", MaxLen=25), ["TypeOk", "Facet"], "events", "histories", count=q(400, 4000), length=25)


def c33(c):
    build("heditor")
    build_front()
    c.page("page", q(2, 3))
    c.page(count=q(1500, 10000))
    for mods, n in q(((1, 3), (2, 2), (3, 1)), ((1, 4), (2, 3), (3, 2), (4, 1))):
        c.explored("ModulesMC", dict(Which="page", Alphabet="page", MaxMods=mods, MaxLen=n), ["TypeOk", "Facet"], "compose", "selections")


def c35(c):
    build_front()
    for a, n, k in (("pages", q(3, 4), 0), ("edits", 2, q(3, 4))):
        c.explored("SiteMC", dict(Alphabet=a, MaxBlocks=n, MaxLen=k), ["TypeOk", "Facet"], "site", "pages")


PLANS = dict(C37=c37, C36=c36, C35=c35, C34=c34, C33=c33, C29=c29, C30=c30, C31=c31, C32=c32, C25=c25, C26=c26, C27=c27, C28=c28, C09=c09, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23, C24=c24, C11=c11, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C10=c10)


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        for p in PACKAGES:
            build(p)
        return
    c = None
    try:
        c = Check(prop)
        PLANS[prop](c)
        rc = c.finish()
    except (ToolError, subprocess.TimeoutExpired) as e:
        if c and c.violations:
            rc = c.finish()
        else:
            print("ERROR property=%s %s" % (prop, e))
            rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
