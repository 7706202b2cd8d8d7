"""Infrastructure of the checks: building, running TLC and the driver, evidence."""
import itertools, json, os, re, subprocess, sys, time, hashlib, random, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
JAR = f"{TLA}/tla2tools.jar"
CM = f"{TLA}/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
QUICK = TIER != "thorough"


_seq = itertools.count()


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def cargo_env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTC_WRAPPER"] = ""
    for k in list(env):
        if k.startswith("CARGO_PROFILE_") or k in ("CARGO_INCREMENTAL", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
            del env[k]
    return env


REPO = "/repo"


def invalidate(tgt):
    """Cargo decides by modification times; decide by content, whatever the times are."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    stamp = os.path.join(tgt, "repo.stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h.hexdigest():
        for prof in ("debug", "release"):
            for pkg in ("commit_verify", "client_side_validation", "single_use_seals", "commit_encoding_derive"):
                for p in glob.glob(os.path.join(tgt, prof, ".fingerprint", pkg + "-*")):
                    shutil.rmtree(p, ignore_errors=True)
        os.makedirs(tgt, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(h.hexdigest())


class BuildError(ToolError):
    pass


def build(release=True, bin="csv_driver"):
    """Builds the overrides and the driver from /repo's working tree."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    ovr = os.path.join(BUILD, "ovr")
    src = os.path.join(VERIF, "java/ovr/CsvOverrides.java")
    cls = os.path.join(ovr, "ovr/CsvOverrides.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(ovr, exist_ok=True)
        r = subprocess.run(["javac", "-cp", JAR, "-d", ovr, src], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac failed: " + r.stderr)
    tgt = os.path.join(HARNESS, "target")
    invalidate(tgt)
    cmds = [["cargo", "build", "--offline", "--locked", "--bin", bin, "--features", "full", "--target-dir", tgt]]
    if release:
        cmds.append(["cargo", "build", "--offline", "--locked", "--bin", bin, "--release", "--target-dir", tgt])
    ps = [subprocess.Popen(c, cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True) for c in cmds]
    for c, p in zip(cmds, ps):
        o, _ = p.communicate(timeout=800)
        if p.returncode:
            raise BuildError("build failed: " + " ".join(c) + "\n" + o[-4000:])
    log(f"built in {time.time()-t0:.1f}s")
    d = {"dev": os.path.join(tgt, "debug", bin)}
    if release:
        d["rel"] = os.path.join(tgt, "release", bin)
    return d


# ---------------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, timeout=850, extra=(), deadlock=False, xmx="10g", name=None,
        allow_fail=False):
    """Runs TLC; returns stats. Violations are reported in .violation (text)."""
    cfg = cfg or module
    name = name or os.path.basename(cfg)
    md = os.path.join(BUILD, "tlc", f"{name}-{os.getpid()}-{next(_seq)}")
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss512m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:ovr.CsvOverrides",
           "-cp", f"{JAR}:{CM}:{BUILD}/ovr", "tlc2.TLC",
           "-workers", str(workers or CPUS), "-metadir", md, "-noGenerateSpecTE", "-nowarning",
           "-config", f"{cfg}.cfg"] + list(extra) + [f"{module}.tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timeout on {name}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout + r.stderr
    res = TlcResult()
    res.out, res.rc, res.name, res.wall = out, r.returncode, name, time.time() - t0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    res.depth = int(m[-1]) if m else 0
    res.prints = [l.strip().strip('"') for l in out.splitlines() if l.startswith('"')]
    res.violation = None
    if "is violated" in out or "was violated" in out:
        i = out.find("Error:")
        res.violation = out[i:i + 20000]
    elif r.returncode != 0 and not allow_fail:
        raise ToolError(f"TLC failed on {name} (rc {r.returncode}):\n" + out[-6000:])
    log(f"TLC {name}: {res.generated} states generated, {res.distinct} distinct, {res.wall:.1f}s"
        + (" VIOLATION" if res.violation else ""))
    return res


# ------------------------------------------------------------------- driver
def run_driver(binary, script, tag, timeout=600, op_limit_ms=60000, shards=None):
    """Runs the driver over shards of the script in parallel."""
    from concurrent.futures import ThreadPoolExecutor
    lines = open(script).read().splitlines()
    n = max(1, min(shards or CPUS, len(lines)))
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))      # spread the big ones
    parts = [sorted(order[k::n]) for k in range(n)]

    def one(k):
        sc = f"{script}.{k}"
        with open(sc, "w") as f:
            f.write("".join(lines[i] + "\n" for i in parts[k]))
        try:
            r = _run_driver(binary, sc, f"{tag}.{k}", timeout, op_limit_ms)
        finally:
            os.remove(sc)
        return {(parts[k][t], i): v for (t, i), v in r.items()}
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, range(n)):
            res.update(r)
    return res


def _run_driver(binary, script, tag, timeout, op_limit_ms):
    """Runs the driver; returns {(trace, op index): (obs, message)}. A crash or a
    hang of the process becomes the observation of the operation it happened in."""
    out = os.path.join(BUILD, "run", f"{tag}-{os.getpid()}.out")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    counts = []
    with open(script) as f:
        for line in f:
            counts.append(len(json.loads(line)["ops"]))
    res = {}
    first = 0
    env = dict(os.environ, OP_LIMIT_MS=str(op_limit_ms), RUST_BACKTRACE="0")
    t0 = time.time()
    crashes = 0

    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    while first < len(counts):
        left = timeout - (time.time() - t0)
        if left <= 0:
            raise ToolError("driver timeout")
        try:
            r = subprocess.run([binary, script, out, str(first)], env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=left, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            raise ToolError("driver timeout")
        res = {}
        last = first - 1
        with open(out) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                res[(d["t"], d["i"])] = (d["o"], d.get("m", ""))
        if r.returncode == 0:
            break
        # find the trace in which the process ended, re-run it operation by operation
        t = first
        while t < len(counts) and all((t, i) in res for i in range(counts[t])):
            t += 1
        if t >= len(counts):
            break
        crashes += 1
        if crashes > 50:
            raise ToolError("driver keeps crashing: " + r.stderr.decode(errors="replace")[-2000:])
        solo = out + ".solo"
        with open(script) as f:
            for j, line in enumerate(f):
                if j == t:
                    tr = json.loads(line)
        for op in tr["ops"]:
            op["risky"] = True
        with open(solo + ".in", "w") as f:
            f.write(json.dumps(tr) + "\n")
        if os.path.exists(solo):
            os.remove(solo)
        r2 = subprocess.run([binary, solo + ".in", solo, "0"], env=env, stdout=subprocess.DEVNULL,
                            stderr=subprocess.PIPE, preexec_fn=lim)
        n = 0
        extra = {}
        if os.path.exists(solo):
            with open(solo) as f:
                for line in f:
                    d = json.loads(line)
                    extra[(t, d["i"])] = (d["o"], d.get("m", ""))
                    n = max(n, d["i"] + 1)
        why = "hang" if r2.returncode == 97 else "crash"
        if r2.returncode == 0:
            raise ToolError("driver crashed but not when repeated: " + r.stderr.decode(errors="replace")[-2000:])
        extra[(t, n)] = ([why], f"process ended with {r2.returncode}: " + r2.stderr.decode(errors="replace")[-300:])
        with open(out, "a") as f:
            for (tt, i), (o, m) in sorted(extra.items()):
                f.write(json.dumps({"t": tt, "i": i, "o": o, "m": m}) + "\n")
            # later operations of that trace are not executed
            for i in range(n + 1, counts[t]):
                f.write(json.dumps({"t": t, "i": i, "o": ["skipped"]}) + "\n")
        first = t + 1
    if first > 0:
        res = {}
        with open(out) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                res[(d["t"], d["i"])] = (d["o"], d.get("m", ""))
    os.remove(out)
    for t, c in enumerate(counts):
        for i in range(c):
            if (t, i) not in res:
                raise ToolError(f"driver gave no observation for trace {t} op {i}")
    return res


# ----------------------------------------------------------- trace validation
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.parts = []
        self.known = set()
        self.violations = []
        self.assumptions = []
        self.rng = random.Random(f"{SEED}:{prop}")
        self.extra = {}
        self.bins = None
        self.pool = None
        self.pending = []

    # ---- building
    def build(self, release=True):
        self.bins = build(release)

    # ---- model checking
    def model(self, module, cfg=None, what="", env=None, **kw):
        """Model checking runs beside the conformance runs; finish() collects it."""
        if self.pool is None:
            from concurrent.futures import ThreadPoolExecutor
            self.pool = ThreadPoolExecutor(2)
        self.pending.append(self.pool.submit(self._model, module, cfg, what, env, kw))

    def _model(self, module, cfg, what, env, kw):
        return cfg or module, what, tlc(module, cfg, env=env, **kw)

    def _collect(self):
        for f in self.pending:
            self._record(*f.result())
        self.pending = []

    def _record(self, cfg, what, r):
        module = cfg
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"model": cfg or module, "what": what, "distinct_states": r.distinct,
                           "states_generated": r.generated, "depth": r.depth, "seconds": round(r.wall, 1)})
        if r.violation:
            self.violate("model", {"model": cfg or module, "what": what, "tlc": r.violation})

    # ---- conformance
    def conform(self, traces, module, world, what="", builds=("dev", "rel"), env=None, op_limit_ms=60000,
                cfg=None, sample=True, shards=None):
        """traces: list of {"id", "ops", ["full"]}. Executes them on the real code and
        validates what was observed against the trace specification `module`."""
        rd = os.path.join(BUILD, "run")
        os.makedirs(rd, exist_ok=True)
        runs = {}
        for bname in builds:
            if bname not in self.bins:
                continue
            sel = [t for t in traces if bname == "dev" or not t.get("full")]
            if not sel:
                continue
            script = os.path.join(rd, f"{self.prop}-{module}-{bname}-{os.getpid()}.script")
            with open(script, "w") as f:
                for t in sel:
                    f.write(json.dumps({"id": t["id"], "w": world, "ops": t["ops"]}) + "\n")
            t0 = time.time()
            res = run_driver(self.bins[bname], script, f"{self.prop}-{module}-{bname}", op_limit_ms=op_limit_ms, shards=shards)
            log(f"driver {bname}: {len(sel)} traces, {len(res)} operations, {time.time()-t0:.1f}s")
            os.remove(script)
            for j, t in enumerate(sel):
                ev = []
                for i, op in enumerate(t["ops"]):
                    o, m = res[(j, i)]
                    if o == ["skipped"]:
                        break
                    ev.append((op, o, m))
                key = (t["id"], json.dumps([[o for _, o, _ in ev]]))
                runs.setdefault(key, (t, ev, []))[2].append(bname)
        todo = list(runs.values())
        tf = os.path.join(rd, f"{self.prop}-{module}-{os.getpid()}.ndjson")
        with open(tf, "w") as f:
            for t, ev, bn in todo:
                f.write(json.dumps({"id": t["id"] + "@" + "+".join(bn),
                                    "ev": [{"a": op, "o": o} for op, o, _ in ev]}) + "\n")
        e = {"TRACES": tf}
        e.update(env or {})
        n_ev = sum(len(ev) for _, ev, _ in todo)
        bad = self._validate(module, cfg, e, todo, n_ev, what)
        os.remove(tf)
        self.traces += len(todo)
        self.events += n_ev
        if sample and todo:
            t, ev, bn = todo[self.rng.randrange(len(todo))]
            self.samples.append({"trace": t["id"], "builds": bn, "validated_against": module,
                                 "events": [{"op": _short(op), "observed": _short(o)} for op, o, _ in ev[:6]],
                                 "events_total": len(ev)})
        return bad

    def _validate(self, module, cfg, e, todo, n_ev, what):
        r = tlc(module, cfg, env=e, timeout=850)
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append({"trace_spec": module, "what": what, "traces": len(todo), "events": n_ev,
                           "distinct_states": r.distinct, "seconds": round(r.wall, 1)})
        for p in r.prints:
            if p.startswith("KNOWN "):
                self.known.add(p[6:])
        mism = []
        for p in r.prints:
            if p.startswith("MISMATCH "):
                mism.append(json.loads(_unq(p[9:])))
        if r.violation:
            raise ToolError(f"{module}: unexpected TLC violation\n" + r.violation[-3000:])
        if mism:
            mism.sort(key=lambda d: (d["l"], d["id"]))
            d = mism[0]
            rep = {"trace_spec": module, "what": what, "mismatching_traces": len(mism),
                   "trace": d["id"], "failing_event": d["l"], "expected": d["expected"], "observed": d["observed"]}
            for t, ev, bn in todo:
                if t["id"] + "@" + "+".join(bn) == d["id"]:
                    rep["builds"] = bn
                    rep["events"] = [{"op": op, "observed": o, "message": mm} for op, o, mm in ev[:d["l"]]]
            rep["others"] = mism[1:6]
            self.violate("conformance", rep)
            return True
        # every event must have been consumed: one state per event plus the initial ones
        want = n_ev + len(todo)
        if r.distinct != want:
            # find a trace that got stuck: that is a defect of the machinery, not of the code
            where = ""
            try:
                cf = os.path.join(BUILD, f"dbg-{os.getpid()}.cfg")
                with open(cf, "w") as f:
                    f.write("SPECIFICATION TSpecD\nCHECK_DEADLOCK TRUE\n")
                r2 = tlc(module, cf[:-4], env=e, name="dbg", allow_fail=True)
                for m in re.finditer(r"tr = (\d+)", r2.out):
                    k = int(m.group(1))
                for m in re.finditer(r"\bl = (\d+)", r2.out):
                    l = int(m.group(1))
                where = f"; stuck at trace {todo[k-1][0]['id']} event {l}: " + json.dumps(todo[k-1][1][l-1][:2])[:1500]
                os.remove(cf)
            except Exception as x:
                where = f"; {x!r}"
            raise ToolError(f"{module}: {r.distinct} states for {want} expected: an event has no action" + where)
        return False

    def violate(self, kind, rep):
        rep = dict(rep)
        rep["property"] = self.prop
        rep["kind"] = kind
        rep["seed"] = SEED
        rep["tier"] = TIER
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        with open(p, "w") as f:
            json.dump(rep, f, indent=1)
        self.violations.append(p)

    # ---- finish
    def finish(self, note=""):
        self._collect()
        kf = [k for k in known_findings() if k.get("property") == self.prop and k.get("status") == "known"]
        for k in kf:
            if k.get("key") in self.known:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        listed = {k.get("key") for k in kf}
        all_listed = {k.get("key") for k in known_findings() if k.get("status") == "known"}
        for k in sorted(self.known - all_listed):
            self.violate("conformance", {"what": f"deviation {k} is not a listed known finding"})
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "parts": self.parts, "samples": self.samples[:12] or [{"note": note}],
               "known_findings_seen": sorted(self.known & listed)}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "quick" if QUICK else "thorough", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p in self.violations:
            print(f"VIOLATION property={self.prop} replay={p}")
        if not self.violations:
            print(f"OK property={self.prop} states={self.states} traces={self.traces} events={self.events} "
                  f"wall={time.time()-self.t0:.0f}s")
        return 1 if self.violations else 0


def _unq(x):
    return x if '\\"' not in x else json.loads('"' + x + '"')


def _last_bad(text):
    i = text.rfind("bad = <<")
    while i >= 0 and text[i:i + 10].startswith("bad = <<>>"):
        i = text.rfind("bad = <<", 0, i)
    if i < 0:
        return ""
    j = text.find("\n/\\", i)
    return text[i:j if j > 0 else i + 6000]


def _short(x, k=160):
    if isinstance(x, str):
        return x if len(x) <= k else x[:k] + f"...({len(x)})"
    if isinstance(x, list):
        return [_short(y, k) for y in x[:12]] + ([f"...({len(x)})"] if len(x) > 12 else [])
    if isinstance(x, dict):
        return {a: _short(b, k) for a, b in x.items()}
    return x
