"""Shared machinery: building the harness crates, running TLC, judging traces, reporting."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = f"{VERIF}/build"
SPEC = f"{VERIF}/spec"
TARGET = f"{BUILD}/target"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Inconclusive(Exception):
    """The check could not decide: exit code 2."""


def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="1")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f"{BUILD}/{name}.lock", "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build(crate):
    """Builds a harness crate against /repo's working tree and returns the path of its binary."""
    with Lock("cargo"):
        import mirror
        mirror.prepare(crate)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=f"{VERIF}/harness/{crate}",
                           env=cargo_env(), stdin=subprocess.DEVNULL, capture_output=True, text=True)
        if p.returncode:
            raise Inconclusive(f"harness {crate} does not build against {REPO}:\n{p.stderr[-6000:]}")
        # a private copy: another check may rebuild it
        dst = f"{BUILD}/bin/{crate}"
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        src = f"{TARGET}/debug/{crate}"
        if not os.path.exists(dst) or open(src, "rb").read() != open(dst, "rb").read():
            shutil.copy2(src, dst + ".new")
            os.replace(dst + ".new", dst)
        return dst


def shim():
    with Lock("shim"):
        so, c = f"{BUILD}/shim.so", f"{VERIF}/shim/shim.c"
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(c):
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, c, "-ldl", "-lpthread"], check=True)
        return so


class TlcResult:
    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.violated = re.findall(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated|Error: (Temporal properties were violated|Deadlock reached)", out)
        self.ok = "Model checking completed. No error has been found." in out

    def printed(self, tag):
        """Values printed with PrintT(<<"tag", ...>>), as the text between << and >>."""
        return re.findall(r'^<<"%s", (.*)>>$' % re.escape(tag), self.out, re.M)


def tlc(module, cfg=None, env=None, workers=8, args=(), timeout=800, heap="6g", seed=None):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=rundir())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", f"{SPEC}/{cfg or module + '.cfg'}", *args, f"{SPEC}/{module}.tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"TLC on {module} exceeded {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(p.stdout + p.stderr, p.returncode)


_rundir = None
_scratch = []


def rundir():
    global _rundir
    if _rundir is None:
        os.makedirs(f"{BUILD}/run", exist_ok=True)
        _rundir = tempfile.mkdtemp(prefix="r-", dir=f"{BUILD}/run")
    return _rundir


def cleanup():
    global _rundir
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
    if _rundir:
        shutil.rmtree(_rundir, ignore_errors=True)
        _rundir = None


def scratch():
    """A directory for the files of the code under test; memory-backed when possible."""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else rundir()
    d = tempfile.mkdtemp(prefix="verif-", dir=base)
    _scratch.append(d)
    return d


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random(f"{prop}-{seed}")
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.violations, self.known_hit = [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.known = known_findings(prop)

    # -- model checking ---------------------------------------------------------------------
    def model(self, module, cfg, what, env=None, **kw):
        """The specification itself: an invariant that fails here is an error of the specification."""
        r = tlc(module, cfg, env=env, **kw)
        if not r.ok:
            raise Inconclusive(f"specification {module}/{cfg} ({what}) does not check:\n{r.out[-4000:]}")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append(dict(module=module, cfg=cfg, what=what, distinct=r.distinct, generated=r.generated, depth=r.depth))
        return r

    def model_bad(self, module, cfg, what, **kw):
        """A wrong design: the specification's invariants have to reject it."""
        r = tlc(module, cfg, **kw)
        if not r.violated:
            raise Inconclusive(f"specification {module}/{cfg} accepts a wrong design ({what}):\n{r.out[-3000:]}")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("rejected_designs", []).append(dict(cfg=cfg, what=what, violated=[x for x in r.violated[0] if x][0], distinct=r.distinct))

    def histories(self, module, cfg, n, tag="HIST", **kw):
        """Histories the specification generates: maximal ones first, then a random choice of the rest."""
        r = tlc(module, cfg, workers=1, **kw)
        if not r.ok:
            raise Inconclusive(f"generator {module}/{cfg} failed:\n{r.out[-4000:]}")
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        raw = sorted(set(r.printed(tag)))
        hs = [json.loads(json.loads(x)) for x in raw]
        keys = sorted((json.dumps(h)[:-1], i) for i, h in enumerate(hs))
        keep = [i for (k, i), nxt in zip(keys, keys[1:] + [("", -1)]) if not nxt[0].startswith(k + ",")]
        out = [hs[i] for i in keep]
        self.rng.shuffle(out)
        self.cov.setdefault("generated", []).append(dict(module=module, cfg=cfg, transitions=len(raw), maximal=len(out), used=min(n, len(out))))
        return out[:n]

    # -- trace validation -------------------------------------------------------------------
    def validate(self, module, traces, cfg=None, what="", env=None, chunk=None, timeout=800, workers=8):
        """Asks TLC which traces are behaviours of the specification; the others are violations."""
        if not traces:
            raise Inconclusive(f"no traces recorded for {what or module}")
        rejected = []
        chunk = chunk or len(traces)
        for k in range(0, len(traces), chunk):
            part = traces[k:k + chunk]
            path = f"{rundir()}/traces-{module}-{len(os.listdir(rundir()))}.ndjson"
            with open(path, "w") as f:
                for t in part:
                    f.write(json.dumps(t) + "\n")
            r = tlc(module, cfg, env=dict(env or {}, TRACES=path), timeout=timeout, workers=workers)
            acc = {int(x) for x in r.printed("ACCEPT")}
            if not r.ok and not r.violated:
                rejected.append(self.unreadable(module, cfg, part, what, env, timeout, workers, r))
                continue
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            if r.violated:
                # an invariant of the specification fails on a recorded behaviour: find out on which
                for i in range(len(part)):
                    if i + 1 not in acc or len(part) == 1:
                        rejected.append((part[i], r.out[-3000:]))
                if not rejected:
                    rejected.append((part[0], r.out[-3000:]))
                continue
            for i in range(len(part)):
                if i + 1 not in acc:
                    rejected.append((part[i], None))
        self.cov["traces_validated_against_impl"] += len(traces) - len(rejected)
        self.cov.setdefault("trace_runs", []).append(dict(module=module, what=what, traces=len(traces), accepted=len(traces) - len(rejected),
                                                          events=sum(len(t.get("ev", [])) for t in traces)))
        for t in traces[:1]:
            self.sample(dict(what=what or module, trace=t))
        for t, why in rejected[:20]:
            self.reject(module, cfg, t, what, why, env)
        return rejected

    def unreadable(self, module, cfg, part, what, env, timeout, workers, r):
        """TLC could not evaluate the specification on a trace: finds one with an answer that is of no
        kind the specification knows. That is a violation; every other failure of TLC is no answer."""
        def attempt(ts):
            path = f"{rundir()}/part.ndjson"
            with open(path, "w") as f:
                for t in ts:
                    f.write(json.dumps(t) + "\n")
            return tlc(module, cfg, env=dict(env or {}, TRACES=path), timeout=timeout, workers=workers)

        def evaluation(r):
            return not r.ok and not r.violated and "Computing initial states" in r.out and not re.search(r"OutOfMemory|StackOverflow|java\.io\.", r.out)
        if not evaluation(r):
            raise Inconclusive(f"TLC failed on {module} ({what}):\n{r.out[-5000:]}")
        at = re.findall(r"^/\\ tr = (\d+)", r.out, re.M)
        cand = [part[int(at[-1]) - 1]] if at and 0 < int(at[-1]) <= len(part) else []
        if not cand or not evaluation(attempt(cand)):
            cand = part
            while len(cand) > 1:
                half = cand[:len(cand) // 2]
                cand = half if evaluation(attempt(half)) else cand[len(cand) // 2:]
        one = attempt(cand)
        if not evaluation(one):
            raise Inconclusive(f"TLC failed on {module} ({what}), but on no trace alone:\n{r.out[-5000:]}")
        return cand[0], one.out[-3000:]

    def reject(self, module, cfg, trace, what, why=None, env=None):
        depth = None
        if why is None:
            path = f"{rundir()}/one.ndjson"
            with open(path, "w") as f:
                f.write(json.dumps(trace) + "\n")
            r = tlc(module, cfg, env=dict(env or {}, TRACES=path), workers=1)
            if r.printed("ACCEPT") and not r.violated:
                raise Inconclusive(f"trace {trace.get('id')} rejected in a batch but accepted alone")
            # progress: the trace specification prints the furthest event it matched
            at = [int(x) for x in r.printed("AT")]
            depth = max(at) if at else max(r.depth - 1, 0)
        ev = trace.get("ev", [])
        bad = ev[depth] if depth is not None and depth < len(ev) else None
        self.violation(dict(kind="trace", module=module, cfg=cfg, what=what, matched_events=depth, first_unmatched=bad, trace=trace, tlc=why))

    def violation(self, rec):
        for k in self.known:
            if k["match"](rec):
                if k["line"] not in self.known_hit:
                    self.known_hit.append(k["line"])
                return
        self.violations.append(rec)

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            t = json.dumps(s)
            self.cov["samples"].append(s if len(t) < 3000 else t[:3000] + "...")

    def scratch(self):
        return scratch()

    def file(self, name, rows):
        p = f"{rundir()}/{name}"
        with open(p, "w") as f:
            for r in rows:
                f.write(json.dumps(r) + "\n")
        return p

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(self.violations))
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for l in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {l}")
        if not self.violations:
            print(f"OK property={self.prop} tier={self.tier} states={self.cov['states']} traces={self.cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
            return 0
        d = f"{BUILD}/replay"
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(self.violations[:10]):
            p = f"{d}/{self.prop}-{self.tier}-{self.seed}-{i}.json"
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            if i < 3:
                print("  " + json.dumps({k: v[k] for k in ("what", "matched_events", "first_unmatched", "detail") if k in v})[:900])
            print(f"VIOLATION property={self.prop} replay={p}")
        return 1


def known_findings(prop):
    """Entries of known_findings.txt for this property: `finding: property=ID key=KEY text`. The
    check of the property decides with KEY which violations are this finding (rec['key'] == KEY)."""
    out = []
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                key, text = m.group(2), m.group(3).strip()
                out.append(dict(key=key, line=f"{text}", match=lambda rec, key=key: rec.get("key") == key))
    return out


def run_harness(cmd, env=None, timeout=600, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        return subprocess.run(cmd, env=e, timeout=timeout, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        return None


def read_ndjson(p):
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                try:
                    out.append(json.loads(l))
                except ValueError:
                    pass  # the last line of a killed process
    return out
