"""Common machinery of the checks: building the drivers from /repo, running
them, running TLC on models and on recorded traces, evidence and verdicts."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

FLAVORS = {
    # AddressSanitizer and UBSan turn memory errors into recorded crashes
    "san": dict(flags="-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined "
                      "-D_GLIBCXX_ASSERTIONS", opts=[]),
    # the command as users build it
    "plain": dict(flags="-O2", opts=[]),
    "omp": dict(flags="-O2", opts=["-DWITH_OPENMP=ON"]),
    # teams of threads as fibers, switched at accesses to shared memory
    # the OpenCL path on a simulated device
    "gpu": dict(flags="-O1 -g1 -D_GLIBCXX_ASSERTIONS -Wno-changes-meaning -DCL_TARGET_OPENCL_VERSION=120",
                opts=["-DWITH_OPENCL=ON", "-DGPU=ON"]),
    "conc": dict(flags="-O1 -g1", opts=["-DWITH_OPENMP=ON", "-DCONC=ON"]),
}


class CheckError(Exception):
    """The check itself could not give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(flavor, *targets):
    """Configures and builds targets of harness/CMakeLists.txt with /repo's
    current sources. Returns the build directory."""
    f = FLAVORS[flavor]
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    r = sh(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", d, "-G", "Ninja", "-DREPO=" + REPO,
            "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + f["flags"]] + f["opts"])
    if r.returncode == 0:
        r = sh(["ninja", "-C", d] + list(targets))
    if r.returncode != 0:
        raise CheckError("build of %s failed:\n%s" % (flavor, r.stdout[-4000:]))
    return d


def setup():
    """Nothing is kept from a setup: every check builds what it needs. This
    only makes sure that the tools are there and that the modules parse."""
    bad = [t for t in ("cmake", "ninja", "java", "g++") if not shutil.which(t)]
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            r = sh(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=SPEC)
            if r.returncode != 0 or "*** Errors" in r.stdout:
                print(r.stdout[-3000:])
                bad.append(f)
    print("setup: " + ("missing or broken: " + " ".join(bad) if bad else "ok"))
    return 1 if bad else 0


class Tlc:
    """Result of one TLC run."""
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        self.ok = rc == 0 and "Finished in" in out and "Error:" not in out


def tlc(module, cfg=None, env=None, workers=1, heap="3g", timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    if cfg and "\n" in cfg:        # the text of a configuration
        with open(os.path.join(meta, "x.cfg"), "w") as f:
            f.write(cfg)
        cfg = os.path.join(meta, "x")
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        return Tlc(r.stdout, r.returncode)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return Tlc((o if isinstance(o, str) else o.decode(errors="replace")) + "\nTIMEOUT", 124)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "tmp")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


class Check:
    """One property: collects what was explored and reports the verdict."""
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d/%s" % (prop, self.seed, self.tier))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.cov = {}
        self.samples = []
        self.violations = []
        self.assumptions = []

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- design level -------------------------------------------------
    def models(self, runs):
        """runs: (description, module, cfg text); all must hold. Returns the
        outputs of TLC."""
        def one(r):
            return r, tlc(r[1], r[2], workers=3, heap="6g", timeout=3000 if self.thorough else 600)
        outs = []
        with ThreadPoolExecutor(max_workers=3) as ex:
            for r, t in ex.map(one, runs):
                if not t.ok:
                    raise CheckError("model %s (%s) failed:\n%s" % (r[1], r[0], t.out[-3000:]))
                self.states += t.distinct
                self.transitions += t.generated
                self.cov.setdefault("models", []).append("%s, %s: %d distinct states, %d transitions" % (
                    r[1], r[0], t.distinct, t.generated))
                outs.append(t.out)
        return outs

    # ---- traces ---------------------------------------------------------
    def run_driver(self, exe, cmds, out, sids, env=None):
        """Runs the driver over a command file, restarting it after a crash;
        the session that crashed gets an event that no contract accepts."""
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                             "max_allocation_size_mb=4096")
        e.update(env or {})
        open(out, "w").close()
        first, order = min(sids), sorted(sids)
        crashes = hangs = 0
        while True:
            r = subprocess.run([exe, cmds, out, str(first)], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, env=e, cwd=REPO)
            if r.returncode == 0:
                return
            err = r.stderr.decode(errors="replace")
            if r.returncode == 2:
                raise CheckError("driver: " + err[-2000:])
            crashes += 1
            last = first
            with open(out) as f:
                for line in f:
                    m = re.match(r'\{"sid":(\d+)', line)
                    if m:
                        last = max(last, int(m.group(1)))
            what = "signal %d" % -r.returncode if r.returncode < 0 else "exit %d" % r.returncode
            m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|Assertion[^\n]*)", err)
            if m:
                what += " " + re.sub(r'["\\]', "'", m.group(1))
            with open(out, "rb+") as f:       # drop a torn last line
                data = f.read()
                cut = data.rfind(b"\n") + 1
                f.truncate(cut)
            with open(out, "a") as f:
                f.write(json.dumps(dict(sid=last, op="crash", what=what), separators=(",", ":")) + "\n")
            rest = [s for s in order if s > last]
            hangs += r.returncode == -signal.SIGALRM
            if not rest or crashes > 100 or hangs >= 2:
                return
            first = rest[0]

    def validate(self, driver, sessions, module="Trace", cfg=None, shards=None, env=None):
        """sessions: list of (sid, text). Runs the driver and TLC on shards.
        Returns rejections: sid -> (event number, op, clauses, events)."""
        shards = min(shards or CORES, max(1, len(sessions)))
        d = tempfile.mkdtemp(prefix="tr-", dir=scratch())

        def one(k):
            part = sessions[k::shards]
            if not part:
                return {}, 0, 0, 0
            cmds, out = os.path.join(d, "c%d.txt" % k), os.path.join(d, "t%d.ndjson" % k)
            with open(cmds, "w") as f:
                f.write("".join(t for _, t in part))
            self.run_driver(driver, cmds, out, [s for s, _ in part], env)
            return self.validate_file(out, module, cfg)
        rej = {}
        with ThreadPoolExecutor(max_workers=shards) as ex:
            for r, gen, dist, ev in ex.map(one, range(shards)):
                rej.update(r)
                self.states += dist
                self.transitions += gen
                self.events += ev
        shutil.rmtree(d, ignore_errors=True)
        return rej

    def validate_file(self, path, module="Trace", cfg=None, budget=None):
        t = tlc(module, cfg, env=dict(TRACE=path))
        m = re.search(r'"DONE (\d+) (\d+)"', t.out)
        if not t.ok or not m:
            # Values the specification is not defined for (not a resource or
            # syntax problem): find the session that contains them.
            if not re.search(r"Error: (TLC threw|Evaluating|The first argument|In applying|Attempted|"
                             r"The error occurred)|Attempted to|outside its domain|was not in the domain", t.out) \
                    or re.search(r"OutOfMemory|StackOverflow|TIMEOUT|Parsing or semantic", t.out):
                raise CheckError("trace validation failed to run:\n" + t.out[-4000:])
            return self.isolate(path, module, cfg, t, budget or [4])
        rej = {}
        lines = None
        for x in re.finditer(r'"REJECT (\S+) (\d+) (\S+) (\{.*?\})"', t.out, re.S):
            if lines is None:
                lines = open(path).read().split("\n")
            sid, i = int(x.group(1)), int(x.group(2))
            evs = [l for l in lines[:i] if l.startswith('{"sid":%d,' % sid)]
            rej[sid] = (i, x.group(3), re.sub(r"\s+", " ", x.group(4)), evs)
        return rej, t.generated, t.distinct, int(m.group(1))

    def isolate(self, path, module, cfg, t, budget):
        groups = []
        for line in open(path):
            m = re.match(r'\{"sid":(-?\d+),"op":"(\w+)"', line)
            sid = int(m.group(1)) if m else None
            if not groups or groups[-1][0] != sid:
                groups.append((sid, []))
            groups[-1][1].append(line)
        if len(groups) == 1:
            budget[0] -= 1
            sid, lines = groups[0]
            err = re.search(r"Error: (.*?)\n(?:The behavior|Error|\d+ states)", t.out, re.S)
            return {sid: (len(lines), "session", "{outside the model: %s}" % re.sub(
                r"\s+", " ", err.group(1) if err else t.out[-300:])[:300], lines)}, 0, 0, len(lines)
        rej, sums = {}, [0, 0, 0]
        half = len(groups) // 2
        for k, part in enumerate((groups[:half], groups[half:])):
            if budget[0] <= 0:
                break
            f = "%s.%d" % (path, k)
            with open(f, "w") as o:
                o.write("".join("".join(g[1]) for g in part))
            r, *n = self.validate_file(f, module, cfg, budget)
            os.remove(f)
            rej.update(r)
            sums = [a + b for a, b in zip(sums, n)]
        return (rej, *sums)

    def trace_check(self, flavor, target, sessions, module="Trace", cfg=None, label="sessions", env=None):
        """Builds, records, validates; confirms rejections by a second run."""
        if not sessions:
            return
        d = build(flavor, target)
        exe = os.path.join(d, target)
        rej = self.validate(exe, sessions, module, cfg, env=env)
        self.traces += len(sessions)
        kinds = self.cov.setdefault("sessions_by_kind", {})
        kinds[label] = kinds.get(label, 0) + len(sessions)
        if not self.samples:
            self.samples.append(sessions[0][1][:1500])
        if rej:
            again = [(s, t) for s, t in sessions if s in rej][:40]
            rej2 = self.validate(exe, again, module, cfg, env=env)
            if not any(s in rej2 for s, _ in again):
                # something that lives longer than a session: repeat what the
                # process did before
                n = min(CORES, max(1, len(sessions)))
                k = next(i for i, (s, _) in enumerate(sessions) if s in rej)
                rej2 = self.validate(exe, sessions[k % n::n], module, cfg, shards=1, env=env)
                again = [x for x in sessions[k % n::n] if x[0] in rej2][:40] or again
            for s, t in again:
                if s in rej2:
                    i, op, clauses, evs = rej2[s]
                    self.violate("%s broken at %s" % (clauses, op),
                                 dict(session=t, flavor=flavor, target=target, module=module, cfg=cfg,
                                      rejected=op, clauses=clauses, events=evs[-6:]))
                else:
                    print("note: rejection of session %d was not repeated" % s)

    # ---- verdict --------------------------------------------------------
    def violate(self, what, data):
        self.violations.append((what, data))

    def finish(self):
        known = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    known.append((m.group(2), m.group(3)))
        fresh = []
        for what, data in self.violations:
            text = what + json.dumps(data)
            hit = [k for k in known if re.search(k[0], text)]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[0][1]))
            else:
                fresh.append((what, data))
        rdir = os.path.join(BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        for k, (what, data) in enumerate(fresh[:5]):
            f = os.path.join(rdir, "%s-%d.json" % (self.prop, k))
            with open(f, "w") as o:
                json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, **data), o, indent=1)
            print("  " + what[:300])
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events, samples=self.samples[:4], **self.cov),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
        print("%s: %d states, %d transitions, %d traces, %d events, %.1f s, %d violation(s)" % (
            self.prop, self.states, self.transitions, self.traces, self.events, time.time() - self.t0, len(fresh)))
        return 1 if fresh else 0
