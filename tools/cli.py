"""Runs the real command and records what it did, as events of CliTrace.tla."""
import json, os, re, resource, shutil, signal, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib

SHORT = {"left-image": "-l", "right-image": "-r", "output-image": "-o", "disparity-levels": "-d", "cleanness": "-c",
         "smoothness": "-s", "parallel": "-p", "help": "-h"}
OPTIONS = list(SHORT)
MISSING = [-1]
OLD = dict(junk="old contents\n", map="P2\n2 1\n2\n0 0\n")


class Run:
    """One run. args: [opt, value or None]; left, right: texts or None; kind of
    the output path; env and binary may vary."""
    def __init__(self, args, left, right, lk="ok", rk="ok", out="ok", before="none", c=1, s=1, same=0, again=0,
                 flavor="plain", threads=None, spell=None, classes=None, inplace=False):
        self.__dict__.update(locals())

    def describe(self):
        d = {k: v for k, v in self.__dict__.items() if k != "self" and v not in (None, False)}
        return d


def words(run, d, r):
    """The command line. Spelling of options is free: -l x, -lx, --left-image x,
    --left-image=x."""
    paths = {"left-image": os.path.join(d, "left.pgm"), "right-image": os.path.join(d, "right.pgm"),
             "output-image": run.outpath}
    out = []
    for opt, val in run.args:
        if opt == "unknown":
            out.append(r.choice(["--verbose", "-z", "--xyz=1", "-q"]))
        elif opt == "help":
            out.append(r.choice(["-h", "--help"]))
        elif val is None:
            out.append(r.choice([SHORT[opt], "--" + opt]))
        else:
            v = paths.get(opt, val)
            k = r.randrange(4)
            if v.startswith("-") or v == "" or v[0] == "=":
                k = 3 if v else 1
            out += [[SHORT[opt], v], ["--" + opt, v], [SHORT[opt] + v], ["--%s=%s" % (opt, v)]][k]
    return out


def codes(path):
    try:
        with open(path, "rb") as f:
            return list(f.read(1 << 20))
    except OSError:
        return MISSING


def execute(run, exe, r):
    d = tempfile.mkdtemp(prefix="cli-", dir=vlib.scratch())
    try:
        for name, text, kind in (("left.pgm", run.left, run.lk), ("right.pgm", run.right, run.rk)):
            path = os.path.join(d, name)
            if kind == "dir":
                os.mkdir(path)
            elif text is not None:
                with open(path, "wb") as f:
                    f.write(text)
        run.outpath = {"ok": "out.pgm", "limit": "out.pgm", "nodir": "none/out.pgm", "dir": "out"}.get(run.out)
        run.outpath = "/dev/full" if run.out == "full" else os.path.join(d, run.outpath)
        if run.inplace:
            run.outpath = os.path.join(d, run.inplace)
        if run.out == "dir":
            os.mkdir(run.outpath)
        elif run.before != "none" and not run.inplace and run.out in ("ok", "limit"):
            with open(run.outpath, "w") as f:
                f.write(OLD[run.before])
        real = run.out != "full"
        before = codes(run.outpath) if real else MISSING
        env = dict(os.environ)
        env.pop("OMP_NUM_THREADS", None)
        if run.threads:
            env["OMP_NUM_THREADS"] = str(run.threads)
        # more threads than cores must not burn the time of each other
        env["OMP_WAIT_POLICY"], env["GOMP_SPINCOUNT"] = "passive", "0"
        if run.flavor == "gpu":
            env["LD_PRELOAD"] = os.path.join(vlib.BUILD, "gpu", "libfakecl.so")
            env["FAKECL_SEED"], env["FAKECL_MODE"] = str(r.randrange(10 ** 6)), str(r.randrange(4))
            env["FAKECL_BUILTINS"] = os.path.join(vlib.VERIF, "harness", "builtins.cl")
            # the kernels are read from the working directory
            for name in ("lib", "include"):
                os.symlink(os.path.join(vlib.REPO, name), os.path.join(d, name))
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        env["UBSAN_OPTIONS"] = "abort_on_error=1"

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if run.out == "limit":
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (5, 5))
        cmd = words(run, d, r)
        run.command = cmd
        try:
            p = subprocess.run([exe] + cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env, cwd=d, timeout=40, preexec_fn=limits)
            code, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            code, out, err = -99, b"", b""
        both = (out + err).decode("latin-1")
        run.stderr = err.decode("latin-1")[:500]
        return dict(op="run",
                    args=[dict(opt=o, val=list((v or "").encode()) if o == "disparity-levels" else [],
                               **{"class": cl}) for (o, v), cl in zip(run.args, run.classes)],
                    left=MISSING if run.left is None or run.lk == "dir" else list(run.left),
                    right=MISSING if run.right is None or run.rk == "dir" else list(run.right),
                    writable={"ok": 1, "limit": 2}.get(run.out, 0),
                    c=run.c, s=run.s, exit=max(code, 0), signal=max(-code, 0), err=len(err), out=len(out),
                    mentions=int(all(re.search(r"(?<![\w-])(--%s)(?![\w-])" % o, both) for o in OPTIONS)),
                    before=before, after=codes(run.outpath) if real else MISSING,
                    same=run.same, again=run.again)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(c, sessions, wide=False, label="runs of the command"):
    """sessions: lists of Run. Validates, repeats rejected ones."""
    if not sessions:
        return
    cfg = "CliTraceWide" if wide else "CliTrace"
    flavors = sorted({x.flavor for s in sessions for x in s})
    exes = {f: os.path.join(vlib.build(f, "stereo_parallel", *(["fakecl"] if f == "gpu" else [])), "repo-lib",
                            "stereo_parallel") for f in flavors}
    kinds = c.cov.setdefault("sessions_by_kind", {})
    kinds[label] = kinds.get(label, 0) + sum(map(len, sessions))

    def validate(pairs):
        def one(k):
            import random
            part = pairs[k::vlib.CORES]
            if not part:
                return {}, 0, 0, 0
            path = os.path.join(vlib.scratch(), "cli%d.ndjson" % k)
            hangs = 0
            with open(path, "w") as f:
                for sid, runs in part:
                    r = random.Random("%s/%d" % (c.seed, sid))
                    f.write(json.dumps(dict(sid=sid, op="begin"), separators=(",", ":")) + "\n")
                    for x in runs:
                        e = dict(sid=sid)
                        e.update(execute(x, exes[x.flavor], r))
                        hangs += e["signal"] == 99
                        f.write(json.dumps(e, separators=(",", ":")) + "\n")
                    if hangs >= 2:
                        break
            return c.validate_file(path, "CliTrace", cfg)
        rej = {}
        with ThreadPoolExecutor(max_workers=vlib.CORES) as ex:
            for x, gen, dist, ev in ex.map(one, range(vlib.CORES)):
                rej.update(x)
                c.states += dist
                c.transitions += gen
                c.events += ev
        return rej
    pairs = list(enumerate(sessions, 1))
    c.traces += len(pairs)
    rej = validate(pairs)
    if not c.samples:
        c.samples.append(json.dumps(sessions[0][0].describe(), default=lambda b: b.decode("latin-1"))[:1500])
    if rej:
        again = [p for p in pairs if p[0] in rej][:40]
        rej2 = {}
        for _ in range(3):      # schedules of real threads vary
            if rej2:
                break
            rej2.update(validate([p for p in again if p[0] not in rej2]))
        for sid, runs in again:
            if sid in rej2:
                i, op, clauses, evs = rej2[sid]
                x = runs[min(len(runs), max(1, len(evs) - 1)) - 1]
                c.violate("%s broken by stereo_parallel %s" % (clauses, " ".join(
                    os.path.basename(w) for w in getattr(x, "command", []))),
                    dict(run=json.loads(json.dumps(x.describe(), default=lambda b: b.decode("latin-1"))),
                         clauses=clauses, events=evs[-2:]))
            else:
                print("note: rejection of session %d was not repeated" % sid)
