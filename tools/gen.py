"""Seeded generators of sessions for harness/driver.cpp."""


class Problem:
    def __init__(self, w, h, D, m, L, R, c=1, s=1, den=1, wide=False):
        self.w, self.h, self.D, self.m, self.L, self.R = w, h, D, m, L, R
        self.c, self.s, self.den, self.wide = c, s, den, wide

    def pixels(self):
        return range(1, self.w * self.h + 1)

    def disparities(self, p):
        x = (p - 1) % self.w
        return [d for d in range(self.D) if x + d < self.w]

    def has(self, p, k):
        x, y = (p - 1) % self.w, (p - 1) // self.w
        return [x + 1 < self.w, x > 0, y + 1 < self.h, y > 0][k]

    def graph(self):
        return "graph %d %d %d %d %d %d %d %d %s %d %s" % (
            self.w, self.h, self.D, self.m, self.den, self.c, self.s,
            len(self.L), " ".join(map(str, self.L)), len(self.R), " ".join(map(str, self.R)))

    def nodes(self):
        return [(p, d) for p in self.pixels() for d in self.disparities(p)]


SHAPES = [(2, 1, 2), (3, 1, 2), (3, 1, 3), (2, 2, 2), (3, 2, 2), (3, 2, 3), (4, 2, 3), (4, 2, 4), (5, 2, 3),
          (3, 3, 2), (3, 3, 3), (4, 3, 3), (4, 3, 4), (5, 3, 3), (6, 1, 4), (7, 1, 3), (6, 2, 4), (2, 4, 2),
          (4, 4, 2), (3, 4, 3), (7, 2, 5), (2, 5, 2), (8, 1, 8), (5, 3, 4), (6, 3, 3)]


def images(r, w, h, m):
    n = w * h
    style = r.choice(["random", "random", "shift", "shift", "flat", "extreme", "ramp", "equal"])
    if style == "random":
        return [r.randint(0, m) for _ in range(n)], [r.randint(0, m) for _ in range(n)]
    if style == "extreme":
        return [r.choice([0, m]) for _ in range(n)], [r.choice([0, m]) for _ in range(n)]
    if style == "flat":
        a, b = r.randint(0, m), r.randint(0, m)
        return [a] * n, [b] * n
    L = [r.randint(0, m) for _ in range(n)]
    if style == "ramp":
        L = [min(m, (i % w) * max(1, m // w)) for i in range(n)]
    if style == "equal":
        return L, list(L)
    shift = [r.randint(0, max(0, w - 1)) for _ in range(h)]
    R = []
    for y in range(h):
        for x in range(w):
            v = L[y * w + min(w - 1, x + shift[y])]
            if r.random() < 0.25:
                v = min(m, max(0, v + r.randint(-1, 1)))
            R.append(v)
    return L, R


def problem(r, shapes=SHAPES, wide=False, maxm=None, minm=None, trim=True, close=0):
    w, h, D = r.choice(shapes)
    if trim and D > 2 and r.random() < 0.2:
        D = r.randint(2, D)
    if wide:
        m = r.choice([65536, 65535, 50000, 40000, 256])
    else:
        m = r.choice([1, 2, 3, 4, 9, 20, 100, 255, 1000])
    if maxm:
        m = min(m, maxm)
    if minm:
        m = max(m, minm)
    L, R = images(r, w, h, m)
    # all exact: weights and corrections are multiples of a power of two
    den = r.choice([1, 1, 2, 4, 2 ** 10, 2 ** 24, 2 ** 40]) if not wide else r.choice([1, 1, 2 ** 16, 2 ** 40])
    if close and r.random() < close:    # penalties that differ by a tiny part of them (no sums of penalties fit then)
        k, m, d = r.choice([(24, 4, 5), (26, 3, 4), (30, 1, 2)])
        L, R = images(r, w, h, m)
        c = 2 ** k
        s = c + r.choice([1, 1, -1, 2, 0])
        if r.random() < 0.5:
            c, s = s, c
        return Problem(w, h, min(D, d), m, L, R, c, s, den, wide)
    while True:
        c, s = r.choice([0, 1, 1, 1, 2, 3, 5, 7]), r.choice([0, 1, 1, 1, 2, 3, 4, 9])
        if r.random() < 0.1 and m <= 20:
            s *= r.choice([10, 100])
        if c or s:
            break
    if den > 1 and c % den == 0 and s % den == 0:
        c += 1
    return Problem(w, h, D, m, L, R, c, s, den, wide)


def phi(r, pb, share=None, scale=None, negative=True):
    """Corrections between neighboring pixels only."""
    share = share if share is not None else r.choice([0.05, 0.2, 0.6, 1.0])
    scale = scale or r.choice([1, 2, 5, 30])
    out = []
    for p in pb.pixels():
        for k in range(4):
            if not pb.has(p, k):
                continue
            for d in pb.disparities(p):
                if r.random() < share:
                    out.append((p, k, d, r.randint(-scale if negative else 0, scale)))
    return "phi %d %s" % (len(out), " ".join("%d %d %d %d" % x for x in out))


def labeling(r, pb):
    """A labeling whose nodes and edges all exist."""
    lab = [0] * (pb.w * pb.h)
    for y in range(pb.h):
        limit = pb.D
        for x in reversed(range(pb.w)):
            p = y * pb.w + x
            lab[p] = r.choice([d for d in pb.disparities(p + 1) if d <= limit])
            limit = lab[p] + 1
    return lab


def labelings(r, pb, n):
    return " ".join("%d %s" % (len(l), " ".join(map(str, l))) for l in (labeling(r, pb) for _ in range(n)))


class Session:
    def __init__(self, sid, wide=False):
        self.sid, self.lines = sid, ["begin %d %d" % (sid, 1 if wide else 0)]

    def add(self, *lines):
        self.lines.extend(lines)
        return self

    def done(self):
        return self.sid, "\n".join(self.lines) + "\n"


def nodelist(nodes):
    nodes = list(nodes)
    return "%d %s" % (len(nodes), " ".join("%d %d" % n for n in nodes))


def start(r, sid, pb, with_phi=0.0, low=0, cands=True):
    s = Session(sid, pb.wide)
    s.add(pb.graph())
    used = with_phi and r.random() < with_phi
    if used:
        s.add(phi(r, pb))
    s.add("pen", "low %d" % low)
    if cands:
        s.add("cands 0")
    return s, bool(used)


def threshold(r, h=1, chk=0):
    """Command that builds constraint graph h with an interesting threshold."""
    kind = r.choice(["cand", "cand", "cand", "below", "above", "thr", "thr"])
    v = r.choice([0, 100, 200, 300, 400, 500, 700, 1000, r.randint(0, 1000)])
    return "cg %d %d %s %d" % (h, chk, kind, v)


def availability(r, pb):
    share = r.choice([0.3, 0.6, 0.8, 0.95, 1.0])
    return nodelist([n for n in pb.nodes() if r.random() < share])


def hard():
    """Sessions' beginnings: problems found by hard.cpp whose nodes are removed
    in as many rounds as possible, more than there are pixels."""
    import json, os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "hard.json")) as f:
        for w, h, D, s, t, _, nodes, corrections in json.load(f):
            pb = Problem(w, h, D, 1, [0] * (w * h), [0] * (w * h), 1, s)
            yield pb, [pb.graph(), "phi %d %s" % (len(corrections), " ".join("%d %d %d %d" % tuple(x) for x in corrections)),
                       "pen", "low 0", "cands 0", "cg 1 0 abs %d" % t, "av 1 " + nodelist(map(tuple, nodes))]


def serpentine(w, h, rows=True):
    """A winding path between pixels that hold everything together: as soon as
    a node is removed at the end of the path, all of its nodes are removed one
    after another against the order of pixels."""
    path = []
    cols = list(range(w - 3))
    if rows:
        for k, y in enumerate(range(0, h, 2)):
            xs = cols if k % 2 else cols[::-1]
            path += [(x, y) for x in xs]
            if y + 2 < h:
                path.append((xs[-1], y + 1))
    else:
        for k, x in enumerate(range(0, w - 3, 2)):
            ys = range(h) if k % 2 else range(h - 1, -1, -1)
            path += [(x, y) for y in ys]
            if x + 2 < w - 3:
                path.append((x + 1, ys[-1]))
    path = path[::-1] if rows and len(range(0, h, 2)) % 2 else path
    pb = Problem(w, h, 3, 1, [1] * (w * h), [1] * (w * h), 2, 2, 2)
    nodes = []
    for y in range(h):
        for x in range(w):
            p = y * w + x + 1
            ds = [0] if (x, y) == path[0] or x == w - 1 else [0, 2] if (x, y) in set(path) else [0, 1]
            nodes += [(p, d) for d in ds]
    return pb, [pb.graph(), "pen", "low 0", "cands 0", "cg 1 0 abs 2", "av 1 " + nodelist(nodes)]


# ---- transitions of the bounded models, replayed in the code -----------------
def emitted(outs):
    """Transitions printed by MCStereo!Emit."""
    import json
    for o in outs:
        for line in o.split("\n"):
            if line.startswith('"EMIT '):
                yield json.loads(json.loads(line)[5:])


OP_LINES = {"set": "set 1 {0} {1} 0", "pp": "pp 1 {0}", "iter": "iter 1 {0} {1}", "solve": "solve 1 1",
            "choose": "choose 1 {0}", "label": "label 1 1 {exact}"}


def replay(outs, r, limit, ops, per=60):
    """Sessions that put the real library into the state before a transition
    of the model and perform its operation there."""
    groups, seen = {}, set()
    for e in emitted(outs):
        if e["op"] not in ops:
            continue
        key = (e["w"], e["h"], e["D"], tuple(e["L"]), tuple(e["R"]), e["c"], e["s"],
               tuple(sorted(map(tuple, e["phi"]))), e["t"] if e["op"] not in ("cands", "thr") else None)
        step = (e["op"], tuple(e["args"]), tuple(tuple(sorted(x)) for x in e["av"]))
        if (key, step) not in seen:
            seen.add((key, step))
            groups.setdefault(key, []).append(step)
    total = len(seen)
    keys = sorted(groups, key=repr)
    r.shuffle(keys)
    out, used, sid = [], 0, 500000
    for key in keys:
        w, h, D, L, R, c, s, ph, t = key
        pb = Problem(w, h, D, max(1, max(L), max(R)), list(L), list(R), c, s)
        steps = groups[key]
        if limit and used >= limit:
            break
        for part in range(0, len(steps), per):
            sid += 1
            q = Session(sid).add(pb.graph())
            if ph:
                q.add("phi %d %s" % (len(ph), " ".join("%d %d %d %d" % x for x in ph)))
            q.add("pen", "low 0")
            if t is None:
                if "cands" not in ops:
                    q.add("cands 0")
                for op, _, _ in steps:
                    q.add("cands 1" if op == "cands" else "thr 1 %d" % (not ph))
                out.append(q.done())
                used += len(steps)
                continue
            q.add("cg 1 %d abs %d" % ("cg" in ops, t))
            for op, args, av in steps[part:part + per]:
                if op == "cg":
                    q.add("edges 1")
                    continue
                q.add("av 1 " + nodelist([(p + 1, d) for p in range(len(av)) for d in av[p]]))
                q.add(OP_LINES[op].format(*args, exact=int(not ph)))
            used += len(steps[part:part + per])
            out.append(q.done())
    return out, used, total


# ---- plain PGM ------------------------------------------------------------------
def gap(r, must=True):
    n = r.choice([1, 1, 1, 1, 2, 3]) if must else r.choice([0, 0, 1, 2])
    out = ""
    for _ in range(n):
        out += r.choice([" ", " ", "\n", "\n", "\t", "\r\n", "\r", "\v", "\f"])
    if (out or not must) and r.random() < 0.2:
        for _ in range(r.choice([1, 1, 2])):
            n = r.randint(0, 8) if r.random() < 0.997 else r.choice([70, 127, 128, 255, 256, 500, 1023, 1024, 1100, 4100])
            body = "".join(r.choice("#x 01P2\t\r\x80\xff") for _ in range(n))
            out += "#" + body + "\n"
            if r.random() < 0.3:
                out += r.choice([" ", "\n", "\t"])
    return out


def numeral(r, v):
    zeros = r.choice([0, 0, 0, 0, 1, 3, 25])
    if r.random() < 0.002:
        zeros = r.choice([64, 128, 300])
    return "0" * zeros + str(v)


def pgm_text(r, maxpix=24):
    w = r.choice([1, 1, 2, 3, 5, r.randint(1, maxpix)])
    h = max(1, r.randint(1, max(1, maxpix // w)))
    m = r.choice([0, 1, 1, 9, 255, 1000, 65535, 65536])
    big = r.random() < 0.1
    t = gap(r, False) + "P2" + gap(r) + numeral(r, w) + gap(r) + numeral(r, h) + gap(r) + numeral(r, m)
    for _ in range(w * h):
        t += gap(r) + numeral(r, r.choice([0, m, r.randint(0, m), r.randint(0, 1 << 64) - 1 if big else 0]) if not big
                              else r.choice([(1 << 64) - 1, (1 << 63), 1 << 32, 0]))
    k = r.random()
    if k < 0.3:
        pass
    elif k < 0.5:
        t += "\n"
    else:
        t += gap(r)
        if r.random() < 0.4:
            t += "#" + "".join(r.choice("#x 01") for _ in range(r.randint(0, 5)))
    return t


def pgm_broken(r, maxpix=24):
    """A text that is probably malformed (the specification decides)."""
    t = pgm_text(r, maxpix)
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(9)
        i = r.randrange(len(t) + 1)
        if k == 0:
            t = t[:i]
        elif k == 1:
            t = t[:i] + r.choice(["#", "x", "-", "+", ".", "0", "7", " ", "\n", "\0", "\x85", ","]) + t[i:]
        elif k == 2:
            t = t[:i] + t[i + 1:]
        elif k == 3:
            t += r.choice([" 1", "\n0 0", " x", " #c\n9", "#", " -", "\0"])
        else:
            toks = t.split()
            if len(toks) < 5:
                continue
            j = r.choice([0, 1, 1, 2, 2, 3, 3, r.randrange(len(toks))])
            toks[j] = r.choice(["", "P2", "P5", "p2", "P22", "P", "0", "00", "-1", "+3", "1.0", "1e1", "0x2", "65537",
                                "65536", "100000", "18446744073709551615", "18446744073709551616",
                                "99999999999999999999999", "4294967297", "1000000000", "65535", "3000", "١"])
            t = "\n".join(x for x in toks if x)
    return t


def read_line(t, usable=1):
    b = t.encode("latin-1", "replace") if isinstance(t, str) else bytes(t)
    return "read %d %d %s" % (usable, len(b), " ".join(map(str, b)))


# ---- invocations of the command -----------------------------------------------------
WEIGHTS = {"zero": ["0", "0.0", "-0", "0e5"], "neg": ["-1", "-0.5", "-1e10"], "nan": ["nan", "NAN", "-nan"],
           "inf": ["inf", "1e999", "infinity"], "neginf": ["-inf", "-1e999"],
           "word": ["", "abc", "1x", "1,5", "1.5.2", "--", "1e", "2 3", "1/2", "one"]}


def weight(r, cls, den=1):
    """Literal and value (in units of 1/den) of a weight of a class."""
    if cls != "pos":
        return r.choice(WEIGHTS[cls]), 0
    k = r.choice([1, 1, 2, 3, 5, 7, 10, 13])
    return decimal(r, k, den), k


def decimal(r, k, den):
    """k/den as a decimal literal."""
    from fractions import Fraction
    f = Fraction(k, den)
    s = ("%.60f" % f if f.denominator & (f.denominator - 1) == 0 else "%.10f" % f).rstrip("0")
    assert Fraction(s if s[-1] != "." else s[:-1]) == f, (k, den)
    if s[-1] == ".":
        s = r.choice([s[:-1], s[:-1] + ".0", s])
    elif s.startswith("0.") and r.random() < 0.2:
        s = s[1:]
    if r.random() < 0.1:
        s = "%se-3" % (f * 1000) if (f * 1000).denominator == 1 else s
    return s


def cli_run(e, r):
    """Concrete run of an invocation enumerated by MCCli."""
    import cli
    args, classes, c, s, den = [], [], 1, 1, 1
    for a in e["args"]:
        o, cls = a["opt"], a["class"]
        v = ""
        if cls == "none":
            v = None
        elif o == "disparity-levels":
            v = "".join(map(chr, a["val"]))
        elif o in ("cleanness", "smoothness"):
            v, k = weight(r, cls)
            if o == "cleanness":
                c = k
            else:
                s = k
        elif o == "parallel":
            v = r.choice(["cpu", "omp", "openmp", "CPU", "OMP", "OpenMP", "Cpu"] if cls == "cpu" else
                         ["", "cl", "opencl", "cuda", "gpu", "none", "cpus", "o", "OpenMPI"])
        args.append([o, v])
        classes.append(cls)
    text = [None if t == [-1] else bytes(t) for t in (e["left"], e["right"])]
    return cli.Run(args, text[0], text[1], e["lk"], e["rk"], e["out"], e["before"], c, s, classes=classes)


def pgm_of(r, w, h, m, data, style):
    if style == "plain":
        return ("P2\n%d %d\n%d\n%s\n" % (w, h, m, "\n".join(
            " ".join(map(str, data[y * w:(y + 1) * w])) for y in range(h)))).encode()
    t = gap(r, False) + "P2" + gap(r) + numeral(r, w) + gap(r) + numeral(r, h) + gap(r) + numeral(r, m)
    for v in data:
        t += gap(r) + numeral(r, v)
    t += r.choice(["", "\n", " # end", "\n\n"])
    return t.encode("latin-1")


def far(r, pb):
    """Images whose only good map has the greatest disparities."""
    a, b = r.sample(range(1, pb.m + 1), 2) if pb.m > 1 else (1, 1)
    k = r.choice([1, 1, 2, min(3, pb.w - 2)]) if pb.w > 2 else 1
    pb.L, pb.R = [], []
    for _ in range(pb.h):
        pb.L += [0] * (pb.w - k - 1) + [a] * k + [b]
        pb.R += [a] * k + [b] * (pb.w - k)
    pb.c, pb.s = r.choice([(1, 0), (9, 1), (3, 1)])


def single(x):
    import struct
    return int(struct.unpack("f", struct.pack("f", x))[0])


def worst_first(pb, c, s):
    """Labelings of an image of one row and their greatest excesses."""
    import itertools
    n = [[c * (pb.L[x + d] - pb.R[x]) ** 2 for d in pb.disparities(x + 1)] for x in range(pb.w)]
    for m in itertools.product(*map(range, map(len, n))):
        if all(m[x] <= m[x + 1] + 1 for x in range(pb.w - 1)):
            yield max([n[x][m[x]] - min(n[x]) for x in range(pb.w)]
                      + [s * (m[x] - m[x + 1]) ** 2 for x in range(pb.w - 1)]), [(n[x][m[x]], m[x]) for x in range(pb.w)]


def best(pb):
    ms = list(worst_first(pb, pb.c, pb.s))
    return [[d for _, d in m] for t, m in ms if t == min(ms)[0]]


def greedy(pb, c, s):
    ms = list(worst_first(pb, c, s))
    return [d for _, d in min(m for t, m in ms if t == min(ms)[0])]


def cli_default(r, same, w):
    """Wide images without the number of levels, and with the number they mean."""
    runs = cli_problem(r, same, shapes=[(w, 1, w)], moved=True, default=True)
    for k, x in enumerate(runs):
        x.again, x.inplace = 1, False
        if k % 2:
            x.args.append(["disparity-levels", str(w)])
            x.classes.append("word")
    return runs


def cli_problem(r, same, wide=False, shapes=SHAPES, moved=False, device=False, close=False, default=False):
    """Runs of the same problem with different builds and numbers of threads,
    or, if device is given, on the CPU and on a device (exact in single precision)."""
    import cli
    pb = problem(r, shapes=shapes, wide=wide, maxm=255 if device else None)
    if moved:
        far(r, pb)
    both = r.random() < 0.5         # otherwise one may take the default, 1 = den / den
    if both:
        pb.den = r.choice([1, 2, 4, 5, 10, 2 ** 20, 2 ** 30]) if not wide else r.choice([1, 1, 2 ** 30])
    else:
        pb.den = 1 if wide else r.choice([1, 2, 4, 5, 10])
    if device:
        pb.den = r.choice([1, 2, 4])
    if close:       # weights that are equal in single precision
        both, pb.den = True, r.choice([1, 2 ** 24, 2 ** 30])
        for _ in range(400):
            pb.m = r.choice([1, 1, 2, 4])
            pb.L, pb.R = images(r, pb.w, pb.h, pb.m)
            pb.c, pb.s = (2 ** 24 + r.randint(0, 5) for _ in range(2))
            if default:     # the map is another one in single precision
                pb.D = pb.w
            if pb.h > 1 or pb.w ** pb.w > 300 or greedy(pb, *map(single, (pb.c, pb.s))) not in best(pb):
                break
    D = pb.D
    args, classes = [], []
    explicit = r.random() < (0.2 if moved else 0.7) or pb.w > 20
    explicit = explicit and not default
    if not explicit:
        D = pb.w
    c, s = pb.c, pb.s
    opts = []
    if explicit:
        opts.append(("disparity-levels", "0" * r.choice([0, 0, 2]) + str(D), "word"))
    if both or r.random() < 0.5:
        opts.append(("cleanness", decimal(r, c, pb.den), "pos" if c else "zero"))
    else:
        c = pb.den
    if both or r.random() < 0.5 or c == 0:
        if s == 0 and c == 0:
            s = 1
        opts.append(("smoothness", decimal(r, s, pb.den), "pos" if s else "zero"))
    else:
        s = pb.den
    style = r.choice(["plain", "free"])
    left = pgm_of(r, pb.w, pb.h, pb.m, pb.L, style)
    right = pgm_of(r, pb.w, pb.h, pb.m, pb.R, style)
    runs = []
    variants = [("plain", None, None)] + r.sample(
        [("plain", None, "cpu"), ("omp", 1, None), ("omp", 2, "omp"), ("omp", 3, "openmp"), ("omp", 4, "CPU"),
         ("omp", r.choice([5, 7, 8, 16, 33]), "OMP"), ("omp", None, None), ("san", None, "cpu")], 3)
    if device:
        variants = [("gpu", None, r.choice([None, "cpu", "omp"]))] + [
            ("gpu", None, r.choice(["cl", "opencl", "OpenCL", "CL"])) for _ in range(2)]
    for k, (flavor, threads, p) in enumerate(variants):
        o = [("left-image", "", "path"), ("right-image", "", "path"), ("output-image", "", "path")] + opts
        if p:
            o.append(("parallel", p, "cpu"))
        r.shuffle(o)
        runs.append(cli.Run([[x[0], x[1]] for x in o], left, right, "ok", "ok", "ok",
                            "none" if device else r.choice(["none", "none", "map", "junk"]), c, s, same,
                            int(k > 0 or device), flavor, threads, classes=[x[2] for x in o],
                            inplace=False if device else r.choice([False] * 6 + ["left.pgm", "right.pgm"])))
    return runs
