#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on the current tree of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cli, gen, vlib
from models import cfg, stereo
from vlib import Check, CheckError


def bounded(c, runs, ops, quick=60000, thorough=0):
    """Checks bounded instances of Stereo.tla exhaustively and replays their
    transitions in the library (quick limits their number, 0: all)."""
    outs = c.models([(d, "MCStereo", t) for d, t in runs])
    ss, used, total = gen.replay(outs, c.rng, c.n(quick, thorough), ops)
    c.cov["model_transitions_replayed"] = "%d of %d different ones" % (used, total)
    c.trace_check("san", "driver", ss, label="replayed model transitions")


def large(c, shapes, lines, n=1, most=None):
    """Sessions with problems whose sizes do not fit into small types; lines(session, problem) adds the commands."""
    r, ss = c.rng, []
    for _ in range(c.n(n, 4 * n)):
        for sh in shapes:
            pb = gen.problem(r, shapes=[sh], maxm=20, trim=False)
            if most:
                pb.c, pb.s = min(pb.c, most), r.randint(1, most)
            s = gen.Session(700000 + len(ss)).add(pb.graph())
            lines(s, pb)
            ss.append(s.done())
    c.trace_check("san", "driver", ss, label="large problems")


def weights_literal(r):
    return r.choice(["0", "1", "2", "0.5", "0.25", "3.75", "1000000", "1e-3", "1e-17", "-0.0", "0.0", "-1", "-0.5",
                          "-1e-300", "nan", "-nan", "inf", "-inf", "1e308", "2.2e-16", "2.3e-16", "1.5e-16", "5e-324"])


def c04(c):
    r, ss, sid = c.rng, [], 0

    def case(lw, lh, lm, L, rw, rh, rm, R, D, cw, sw):
        nonlocal sid
        sid += 1
        s = gen.Session(sid).add("plain")
        s.add("construct %d %d %d %d %s %d %d %d %d %s %d %s %s" % (
            lw, lh, lm, len(L), " ".join(map(str, L)), rw, rh, rm, len(R), " ".join(map(str, R)), D, cw, sw))
        s.add("valid %d %d %d %d %s" % (lw, lh, lm, len(L), " ".join(map(str, L))))
        ss.append(s.done())
    outs = c.models([("arguments within %d faults" % c.n(2, 3), "MCConstruct", cfg(
        dict(Wide="FALSE", Depth=c.n("2", "3")), ["SwapInvariant", "NeverVacuous", "Emitted"], extra="VIEW View\n"))])
    lit = dict(neg=["-1", "-0.5", "-1e-300"], tiny=["1e-17", "2.2e-16", "5e-324", "1.5e-16"], zero=["0", "-0.0"], pos=["1", "0.25", "1e9", "2.3e-16"], nan=["nan", "-nan"], inf=["inf"],
               neginf=["-inf"])
    for e in gen.emitted(outs):
        case(e["lw"], e["lh"], e["lm"], e["L"], e["rw"], e["rh"], e["rm"], e["R"], e["D"],
             r.choice(lit[e["cc"]]), r.choice(lit[e["sc"]]))
    # random problems, up to two faults
    for _ in range(c.n(2500, 20000)):
        w, h, m = r.randint(1, 5), r.randint(1, 4), r.choice([1, 2, 9, 255, 65536])
        L = [r.choice([0, m, r.randint(0, m)]) for _ in range(w * h)]
        R = [r.choice([0, m, r.randint(0, m)]) for _ in range(w * h)]
        a = [w, h, m, L, w, h, m, R, r.randint(2, max(2, w)), r.choice(["1", "0.5", "0", "3"]), r.choice(["1", "2.5", "4"])]
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            f = r.randint(0, 11)
            side = r.choice([0, 4])
            if f == 0:
                a[side] = r.choice([0, a[side] + 1, max(0, a[side] - 1)])
            elif f == 1:
                a[side + 1] = r.choice([0, a[side + 1] + 1, max(0, a[side + 1] - 1)])
            elif f == 2:
                a[side + 2] = r.choice([0, a[side + 2] + 1, max(0, a[side + 2] - 1)])
            elif f == 3 and a[side + 3]:
                i = r.choice([0, len(a[side + 3]) - 1, r.randrange(len(a[side + 3]))])
                a[side + 3] = list(a[side + 3])
                a[side + 3][i] = a[side + 2] + 1
            elif f == 4:
                a[side + 3] = a[side + 3][:-1] if r.random() < 0.5 else a[side + 3] + [0]
            elif f == 5:
                a[8] = r.choice([0, 1, 2, a[0], a[0] + 1, a[0] + 2, 1000000])
            elif f == 6:
                a[9], a[10] = weights_literal(r), weights_literal(r)
            elif f == 7:
                a[9] = weights_literal(r)
            elif f == 8:
                a[10] = weights_literal(r)
            elif f == 9:      # a different shape with the same number of pixels
                a[4], a[5] = a[5], a[4]
            elif f == 10:
                a[9], a[10] = r.choice([("0", "0"), ("0", "1"), ("1", "0"), ("-0.0", "0")])
            else:             # both images change alike
                a[2] = a[6] = max(1, a[2] - 1)
        case(*a)
    c.trace_check("san", "driver", ss)


def c05(c):
    r, ss, sid = c.rng, [], 0
    c.models([("sizes up to %s" % c.n("5x4", "8x6"), "MCGrid", cfg(
        dict(MaxW=c.n("5", "8"), MaxH=c.n("4", "6")), ["Numbering", "SharedSide", "Dense"]))])
    sizes = [(w, h, D) for w in range(2, 8) for h in range(1, 6) for D in range(2, w + 1)]
    sizes += [(13, 3, 5), (3, 13, 2), (17, 2, 17), (2, 17, 2), (40, 1, 3), (2, 40, 2), (11, 7, 6)]
    sizes += [(300, 2, 2), (2, 300, 2), (300, 1, 40), (2, 1100, 2)] + c.n([], [(300, 300, 2), (33000, 1, 2), (2, 33000, 2),
                                                                              (300, 1, 300)])
    if c.thorough:
        sizes += [(w, h, D) for w in range(8, 16) for h in range(1, 12) for D in (2, 3, w // 2, w)]
    for w, h, D in sizes:
        sid += 1
        n = c.n(6, 20) if w * h * D < 1000 else 1
        wr = " ".join("%d %d %d" % (r.randint(1, w * h), r.randint(0, 3), r.randint(0, D - 1)) for _ in range(n))
        ss.append(gen.Session(sid).add("plain", "number", "index %d %d %d %d %s" % (w, h, D, n, wr)).done())
    c.trace_check("san", "driver", ss)
    ss = []
    for w, h, D in [(260, 257, 256), (70000, 1, 2), (2, 70000, 2), (1100, 1, 1100), (3, 40000, 3), (260, 260, 2)] + c.n(
            [], [(2, 2000000, 2), (2000000, 1, 2), (1300, 2, 1300), (500, 500, 100)]):
        sid += 1
        ss.append(gen.Session(sid).add("plain", "bulk %d %d %d" % (w, h, D)).done())
    c.trace_check("plain", "driver", ss, label="huge problems")


def c06(c):
    r, ss, sid = c.rng, [], 0
    c.models([("sizes up to %s" % c.n("5x4", "8x6"), "MCGrid", cfg(
        dict(MaxW=c.n("5", "8"), MaxH=c.n("4", "6")), ["SharedSide", "Symmetric", "NodesHaveEdges"]))])
    sizes = [(w, h, D) for w in range(2, 7) for h in range(1, 5) for D in range(2, w + 1)]
    sizes += [(9, 2, 9), (2, 9, 2), (12, 3, 4), (3, 12, 3)]
    if c.thorough:
        sizes += [(w, h, D) for w in range(7, 13) for h in range(1, 9) for D in (2, 3, w - 1, w)]
    for w, h, D in sizes:
        sid += 1
        ss.append(gen.Session(sid).add("plain", "exist %d %d %d %d %d" % (
            w, h, D, c.n(2500, 20000), r.randrange(1 << 40))).done())
    for w, h, D in [(300, 2, 300), (2, 300, 2), (300, 300, 3), (70000, 1, 2), (2, 70000, 2), (1100, 1, 1100)] * c.n(1, 5):
        sid += 1
        ss.append(gen.Session(sid).add("plain", "probe %d %d %d %d %d" % (
            w, h, D, c.n(4000, 20000), r.randrange(1 << 40))).done())
    c.trace_check("san", "driver", ss)


def c07(c):
    r = c.rng
    m = ["EnergyInvariant"]
    c.models([("one correction, rows", "MCStereo", stereo(m, Shapes="ShapesRow", PhiValues="Phis", Ops="OpsProblem"))]
             + c.n([], [("one correction", "MCStereo", stereo(m, Shapes="ShapesMixed", PhiValues="Phis", Weights="W3",
                                                              Ops="OpsProblem")),
                        ("one correction, 3x2", "MCStereo", stereo(m, Shapes="ShapesFlat", PhiValues="Phis",
                                                                   Ops="OpsProblem"))]))
    for wide in (False, True):
        ss = []
        for sid in range(1, c.n(160, 2500) + 1):
            pb = gen.problem(r, wide=wide)
            s = gen.Session(sid, wide).add(pb.graph(), "formula")
            for _ in range(2):
                s.add(gen.phi(r, pb, scale=r.choice([1, 3, 50, 1000])), "energy %d %s" % (6, gen.labelings(r, pb, 6)),
                      "formula")
            ss.append(s.done())
        c.trace_check("san", "driver", ss, cfg="TraceWide" if wide else "Trace",
                      label="wide" if wide else "plain")

    def spots(s, pb):
        pairs = []
        for _ in range(400):
            p, k = r.choice([r.randint(1, pb.w * pb.h), r.randint(1, min(4, pb.w * pb.h))]), r.randrange(4)
            d, e = (r.choice([0, 1, pb.D - 1, max(0, pb.D - r.randint(2, 6)), r.randrange(pb.D)]) for _ in range(2))
            pairs.append("%d %d %d %d" % (p, k, d, e))
        s.add("spots %d %s" % (len(pairs), " ".join(pairs)))
        for _ in range(2):
            used = [x.split() for x in r.sample(pairs, 40)]
            used = [(int(p), int(k), int(d), r.randint(-30, 30)) for p, k, d, _ in used
                    if pb.has(int(p), int(k)) and int(d) in pb.disparities(int(p))]
            s.add("phi %d %s" % (len(used), " ".join("%d %d %d %d" % x for x in used)),
                  "spots %d %s" % (len(pairs), " ".join(pairs)))
    large(c, [(300, 2, 300), (700, 1, 3), (2, 700, 2), (129, 3, 129), (600, 1, 600)], spots)
    # squares of disparities beyond single precision
    large(c, [(4200, 1, 4200)], spots, most=9)


def c08(c):
    r = c.rng
    m = ["LowestBound"]
    c.models([("one correction, rows", "MCStereo", stereo(m, Shapes="ShapesRow", PhiValues="Phis", Ops="OpsProblem"))]
             + c.n([], [("one correction", "MCStereo", stereo(m, Shapes="ShapesMixed", PhiValues="Phis", Weights="W3",
                                                              Ops="OpsProblem")),
                        ("one correction, 3x2", "MCStereo", stereo(m, Shapes="ShapesFlat", PhiValues="Phis",
                                                                   Ops="OpsProblem"))]))
    for wide in (False, True):
        ss = []
        for sid in range(1, c.n(200, 3000) + 1):
            pb = gen.problem(r, wide=wide)
            s = gen.Session(sid, wide).add(pb.graph())
            if r.random() < 0.7:
                s.add(gen.phi(r, pb, scale=r.choice([1, 5, 50])))
            s.add("pen", "low 1", "bound 6 " + gen.labelings(r, pb, 6))
            if r.random() < 0.5:
                s.add(gen.phi(r, pb), "relow", "pen", "low 1", "bound 4 " + gen.labelings(r, pb, 4))
            ss.append(s.done())
        c.trace_check("san", "driver", ss, cfg="TraceWide" if wide else "Trace",
                      label="wide" if wide else "plain")
    large(c, [(300, 1, 2), (2, 300, 2), (40, 2, 20), (18, 18, 3)],
          lambda s, pb: s.add(gen.phi(r, pb, share=0.1), "pen", "low 1"))


def c09(c):
    r = c.rng
    m = ["SymmetricEdges", "Monotone"]
    bounded(c, [("rows", stereo(m, emit=True, Shapes="Shapes312", Weights="W2", Ops="OpsGraph")),
                ("2x2", stereo(m, emit=True, Shapes="ShapesSquare", Ops="OpsGraph"))]
            + c.n([], [("rows with correction", stereo(m, emit=True, Shapes="Shapes312", PhiValues="Phis", Ops="OpsGraph")),
                       ("3x1x3", stereo(m, emit=True, Shapes="ShapesRow", Intensities="I3", Ops="OpsGraph"))]),
            {"cg", "set"}, 20000)
    for wide in (False, True):
        ss = []
        for sid in range(1, c.n(200, 3000) + 1):
            pb = gen.problem(r, wide=wide, close=0.1)
            s, used = gen.start(r, sid, pb, 0.5)
            s.add("thr 0 0")
            for h in range(1, r.randint(2, 4)):
                s.add(gen.threshold(r, h, 1), "edges %d" % h)
            for _ in range(3):
                p, d = r.choice(pb.nodes())
                s.add("set 1 %d %d %d" % (p, d, r.randint(0, 1)), "edges 1")
            s.add("av 1 " + gen.availability(r, pb), "edges 1", "left 1", "clear 1", "left 1", "edges 1")
            # the same numbers, other penalties
            t = r.choice([0, 1, 2, 3, 5, 8])
            s.add("cg 1 1 abs %d" % t, "edges 1")
            for h in (2, 3):
                s.add(gen.phi(r, pb))
                if r.random() < 0.3:
                    s.add("relow")
                s.add("pen", "cg %d 1 abs %d" % (h, t), "edges %d" % h)
            if r.random() < 0.5:      # another problem in the same places of memory
                other = gen.problem(r, wide=wide, shapes=[(pb.w, pb.h, pb.D)])
                s.add(other.graph(), "pen", "low 0", "cg 1 1 abs %d" % t, "edges 1")
            ss.append(s.done())
        c.trace_check("san", "driver", ss, cfg="TraceWide" if wide else "Trace",
                      label="wide" if wide else "plain")
    large(c, [(300, 1, 2), (2, 300, 2), (30, 2, 18), (18, 18, 3)],
          lambda s, pb: s.add("pen", "low 0", "cands 0", gen.threshold(r, 1, 1), "av 1 " + gen.availability(r, pb), "edges 1"))


def c10(c):
    r = c.rng
    m, p = ["LargestIsLargest", "SolvableIffLabeling"], ["ContractsKept", "StepsSound"]
    bounded(c, [("rows", stereo(m, p, emit=True, Shapes="Shapes312", Weights="W2", Ops="OpsSolve")),
                ("2x2", stereo(m, p, emit=True, Shapes="ShapesSquare", Ops="OpsSolve"))]
            + c.n([], [("rows with correction", stereo(m, p, emit=True, Shapes="Shapes312", PhiValues="Phis", Ops="OpsSolve")),
                       ("3x1x3", stereo(m, p, emit=True, Shapes="ShapesRow", Ops="OpsSolve")),
                       ("2x2 with correction", stereo(m, p, emit=True, Shapes="ShapesSquare", PhiValues="Phis", Ops="OpsSolve"))]),
            {"solve"})
    ss = []
    for sid in range(1, c.n(400, 4000) + 1):
        pb = gen.problem(r, close=0.1)
        s, used = gen.start(r, sid, pb, 0.3)
        s.add("thr 0 0", gen.threshold(r))
        for _ in range(r.randint(1, 3)):
            s.add("solve 1 1", "left 1", "solve 1 1")
            if r.random() < 0.5:
                s.add("av 1 " + gen.availability(r, pb))
            else:
                s.add("drop 1 " + gen.nodelist(r.sample(pb.nodes(), 1)))
        s.add("solve 1 1")
        ss.append(s.done())
    # removals that travel far: tight thresholds, arbitrary corrections
    for _ in range(c.n(250, 2500)):
        sid += 1
        pb = gen.problem(r, shapes=[(2, 8, 2), (3, 7, 3), (2, 12, 2), (3, 9, 2), (9, 2, 3), (12, 1, 4), (4, 6, 3), (2, 5, 2),
                                    (3, 5, 3), (4, 5, 4), (2, 3, 2)], maxm=r.choice([3, 3, 9, 1000]))
        s = gen.Session(sid).add(pb.graph())
        if r.random() < 0.8:
            s.add(gen.phi(r, pb, share=r.choice([0.3, 0.6, 1.0])))
        s.add("pen", "low 0", "cands 0", "thr 0 0")
        for h in range(1, 4):
            s.add("cg %d 0 %s 0" % (h, r.choice(["thr", "thr", "below"])), "solve %d 1" % h)
            for _ in range(3):
                s.add("drop %d %s" % (h, gen.nodelist(r.sample(pb.nodes(), r.choice([1, 1, 1, 2])))), "solve %d 1" % h)
        s.add("cg 1 0 abs %d" % r.choice([1, 2, 4, 9]), "solve 1 1")
        ss.append(s.done())
    c.trace_check("san", "driver", ss)
    # removals that take as many rounds as there are columns or rows
    ss = []
    for w, h, D, drop in [(300, 1, 2, 0), (300, 2, 2, 0), (2, 300, 2, 1), (40, 40, 2, 0)] + c.n(
            [], [(600, 1, 2, 0), (1100, 1, 2, 0), (2, 1100, 2, 1), (70, 70, 2, 0), (300, 1, 8, 0)]):
        n = w * h
        pb = gen.Problem(w, h, D, 1, [1] * n, [1] * n, 2, 2, 2)
        s = gen.Session(30000 + len(ss)).add(pb.graph(), "pen", "low 0")
        s.add("cg 1 0 abs 1", "solve 1 1")
        if drop:    # all nodes of two rows apart are needed for each other
            s.add("cg 1 0 abs 2", "drop 1 1 %d 0" % (n - 1), "solve 1 1")
        s.add("cg 1 0 abs 1", "drop 1 1 %d 0" % r.randint(1, n), "solve 1 1")
        ss.append(s.done())
    for pb, lines in list(gen.hard()) + winding(c):
        ss.append(gen.Session(30000 + len(ss)).add(*lines, "solve 1 1", "left 1", "solve 1 1").done())
    c.trace_check("san", "driver", ss, label="large problems")


def winding(c):
    return [gen.serpentine(*x) for x in [(12, 13), (11, 14, False)] + c.n([], [(20, 21), (17, 18, False)])]


def c11(c):
    r = c.rng
    p = ["ContractsKept", "StepsSound"]
    bounded(c, [("rows", stereo([], p, emit=True, Shapes="Shapes312", Weights="W2", Ops="OpsSteps")),
                ("2x2", stereo([], p, emit=True, Shapes="ShapesSquare", Ops="OpsSteps"))]
            + c.n([], [("rows with correction", stereo([], p, emit=True, Shapes="Shapes312", PhiValues="Phis", Ops="OpsSteps")),
                       ("2x2, 3 jobs", stereo([], p, emit=True, Shapes="ShapesSquare", MaxJobs="3", Ops="OpsSteps")),
                       ("3x1x3", stereo([], p, emit=True, Shapes="ShapesRow", Ops="OpsSteps"))]),
            {"pp", "iter"}, 60000)
    ss = []
    for sid in range(1, c.n(400, 5000) + 1):
        pb = gen.problem(r, close=0.1)
        s, used = gen.start(r, sid, pb, 0.3)
        s.add("thr 0 0", gen.threshold(r))
        if r.random() < 0.7:
            s.add("av 1 " + gen.availability(r, pb))
        for _ in range(r.randint(4, 14)):
            k = r.random()
            if k < 0.25:
                s.add("should 1")
            elif k < 0.55:
                s.add("pp 1 %d" % r.choice(list(pb.pixels())))
            elif k < 0.92:
                jobs = r.choice([1, 1, 2, 3, pb.h, pb.h + 1, pb.h + 5, 64])
                s.add("iter 1 %d %d" % (jobs, r.choice([0, jobs - 1, r.randrange(jobs)])))
            else:
                s.add("av 1 " + gen.availability(r, pb))
        ss.append(s.done())
    c.trace_check("san", "driver", ss)

    def passes(s, pb):
        s.add("pen", "low 0", "cands 0", "thr 0 0", gen.threshold(r), "drop 1 " + gen.nodelist(r.sample(pb.nodes(), 2)))
        for _ in range(4):
            jobs = r.choice([1, 2, pb.h, 300, 1000])
            s.add("iter 1 %d %d" % (jobs, r.choice([0, min(jobs, pb.h) - 1, r.randrange(jobs)])),
                  "pp 1 %d" % r.choice(list(pb.pixels())))
        s.add("should 1")
    large(c, [(300, 1, 2), (2, 300, 2), (18, 18, 3), (40, 2, 20)], passes)


def conc(threads, shapes, missing, nodes, words, emit=False, live=False):
    c = dict(Wide="FALSE", Threads=str(threads), Shapes="<- " + shapes, Missing=str(missing), MissingNodes=str(nodes),
             Words="<- " + words)
    if emit:
        return cfg(c, extra="VIEW View\nACTION_CONSTRAINT Emit\n").replace("ION Spec\n", "ION SpecS\n")
    return cfg(c, ["NeverTooMuch", "SameResult", "RoundsBounded"], ["Terminates"] if live else [])


CONC_SHAPES = [(2, 2, 2), (3, 2, 2), (3, 2, 3), (3, 3, 2), (3, 3, 3), (4, 2, 4), (4, 3, 4), (2, 4, 2), (4, 4, 3),
               (2, 6, 2), (6, 3, 4)]


def c12(c):
    r = c.rng
    runs = [("2 threads, 2x2", "MCCspConc", conc(2, "S222", 1, 1, "All")),
            ("2 threads, 2x2, terminates", "MCCspConc", conc(2, "S222", 0, 1, "All", live=True)),
            ("3 threads, 2x2", "MCCspConc", conc(3, "S222", 1, 0, "All")),
            ("3 threads, 2x3", "MCCspConc", conc(3, "S232", 0, 0, "One"))]
    if c.thorough:
        runs += [("2 threads, 2x2, 2 edges missing", "MCCspConc", conc(2, "S222", 2, 1, "All")),
                 ("2 threads, 2x3", "MCCspConc", conc(2, "S232", 1, 0, "All")),
                 ("3 threads, 2x3", "MCCspConc", conc(3, "S232", 1, 0, "One")),
                 ("2 threads, 2x2, terminates", "MCCspConc", conc(2, "S222", 1, 1, "All", live=True)),
                 ("2 threads, 3x2", "MCCspConc", conc(2, "S322", 1, 0, "All"))]
    c.models(runs)
    outs = c.models([("schedules, nodes missing", "MCCspSched", conc(2, "S222", 0, c.n(1, 2), "One", emit=True)),
                     ("schedules, edges missing", "MCCspSched", conc(2, "S222", 1, 0, "One", emit=True))])
    es = list(gen.emitted(outs))
    r.shuffle(es)
    c.cov["schedules_enumerated_by_TLC"] = len(es)
    ss, sid = [], 0
    es = es[:c.n(4000, 40000)]
    c.cov["schedules_replayed"] = len(es)
    for k in range(0, len(es), 20):
        sid += 1
        pb = gen.problem(r, shapes=[(2, 2, 2)])
        s = gen.start(r, sid, pb)[0].add("thr 0 0", r.choice(["cg 1 0 above 0", gen.threshold(r)]))
        for e in es[k:k + 20]:
            av = [(p + 1, d) for p in range(4) for d in e["off"][p]]
            s.add("av 1 " + gen.nodelist(av))
            s.add("explore solve 1 %d seq 1 0 %s" % (e["threads"], " ".join(map(str, e["sched"]))))
        ss.append(s.done())
    c.trace_check("conc", "conc_driver", ss, label="schedules from TLC replayed")
    ss = []
    for _ in range(c.n(240, 2500)):
        sid += 1
        pb = gen.problem(r, shapes=CONC_SHAPES)
        s = gen.start(r, sid, pb)[0].add("thr 0 0")
        for h in range(1, 3):
            s.add(gen.threshold(r, h))
            if r.random() < 0.5:
                s.add("av %d %s" % (h, gen.availability(r, pb)))
            for fn in ("solve", "rounds", "solve", "rounds", "label", "thr"):
                T = r.choice([2, 2, 2, 3, 3, 4, pb.h, pb.h + 1, 8])
                for mode in r.sample(["one", "few", "random", "priority", "rotate"], 2):
                    n = (1 if mode == "rotate" else 40 if fn in ("label", "thr") else 400) * c.n(1, 4)
                    s.add("explore %s %d %d %s %d %d" % (fn, h, max(2, T), mode, n, r.randrange(10 ** 6)))
        ss.append(s.done())
    for _ in range(c.n(16, 120)):      # many rows, many threads
        sid += 1
        w, h, D = r.choice([(2, 40, 2), (3, 17, 2), (2, 70, 2), (2, 33, 2)])
        pb = gen.problem(r, shapes=[(w, h, D)])
        s = gen.start(r, sid, pb)[0].add("thr 0 0", gen.threshold(r))
        if r.random() < 0.5:
            s.add("drop 1 " + gen.nodelist(r.sample(pb.nodes(), 1)))
        for fn in ("solve", "rounds", "solve"):
            s.add("explore %s 1 %d %s %d %d" % (fn, r.choice([5, 8, 16, h - 1, h, h + 1, 65]),
                                                r.choice(["few", "random", "priority", "rotate"]), 4, r.randrange(10 ** 6)))
        ss.append(s.done())
    c.trace_check("conc", "conc_driver", ss, label="chosen interleavings")
    c.assumptions.append("interleavings of whole accesses to memory (sequential consistency), one at a time")


def c13(c):
    r = c.rng
    m = ["Monotone"]
    bounded(c, [("one correction", stereo(m, emit=True, Shapes=c.n("Shapes312", "ShapesMixed"), PhiValues="Phis",
                                          Weights="W2", Ops="OpsCandidates")),
                ("2x2", stereo(m, emit=True, Shapes="ShapesSquare", Ops="OpsCandidates"))], {"cands"})
    for wide in (False, True):
        ss = []
        for sid in range(1, c.n(200, 3000) + 1):
            pb = gen.problem(r, wide=wide, close=0.1)
            s = gen.start(r, sid, pb, 0.5, cands=False)[0]
            s.add("cands 1")
            for _ in range(6):
                p, k = r.choice(list(pb.pixels())), r.randrange(4)
                s.add("pixc %d" % p)
                if pb.has(p, k):
                    s.add("edgec %d %d" % (p, k))
            ss.append(s.done())
        c.trace_check("san", "driver", ss, cfg="TraceWide" if wide else "Trace",
                      label="wide" if wide else "plain")

    def lists(s, pb):
        s.add("pen", "low 0", "cands 1")
        for _ in range(4):
            p, k = r.choice(list(pb.pixels())), r.randrange(4)
            s.add("pixc %d" % p)
            if pb.has(p, k):
                s.add("edgec %d %d" % (p, k))
    large(c, [(300, 1, 2), (2, 300, 2), (30, 2, 20), (18, 18, 3)], lists)


def c14(c):
    r = c.rng
    m = ["ThresholdIsMinimax"]
    bounded(c, [("rows and 2x2", stereo(m, emit=True, Shapes="ShapesMixed", Weights="W3", Ops="OpsThreshold")),
                ("rows, 3 intensities", stereo(m, emit=True, Shapes="Shapes312", Weights="W2", Intensities="I3",
                                               Ops="OpsThreshold")),
                ("4x1", stereo(m, emit=True, Shapes="ShapesRow4", Weights="W1", Ops="OpsThreshold"))]
            + c.n([], [("4x1", stereo(m, emit=True, Shapes="ShapesRow4", Weights="W3", Ops="OpsThreshold")),
                       ("3x2", stereo(m, emit=True, Shapes="ShapesFlat", Weights="W2", Ops="OpsThreshold")),
                       ("2x3", stereo(m, emit=True, Shapes="ShapesTall", Weights="W2", Ops="OpsThreshold")),
                       ("3x1x3, 3 intensities", stereo(m, emit=True, Shapes="ShapesRow", Weights="W3", Intensities="I3",
                                                       Ops="OpsThreshold"))]), {"thr"})
    for wide in (False, True):
        ss = []
        for sid in range(1, c.n(250, 3000) + 1):
            pb = gen.problem(r, wide=wide, close=0.1)
            s, used = gen.start(r, sid, pb, 0.25)
            s.add("thr 1 %d" % (0 if used else 1))
            s.add("cg 1 0 thr 0", "solve 1 0", "left 1")
            ss.append(s.done())
        # many candidates
        for sid in range(1001, 1001 + c.n(24, 200)):
            pb = gen.problem(r, shapes=[(9, 3, 9), (12, 2, 8), (7, 5, 5), (20, 1, 20), (2, 20, 2), (6, 6, 3)], wide=wide,
                             minm=100)
            s, used = gen.start(r, sid, pb, 0.25)
            s.add("thr 1 0")
            ss.append(s.done())
        c.trace_check("san", "driver", ss, cfg="TraceWide" if wide else "Trace",
                      label="wide" if wide else "plain")
    # other lists than the complete one: dense, sparse, of one candidate, without a good one
    ss = []
    for sid in range(1, c.n(60, 600) + 1):
        pb = gen.problem(r, close=0.1)
        s, used = gen.start(r, sid, pb, 0.3)
        s.add("thr 0 0")
        top = max(pb.c, pb.s) * max(pb.m, pb.D) ** 2 + 10
        s.add("thrl 1 0 %d %d" % (top, r.choice([100, 1100, 2500])))
        for _ in range(6):
            step = r.choice([0, 1, 2, 3, 5, 1000])
            lo = r.choice([0, 0, r.randint(0, top // 2)])
            s.add("thrl %d %d %d %d" % (step, lo, r.choice([lo + 5, top]), r.choice([1, 1, 2, 3, 10, 70, 300]) if step == 0
                                        else r.choice([0, 0, 1, 2, 10, 70, 300])))
        # the threshold at a given place of a list
        for n in [2, 3, r.randint(4, 40), r.choice([64, 65, 100, 257]), r.choice([1000, 1025, 2000])]:
            mid = (n - 1) // 2
            for k in {0, n - 1, mid, mid + 1, r.randrange(n), mid // 2, (mid + n) // 2}:
                if k < n and (n < 100 or r.random() < 0.6):
                    s.add("thrn %d %d" % (n, k))
        ss.append(s.done())
    c.trace_check("san", "driver", ss, label="other lists")
    large(c, [(300, 1, 2), (2, 200, 2), (30, 1, 30), (18, 18, 3)],
          lambda s, pb: s.add("pen", "low 0", "cands 0", "thr 1 0"))


def c15(c):
    r = c.rng
    bounded(c, [("rows", stereo([], emit=True, Shapes="Shapes312", Weights="W2", Ops="OpsChoose")),
                ("2x2", stereo([], emit=True, Shapes="ShapesSquare", Ops="OpsChoose")),
                ("correction", stereo([], emit=True, Shapes="Shapes212", PhiValues="Phis", Weights="W2", Ops="OpsChoose"))]
            + c.n([], [("rows with correction", stereo([], emit=True, Shapes="Shapes312", PhiValues="Phis", Weights="W2",
                                                       Ops="OpsChoose"))]), {"choose"})
    for wide in (False, True):
        ss = []
        for sid in range(1, c.n(200, 3000) + 1):
            pb = gen.problem(r, wide=wide, close=0.1)
            s, used = gen.start(r, sid, pb, 0.6)
            s.add("thr 0 0", gen.threshold(r))
            for _ in range(r.randint(1, 3)):
                s.add("av 1 " + gen.availability(r, pb))
                for p in r.sample(list(pb.pixels()), min(5, pb.w * pb.h)):
                    s.add("choose 1 %d" % p)
            ss.append(s.done())
        c.trace_check("san", "driver", ss, cfg="TraceWide" if wide else "Trace",
                      label="wide" if wide else "plain")

    def choices(s, pb):
        s.add("penl", "lowl", "cgl 1 100000000")
        for p in r.sample(range(1, pb.w * pb.h + 1), 3):
            s.add("choose 1 %d" % p)
        s.add("av 1 " + gen.availability(r, pb))
        for p in r.sample(range(1, pb.w * pb.h + 1), 4) + [1]:
            s.add("choose 1 %d" % p)
    large(c, [(300, 1, 300), (2, 300, 2), (300, 2, 5), (130, 2, 130), (40, 40, 3), (2, 700, 2)], choices)


def c16(c):
    r = c.rng
    m = ["SolvableIffLabeling", "SearchIsExact"]
    bounded(c, [("rows", stereo(m, emit=True, Shapes="Shapes312", Weights="W2", Ops="OpsLabel")),
                ("2x2", stereo(m, emit=True, Shapes="ShapesSquare", Ops="OpsLabel"))]
            + c.n([], [("3x1x3", stereo(m, emit=True, Shapes="ShapesRow", Weights="W2", Ops="OpsLabel")),
                       ("4x1", stereo(m, emit=True, Shapes="ShapesRow4", Ops="OpsLabel"))]), {"label"})
    ss = []
    for sid in range(1, c.n(400, 5000) + 1):
        pb = gen.problem(r, close=0.1)
        s, used = gen.start(r, sid, pb, 0.0)
        s.add("thr 0 0")
        k = r.random()
        s.add("cg 1 0 thr 0" if k < 0.5 else gen.threshold(r))
        if r.random() < 0.35:
            s.add("drop 1 " + gen.nodelist(r.sample(pb.nodes(), r.randint(1, max(1, len(pb.nodes()) // 4)))))
        if r.random() < 0.8:
            s.add("solve 1 0")
        s.add("label 1 1 1")
        ss.append(s.done())
    c.trace_check("san", "driver", ss)
    large(c, [(70, 1, 2), (2, 60, 2), (20, 3, 3), (12, 1, 12), (3, 20, 3)],
          lambda s, pb: s.add("pen", "low 0", "cands 0", "thr 0 0", "cg 1 0 thr 0", "solve 1 0", "label 1 1 0"))


def c17(c):
    r = c.rng
    ss = []
    for sid in range(1, c.n(300, 3000) + 1):
        pb = gen.problem(r)
        s, used = gen.start(r, sid, pb, 0.0)
        s.add("cg 1 0 abs 0")
        for _ in range(4):
            lab = gen.labeling(r, pb)
            nodes = list(zip(pb.pixels(), lab))
            k = r.random()
            if k < 0.25:
                nodes.remove(r.choice([nodes[0], nodes[-1], r.choice(nodes)]))
            elif k < 0.6:
                more = [n for n in pb.nodes() if n not in nodes]
                nodes += r.sample(more, min(len(more), r.choice([1, 1, 2])))
            s.add("av 1 " + gen.nodelist(nodes), "map 1")
        s.add("cg 1 0 cand 1000", "map 1", "label 1 0 1", "map 1")
        ss.append(s.done())
    c.trace_check("san", "driver", ss)

    def maps(s, pb):
        s.add("lowl", "cgl 1 0")
        nodes = list(zip(pb.pixels(), gen.labeling(r, pb) if pb.h > 1 else
                         [r.choice([d for d in pb.disparities(p)][-3:]) for p in pb.pixels()]))
        s.add("av 1 " + gen.nodelist(nodes), "map 1")
        more = r.choice([n for n in pb.nodes() if n not in nodes])
        s.add("av 1 " + gen.nodelist(nodes + [more]), "map 1")
        gone = r.choice(nodes)
        s.add("av 1 " + gen.nodelist([n for n in nodes if n != gone]), "map 1")
    large(c, [(300, 1, 300), (2, 300, 2), (70, 70, 5), (130, 2, 130)], maps)


def c21(c):
    r = c.rng
    c.models([("two graphs", "MCStereo", stereo([], ["ContractsKept", "ProblemStable"], Shapes=c.n("Shapes212", "Shapes312"),
                                                PhiValues=c.n("None", "Phis"), MaxGraphs="2", Ops="OpsAll"))])
    ss = []
    for sid in range(1, c.n(250, 3000) + 1):
        pb = gen.problem(r, shapes=[x for x in gen.SHAPES if x[0] * x[1] <= 10])
        s, used = gen.start(r, sid, pb, 0.2, low=1)
        s.add("cands 1", "thr 1 %d" % (not used), gen.threshold(r, 1, 1), gen.threshold(r, 2, 1), "dump")
        graphs = 2
        for _ in range(r.randint(4, 12)):
            h = r.randint(1, graphs)
            k = r.randrange(13)
            if k == 0:
                s.add("cands 1")
            elif k == 1:
                s.add("thr 1 %d" % (not used))
            elif k == 2:
                s.add("low 1")
            elif k == 3 and graphs < 4:
                graphs += 1
                s.add(gen.threshold(r, graphs, 1))
            elif k == 4:
                s.add(gen.threshold(r, h, 1))
            elif k == 5 and graphs < 4:
                graphs += 1
                s.add("copy %d %d" % (graphs, h))
            elif k in (6, 7):
                s.add("solve %d 1" % h)
            elif k == 8:
                s.add("iter %d 2 %d" % (h, r.randint(0, 1)))
            elif k == 9:
                s.add("choose %d %d" % (h, r.choice(list(pb.pixels()))))
            elif k == 10:
                s.add("label %d %d 1" % (h, not used))
            elif k == 11:
                s.add("map %d" % h)
            else:
                p, d = r.choice(pb.nodes())
                s.add("set %d %d %d %d" % (h, p, d, r.randint(0, 1)))
            s.add("dump")
        ss.append(s.done())
    c.trace_check("san", "driver", ss)
    # several graphs of one threshold, different nodes left in each: work on one, then on another
    ss = []
    for sid in range(20001, 20001 + c.n(250, 3000)):
        pb = gen.problem(r, close=0.1)
        s, used = gen.start(r, sid, pb, 0.2)
        s.add("thr 0 0", gen.threshold(r, 1, 0))
        n = r.randint(2, 4)
        for h in range(2, n + 1):
            s.add("copy %d 1" % h)
        for _ in range(r.randint(2, 5)):
            for h in r.sample(range(1, n + 1), r.randint(1, n)):
                s.add("av %d %s" % (h, r.choice([gen.availability(r, pb), gen.nodelist(pb.nodes()),
                                                 gen.nodelist(zip(pb.pixels(), gen.labeling(r, pb)))])))
            for h in r.sample(range(1, n + 1), n):
                s.add(r.choice(["solve %d 1", "solve %d 1", "pp %d {0}", "iter %d 1 0", "should %d", "label %d 1 0",
                                "choose %d {0}", "left %d"]).format(r.choice(list(pb.pixels()))) % h)
            s.add("dump")
        ss.append(s.done())
    c.trace_check("san", "driver", ss, label="graphs of one threshold in turns")


PGM_MODEL = ["ReaderIsGrammar", "FailedIsFinal", "MemoryBounded", "Emitted"]


def pgm_texts(c):
    runs = [("single edits", "MCPgm", cfg(dict(Bases="<- BasesAll", Alphabet="<- CharsAll", Depth="1"), PGM_MODEL,
                                          extra="VIEW View\n"))]
    if c.thorough:
        runs.append(("double edits", "MCPgm", cfg(dict(Bases="<- BasesOne", Alphabet="<- CharsFew", Depth="2"),
                                                  PGM_MODEL, extra="VIEW View\n")))
    texts = sorted({tuple(e["text"]) for e in gen.emitted(c.models(runs))})
    c.cov["texts_enumerated_by_TLC"] = len(texts)
    return texts


def pgm_sessions(c, texts, share):
    """Several reads by one reader: images have to be kept or replaced."""
    r, ss, sid = c.rng, [], 0
    r.shuffle(texts)
    if not c.thorough:
        texts = texts[:2500]
    while texts:
        sid += 1
        s = gen.Session(sid)
        for _ in range(3):
            if texts:
                s.add(gen.read_line(texts.pop()))
        ss.append(s.done())
    for _ in range(c.n(500, 8000)):
        sid += 1
        s = gen.Session(sid)
        for _ in range(r.randint(1, 4)):
            s.add(gen.read_line(gen.pgm_text(r) if r.random() < share else gen.pgm_broken(r),
                                0 if r.random() < 0.03 else 1))
        ss.append(s.done())
    return ss


LENGTHS = [9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 512, 513, 1024, 1025, 2049, 4097]
VALUES = sorted({max(v + d, 0) for v in [0, 255, 256, 257, 258, 65535, 65536, 65538, 131072, 1 << 31, 1 << 32, 1 << 48, 1 << 63,
                                         1 << 64, 10 ** 19, 10 ** 20, 1 << 65, 1 << 128]
                 for d in (-1, 0, 1, 2, 5, 255, 65536)})


def long_texts(c, wanted):
    """Texts whose parts are long: comments, series of comments, gaps, numbers; wanted: valid ones or others."""
    r, out = c.rng, []
    for n in LENGTHS:
        parts = [("#" + "".join(r.choice("ab1 #") for _ in range(n)) + "\n"), " " * n, "\n" * n, "\n#\n" * n,
                 "".join(r.choice(" \n\t\r\v\f") for _ in range(n)), "#1 2\n" * n]
        for part in parts:
            if n > 600 and len(part) > 5000 and not c.thorough:
                continue
            where = r.randrange(7)
            toks = ["P2", "2", "1", "9", "3", "4"]
            t = "".join((" " + part if k == where else " ") + x for k, x in enumerate(toks)).lstrip(" ")
            if where == 6:
                t += "\n" + part
            out.append(t if wanted else r.choice([t + "\n5", t + " x", t[:-1], t.replace("3", "3x"), t + "\n#\n1\n",
                                                  t + " " * n + "0", t + "#" * n + "\n7"]))
        k = r.randrange(1, 6)
        toks = ["P2", "2", "1", "9", "3", "4"]
        toks[k] = "0" * n + toks[k]
        if not wanted:
            toks[k] = toks[k] + "a" if r.random() < 0.5 else toks[k].replace("0", "1")
        out.append(" ".join(toks) + "\n")
    for k in range(1, 6):
        for v in VALUES:
            toks = ["P2", "2", "1", "9", "3", "4"]
            toks[k] = str(v)
            out.append(" ".join(toks) + "\n")
    return out


def c01(c):
    r = c.rng
    ss = pgm_sessions(c, pgm_texts(c), 0.8)
    for k, t in enumerate(long_texts(c, True)):
        ss.append(gen.Session(800000 + k).add(gen.read_line("P2 1 1 1 1"), gen.read_line(t)).done())
    for k, (w, h) in enumerate([(1300, 1), (1, 1100), (257, 3)] + c.n([], [(4100, 1), (2, 1300), (257, 17)])):
        t = "P2\n%d %d\n9\n" % (w, h) + "".join("%d " % r.randint(0, 9) for _ in range(w * h))
        ss.append(gen.Session(890000 + k).add(gen.read_line(t)).done())
    # large ones
    for k in range(c.n(12, 100)):
        w, h = r.choice([(300, 1), (1, 300), (37, 11), (128, 3), (7, 64)])
        t = "P2" + gen.gap(r) + "%d %d\n%d\n" % (w, h, 65536) + "".join(
            str(r.randint(0, 65536)) + gen.gap(r) for _ in range(w * h))
        ss.append(gen.Session(900000 + k).add(gen.read_line(t)).done())
    c.trace_check("san", "pgm_driver", ss, module="PgmTrace")


def c02(c):
    r = c.rng
    ss = pgm_sessions(c, pgm_texts(c), 0.2)
    for k, t in enumerate(long_texts(c, False)):
        ss.append(gen.Session(800000 + k).add(gen.read_line("P2 1 1 1 1"), gen.read_line(t)).done())
    for k in range(c.n(60, 600)):      # headers that claim what is not there
        claim = r.choice(["%d %d" % (r.choice([1, 2, 3]) * 10 ** r.randint(3, 19), r.choice([1, 7, 10 ** r.randint(1, 19)])),
                          "4294967296 4294967296", "65536 65536", "4294967297 1", "1 4294967297", "2147483648 2",
                          "9223372036854775808 2", "18446744073709551615 18446744073709551615"])
        t = "P2\n%s\n255\n%s" % (claim, " ".join(str(r.randint(0, 255)) for _ in range(r.choice([0, 1, 2, 10]))))
        ss.append(gen.Session(900000 + k).add(gen.read_line("P2 1 1 1 1"), gen.read_line(t)).done())
    c.trace_check("san", "pgm_driver", ss, module="PgmTrace")


def c03(c):
    r, ss, sid = c.rng, [], 0
    outs = c.models([("images", "MCPgmWrite", cfg(dict(MaxPixels=c.n("2", "4")), ["RoundTrip", "OnlyValid", "Emitted"]))])
    seq = []

    def num(t):
        return "".join(map(chr, t))
    for e in gen.emitted(outs):
        seq.append("write %s %s %s %d %s" % (num(e["w"]), num(e["h"]), num(e["max"]), len(e["data"]),
                                             " ".join(map(num, e["data"]))))
    r.shuffle(seq)
    seq = seq[:c.n(2500, 20000)]
    for _ in range(c.n(700, 8000)):
        w = r.choice([1, 2, 3, 10, 11, 12, 13, 22, 23, 33, 34, r.randint(1, 60)])
        h = r.randint(1, 4)
        m = r.choice([1, 9, 99, 255, 9999, 10000, 65535, 65536, 65537, 10 ** 6, 10 ** 18])
        d = [r.choice([0, m, r.randint(0, m), r.randint(0, 9)]) for _ in range(w * h)]
        k = r.random()
        if k < 0.1:
            d[r.randrange(len(d))] = m + 1
        elif k < 0.2:
            d = d[:-1] if r.random() < 0.5 else d + [0]
        elif k < 0.25:
            w, h = r.choice([(0, h), (w, 0), (w * h, 2), (2 ** 32 + w, h), (2 ** 63, 2)])
        seq.append("write %d %d %d %d %s" % (w, h, m, len(d), " ".join(map(str, d))))
    # every width and number of digits, maxima as they are: the longest lines
    for m in (9, 99, 999, 9999, 10000, 65535, 65536):
        for w in range(1, c.n(41, 161)):
            for h in {1, 2 if w < 24 else 1}:
                seq.append("write %d %d %d %d %s" % (w, h, m, w * h, " ".join([str(m)] * (w * h))))
    seq.append("writenone")
    # many intensities, something is wrong about the last one, their number or the maximum
    for w, h in [(60, 60), (1, 4000), (5000, 1)] + c.n([], [(200, 200)]):
        d = [r.randint(0, 9) for _ in range(w * h)]
        seq += ["write %d %d %d %d %s" % (w, h, m, len(x), " ".join(map(str, x)))
                for m, x in [(65537, d), (9, d[:-1] + [10]), (9, d[:-1]), (9, d + [0])]]
    for k in range(0, len(seq), 8):
        sid += 1
        ss.append(gen.Session(sid).add(*seq[k:k + 8]).done())
    c.trace_check("san", "pgm_driver", ss, module="PgmTrace")


CLI_MODEL = ["Total", "GoodOnes", "OrderFree", "MapIsWellPosed", "Emitted"]


def cli_model(c):
    return c.models([("invocations within %s faults" % c.n("2", "3"), "MCCli", cfg(
        dict(Wide="FALSE", Depth=c.n("2", "3")), CLI_MODEL, extra="VIEW View\n"))])


def c18(c):
    r = c.rng
    ss = [[gen.cli_run(e, r)] for e in gen.emitted(cli_model(c)) if e["outcome"] == "map"]
    c.cov["good_invocations_enumerated_by_TLC"] = len(ss)
    for k in range(c.n(250, 3000)):
        ss.append(gen.cli_problem(r, k))
    # larger images, whose pixels do not fit into a word or a line
    for k in range(c.n(48, 400)):
        ss.append(gen.cli_problem(r, k, shapes=[(17, 1, 3), (20, 1, 4), (33, 1, 2), (24, 2, 2), (2, 20, 2), (9, 5, 3), (20, 1, 20), (18, 1, 18), (17, 2, 4),
                                               (65, 1, 2), (12, 4, 3), (6, 8, 2)]))
    for k in range(c.n(24, 200)):
        w = r.choice([3, 5, 9, 10, 12, 17, 18, 19, 20])
        ss.append(gen.cli_problem(r, k, shapes=[(w, 1 if w > 10 else 2, w)], moved=True))
    # long and high ones without the number of levels, weights which differ in the 25th bit
    for k in range(c.n(16, 100)):
        ss.append(gen.cli_problem(r, k, shapes=[r.choice([(3, 13, 3), (4, 9, 4), (3, 20, 3), (9, 1, 9), (5, 11, 5)])],
                                  moved=r.random() < 0.7))
    for k in range(c.n(6, 40)):
        ss.append(gen.cli_problem(r, k, shapes=[r.choice([(5, 22, 5), (21, 2, 21), (6, 30, 6)])], moved=True, default=True))
    for k in range(c.n(40, 400)):
        ss.append(gen.cli_problem(r, k, shapes=[(3, 1, 3), (3, 1, 3), (4, 1, 4), (3, 2, 3), (4, 1, 3), (5, 1, 4)], close=True))
    cli.check(c, ss)
    cli.check(c, [gen.cli_problem(r, k, wide=True) for k in range(c.n(80, 800))], wide=True, label="runs, wide")
    cli.check(c, [gen.cli_problem(r, k, shapes=[sh]) for k in range(c.n(1, 4)) for sh in
                  [(260, 1, 2), (2, 260, 2), (300, 2, 3)] + c.n([], [(40, 30, 3), (30, 1, 30), (260, 1, 5)])]
              + [gen.cli_default(r, k, w) for k, w in enumerate(c.n([70, 90, 132], [66, 70, 90, 132, 140, 160, 180]))],
              label="large runs")


def c19(c):
    r = c.rng
    es = [e for e in gen.emitted(cli_model(c)) if e["outcome"] != "map"]
    c.cov["failing_invocations_enumerated_by_TLC"] = len(es)
    # every single kind of fault with every base, and a sample of the pairs
    es.sort(key=lambda e: repr(e))
    r.shuffle(es)
    cli.check(c, [[gen.cli_run(e, r)] for e in es[:c.n(5000, 60000)]])
    ss = []
    for k in range(c.n(400, 5000)):      # broken image files (some turn out to be fine)
        runs = gen.cli_problem(r, 0, wide=True)
        x = runs[0]
        b = gen.pgm_broken(r).encode("latin-1", "replace")
        if r.random() < 0.5:
            x.left = b
        else:
            x.right = b
        if r.random() < 0.2:
            x.right = x.left
        x.inplace = False
        ss.append([x])
    cli.check(c, ss, wide=True, label="broken image files")


def gpu(shapes, missing, nodes, live=False):
    return cfg(dict(Wide="FALSE", Shapes="<- " + shapes, Missing=str(missing), MissingNodes=str(nodes)),
               ["NeverTooMuch", "SolvedExactly", "LaunchesBounded", "SameLabeling"], ["Terminates"] if live else [])


def c20(c):
    r = c.rng
    runs = [("rows, terminates", "MCGpu", gpu("SRow", 1, 0, True)), ("rows", "MCGpu", gpu("SRow", 1, 1)),
            ("2x2", "MCGpu", gpu("S222", 1, 0))]
    if c.thorough:
        runs += [("rows, 2 nodes and 2 edges missing", "MCGpu", gpu("SRow", 2, 2)), ("4x1", "MCGpu", gpu("S412", 2, 1)),
                 ("2x2, node missing", "MCGpu", gpu("S222", 1, 1)), ("2x2, terminates", "MCGpu", gpu("S222", 1, 0, True))]
    c.models(runs)
    os.environ["FAKECL_CACHE"] = vlib.scratch()
    ss, sid = [], 0

    def runs_of(s, h, n):
        for _ in range(n):
            s.add("device %d %d %d" % (h, r.randrange(4), r.randrange(10 ** 6)))
    for _ in range(c.n(500, 6000)):
        sid += 1
        pb = gen.problem(r, maxm=255)
        s, used = gen.start(r, sid, pb, 0.3)
        s.add("thr 0 0")
        s.add("cg 1 0 thr 0" if r.random() < 0.5 else gen.threshold(r))
        k = r.random()
        if k < 0.3:
            s.add("av 1 " + gen.availability(r, pb))
        elif k < 0.5:
            s.add("drop 1 " + gen.nodelist(r.sample(pb.nodes(), r.randint(1, max(1, len(pb.nodes()) // 4)))))
        if r.random() < 0.5:
            s.add("solve 1 0")
        runs_of(s, 1, 3)
        ss.append(s.done())
    # more pixels than a work group has items, removals that travel far
    for _ in range(c.n(40, 400)):
        sid += 1
        pb = gen.problem(r, shapes=[(2, 8, 2), (9, 2, 3), (12, 1, 4), (2, 12, 2), (6, 6, 3), (20, 1, 3), (9, 3, 4)], maxm=255)
        s, used = gen.start(r, sid, pb, 0.4)
        s.add("thr 0 0", r.choice(["cg 1 0 thr 0", "cg 1 0 thr 0", "cg 1 0 below 0"]))
        runs_of(s, 1, 3)
        ss.append(s.done())
    # as many rounds as possible
    for pb, lines in list(gen.hard()) + winding(c)[:c.n(1, 4)]:
        sid += 1
        s = gen.Session(sid).add(*lines)
        runs_of(s, 1, 6)
        ss.append(s.done())
    c.trace_check("gpu", "gpu_driver", ss)
    cli.check(c, [gen.cli_problem(r, k, device=True) for k in range(c.n(80, 800))], label="runs of the command on a device")
    c.assumptions.append("a simulated OpenCL device: whole accesses to memory, one at a time; no float rounding (all values exact)")


CHECKS = {f.__name__.upper(): f for f in (c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21)}


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return vlib.setup()
    c = Check(prop)
    try:
        CHECKS[prop](c)
        return c.finish()
    except CheckError as e:
        print("ERROR: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        vlib.cleanup()


if __name__ == "__main__":
    sys.exit(main())
