"""C08: intersections of outline segments against an independent solution of the plane geometry."""
import math
from math import pi
from vlib import build, drive, g2
from vlib.g2 import Line, Arc, Circle, Amb, Rigid, TAU, polar

f = repr


def spec(name, s):
    if s.kind == "line": return "sline %s %r %r %r %r" % ((name,) + s.p + s.q)
    return "sarc %s %r %r %r %r %r %r %d" % ((name,) + s.c + s.start + (s.start if s.full else s.end) + (1 if s.cw else 0,))


def angle(rd):
    return rd.choice([rd.uniform(-pi, pi), rd.uniform(-pi, pi), rd.choice([0.0, pi / 2, pi, -pi / 2, -pi, 1.25 * pi]), rd.choice([-1, 1]) * (pi - rd.uniform(0, 0.3))])


def sweep(rd):
    return rd.choice([rd.uniform(0.3, TAU - 0.3), rd.uniform(0.3, TAU - 0.3), rd.choice([pi / 2, pi, 1.5 * pi]), rd.uniform(0.05, 0.4), TAU - rd.uniform(0.05, 0.4)])


def pt(rd, L): return (rd.uniform(-L, L), rd.uniform(-L, L))


def anyseg(rd, L, kind=None):
    kind = kind or rd.choice(["line", "arc", "arc", "circle"])
    if kind == "line":
        p, a = pt(rd, L), angle(rd)
        return Line(p, polar(p, rd.uniform(0.1, 2) * L, a))
    c, r = pt(rd, L), rd.uniform(0.1, 1.2) * L
    if kind == "circle": return Circle(c, r)
    return Arc(c, r, angle(rd), sweep(rd))


def spot(rd, s):
    """A point of the segment: an end or an inner point; with the direction of travel there."""
    t = rd.choice([0.0, 1.0, rd.uniform(0.02, 0.98), rd.uniform(0.02, 0.98), 0.5])
    if s.kind == "line":
        P = s.p if t == 0 else s.q if t == 1 else s.at(t * s.length)
        return P, math.atan2(s.q[1] - s.p[1], s.q[0] - s.p[0])
    if s.full: t = rd.random()
    P = s.start if t == 0 and not s.full else s.end if t == 1 and not s.full else s.at(t * s.length)
    return P, s.a0 + t * s.sw + (pi / 2 if s.sw > 0 else -pi / 2)


def through(rd, L, P, d, kind):
    """A segment with P on it; d is its direction there, or None."""
    a = angle(rd) if d is None else d
    t = rd.choice([0.0, 1.0, rd.uniform(0.02, 0.98), rd.uniform(0.02, 0.98), 0.5])
    if kind == "line":
        n = rd.uniform(0.1, 2) * L
        u = (math.cos(a), math.sin(a))
        p = P if t == 0 else (P[0] - t * n * u[0], P[1] - t * n * u[1])
        q = P if t == 1 else (P[0] + (1 - t) * n * u[0], P[1] + (1 - t) * n * u[1])
        return Line(p, q)
    r = rd.uniform(0.1, 1.2) * L
    k = rd.choice([1, -1])      # side of the centre: left for counterclockwise
    c = polar(P, r, a + k * pi / 2)
    aP = a - k * pi / 2
    if kind == "circle": return Circle(c, r)
    sw = sweep(rd) * k
    return Arc(c, r, aP - t * sw, sw, P if t == 0 else None, P if t == 1 else None)


def pair(rd):
    """A pair of segments in a common frame and the name of the construction."""
    L = rd.choice([0.5, 2.0, 10.0, 30.0, 100.0])
    k = rd.randrange(12)
    kd = lambda: rd.choice(["line", "arc", "arc", "circle"])
    if k < 3: return "general", anyseg(rd, L), anyseg(rd, L)
    if k < 6:
        A = anyseg(rd, L)
        P, d = spot(rd, A)
        return "through a point", A, through(rd, L, P, None, kd())
    if k < 8:
        A = anyseg(rd, L)
        P, d = spot(rd, A)
        return "tangent", A, through(rd, L, P, d + rd.choice([0, pi]), kd())
    if k < 9:
        # both ends shared
        if rd.random() < 0.5:
            A = anyseg(rd, L, rd.choice(["line", "arc"]))
            p, q = A.start, A.end
            n = g2.dist(p, q)
            if rd.random() < 0.3: return "shared ends", A, Line(p, q)
            h = rd.uniform(-2, 2) * n
            m = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
            c = (m[0] - h * (q[1] - p[1]) / n, m[1] + h * (q[0] - p[0]) / n)
            B = Arc.by(c, p, q, rd.random() < 0.5)
            B.pe = polar(B.c, B.r, B.a0 + B.sw)
            return "shared ends", A, B
        # line through two points of an arc / second arc through two points
        A = anyseg(rd, L, rd.choice(["arc", "circle"]))
        P, Q = spot(rd, A)[0], spot(rd, A)[0]
        if g2.dist(P, Q) < 0.05: return "general", A, anyseg(rd, L)
        return "chord", A, Line(P, Q)
    if k < 11:
        if rd.random() < 0.45:
            # on one line: all relations of two intervals
            p, a = pt(rd, L), angle(rd)
            x = sorted(rd.uniform(0, 3) * L for _ in range(4))
            w = rd.randrange(9)
            i, j = [((0, 1), (2, 3)), ((0, 1), (1, 2)), ((0, 2), (1, 3)), ((0, 3), (1, 2)), ((0, 2), (0, 1)), ((0, 2), (1, 2)), ((0, 1), (0, 1)), ((1, 2), (0, 3)), ((1, 3), (0, 2))][w]
            o = rd.choice([0, 0, 0, 0, rd.uniform(0.01, 1)])
            n = (-math.sin(a) * o, math.cos(a) * o)
            A = Line(polar(p, x[i[0]], a), polar(p, x[i[1]], a))
            B = Line(g2.add(polar(p, x[j[0]], a), n), g2.add(polar(p, x[j[1]], a), n))
            return "collinear" if o == 0 else "parallel", A, B
        c, r, a = pt(rd, L), rd.uniform(0.3, 1.2) * L, angle(rd)
        m = rd.randrange(7)
        if m == 0: return "one circle", Circle(c, r), rd.choice([Circle(c, r), Arc(c, r, a, sweep(rd))])
        cut = sorted(rd.uniform(0, TAU) for _ in range(4))
        i, j = [((0, 1), (2, 3)), ((0, 1), (1, 2)), ((0, 2), (1, 3)), ((0, 3), (1, 2)), ((0, 2), (0, 1)), ((0, 2), (1, 2)), ((0, 1), (0, 1)),
                ((0, 1), (1, 4)), ((0, 2), (1, 4)), ((0, 2), (1, 5)), ((0, 3), (2, 5)), ((0, 3), (1, 6)), ((0, 1), (0, 1))][rd.randrange(13)]
        ang = lambda q: a + cut[q % 4] + (TAU if q >= 4 else 0)
        A, B = Arc(c, r, ang(i[0]), ang(i[1]) - ang(i[0])), Arc(c, r, ang(j[0]), ang(j[1]) - ang(j[0]))
        return ("one circle", A, B) if max(A.sw, B.sw) < TAU - 0.02 else ("general", anyseg(rd, L), anyseg(rd, L))
    # concentric or nested
    c, r = pt(rd, L), rd.uniform(0.3, 1.2) * L
    r2 = r * rd.uniform(0.2, 0.95)
    c2 = c if rd.random() < 0.4 else polar(c, rd.uniform(0, r - r2), angle(rd))
    mk = lambda c, r: Circle(c, r) if rd.random() < 0.5 else Arc(c, r, angle(rd), sweep(rd))
    return "nested", mk(c, r), mk(c2, r2)


def usable(s):
    if s.length < 0.05: return False
    if s.kind == "arc": return s.r > 0.05 and g2.dist(s.start, s.end) > 0.02
    return s.kind == "line" or s.r > 0.05


def ppts(l):
    return [tuple(float(x) for x in t.split(",")) for t in l]


def samepts(got, want, tol):
    if len(got) != len(want): return False
    left = list(want)
    for p in got:
        k = next((q for q in left if g2.dist(p, q) <= tol), None)
        if k is None or any(x != x for x in p): return False
        left.remove(k)
    return True


def judge_meet(c, A, B, how, line, tag, rec):
    """Compare one answer of GetIntersections with the expected one."""
    ret, flags, pts, kind = g2.meet(A, B)
    t = line.split()
    got = ppts(t[2:])
    tol = 1e-6 + 1e-9 * max(abs(x) for x in A.start + B.start + (A.length, B.length))
    what = None
    if (t[0] == "1") != ret: what = "returned-%s" % t[0]
    elif t[1] not in flags: what = "flag-%s" % t[1]
    elif kind == "arcs overlap and touch" and samepts(got, pts[:2], tol): pass
    elif not samepts(got, pts, tol): what = "points"
    if what:
        rec("%s-%s-%s-%s" % (kind, "x".join((A.kind, B.kind)), what, ""), "%s: %s, %s\n%r\n%r\nthe library says %s, expected %s %s %s" % (how, kind, tag, A, B, line, ret, flags, pts))
        return False
    c.event(kind + (" [%s,%s]" % tuple(sorted((A.kind, B.kind)))))
    return True


def same_seg(d, s, tol=1e-7):
    """Does a dumped segment describe s?  None if so, else what is wrong."""
    v = d.split(":")
    if v[0] != {"line": "L", "arc": "A", "circle": "C"}[s.kind]: return "kind %s" % v[0]
    P = lambda x: tuple(float(y) for y in x.split(","))
    if s.kind == "line":
        return None if g2.dist(P(v[1]), s.p) < tol and g2.dist(P(v[2]), s.q) < tol else "ends"
    if g2.dist(P(v[1]), s.c) > tol or abs(float(v[2]) - s.r) > tol: return "centre or radius"
    if s.kind == "circle": return None
    if g2.dist(P(v[3]), s.start) > tol or g2.dist(P(v[4]), s.end) > tol: return "ends"
    if (v[5] == "1") != s.cw: return "direction"
    a, b = float(v[6]), float(v[7])
    if abs((b - a) - s.sw) > tol / s.r + 1e-9: return "sweep %r instead of %r" % (b - a, s.sw)
    if abs((a - s.a0 + pi) % TAU - pi) > tol / s.r + 1e-9: return "start angle"
    q = s if not s.cw else s.rev()
    if g2.dist(P(v[8]), q.start) > tol or g2.dist(P(v[9]), q.end) > tol: return "ends in counterclockwise order"
    x, y = float(v[10]), float(v[11])
    if (x, y) != ((a, b) if not s.cw else (b, a)) or y <= x: return "angles in counterclockwise order"
    return None


def run(c):
    exe = build.build("san", ("vg",))["vg"]
    c.rule = ("A figure is two segments built by a named construction (general position, passing through a point or end of the other, tangent there, sharing both ends, chord, "
              "all interval relations on one line and on one circle, nested/concentric), kept only if every coincidence is exact or at least 0.005 apart. Each figure is put to the library in its own "
              "frame and rotated and translated, in both orders and all directions of travel; every answer is compared with an independent solution. Then one segment is split at one or two of its "
              "points (or points off it), the pieces are compared with the exact subdivision and used in further intersections. Length, bounding box, midpoint and angles of every segment are "
              "compared too. Distinct: figures with at least one common point.")
    c.assume.append("coordinates within about 500, sizes 0.05 to 250, coincidences exact or apart by >= 0.005 (the library's tolerances are 1e-8 and, for tangency and identity of circles, 1e-3)")
    c.assume.append("tangent circles and arcs are reported by the flag alone (no point), tangent lines with their point, as the existing tests fix it")
    N = c.n(12000, 200000)

    def part(sub, lo, hi):
        cases, info = [], {}
        for i in range(lo, hi):
            rd = sub.rnd(i)
            for _ in range(60):
                how, A, B = pair(rd)
                try:
                    if not (usable(A) and usable(B)): continue
                    m = g2.meet(A, B); g2.meet(B, A)
                    break
                except Amb: continue
            else: continue
            cmds, plan = [], []
            frames = [Rigid(0.0, (0.0, 0.0)), Rigid(rd.choice([angle(rd), rd.choice([pi / 2, pi, 1.5 * pi])]), rd.choice([(0.0, 0.0), pt(rd, 50), pt(rd, 300)]))]
            for R in frames:
                a, b = A.move(R), B.move(R)
                for ra in (0, 1) if A.kind != "circle" else (0,):
                    for rb in (0, 1) if B.kind != "circle" else (0,):
                        x, y = a.rev() if ra else a, b.rev() if rb else b
                        cmds += [spec("a", x), spec("b", y), "isect a b", "isect b a"]
                        plan += [("ok",), ("ok",), ("isect", x, y), ("isect", y, x)]
            cmds += ["sget a", "smeas a", "sget b", "smeas b"]
            plan += [("get", x), ("meas", x), ("get", y), ("meas", y)]
            # split one of them, then meet the pieces with the other
            for w, s, o in (("a", x, y), ("b", y, x)):
                if s.kind == "circle":
                    t = [rd.uniform(0, 1), rd.uniform(0, 1)]
                    if min(abs(t[0] - t[1]), 1 - abs(t[0] - t[1])) * s.length < 0.05: continue
                    q0, q1 = s.at(t[0] * s.length), s.at(t[1] * s.length)
                    cmds.append("split %s n%s %r %r %r %r" % ((w, w) + q0 + q1))
                    pieces = [Arc.by(s.c, q1, q0, False), Arc.by(s.c, q0, q1, False)]
                else:
                    n = rd.choice([1, 2, 2])
                    t = sorted(rd.uniform(0.02, 0.98) for _ in range(n))
                    if n == 2 and (t[1] - t[0]) * s.length < 0.05 or t[0] * s.length < 0.03 or (1 - t[-1]) * s.length < 0.03: continue
                    q = [s.at(v * s.length) for v in t]
                    k = rd.randrange(5)
                    given = list(q)
                    if k == 0 and n == 2: given[0] = s.start; q = q[1:]; t = t[1:]
                    elif k == 1 and n == 2: given[1] = s.end; q = q[:1]; t = t[:1]
                    elif k == 2 and n == 2 and rd.random() < 0.3: given = [q[0], q[0]]; q = q[:1]; t = t[:1]
                    if rd.random() < 0.5: given.reverse()
                    cmds.append("split %s n%s %s" % (w, w, " ".join("%r %r" % p for p in given)))
                    ends = [s.start] + q + [s.end]
                    tt = [0.0] + t + [1.0]
                    if s.kind == "line": pieces = [Line(ends[j], ends[j + 1]) for j in range(len(q) + 1)]
                    else: pieces = [Arc(s.c, s.r, s.a0 + tt[j] * s.sw, (tt[j + 1] - tt[j]) * s.sw, ends[j], ends[j + 1]) for j in range(len(q) + 1)]
                plan.append(("split", s, pieces))
                names = [w] + ["n%s%d" % (w, j) for j in range(len(pieces) - 1)]
                for nm, pc in zip(names, pieces):
                    cmds.append("smeas " + nm); plan.append(("meas", pc))
                    try:
                        if usable(pc) and usable(o):
                            g2.meet(pc, o); g2.meet(o, pc)
                            if w == "a": cmds += ["isect %s b" % nm, "isect b %s" % nm]; plan += [("isect", pc, o), ("isect", o, pc)]
                    except Amb: pass
                # a second split of a piece, and points off it
                pc, nm = rd.choice(list(zip(pieces, names)))
                if pc.length > 0.3:
                    q = pc.at(rd.uniform(0.3, 0.7) * pc.length)
                    off = rd.random() < 0.3
                    if off:
                        d = rd.uniform(0.01, 1) * rd.choice([-1, 1])
                        q = (q[0] + d, q[1] + 1.7 * d)
                        if pc.near(q) < 0.005: continue
                    cmds.append("split %s m%s %r %r" % ((nm, w) + q))
                    if off: plan.append(("nosplit", pc))
                    elif pc.kind == "line": plan.append(("split", pc, [Line(pc.p, q), Line(q, pc.q)]))
                    else:
                        v = pc.offset(q) / pc.length
                        plan.append(("split", pc, [Arc(pc.c, pc.r, pc.a0, pc.sw * v, pc.ps, q), Arc(pc.c, pc.r, pc.a0 + pc.sw * v, pc.sw * (1 - v), q, pc.pe)]))
                if w == "a": break
            cases.append((str(i), cmds)); info[str(i)] = (how, A, B, m, plan)
        res = drive.run_cases(exe, cases, sub.work, jobs=1, chunk=400)
        for cid, cmds in cases:
            r = res[cid]
            how, A, B, m, plan = info[cid]
            sub.evals += 1
            if not sub.crash(r, (), cmds, exe, "%s: %r %r" % (how, A, B)): continue
            bad = []
            rec = lambda key, text: (bad.append(1), sub.violation(key, text, (), cmds, exe))
            for k, p in enumerate(plan):
                g = r.r(k)
                if p[0] == "ok":
                    if g != "1": rec("setparams-refused", "SetParams refused a valid segment: %s" % cmds[k]); break
                elif p[0] == "isect":
                    judge_meet(sub, p[1], p[2], how, g, cmds[k], rec)
                elif p[0] == "get":
                    e = same_seg(g, p[1])
                    if e: rec("getters-%s-%s" % (p[1].kind, e.split()[0]), "%r is reported as %s: %s" % (p[1], g, e))
                elif p[0] == "meas":
                    s = p[1]
                    t = g.split()
                    b = s.bounds()
                    v = ppts(t[1:3]); mid = ppts(t[4:5])[0]
                    wm = polar(s.c, s.r, 0) if s.kind == "circle" else s.at(s.length / 2)
                    if t[0] != "1" or g2.dist(v[0], b[0]) > 1e-7 or g2.dist(v[1], b[1]) > 1e-7: rec("bounds-" + s.kind, "%r: bounding box %s instead of %s" % (s, t[:3], b))
                    elif t[3] != "1" or g2.dist(mid, wm) > 1e-7: rec("midpoint-" + s.kind, "%r: midpoint %s instead of %s" % (s, t[4], wm))
                    elif abs(float(t[5]) - s.length) > 1e-7: rec("length-" + s.kind, "%r: length %s instead of %r" % (s, t[5], s.length))
                    sub.event("segments measured")
                elif p[0] == "split":
                    s, pcs = p[1], p[2]
                    t = g.split()
                    if t[0] != "1" or int(t[1]) != len(pcs) - 1:
                        rec("split-%s-refused" % s.kind, "%r: %s gave %s, expected %d pieces" % (s, cmds[k], g, len(pcs)))
                        break
                    e = [same_seg(x, y) for x, y in zip(t[2:], pcs)]
                    if any(e): rec("split-%s-%s" % (s.kind, next(x for x in e if x).split()[0]), "%r: %s gave %s, expected %s: %s" % (s, cmds[k], g, pcs, e)); break
                    sub.event("splits of a %s into %d" % (s.kind, len(pcs)))
                elif p[0] == "nosplit":
                    t = g.split()
                    if t[0] != "0" or t[1] != "0" or same_seg(t[2], p[1]): rec("split-off-%s" % p[1].kind, "%r was split at a point off it: %s gave %s" % (p[1], cmds[k], g))
                    sub.event("splits refused")
                if len(bad) > 3: break
            sub.event("construction " + how)
            sub.event("answers compared", sum(1 for p in plan if p[0] == "isect"))
            if m[2] or m[1][0] != "NONE": sub.distinct.add((how, m[3], cid))
            sub.sample(dict(how=how, A=repr(A), B=repr(B), expected=[m[0], m[1], m[2], m[3]]))
    c.parallel(part, N)
