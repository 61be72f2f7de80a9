"""C09: outline operations against an independent region model."""
import math
from math import pi
from vlib import build, drive, g2, shapes
from vlib.g2 import Line, Arc, Circle, Amb, Rigid, dist, polar
from checks.c08 import spec

f = repr


def parse(t):
    """Dump of an outline -> (closed, segments, holes, cutouts)."""
    tok = t.split()
    pos = [0]

    def pt(s):
        v = [float(x) for x in s.split(",")]
        if len(v) > 2: raise ValueError("z " + s)
        return tuple(v)

    def seg(s):
        v = s.split(":")
        if v[0] == "L": return Line(pt(v[1]), pt(v[2]))
        if v[0] == "C": return Circle(pt(v[1]), float(v[2]))
        if v[0] == "A":
            a = Arc(pt(v[1]), float(v[2]), float(v[6]), float(v[7]) - float(v[6]), pt(v[3]), pt(v[4]))
            a.cwflag = v[5] == "1"
            return a
        raise ValueError(s)

    def one():
        closed = tok[pos[0]] == "closed"
        pos[0] += 1
        segs, holes, cuts = [], [], []
        while pos[0] < len(tok) and tok[pos[0]] != "}":
            w = tok[pos[0]]
            pos[0] += 1
            if w == "cut={":
                cuts.append(one())
                pos[0] += 1
            elif w.startswith("hole="): holes.append(seg(w[5:]))
            else: segs.append(seg(w))
        return closed, segs, holes, cuts
    return one()


def chain_faults(segs, L):
    """Faults of a closed chain as dumped by the library."""
    tol = 1e-6 + 1e-9 * L
    n = len(segs)
    if not n: return "no segments"
    if n == 1: return None if segs[0].kind == "circle" else "a single segment which is not a circle"
    for i, s in enumerate(segs):
        nx = segs[(i + 1) % n]
        if s.kind == "circle": return "a circle among other segments"
        if dist(s.end, nx.start) > tol: return "segment %d ends at %r, the next one starts at %r" % (i, s.end, nx.start)
        if s.length < 1e-7: return "segment %d has no length" % i
        if s.kind == "arc":
            if s.cwflag != (s.sw < 0): return "arc %d runs the other way than its angles say" % i
            if abs(s.sw) > 2 * pi + 1e-9: return "arc %d sweeps %r" % (i, s.sw)
            for P, a in ((s.start, s.a0), (s.end, s.a0 + s.sw)):
                if dist(P, polar(s.c, s.r, a)) > tol: return "arc %d: end %r is not at its angle" % (i, P)
    return None


def differs(segs, want, L):
    """How the region of a dumped chain differs from the wanted chain."""
    tol = 2e-6 * max(1.0, L)
    f = chain_faults(segs, L)
    if f: return f
    a, b = g2.area(segs), g2.area(want)
    if abs(a - b) > 1e-6 * max(1.0, L) ** 2: return "area %r instead of %r" % (a, b)
    a, b = sum(s.length for s in segs), sum(s.length for s in want)
    if abs(a - b) > 1e-5 * max(1.0, L): return "boundary length %r instead of %r" % (a, b)
    for x, y, n in ((segs, want, "has a boundary which is not that of the region"), (want, segs, "lacks a part of the boundary")):
        for s in x:
            for k in (0.0, .5, .23, .81):
                P = s.at(k * s.length)
                if g2.clearance(y, P) > tol: return "%s at %r" % (n, P)
    return None


def axis_points(segs):
    """Where arcs and circles are parallel to an axis: (point, outward direction)."""
    out = []
    for s in segs:
        if s.kind == "line": continue
        for d in ((1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)):
            P = (s.c[0] + s.r * d[0], s.c[1] + s.r * d[1])
            if s.kind == "circle" or g2.mod(math.atan2(d[1], d[0]) - s.lo()) < abs(s.sw): out.append((P, d))
    return out


class Story(object):
    def __init__(self, c, rd):
        self.c, self.rd = c, rd
        self.cmds, self.ck = [], []
        self.n = 0
        self.kinds = []

    def cmd(self, s):
        self.cmds.append(s)
        return len(self.cmds) - 1

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    def make(self, segs, o=None):
        """Commands which build an outline; in any direction and from any start."""
        rd = self.rd
        o = o or self.name("o")
        self.cmd("onew " + o)
        w = list(segs)
        if rd.random() < .4: w = shapes.revchain(w)
        if len(w) > 1:
            k = rd.randrange(len(w))
            w = w[k:] + w[:k]
        for i, s in enumerate(w):
            n = self.name("s")
            j = self.cmd(spec(n, s))
            self.ck.append(("true", j, "SetParams of a segment"))
            if rd.random() < .08 and i: self.reject(o, w, i)
            j = self.cmd("oseg %s %s" % (o, n))
            self.ck.append(("pre", j, "1 ok live", "AddSegment of a segment which continues the outline"))
            j = self.cmd("oclosed " + o)
            self.ck.append(("pre", j, "1" if i == len(w) - 1 else "0", "IsClosed() after %d of %d segments" % (i + 1, len(w))))
        if rd.random() < .2: self.reject(o, w, len(w))
        self.state(o, segs, [], [], "after it was built")
        return o

    def reject(self, o, w, i):
        """A segment which cannot be added."""
        rd = self.rd
        n = self.name("s")
        e = w[i - 1].end
        if i == len(w) or rd.random() < .6:
            P = e if i == len(w) and len(w) > 1 else polar(e, rd.uniform(.01, 3), rd.uniform(-3, 3))
            s = Line(P, polar(P, 2.0, rd.uniform(-3, 3)))
        else: s = Circle(polar(e, 1.0, 1.0), 1.0)
        self.cmd(spec(n, s))
        j = self.cmd("oseg %s %s" % (o, n))
        self.ck.append(("pre", j, "0 err live", "AddSegment of a segment which does not continue the outline"))

    def state(self, o, segs, cuts, holes, when):
        rd = self.rd
        self.ck.append(("state", self.cmd("odump " + o), segs, [list(x) for x in cuts], list(holes), when))
        self.ck.append(("pre", self.cmd("ocontig " + o), "1", "IsContiguous() " + when))
        pts, want = self.points(segs)
        if pts:
            j = self.cmd("oinside %s %s" % (o, " ".join("%r %r" % p for p in pts)))
            self.ck.append(("in", j, pts, want, when))

    def points(self, segs):
        rd = self.rd
        b = [s.bounds() for s in segs]
        x0, y0, x1, y1 = min(x[0][0] for x in b), min(x[0][1] for x in b), max(x[1][0] for x in b), max(x[1][1] for x in b)
        pts = []
        for k in range(8):
            x, y = rd.uniform(x0 - .2 * (x1 - x0), x1 + .2 * (x1 - x0)), rd.uniform(y0 - .2 * (y1 - y0), y1 + .2 * (y1 - y0))
            s = rd.choice(segs)
            m = rd.randrange(5)
            if m == 0: y = rd.choice([s.start, s.end])[1]              # level with a corner
            elif m == 1: y = s.bounds()[rd.randrange(2)][1]             # level with the top or bottom of an arc
            elif m == 2: x = rd.choice([s.start, s.end])[0]
            elif m == 3:
                q = s.at(rd.random() * s.length)
                x, y = polar(q, rd.choice([.002, .02, .2]), rd.uniform(-pi, pi))
            if g2.clearance(segs, (x, y)) > 1e-3: pts.append((x, y))
        want = [shapes.inside(segs, p) for p in pts]
        for k in range(2):                                             # on the outline
            s = rd.choice(segs)
            pts.append(rd.choice([s.start, s.end, s.at(.5 * s.length), s.at(rd.random() * s.length)]))
            want.append(True)
        return pts, want

    def tool(self, outer, L, targets):
        """A shape which is likely to cross, touch, contain or miss one of the targets."""
        rd = self.rd
        k = rd.randrange(15)
        T = rd.choice(targets)
        s = rd.choice(T)
        if k >= 12:                                                    # where arcs are farthest to the left, right, top or bottom
            B = shapes.shape(rd, L * rd.choice([.02, .05, .08, .2, .4]))
            B = shapes.move(B, Rigid(rd.choice([rd.uniform(-pi, pi), 0.0]), (0.0, 0.0)))
            at, ab = axis_points(T), axis_points(B)
            if at and (rd.random() < .6 or not ab):                    # of the target
                P, d = rd.choice(at)
                b = [x.bounds() for x in B]
                Q = (.5 * (min(x[0][0] for x in b) + max(x[1][0] for x in b)), .5 * (min(x[0][1] for x in b) + max(x[1][1] for x in b)))
                e = rd.uniform(0, .45) * rd.choice([1, 1, -1]) * max(x.length for x in B) / 3
            elif ab:                                                   # of the tool
                Q, d = rd.choice(ab)
                P = s.at(rd.random() * s.length)
                e = -rd.uniform(.005, .05) * L * rd.choice([.3, 1])
            else: return B
            return shapes.move(B, Rigid(0.0, (P[0] - Q[0] + e * d[0], P[1] - Q[1] + e * d[1])))
        if k < 6:                                                      # about a point of the boundary
            B = shapes.shape(rd, L * rd.choice([.08, .2, .4, .8, 1.5]))
            P = s.at(rd.random() * s.length) if rd.random() < .8 else s.start
            return shapes.move(B, Rigid(rd.choice([rd.uniform(-pi, pi), 0.0, pi / 2]), P))
        if k < 9:                                                      # a corner or point of it on the boundary
            B = shapes.shape(rd, L * rd.choice([.08, .2, .4, .8, 1.5]))
            P = s.at(rd.random() * s.length) if rd.random() < .6 else s.start
            b = rd.choice(B)
            Q = b.start if rd.random() < .6 and b.kind != "circle" else b.at(rd.random() * b.length)
            th = rd.choice([rd.uniform(-pi, pi), 0.0])
            R = Rigid(th, (0.0, 0.0))
            Q = R(Q)
            return shapes.move(B, Rigid(th, (P[0] - Q[0], P[1] - Q[1])))
        if k == 9:                                                     # the same shape, moved a little or by a multiple of its size
            R = Rigid(0.0, rd.choice([(0.0, 0.0), (L, 0.0), (0.0, .5 * L), (rd.uniform(-.5, .5) * L, rd.uniform(-.5, .5) * L)]))
            return shapes.move(T, R)
        B = shapes.shape(rd, L * rd.choice([.05, .1, .2]) if k == 10 else L * rd.choice([.3, 3]))
        return shapes.move(B, Rigid(rd.uniform(-pi, pi), (rd.uniform(-1, 1) * L, rd.uniform(-1, 1) * L)))

    def run(self):
        rd = self.rd
        L = rd.choice([1.0, 10.0, 10.0, 40.0, 100.0])
        R = Rigid(rd.choice([0.0, 0.0, rd.uniform(-pi, pi)]), rd.choice([(0.0, 0.0), (rd.uniform(-3, 3) * L, rd.uniform(-3, 3) * L), (1000.0, -500.0)]))
        self.L = L * (1 if abs(R.t[0]) < 500 else 10)
        outer = shapes.move(shapes.shape(rd, L), R)
        o = self.make(outer)
        cuts, holes = [], []
        self.kinds.append("%d segments" % len(outer))
        for step in range(rd.choice([1, 1, 2, 3, 4, 6])):
            B = self.tool(outer, L, [outer] * max(1, len(cuts)) + cuts)
            try:
                if not self.apply(o, outer, cuts, holes, B): break
            except Amb: break
            outer, cuts, holes = self.outer, self.cuts, self.holes
            if min(s.length for s in outer) < 1e-2 * L or abs(g2.area(outer)) < 1e-3 * L * L: break
            if any(min(s.length for s in x) < 1e-2 * L for x in cuts): break

    def apply(self, o, outer, cuts, holes, B):
        rd = self.rd
        how = rd.choice(["add", "sub", "sub", "cut", "cut", "cut0"])
        circle = len(B) == 1
        seg = circle and rd.random() < .6
        self.outer, self.cuts, self.holes = outer, cuts, holes
        # what is to be expected
        if how in ("add", "sub"): out, res = shapes.op(outer, B, how == "sub")
        elif how == "cut0": out, res = "append", None
        else:
            out, res = shapes.op(outer, B, True)
            if out == "either" and not (len(outer) == 1 and B[0].r < outer[0].r): out = "either0"
            if out in ("none", "either"):
                e = out == "either"
                out = "append"
                for i, x in enumerate(cuts):
                    r = shapes.op(x, B, False)
                    if r[0] == "either" and (e or out == "append"): out = "either0"
                    elif r[0] == "error": out = "error"
                    elif r[0] == "ok": out, res = ("ok", i), r[1]
                    else: continue
                    break
        if how == "cut0":
            # only sensible for shapes which do not meet; the library does not look
            if rd.random() < .5: return True
        if seg:
            b = self.name("s")
            self.ck.append(("true", self.cmd(spec(b, B[0])), "SetParams of a circle"))
        else: b = self.make(B)
        word = how[:3] + ("c" if seg else "")
        j = self.cmd("o%s %s %s%s" % (word, o, b, "" if how in ("add", "sub") else " 1" if how == "cut" else " 0"))
        note = "%s of a %s (%s expected)" % (dict(add="AddOutline", sub="SubOutline", cut="AddCutout", cut0="AddCutout without tests")[how], "circle" if seg else "outline", out)
        self.ck.append(("op", j, out, note))
        self.kinds.append("%s%s %s" % (how, " circle" if circle else "", out if isinstance(out, str) else "merge"))
        if out == "ok": self.outer = res
        elif out == "append":
            if seg: self.holes = holes + [B[0]]
            else: self.cuts = cuts + [B]
        elif isinstance(out, tuple):
            self.cuts = cuts[:out[1]] + [res] + cuts[out[1] + 1:]
        self.state(o, self.outer, self.cuts, self.holes, "after " + note)
        if out in ("none", "error", "either", "either0"):
            if not seg: self.state(b, B, [], [], "of the argument after " + note)
            if rd.random() < .5:                # the rejected argument can be used for something else
                self.cmd(("sdel " if seg else "odel ") + b)
        return True


def verify(c, st, r, i, exe):
    say = lambda key, text: c.violation(key, "case %d: %s\n%s" % (i, text, "\n".join(st.cmds)), script=st.cmds, exe=exe)
    if not c.crash(r, script=st.cmds, exe=exe, what="case %d" % i): return
    for ck in st.ck:
        a = r.r(ck[1])
        if a is None: return say("no-answer", "command %s: no answer" % st.cmds[ck[1]])
        cmd = st.cmds[ck[1]]
        if ck[0] == "true":
            if a != "1": return say("setparams", "%s: %s -> %s" % (ck[2], cmd, a))
        elif ck[0] == "pre":
            c.event("answers")
            if a != ck[2]: return say("answer-" + cmd.split()[0], "%s: %s -> %s instead of %s" % (ck[3], cmd, a, ck[2]))
        elif ck[0] == "op":
            c.event("operations")
            ok, err, live = a.split()
            want = ck[2]
            if isinstance(want, tuple): want = "ok"
            if want in ("ok", "append"):
                if ok != "1" or err != "ok": return say("op-refused", "%s: %s -> %s" % (ck[3], cmd, a))
                if want == "append" and live != "live": return say("op-argument-lost", "%s: %s -> %s" % (ck[3], cmd, a))
                if want == "ok" and live != "dead": return say("op-argument-kept", "%s: %s -> %s" % (ck[3], cmd, a))
            else:
                if ok != "0": return say("op-accepted", "%s: %s -> %s" % (ck[3], cmd, a))
                if live != "live": return say("op-argument-deleted", "%s: %s -> %s" % (ck[3], cmd, a))
                if want == "none" and err != "ok": return say("op-error", "%s: %s -> %s" % (ck[3], cmd, a))
                if want == "error" and err != "err": return say("op-no-error", "%s: %s -> %s" % (ck[3], cmd, a))
        elif ck[0] == "state":
            c.event("regions compared")
            try: closed, segs, holes, cuts = parse(a)
            except (ValueError, IndexError) as e: return say("dump", "%s: %s" % (e, a))
            if not closed: return say("open", "the outline is not closed " + ck[5])
            d = differs(segs, ck[2], st.L)
            if d: return say("region", "outline %s: %s\n%s\nexpected %s" % (ck[5], d, segs, ck[2]))
            if len(cuts) != len(ck[3]) or len(holes) != len(ck[4]):
                return say("cutouts", "%d cutouts and %d holes instead of %d and %d %s" % (len(cuts), len(holes), len(ck[3]), len(ck[4]), ck[5]))
            for x, w in zip(cuts, ck[3]):
                d = "not closed" if not x[0] else differs(x[1], w, st.L)
                if d: return say("cutout-region", "cutout %s: %s\n%s\nexpected %s" % (ck[5], d, x[1], w))
            for x, w in zip(holes, ck[4]):
                if dist(x.c, w.c) > 1e-9 * st.L or abs(x.r - w.r) > 1e-9 * st.L: return say("hole", "%r instead of %r %s" % (x, w, ck[5]))
        else:
            for p, w, g in zip(ck[2], ck[3], a):
                c.event("points located")
                if g != ("1" if w else "0"): return say("isinside", "IsInside(%r, %r) %s -> %s" % (p[0], p[1], ck[4], g))
    for k in st.kinds: c.event(k)
    c.distinct.add(tuple(st.kinds))
    if len(st.kinds) > 3: c.sample("; ".join(st.kinds))


def run(c):
    exe = build.build("san", ("vg",))["vg"]
    n = c.n(6000, 80000)

    def work(sub, lo, hi):
        cases, st = [], {}
        for i in range(lo, hi):
            s = Story(sub, sub.rnd(i))
            s.run()
            st[i] = s
            cases.append((str(i), s.cmds))
        res = drive.run_cases(exe, cases, sub.dir("r"))
        for i, s in st.items():
            sub.evals += 1
            verify(sub, s, res[str(i)], i, exe)
            if sub.enough(): break
    c.parallel(work, n)
    c.rule = "the kinds of shapes and the expected outcomes of all operations of a history"
    c.assume = ["outlines are simple; coincidences are exact to rounding or clearly absent (figures in between are not generated)",
                "at most two crossing points, as documented; cutouts added without overlap tests are not judged geometrically"]
