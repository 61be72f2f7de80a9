"""C10: faces generated from outlines, evaluated from the written file."""
import math, os
from math import pi, sin, cos
from vlib import build, drive, g2, shapes, surf, igeslib
from vlib.g2 import Line, Arc, Circle, Amb, Rigid, polar
from checks.c08 import spec
from checks import c09


class Story(object):
    def __init__(self, rd, path):
        self.rd, self.path = rd, path
        self.cmds = []
        self.n = 0

    def cmd(self, s):
        self.cmds.append(s)
        return len(self.cmds) - 1

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    def make(self, segs, pcb=""):
        rd = self.rd
        o = self.name("o")
        self.cmd("onew " + o + pcb)
        w = list(segs)
        if rd.random() < .4: w = shapes.revchain(w)
        if len(w) > 1:
            k = rd.randrange(len(w))
            w = w[k:] + w[:k]
        for s in w:
            n = self.name("s")
            self.cmd(spec(n, s))
            self.cmd("oseg %s %s" % (o, n))
        return o

    def solid(self):
        """An outline with cutouts and holes, some of them merged with the edge."""
        rd = self.rd
        L = self.L = rd.choice([2.0, 10.0, 40.0, 40.0, 150.0])
        R = Rigid(rd.choice([0.0, 0.0, rd.uniform(-pi, pi)]), rd.choice([(0.0, 0.0), (rd.uniform(-2, 2) * L, rd.uniform(-2, 2) * L), (rd.choice([0.5, -0.5]) * L, 7.0)]))
        outer = shapes.move(shapes.shape(rd, L), R)
        o = self.make(outer, " pcb")
        inner = []          # chains of the holes and cutouts
        self.ops = 0
        for k in range(rd.choice([0, 0, 1, 2, 3, 5])):
            B = shapes.shape(rd, L * rd.choice([.05, .1, .2, .3]))
            s = rd.choice(outer)
            if rd.random() < .4: t = s.at(rd.random() * s.length)
            else:
                b = [x.bounds() for x in outer]
                t = (rd.uniform(min(x[0][0] for x in b), max(x[1][0] for x in b)), rd.uniform(min(x[0][1] for x in b), max(x[1][1] for x in b)))
            B = shapes.move(B, Rigid(rd.uniform(-pi, pi), t))
            try:
                sub = rd.random() < .8
                out, res = shapes.op(outer, B, sub)
                if out == "ok":
                    if any(not self.apart(res, x, 0) for x in inner): continue
                    if not shapes.simple(res) or min(x.length for x in res) < 0.01 * L: continue
                    if any(not shapes.inside(res, x[0].start) for x in inner): continue
                    self.cmd("o%s %s %s" % ("sub" if sub else "add", o, self.make(B)))
                    outer = res
                    self.ops += 1
                elif out in ("none", "either") and sub and self.apart(outer, B, 1) and all(self.apart(x, B, 2) for x in inner):
                    if len(B) == 1 and rd.random() < .7:
                        n = self.name("s")
                        self.cmd(spec(n, B[0]))
                        self.cmd("ocutc %s %s %d" % (o, n, rd.randrange(2)))
                    else: self.cmd("ocut %s %s %d" % (o, self.make(B), rd.randrange(2)))
                    inner.append(B)
            except Amb: continue
        self.outer, self.inner = outer, inner
        th = rd.choice([0.8, 1.6, rd.uniform(.02, 5), rd.uniform(.002, .01), L])
        z = rd.choice([0.0, -th, -th / 2, rd.uniform(-20, 20)])
        self.top, self.bot = z + th, z
        self.u = rd.choice([2, 2, 2, 1])
        self.at = self.cmd("solid %s %r %r %s%s" % (o, self.top, self.bot, self.path, "" if self.u == 2 else " 1"))

    def apart(self, A, B, how):
        """The boundaries are well apart; how 0: nothing more, 1: B is inside A, 2: neither is inside the other."""
        m = 0.004 * self.L
        for s in A:
            for x in B:
                for k in range(7):
                    if s.near(x.at(x.length * k / 6)) < m or x.near(s.at(s.length * k / 6)) < m: return False
                rep, fl, P, kind = g2.meet(s, x)
                if P or "TANGENT" in fl: return False
        if how == 0: return True
        i = shapes.inside(A, B[0].start)
        if how == 1: return i
        return not i and not shapes.inside(B, A[0].start)


def to2d(c, z, tol):
    if abs(c.at(0)[2] - z) > tol or abs(c.at(.5)[2] - z) > tol or abs(c.at(1)[2] - z) > tol: return None
    if isinstance(c, surf.Seg): return Line(c.p[:2], c.q[:2])
    if isinstance(c, surf.Circ):
        # turned over if the normal points down
        n = surf.cross(c.u, c.v)[2]
        p, q = c.at(0)[:2], c.at(1)[:2]
        a = math.atan2(p[1] - c.c[1], p[0] - c.c[0])
        return Arc(c.c[:2], c.r, a, c.sw if n > 0 else -c.sw, p, q)
    raise surf.Bad("boundary is a %s" % type(c).__name__)


def same_region(loop, want, z, tol, L):
    segs = [to2d(c, z, tol) for c in loop.xyz]
    if None in segs: return "a point of the boundary is not at height %r" % z
    a, b = g2.area(segs), g2.area(want)
    if abs(abs(a) - abs(b)) > tol * 20 * max(L, 1): return "area %r instead of %r" % (a, b)
    a, b = sum(abs(s.length) for s in segs), sum(s.length for s in want)
    if abs(a - b) > 20 * tol: return "boundary length %r instead of %r" % (a, b)
    for x, y, n in ((segs, want, "has"), (want, segs, "lacks")):
        for s in x:
            for k in (0.0, .5, .23, .81):
                P = s.at(k * s.length)
                if g2.clearance(y, P) > tol: return "%s the point %r" % (n, P)
    return None


def judge_solid(c, st, path, n1, n2):
    """None or a fault of the written faces."""
    P = igeslib.parse(open(path, "rb").read())
    if P.errs: return "the file is invalid: " + P.errs[0]
    f = 1.0
    L = st.L
    tol = 2e-5 * max(1.0, L / 10)
    geo = surf.Geo(P)
    if P.g.get("unitsFlag", 2) != st.u: return "units %r" % P.g.get("unitsFlag")
    faces = [surf.Face(geo, i) for i, e in enumerate(P.ents) if e.type == 144]
    c.event("faces", len(faces))
    if len(faces) != n2: return "%d faces in the file, %d were returned" % (len(faces), n2)
    for x in faces:
        d = x.faults(tol)
        if d: return d
    # top and bottom
    for z, name in ((st.top, "top"), (st.bot, "bottom")):
        flat = []
        for x in faces:
            zs = [y.at(s)[2] for lp in x.loops for y in lp.xyz for s in (0, .5, 1)]
            if max(abs(w - z) for w in zs) < min(tol, (st.top - st.bot) / 4): flat.append(x)
        if len(flat) != 1: return "%d faces at the height of the %s, %r" % (len(flat), name, z)
        x = flat[0]
        d = same_region(x.loops[0], st.outer, z, tol, L)
        if d: return "%s face: %s" % (name, d)
        if len(x.loops) - 1 != len(st.inner): return "%s face: %d cutouts instead of %d" % (name, len(x.loops) - 1, len(st.inner))
        todo = list(st.inner)
        for lp in x.loops[1:]:
            d = None
            for w in todo:
                d = same_region(lp, w, z, tol, L)
                if not d: todo.remove(w); break
            else: return "%s face: a cutout %s" % (name, d)
    # every face looks out of the solid
    for x in faces:
        p, nrm = x.look()
        if abs(nrm[2]) > 0.9: good = (nrm[2] > 0) == (abs(p[2] - st.top) < abs(p[2] - st.bot))
        else:
            e = 1e-4 * L
            inside = [shapes.inside(st.outer, q) and not any(shapes.inside(w, q) for w in st.inner) for q in ((p[0] + e * nrm[0], p[1] + e * nrm[1]), (p[0] - e * nrm[0], p[1] - e * nrm[1]))]
            if inside[0] == inside[1]: continue
            good = inside[1]
        c.event("faces looking outwards")
        if not good: return "the face at %r looks into the solid" % (p,)
    # walls
    d, n = surf.shell_faults(faces, min(tol, (st.top - st.bot) / 10))
    c.event("points of edges", n)
    return d


def one_face(path, tol):
    P = igeslib.parse(open(path, "rb").read())
    if P.errs: return "the file is invalid: " + P.errs[0], []
    geo = surf.Geo(P)
    faces = [surf.Face(geo, i) for i, e in enumerate(P.ents) if e.type == 144]
    for x in faces:
        d = x.faults(tol)
        if d: return d, []
    return None, faces


class Single(object):
    """A wall through four points or a part of a cylinder."""
    def __init__(self, rd, path):
        self.path = path
        L = self.L = rd.choice([1.0, 5.0, 60.0, 500.0])
        self.kind = rd.choice(["wall", "cyl"])
        P = lambda: (rd.uniform(-1, 1) * L, rd.uniform(-1, 1) * L)
        if self.kind == "wall":
            # a convex quadrilateral in any plane
            a0 = rd.uniform(-pi, pi)
            q = []
            t = rd.random() * .8
            for k in range(4): q.append((cos(a0 + (k + rd.random() * t) * pi / 2) * L, sin(a0 + (k + rd.random() * t) * pi / 2) * L))
            if rd.random() < .5: q.reverse()
            u = rd.choice([(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), unit(rd)])
            v = rd.choice([(0.0, 0.0, 1.0), unit(rd)])
            w = surf.cross(u, v)
            if surf.norm(w) < .1: u, v = (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)
            o = tuple(rd.uniform(-3, 3) * L for k in range(3))
            self.pts = [surf.add(o, surf.add(surf.mul(u, x), surf.mul(v, y))) for x, y in q]
            self.cmds = ["wall %s " % path + " ".join("%r" % z for p in self.pts for z in p)]
        else:
            self.c, self.r = P(), L * rd.uniform(.05, 1)
            A = lambda: rd.choice([k * pi / 4 for k in range(-4, 5)] + [rd.uniform(-pi, pi)] * 6)
            self.a, self.b = A(), A()
            self.full = rd.random() < .15
            if self.full: self.b = self.a
            elif abs(math.sin((self.a - self.b) / 2)) < .01: self.b = self.a + 1.0
            p = [(self.c[0] + self.r * cos(x), self.c[1] + self.r * sin(x)) for x in (self.a, self.b)]
            z = rd.uniform(-1, 1) * L
            self.z = [z, z + rd.choice([-1, 1]) * L * rd.choice([.02, .3, 1.0])]
            self.cmds = ["cyl %s %r %r %d %r %r %r %r %r %r" % ((path, self.z[0], self.z[1], k) + self.c + p[0] + p[1]) for k in (0, 1)]

    def judge(self, r):
        tol = 1e-6 * max(1.0, self.L)
        if self.kind == "wall":
            if r.r(0) != "111": return "the answer is %s" % r.r(0)
            d, f = one_face(self.path, tol)
            if d: return d
            if len(f) != 1: return "%d faces" % len(f)
            v = [x.at(0) for x in f[0].loops[0].xyz]
            if not any(max(surf.dist(v[(k + m) % 4], self.pts[k]) for k in range(4)) < tol for m in range(4) if len(v) == 4): return "the corners are %r" % (v,)
            p, n = f[0].look()
            if surf.dot(n, surf.cross(surf.sub(self.pts[1], self.pts[0]), surf.sub(self.pts[2], self.pts[1]))) <= 0: return "the normal is %r" % (n,)
            return None
        for k in (0, 1):
            a = (r.r(k) or "").split()
            if len(a) != 2 or a[0] != "111": return "the answer is %s" % a
        d, f = one_face(self.path, tol)         # of the second one, which overwrote the first
        if d: return d
        if len(f) != int(a[1]): return "%d faces, %s were returned" % (len(f), a[1])
        sw = 2 * pi if self.full else (self.b - self.a) % (2 * pi)
        have = 0.0
        for x in f:
            for lp in x.loops:
                for y in lp.xyz:
                    if isinstance(y, surf.Circ):
                        have += y.sw
                        for s in (0, .5, 1):
                            p = y.at(s)
                            if min(abs(p[2] - z) for z in self.z) > tol: return "an arc at height %r" % p[2]
                            if abs(math.hypot(p[0] - self.c[0], p[1] - self.c[1]) - self.r) > tol: return "an arc of another radius"
                            t = (math.atan2(p[1] - self.c[1], p[0] - self.c[0]) - self.a) % (2 * pi)
                            if not self.full and sw + tol / self.r < t < 2 * pi - tol / self.r: return "an arc reaches angle %r, beyond the sweep of %r" % (t, sw)
            p, n = x.look()
            if surf.dot(n, (p[0] - self.c[0], p[1] - self.c[1], 0.0)) >= 0: return "the face at %r looks away from the axis, and it was reversed" % (p,)
        if abs(have - 2 * sw) > 2 * tol / self.r + 1e-9: return "the arcs sweep %r instead of twice %r" % (have, sw)
        return None


def unit(rd):
    while True:
        v = tuple(rd.gauss(0, 1) for k in range(3))
        if surf.norm(v) > .1: return surf.mul(v, 1 / surf.norm(v))


def run(c):
    exe = build.build("san", ("vg",))["vg"]
    n = c.n(1500, 30000)

    def work(sub, lo, hi):
        d = sub.dir("r")
        cases, sts = [], {}
        for i in range(lo, hi):
            st = Story(sub.rnd(i), os.path.join(d, "s%d.igs" % i))
            st.solid()
            sts[i] = st
            cases.append((str(i), st.cmds))
        res = drive.run_cases(exe, cases, d)
        for i, st in sts.items():
            sub.evals += 1
            r = res[str(i)]
            say = lambda key, text: sub.violation(key, "case %d: %s\nouter %s\ninner %s" % (i, text, st.outer, st.inner), files=[st.path] if os.path.exists(st.path) else [], script=st.cmds, exe=exe)
            if not sub.crash(r, script=st.cmds, exe=exe, what="case %d" % i): continue
            a = (r.r(st.at) or "").split()
            if len(a) != 3 or a[0] != "1110001":
                say("solid-refused", "%s -> %s" % (st.cmds[st.at], a)); continue
            try: f = judge_solid(sub, st, st.path, int(a[1]), int(a[2]))
            except surf.Bad as e: f = "Bad: %s" % e
            if f: say("solid " + f.split(":")[0][:20] if f.startswith("Bad") else "solid-" + " ".join(w for w in f.split()[:9] if w.isalpha()), f)
            else:
                sub.distinct.add((len(st.outer), tuple(sorted(len(x) for x in st.inner)), st.ops, st.u, "".join(s.kind[0] for s in st.outer)))
                if i % 50 == 0: sub.sample("outline of %s, %d cutouts and holes, heights %r..%r" % ([s.kind for s in st.outer], len(st.inner), st.bot, st.top))
            if os.path.exists(st.path): os.remove(st.path)
            if sub.enough(): break
    c.parallel(work, n, batch=40)

    def single(sub, lo, hi):
        d = sub.dir("w")
        sts = dict((i, Single(sub.rnd("w", i), os.path.join(d, "w%d.igs" % i))) for i in range(lo, hi))
        res = drive.run_cases(exe, [(str(i), st.cmds) for i, st in sts.items()], d)
        for i, st in sts.items():
            sub.evals += 1
            r = res[str(i)]
            if not sub.crash(r, script=st.cmds, exe=exe, what="%s %d" % (st.kind, i)): continue
            try: f = st.judge(r)
            except surf.Bad as e: f = "Bad: %s" % e
            if f: sub.violation("%s %s" % (st.kind, " ".join(w for w in f.split()[:9] if w.isalpha())), "%s: %s" % (st.cmds, f), files=[st.path] if os.path.exists(st.path) else [], script=st.cmds, exe=exe)
            else: sub.distinct.add((st.kind, i % 997)); sub.event(st.kind + " faces")
            if sub.enough(): break
    c.parallel(single, c.n(1500, 20000), batch=100)
    c.rule = "the shape of the outline (kinds of segments) and of its cutouts, and the operations that made it"
    c.assume = ["outlines, cutouts and holes are apart from each other by at least 0.4% of the size"]
