"""C11: curve queries, transforms and NURBS data against an independent evaluation of the parameters."""
import math, os
from vlib import build, drive, gen, apigen, surf, igeslib as I
from vlib.igeslib import Ent, Ref

ROUND = {100: (1, 3), 104: (1, 2)}


class G(gen.Gen):
    """Curves with transforms everywhere, NURBS curves on parts of their parameter range, composites of transformed members."""
    def nurbs(self, planar=None, closed=None, rational=None, rect2d=False, start=None, **kw):
        r = self.r
        M = r.choice([1, 2, 3, 3, 5])
        K = M + r.choice([0, 0, 1, 2, 3, 6])
        n = K + 1
        kn = self.knots(K, M)
        if r.random() < .3:                      # not clamped
            t = sorted(r.uniform(-2, 5) for _ in range(n + M + 1))
            if min(b - a for a, b in zip(t, t[1:])) > 1e-3: kn = t
        elif r.random() < .2 and n - M > 3 and M > 1:       # a double knot inside
            kn[M + 2] = kn[M + 1]
        planar = r.random() < .3
        flat = r.random() < .1                   # on a line
        pts = [self.pt() for _ in range(n)]
        a, b, o = self.unit(), self.unit(), self.pt()
        if r.random() < .5: a, b = [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]
        if planar: pts = [[o[k] + p[0] * a[k] + p[1] * b[k] for k in range(3)] for p in pts]
        if flat: pts = [[o[k] + p[0] * a[k] for k in range(3)] for p in pts]
        if r.random() < .1 and n > 2: pts[1] = list(pts[0])     # double control points
        if r.random() < .1 and n > 3: pts[n - 2] = [(pts[n - 3][k] + pts[n - 1][k]) / 2 for k in range(3)]
        rational = r.random() < .5
        w = [1.0] * n
        if rational: w = [r.uniform(.3, 3) for _ in range(n)]
        clamped = kn[0] == kn[M] and kn[-1] == kn[n]
        v0, v1 = kn[M], kn[n]
        closed = False
        if r.random() < .35:
            d = v1 - v0
            v0, v1 = v0 + d * r.choice([0, r.uniform(0, .4)]), v1 - d * r.choice([0, r.uniform(0, .4)])
        elif clamped and K >= 2 and r.random() < .4:
            pts[-1] = list(pts[0])
            closed = True
        if clamped and not closed and r.random() < .3:          # ends which share one or two coordinates
            for k in r.sample(range(3), r.choice([1, 2])): pts[-1][k] = pts[0][k]
        c = surf.Nurbs(kn, M, w, [tuple(p) for p in pts], v0, v1)
        if not closed and surf.dist(c.at(0), c.at(1)) < .01 * self.extent: return self.nurbs(start=start, **kw)
        nm = surf_plane(pts)
        p = [("I", K), ("I", M), ("B", 1 if nm[0] == 1 else 0), ("B", int(closed)), ("B", 0 if rational else 1), ("B", 0)]
        p += [("R", float(x)) for x in kn] + [("R", float(x)) for x in w]
        for q in pts: p += [("L", float(x)) for x in q]
        p += [("R", v0), ("R", v1)] + [("R", x) for x in nm[1]]
        return self.put(Ent(126, 0, p), **kw)

    def conic(self, **kw):
        """Also ellipses closed on themselves and ends which share a coordinate, as those of symmetric curves do."""
        i = super(G, self).conic(**kw)
        e = self.m.ents[i]
        q = self.r.random()
        if e.form == 1 and q < .3: e.params[9:11] = e.params[7:9]
        elif q < .6:
            x, y = e.params[7][1], e.params[8][1]
            if e.form == 3 or e.form == 1 and q < .45: x = -x
            else: y = -y
            if abs(x - e.params[7][1]) + abs(y - e.params[8][1]) > .01: e.params[9:11] = [("L", x), ("L", y)]
        return i

    def arc(self, full=None, **kw):
        i = super(G, self).arc(full=full, **kw)
        e = self.m.ents[i]
        v = [x[1] for x in e.params]
        if v[3:5] != v[5:7] and self.r.random() < .4:
            k = self.r.randrange(2)
            w = v[3:5]
            w[k] = 2 * v[1 + k] - w[k]
            if abs(w[k] - v[3 + k]) > .01: e.params[5:7] = [("L", w[0]), ("L", w[1])]
        return i

    def line(self, a=None, b=None, **kw):
        while True:
            p, q = list(a or self.pt()), list(b or self.pt())
            if not b and self.r.random() < .3:
                for k in self.r.sample(range(3), self.r.choice([1, 2])): q[k] = p[k]
            if surf.dist(p, q) > 1e-3 * self.extent: return super(G, self).line(p, q, **kw)

    def composite(self, closed=None, **kw):
        """A chain whose members have transforms of their own."""
        r = self.r
        n = r.randint(1, 5)
        cur = self.pt()
        ids = []
        first = None
        if r.random() < .15: n = 1
        for k in range(n):
            last = k == n - 1 and n > 2 and r.random() < .5
            if last:
                ids.append(self.line(cur, first, xform=False, form=0))
                break
            f = self.r.choice([self.line, self.arc, self.conic, self.nurbs])
            for attempt in range(20):
                i = f(xform=False, **({"form": 0} if f == self.line else {"full": False} if f == self.arc and n > 1 else {}))
                c = ends(self.m, i)
                if n == 1 or surf.dist(c[0], c[1]) > 1e-3 * self.extent: break
                self.m.ents.pop()
            s, e = c
            if k == 0 and r.random() < .4:
                self.m.ents[i].transform = 0
                cur = list(s); first = cur
                cur = list(e)
            else:
                if k == 0: first = cur
                R = self.rot() if r.random() < .8 else [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
                if r.random() < .3 and f == self.line: R = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
                T = [cur[a] - sum(R[a][b] * s[b] for b in range(3)) for a in range(3)]
                t = Ent(124, 0, [])
                for a in range(3): t.params += [("R", float(x)) for x in R[a]] + [("L", T[a])]
                self.m.ents[i].transform = Ref(self.put(t, xform=False))
                self.m.ents[self.m.ents[i].transform.i].transform = 0
                cur = [sum(R[a][b] * e[b] for b in range(3)) + T[a] for a in range(3)]
            ids.append(i)
        return self.put(Ent(102, 0, [("I", len(ids))] + [("P", Ref(i)) for i in ids]), **kw)


def surf_plane(P):
    """(1, normal) if the points span a plane, (0, z) if they do not, (None, z) if that is not clear."""
    L = max(surf.dist(P[0], q) for q in P) if len(P) > 1 else 0
    z = (0.0, 0.0, 1.0)
    if L == 0: return 0, z
    best = max(((surf.norm(surf.cross(surf.sub(a, P[0]), surf.sub(b, P[0]))), a, b) for a in P for b in P), key=lambda x: x[0])
    if best[0] < 1e-12 * L * L: return 0, z
    n = surf.cross(surf.sub(best[1], P[0]), surf.sub(best[2], P[0]))
    n = surf.mul(n, 1 / surf.norm(n))
    d = max(abs(surf.dot(surf.sub(q, P[0]), n)) for q in P)
    if best[0] < 1e-4 * L * L: return None, z
    if d < 1e-11 * L: return 1, n
    if d > 1e-4 * L: return 0, z
    return None, z


def nurbs_of(e):
    v = [x[1] for x in e.params]
    K, M = v[0], v[1]
    n = K + 1
    o = 6 + n + M + 1
    T = list(map(float, v[6:o]))
    W = list(map(float, v[o:o + n])); o += n
    C = [tuple(map(float, v[o + 3 * k:o + 3 * k + 3])) for k in range(n)]; o += 3 * n
    return surf.Nurbs(T, M, W, C, float(v[o]), float(v[o + 1]))


def ends(m, i):
    """Start and end before the entity's transform."""
    e = m.ents[i]
    v = [x[1] for x in e.params]
    if e.type == 100: return (v[3], v[4], v[0]), (v[5], v[6], v[0])
    if e.type == 104: return (v[7], v[8], v[6]), (v[9], v[10], v[6])
    if e.type == 110: return tuple(v[0:3]), tuple(v[3:6])
    if e.type == 126:
        c = nurbs_of(e)
        return c.at(0), c.at(1)


def meet(a, b):
    d, z = surf.dist(a, b), max(1, abs(max(a, key=abs)))
    return True if d < min(1e-11 * z, 1e-8) else False if d > 1e-4 and d > 1e-4 * z else None


def expect(m, geo, i):
    """(start, end) raw, (start, end) transformed, closed, segments, curves"""
    e = m.ents[i]
    M = geo.matrix(e)
    if e.type == 102:
        k = [x[1].i for x in e.params[1:]]
        a, b = expect(m, geo, k[0]), expect(m, geo, k[-1])
        s = (a[0][0], b[0][1])
        t = (surf.apply(M, a[1][0]), surf.apply(M, b[1][1]))
        # a transform does not change whether the ends meet
        cl = meet(a[1][0], b[1][1])
        if len(k) == 1: cl = a[2]
        return s, t, cl, len(k), len(k)
    s = ends(m, i)
    t = tuple(surf.apply(M, x) for x in s)
    cl = False if e.type == 110 else meet(*s)
    if e.type == 104 and e.form != 1: cl = False
    return s, t, cl, 1 if e.type != 126 else e.params[0][1] + 1, 0


def judge(ans, x, f, tol):
    """The answer to `curve` against what is expected, scaled by f."""
    t = (ans or "").split()
    if len(t) != 19: return "answer %r" % ans
    for k in range(2):
        a = t[8 * k:8 * k + 8]
        for q in range(2):
            name = "%s point, transform %s" % (("start", "end")[q], ("not applied", "applied")[k])
            if a[4 * q] != "1": return name + ": the call failed"
            p = tuple(float.fromhex(z) if "x" in z else float(z) for z in a[4 * q + 1:4 * q + 4])
            w = surf.mul(x[k][q], f)
            if surf.dist(p, w) > tol * max(1.0, abs(max(w, key=abs)), f): return "%s is %r instead of %r" % (name, p, w)
    if x[2] is not None and t[16] != "01"[x[2]]: return "closed is %s" % t[16]
    if int(t[17]) != x[3]: return "%s segments instead of %d" % (t[17], x[3])
    if int(t[18]) != x[4]: return "%s curves instead of %d" % (t[18], x[4])
    return None


CURVES = ["line", "arc", "conic", "nurbs", "composite"]


def nums(s): return [float.fromhex(z) if "x" in z else float(z) for z in s.split()]


class Story(object):
    def __init__(self, rd, path):
        self.rd, self.path = rd, path
        self.cmds, self.tests = [], []
        self.kinds = set()
        getattr(self, rd.choice(["api", "api", "api", "read", "algebra", "data", "data"]))()

    def cmd(self, s):
        self.cmds.append(s)
        return len(self.cmds) - 1

    def ask(self, s, f):
        """f(answer) is None or a fault."""
        self.tests.append((self.cmd(s), s, f))

    def model(self):
        rd = self.rd
        g = G(rd, minres=1e-7, attrs=True, props=False, extent=rd.choice([1.0, 10.0, 100.0]))
        tops = []
        for _ in range(rd.randint(1, 6)): tops.append(getattr(g, rd.choice(CURVES + ["nurbs", "composite"]))())
        m = g.finish()
        return m, tops

    def query(self, m, name, f):
        rd = self.rd
        geo = surf.Geo(m)
        for i, e in enumerate(m.ents):
            if i not in name: continue
            if e.type in (100, 102, 104, 110, 126):
                x = expect(m, geo, i)
                self.kinds.add((e.type, e.form, bool(isinstance(e.transform, Ref)), x[2], self.kind))
                self.ask("curve " + name[i], lambda a, x=x: judge(a, x, f, 1e-9))
                if e.type == 126:
                    pl = surf_plane(nurbs_of(e).P)
                    if pl[0] is not None: self.ask("planar " + name[i], lambda a, pl=pl: planar(a, pl))
                if e.type == 102:
                    want = " ".join(["null"] + [name[v[1].i] for v in e.params[1:]] + ["null"])
                    self.ask("subcurves " + name[i], lambda a, want=want: None if (a or "").strip() == want else "members %r instead of %r" % (a, want))
            if e.type == 124 and rd.random() < .5:
                v = [float(x[1]) for x in e.params]
                M = surf.compose(geo.matrix(e), (tuple(v[0:4]), tuple(v[4:8]), tuple(v[8:12])))
                M = [[M[a][b] * (f if b == 3 else 1) for b in range(4)] for a in range(3)]
                self.ask("gtransform " + name[i], lambda a, M=M: near(nums(a), [z for r in M for z in r], 1e-9))

    def api(self):
        """A model built through the API, queried, converted and queried again."""
        self.kind = "api"
        rd = self.rd
        m, tops = self.model()
        self.cmd("new m")
        for c in apigen.build(m): self.cmd(c)
        name = dict((i, apigen.name(i)) for i in range(len(m.ents)))
        self.query(m, name, 1.0)
        from checks.c05 import ops
        for k in range(rd.choice([0, 1, 1])):
            L, u, sc, f = ops(rd)
            for s, a in L: self.ask(s, lambda x, a=a: None if x == a else "answer %r instead of %r" % (x, a))
            # the minimum resolution of the model decides what is closed
            if not 1e-6 < f < 1e6: continue
            self.kind = "api converted"
            self.query(m, name, f)

    def read(self):
        """A model read from a file; its curves are found through a subfigure."""
        self.kind = "read"
        rd = self.rd
        m, tops = self.model()
        for i in tops: m.ents[i].subord = 2
        sub = m.add(Ent(308, 0, [("I", 0), ("S", "x"), ("I", len(tops))] + [("P", Ref(i)) for i in tops]))
        m.ents[sub].use = 2
        m.add(Ent(408, 0, [("P", Ref(sub)), ("L", 0.0), ("L", 0.0), ("L", 0.0), ("R", 1.0)]))
        open(self.path, "wb").write(I.write(m, gen.random_style(rd)))
        self.cmd("new m")
        self.cmd("new n")
        self.ask("read m " + drive.enc(self.path), lambda a: None if a == "1" else "the file is not read")
        self.ask("export m n p", lambda a: None if a == "1 p" else "export: %s" % a)
        self.ask("links p DE", lambda a: None)
        self.ask("links x1 DE", lambda a: None)
        self.ask("links x2 DE", lambda a: None if len((a or "").split()) == len(tops) else "%s members instead of %d" % (a, len(tops)))
        name, nx = {}, 3
        for i in tops:
            name[i] = "x%d" % nx
            nx += 1
        for i in tops:
            if m.ents[i].type == 102:
                for x in m.ents[i].params[1:]:
                    if x[1].i in name: continue
                    name[x[1].i] = "x%d" % nx
                    nx += 1
                self.cmd("subcurves " + name[i])
        self.query(m, name, 1.0)

    def algebra(self):
        rd = self.rd
        self.kind = "algebra"
        n = lambda: rd.choice([rd.uniform(-1, 1), rd.uniform(-1e3, 1e3), float(rd.randint(-3, 3))])
        P = lambda: [[n() for _ in range(4)] for _ in range(3)]
        fl = lambda A: " ".join("%r" % z for r in A for z in r)
        mul = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(3)) + (A[i][3] if j == 3 else 0) for j in range(4)] for i in range(3)]
        for k in range(40):
            A, B, s = P(), P(), n()
            if rd.random() < .25: B = A       # an object combined with itself
            op = rd.choice(["mul", "imul", "app", "smul", "ismul", "copy", "m", "p"])
            self.kinds.add(op)
            if op in ("mul", "imul"): self.ask("xf %s %s %s" % (op, fl(A), fl(B)), lambda a, W=mul(A, B): near(nums(a), sum(W, []), 1e-12))
            elif op == "app":
                p = [n() for _ in range(3)]
                self.ask("xf app %s %r %r %r" % ((fl(A),) + tuple(p)), lambda a, W=list(surf.apply(A, p)): near(nums(a), W, 1e-12))
            elif op in ("smul", "ismul"): self.ask("xf %s %r %s" % (op, s, fl(A)), lambda a, W=[z * s for r in A for z in r]: near(nums(a), W, 1e-13))
            elif op == "copy": self.ask("xf copy " + fl(A), lambda a, W=sum(A, []): near(nums(a), W, 0))
            elif op == "m":
                q = rd.choice(["*", "*=", "+", "+=", "-", "-=", "s*", "*s", "*=s"])
                self.kinds.add("m" + q)
                RA, RB = [r[:3] for r in A], [r[:3] for r in B]
                if q in ("*", "*="): W = [[sum(RA[i][k] * RB[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
                elif q[0] in "+-": W = [[x + (y if q[0] == "+" else -y) for x, y in zip(u, v)] for u, v in zip(RA, RB)]
                else: W = [[A[0][3] * x for x in r] for r in RB]
                self.ask("xf m %s %s %s" % (q, fl(A), fl(B)), lambda a, W=[z for r in W for z in r + [0.0]]: near(nums(a), W, 1e-12))
            else:
                q = rd.choice(["+", "+=", "-", "-=", "*s", "s*", "*=s"])
                self.kinds.add("p" + q)
                p, r = [n() for _ in range(3)], [n() for _ in range(3)]
                if rd.random() < .25: r = p
                W = [x + y for x, y in zip(p, r)] if q[0] == "+" else [x - y for x, y in zip(p, r)] if q[0] == "-" else [x * s for x in p]
                self.ask("xf p %s %s %r" % (q, " ".join("%r" % z for z in p + r), s), lambda a, W=W: near(nums(a), W, 1e-13))

    def data(self):
        """NURBS curves and surfaces set, replaced, refused and read back."""
        rd = self.rd
        self.kind = "data"
        self.cmd("new m")
        self.cmd("nent m 126 e0")
        self.cmd("nent m 128 e1")
        cur = {0: None, 1: None}
        self.cmd("gset m minResolution 1e-7")
        for k in range(rd.randint(2, 8)):
            g = G(rd, minres=1e-7, attrs=False, props=False, extent=rd.choice([1.0, 100.0]))
            s = rd.randrange(2)
            i = g.nurbs(xform=False) if s == 0 else g.nurbs_surf(xform=False)
            e = g.m.ents[i]
            c = [z for z in apigen.data(g.m, i) if z.startswith("nurbs")][0].split()
            c[1] = "e%d" % s
            if cur[s] is not None and rd.random() < .3:
                # the same data through the pointers that the entity hands out
                self.ask("nurbself e%d" % s, lambda a: None if a == "1" else "setting its own data: %s" % a)
                self.kinds.add(("own data", s))
            elif rd.random() < .25:
                bad = list(c)
                how = rd.randrange(8)
                n = [int(z) for z in c[2:4 + 2 * s]]
                k0 = 7 if s == 0 else 13
                ks = [(k0, n[0] + n[1])] if s == 0 else [(k0, n[0] + n[2]), (k0 + n[0] + n[2], n[1] + n[3])]
                ke = ks[-1][0] + ks[-1][1]
                if how == 4:            # a knot that is less than the one before
                    a, b = rd.choice(ks)
                    inc = [j for j in range(a, a + b - 1) if float(c[j]) < float(c[j + 1])]
                    j = rd.choice(inc)
                    bad[j], bad[j + 1] = c[j + 1], c[j]
                elif how == 5:          # a weight that is not positive
                    if int(c[4 if s == 0 else 6]): bad[ke + 3 + 4 * rd.randrange((len(c) - ke) // 4)] = rd.choice(["0", "-1", "nan"])
                    else: how = 1; bad[5 if s == 0 else 9] = "nan"
                elif how == 6: bad[rd.randrange(5, 7) if s == 0 else rd.randrange(9, 13)] = "nan"
                elif how == 7: bad[rd.choice([2] if s == 0 else [2, 3])] = "1"
                elif s == 0:
                    v0, v1 = float(c[5]), float(c[6])
                    if how == 0: bad[5:7] = [c[6], c[5]]
                    elif how == 1: bad[5] = "%r" % (float(c[7]) - 1)
                    elif how == 2: bad[6] = "%r" % (float(c[7 + int(c[2]) + int(c[3]) - 1]) + 1)
                    else: bad[3] = "1"
                else:
                    if how == 0: bad[9:11] = [c[10], c[9]]
                    elif how == 1: bad[11] = "%r" % (float(c[11]) - 100)
                    elif how == 2: bad[12] = "%r" % (float(c[12]) + 100)
                    else: bad[4] = "1"
                self.kinds.add(("refused", s, how))
                self.ask(" ".join(bad), lambda a: None if a == "0" else "invalid data were accepted")
            else:
                self.ask(" ".join(c), lambda a: None if a == "1" else "the data were refused")
                cur[s] = (e, c)
            for s in (0, 1):
                if cur[s] is None:
                    self.ask("gnurbs%s e%d" % ("s" * s, s), lambda a: None if a == "0" else "data although none were set")
                    continue
                e, c = cur[s]
                if s == 0:
                    x = expect(g.m if e in g.m.ents else one(e), None, 0) if False else expect(one(e), surf.Geo(one(e)), 0)
                    w = [float(z) for z in c[5:]]
                    self.ask("gnurbs e0", lambda a, c=c, w=w, x=x: same_data(a, [int(c[2]), int(c[3]), int(c[4]), x[2], 0], w))
                    self.ask("curve e0", lambda a, x=x: judge(a, x, 1.0, 1e-9))
                    pl = surf_plane(nurbs_of(e).P)
                    self.kinds.add(("planar", pl[0]))
                    if pl[0] is not None: self.ask("planar e0", lambda a, pl=pl: planar(a, pl))
                else:
                    w = [float(z) for z in c[9:]]
                    head = [int(z) for z in c[2:7]]
                    self.ask("gnurbss e1", lambda a, c=c, w=w, head=head: same_surf(a, head, c, w))


def one(e):
    m = I.Model()
    e = e.copy()
    e.transform = 0
    m.add(e)
    return m


def same_data(a, head, w):
    t = (a or "").split()
    if len(t) != 6 + len(w) or t[0] != "1": return "answer %r" % a[:100]
    if any(h is not None and int(z) != h for z, h in zip(t[1:6], head)): return "counts and flags %s instead of %s" % (t[1:6], head)
    return near(nums(" ".join(t[6:])), w, 0)


def same_surf(a, head, c, w):
    t = (a or "").split()
    if len(t) != 10 + len(w) or t[0] != "1": return "answer %r" % a[:100]
    if [int(z) for z in t[1:6]] != head: return "counts and flags %s instead of %s" % (t[1:6], head)
    if t[8:10] != c[7:9]: return "periodic flags %s instead of %s" % (t[8:10], c[7:9])
    return near(nums(" ".join(t[10:])), w, 0)


def planar(a, pl):
    t = (a or "").split()
    if t[0] != t[1]: return "IsPlanar and GetNormal disagree"
    if int(t[0]) != pl[0]: return "planar is %s instead of %d" % (t[0], pl[0])
    n = nums(" ".join(t[2:]))
    if pl[0] and min(surf.dist(n, pl[1]), surf.dist(n, surf.mul(pl[1], -1))) > 1e-6: return "the normal is %r instead of %r" % (n, pl[1])
    return None


def near(a, b, tol):
    if len(a) != len(b): return "%d numbers instead of %d" % (len(a), len(b))
    s = max([1.0] + [abs(z) for z in b])
    for k, (x, y) in enumerate(zip(a, b)):
        if not abs(x - y) <= tol * s: return "number %d is %r instead of %r" % (k, x, y)
    return None


def run(c):
    exe = build.build("san", ("vh",))["vh"]

    def work(sub, lo, hi):
        d = sub.dir("r")
        sts = dict((i, Story(sub.rnd(i), os.path.join(d, "c%d.igs" % i))) for i in range(lo, hi))
        res = drive.run_cases(exe, [(str(i), st.cmds) for i, st in sts.items()], d)
        for i, st in sts.items():
            sub.evals += 1
            r = res[str(i)]
            if not sub.crash(r, script=st.cmds, exe=exe, what="case %d (%s)" % (i, st.kind)): continue
            bad = None
            for k, cmd, f in st.tests:
                try: bad = f(r.r(k))
                except (ValueError, IndexError, AttributeError) as e: bad = "answer %r (%s)" % (r.r(k), e)
                sub.event(cmd.split()[0] + " answers")
                if bad: break
            if bad:
                sub.violation("%s %s" % (cmd.split()[0], " ".join(w for w in bad.split()[:6] if w.isalpha())), "case %d (%s): %s: %s" % (i, st.kind, cmd[:200], bad),
                              files=[st.path] if os.path.exists(st.path) else [], script=st.cmds, exe=exe)
            else:
                for k in st.kinds: sub.distinct.add(k)
                if i % 100 == 0: sub.sample("%s: %d answers compared, kinds %s" % (st.kind, len(st.tests), sorted(map(str, st.kinds))[:6]))
            if os.path.exists(st.path): os.remove(st.path)
            if sub.enough(): break
    c.parallel(work, c.n(8000, 150000), batch=100)
    c.rule = "curve type, form, with or without a transform, closed or open and how the model came about; each operation of the algebra and each kind of NURBS data"
    c.assume = ["curves are clearly open or exactly closed, planar or clearly not", "NURBS curves are continuous"]
