"""Random valid IGES models over the entity types the library supports."""
import math
from .igeslib import Ent, Model, Ref, Style

NULL = Ref(None)

# directory fields that apply, per type (the others are "not applicable" and 0)
NA = {
    124: {"linefont", "level", "labelassoc", "blank", "hier", "weight", "color"},
    314: {"linefont", "level", "transform", "weight", "subord", "color_def"},
    406: {"linefont", "transform", "blank", "use", "hier", "weight", "color"},
    502: {"linefont", "transform", "weight", "color", "hier"},
    504: {"linefont", "transform", "weight", "color", "hier"},
    508: {"transform"},
    510: {"linefont", "transform", "weight", "color"},
    514: {"linefont", "transform", "weight", "color"},
}
# hierarchy is meaningful only for these (ignored elsewhere and normalised to 0)
HIER = {102, 180, 186, 308, 408, 508, 510, 514}
USEFIX = {108: 0, 142: 0, 144: 0, 154: 0, 164: 0, 180: 0, 308: 2, 314: 2, 406: 0}
SUBFIX = {314: 0, 502: 1, 504: 1, 508: 1, 510: 1}
HIERFIX = {504: 1}
LABELS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


COMMENT = "abcdefghij XYZ0123456789 ,;.-+HED#/()'\"  "


class Gen(object):
    def __init__(self, rnd, minres=1e-6, attrs=True, extent=None, props=True):
        self.use_props = props
        self.r = rnd
        self.m = Model()
        self.m.g["minResolution"] = minres
        self.m.g["maxLinewidthGrad"] = rnd.choice([1, 4, 8])
        self.attrs = attrs
        # the entity subscript number has eight digits
        self.sub0 = rnd.choice([0, 0, 0, 0, 999, 99990, 9999980, 12345678, 99990000])
        self.extent = extent or rnd.choice([1.0, 10.0, 100.0, 1000.0])
        self.colors, self.props, self.xforms = [], [], []

    # ---- numbers
    def num(self, s=None):
        r, s = self.r, s or self.extent
        c = r.randint(0, 9)
        if c == 0: return 0.0
        if c == 1: return float(r.randint(-9, 9))
        if c == 2: return round(r.uniform(-s, s), r.randint(0, 6))
        if c == 3: return r.choice([-1, 1]) * 10.0 ** r.randint(-6, 5)
        if c == 4: return r.uniform(-1e-3, 1e-3)
        if c == 5: return r.uniform(-1e6, 1e6)
        return r.uniform(-s, s)

    def pos(self, s=None):
        return abs(self.r.uniform(0.05, 1.0)) * (s or self.extent)

    def pt(self):
        return [self.r.uniform(-self.extent, self.extent) for _ in range(3)]

    def unit(self):
        while True:
            v = [self.r.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(x * x for x in v))
            if n > 0.1:
                return [x / n for x in v]

    def name(self, lo=1, hi=20):
        r = self.r
        return "".join(r.choice("abcXYZ019 _-,;.HD+") for _ in range(r.randint(lo, hi)))

    # ---- attributes
    def put(self, e, **kw):
        r = self.r
        e.subscript = self.sub0 + len(self.m.ents) + 1
        t = e.type
        na = NA.get(t, ())
        if self.attrs:
            if r.random() < 0.3:
                e.label = "".join(r.choice(LABELS) for _ in range(r.randint(1, 8)))
            if "level" not in na and r.random() < 0.3:
                e.level = r.choice([1, 2, 7, 255, 30000, 65537, 9999999])
            if "linefont" not in na and r.random() < 0.3:
                e.linefont = r.randint(0, 5)
            if "weight" not in na and r.random() < 0.4:
                e.weight = r.randint(0, self.m.g["maxLinewidthGrad"])
            if "color" not in na and "color_def" not in na and r.random() < 0.4:
                e.color = r.randint(0, 8)
            if "color" not in na and "color_def" not in na and r.random() < 0.25 and t != 314:
                e.color = Ref(self.color(), True)
            if "blank" not in na and r.random() < 0.15:
                e.blank = 1
            if "subord" not in na and r.random() < 0.2:
                e.subord = r.randint(0, 3)
            if t in HIER and r.random() < 0.3:
                e.hier = r.randint(0, 2)
            if t not in USEFIX and r.random() < 0.1:
                e.use = r.choice([0, 5, 6] if t != 124 else [0])
            if "transform" not in na and t not in (124,) and r.random() < 0.15 and kw.get("xform", True):
                e.transform = Ref(self.xform())
            if self.use_props and t not in (406, 314, 124) and r.random() < 0.12:
                e.extras = ([], [Ref(self.prop()) for _ in range(r.randint(1, 2))])
                if len(e.extras[1]) == 2 and e.extras[1][0] == e.extras[1][1]:
                    e.extras[1].pop()
            if r.random() < 0.12:
                e.comments = ["".join(r.choice(COMMENT) for _ in range(r.choice([1, 5, 20, 63, 64, 64, r.randint(1, 64)]))).rstrip() or "c"
                              for _ in range(r.choice([1, 1, 2, 3, 10]))]
        if t in USEFIX:
            e.use = USEFIX[t]
        if t in SUBFIX:
            e.subord = SUBFIX[t]
        if t in HIERFIX:
            e.hier = HIERFIX[t]
        i = self.m.add(e)
        e.subscript = self.sub0 + i + 1
        return i

    def color(self):
        if self.colors and self.r.random() < 0.6:
            return self.r.choice(self.colors)
        r = self.r
        e = Ent(314, 0, [("R", round(r.uniform(0, 100), 3)), ("R", round(r.uniform(0, 100), 3)), ("R", float(r.choice([0, 100, 50]))),
                         ("S", self.name() if r.random() < 0.6 else "")])
        if r.random() < 0.5:
            e.color = r.randint(1, 8)
        self.colors.append(self.put(e))
        return self.colors[-1]

    def prop(self):
        if self.props and self.r.random() < 0.5:
            return self.r.choice(self.props)
        self.props.append(self.put(Ent(406, 15, [("I", 1), ("S", self.name())])))
        return self.props[-1]

    def rot(self):
        a, b = self.unit(), None
        while True:
            b = self.unit()
            d = sum(x * y for x, y in zip(a, b))
            b = [y - d * x for x, y in zip(a, b)]
            n = math.sqrt(sum(x * x for x in b))
            if n > 0.1:
                b = [x / n for x in b]
                break
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        return [a, b, c]

    def xform(self, depth=0):
        r = self.r
        if self.xforms and r.random() < 0.5:
            return r.choice(self.xforms)
        R = r.choice([self.rot, lambda: [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], lambda: [[0.0, -1.0, 0], [1.0, 0, 0], [0, 0, 1.0]]])()
        form = 0
        if r.random() < 0.2:
            form = 1
            R = [R[0], R[1], [-x for x in R[2]]]
        elif r.random() < 0.1:
            form = r.choice([10, 11, 12])
        p = []
        for i in range(3):
            p += [("R", float(x)) for x in R[i]] + [("L", self.num())]
        e = Ent(124, form, p)
        if depth < 3 and r.random() < 0.25:
            e.transform = Ref(self.xform(depth + 1))
        i = self.put(e)
        self.xforms.append(i)
        return i

    # ---- curves; each returns the entity index
    def line(self, a=None, b=None, **kw):
        a, b = a or self.pt(), b or self.pt()
        return self.put(Ent(110, kw.pop("form", 0 if self.r.random() < 0.8 else self.r.randint(0, 2)), [("L", float(x)) for x in a + b]), **kw)

    def arc(self, full=None, **kw):
        r = self.r
        z, cx, cy, rad = self.num(), self.num(self.extent), self.num(self.extent), self.pos()
        if abs(cx) > 1e4: cx = 1.0
        if abs(cy) > 1e4: cy = 2.0
        a0 = r.uniform(0, 2 * math.pi)
        a1 = a0 + r.uniform(0.1, 6.1)
        if full or (full is None and r.random() < 0.2):
            a1 = a0
        p = [z, cx, cy, cx + rad * math.cos(a0), cy + rad * math.sin(a0), cx + rad * math.cos(a1), cy + rad * math.sin(a1)]
        if a1 == a0:
            p[5:] = p[3:5]
        return self.put(Ent(100, 0, [("L", float(x)) for x in p]), **kw)

    def conic(self, **kw):
        r = self.r
        f = r.randint(1, 3)
        z = self.num()
        if f == 1:
            a, b = self.pos(), self.pos()
            A, B, C, D, E_, F = b * b, 0.0, a * a, 0.0, 0.0, -a * a * b * b
            t0 = r.uniform(0, 6.28); t1 = t0 + r.uniform(0.2, 6.0)
            p = [a * math.cos(t0), b * math.sin(t0), a * math.cos(t1), b * math.sin(t1)]
        elif f == 2:
            a, b = self.pos(), self.pos()
            A, B, C, D, E_, F = b * b, 0.0, -a * a, 0.0, 0.0, -a * a * b * b
            t0 = r.uniform(-1, 0); t1 = r.uniform(0.1, 1)
            p = [a * math.cosh(t0), b * math.sinh(t0), a * math.cosh(t1), b * math.sinh(t1)]
        else:
            k = self.pos()
            A, B, C, D, E_, F = 1.0, 0.0, 0.0, 0.0, -4 * k, 0.0
            x0, x1 = r.uniform(-5, 0), r.uniform(0.1, 5)
            p = [x0, x0 * x0 / (4 * k), x1, x1 * x1 / (4 * k)]
        return self.put(Ent(104, f, [("R", x) for x in (A, B, C, D, E_)] + [("L", F), ("L", z)] + [("L", x) for x in p]), **kw)

    def knots(self, K, M):
        """Clamped knot vector for K+1 control points, degree M."""
        r = self.r
        n = K - M
        inner = sorted(round(r.uniform(0.05, 0.95), 4) for _ in range(n))
        if r.random() < 0.5:
            inner = [(i + 1.0) / (n + 1) for i in range(n)]
        lo, hi = r.choice([(0.0, 1.0), (0.0, 1.0), (-1.0, 2.0), (0.0, 10.0)])
        return [lo] * (M + 1) + [lo + (hi - lo) * x for x in inner] + [hi] * (M + 1)

    def nurbs(self, planar=None, closed=None, rational=None, rect2d=False, **kw):
        r = self.r
        M = r.randint(1, 4)
        K = M + r.randint(0, 4)
        planar = r.random() < 0.4 if planar is None else planar
        rational = r.random() < 0.5 if rational is None else rational
        closed = (r.random() < 0.25) if closed is None else closed
        if closed and K < 3:
            K, M = 4, 2
        kn = self.knots(K, M)
        pts = [self.pt() for _ in range(K + 1)]
        nrm = [0.0, 0.0, 0.0]
        if planar:
            z = self.num(10.0)
            for p in pts: p[2] = z
            nrm = [0.0, 0.0, 1.0]
        if closed:
            pts[-1] = list(pts[0])
        w = [1.0] * (K + 1)
        if rational:
            w = [r.uniform(0.3, 3.0) for _ in range(K + 1)]
            w[0], w[1] = 1.0, 2.0
        p = [("I", K), ("I", M), ("B", 1 if planar else 0), ("B", 1 if closed else 0), ("B", 0 if rational else 1), ("B", 0)]
        p += [("R", float(x)) for x in kn] + [("R", float(x)) for x in w]
        for q in pts: p += [("L", float(x)) for x in q]
        p += [("R", kn[0]), ("R", kn[-1])]
        p += [("R", x) for x in nrm]
        return self.put(Ent(126, 0, p), **kw)

    def composite(self, closed=False, **kw):
        r = self.r
        n = r.randint(1, 5)
        if closed and n < 2: n = 3
        pts = [self.pt() for _ in range(n + 1)]
        z = self.num(10.0)
        if closed:
            pts[-1] = list(pts[0])
        for p in pts: p[2] = z
        ids = []
        for i in range(n):
            if r.random() < 0.3 and not (closed and n == 2):
                # arc between two points: centre on the bisector
                (x0, y0), (x1, y1) = pts[i][:2], pts[i + 1][:2]
                h = r.uniform(-1, 1)
                cx, cy = (x0 + x1) / 2 - h * (y1 - y0), (y0 + y1) / 2 + h * (x1 - x0)
                ids.append(self.put(Ent(100, 0, [("L", float(v)) for v in (z, cx, cy, x0, y0, x1, y1)]), xform=False))
            else:
                ids.append(self.line(pts[i], pts[i + 1], xform=False, form=0))
        for i in ids: self.m.ents[i].transform = 0
        return self.put(Ent(102, 0, [("I", n)] + [("P", Ref(i)) for i in ids]), **kw)

    def curve(self, **kw):
        return self.r.choice([self.line, self.arc, self.conic, self.nurbs, self.composite])(**kw)

    def closed_curve(self, **kw):
        r = self.r
        c = r.randint(0, 2)
        if c == 0: return self.arc(full=True, **kw)
        if c == 1: return self.composite(closed=True, **kw)
        return self.nurbs(planar=True, closed=True, **kw)

    # ---- surfaces
    def plane(self, **kw):
        r = self.r
        f = r.choice([0, 0, 1])
        n = self.unit()
        ptr = Ref(self.closed_curve()) if f else NULL
        return self.put(Ent(108, f, [("R", n[0]), ("R", n[1]), ("R", n[2]), ("L", self.num()), ("P", ptr)]
                            + [("L", self.num()) for _ in range(3)] + [("L", self.pos() if r.random() < 0.7 else 0.0)]), **kw)

    def revolution(self, **kw):
        a = self.r.uniform(0, 2)
        b = a + self.r.uniform(0.3, 6.2)
        if self.r.random() < 0.3:
            a, b = 0.0, 2 * math.pi
        return self.put(Ent(120, 0, [("P", Ref(self.line(form=0))), ("P", Ref(self.curve())), ("A", a), ("A", b)]), **kw)

    def tabcyl(self, **kw):
        return self.put(Ent(122, 0, [("P", Ref(self.curve()))] + [("L", x) for x in self.pt()]), **kw)

    def nurbs_surf(self, **kw):
        r = self.r
        M1, M2 = r.randint(1, 3), r.randint(1, 3)
        K1, K2 = M1 + r.randint(0, 2), M2 + r.randint(0, 2)
        rational = r.random() < 0.5
        n = (K1 + 1) * (K2 + 1)
        kn1, kn2 = self.knots(K1, M1), self.knots(K2, M2)
        w = [r.uniform(0.3, 3.0) for _ in range(n)] if rational else [1.0] * n
        if rational: w[0], w[1] = 1.0, 2.0
        p = [("I", K1), ("I", K2), ("I", M1), ("I", M2), ("B", 0), ("B", 0), ("B", 0 if rational else 1), ("B", 0), ("B", 0)]
        p += [("R", float(x)) for x in kn1 + kn2 + w]
        for _ in range(n): p += [("L", x) for x in self.pt()]
        p += [("R", kn1[0]), ("R", kn1[-1]), ("R", kn2[0]), ("R", kn2[-1])]
        return self.put(Ent(128, 0, p), **kw)

    def surface(self, **kw):
        return self.r.choice([self.revolution, self.tabcyl, self.nurbs_surf])(**kw)

    def curve_on_surface(self, surf=None, **kw):
        r = self.r
        s = surf if surf is not None else self.surface()
        pref = r.randint(0, 3)
        b = Ref(self.nurbs(planar=True) if r.random() < 0.6 else self.composite())
        if r.random() < 0.7:
            self.m.ents[b.i].use = 5
        c = Ref(self.curve())
        if r.random() < 0.15: b = NULL; pref = 2
        return self.put(Ent(142, 0, [("I", r.randint(0, 3)), ("P", Ref(s)), ("P", b), ("P", c), ("I", pref)]), **kw)

    def trimmed(self, **kw):
        r = self.r
        s = self.surface()
        n1 = r.choice([0, 1, 1])
        k = r.randint(0, 3)
        pto = Ref(self.curve_on_surface(s)) if n1 else NULL
        pti = [Ref(self.curve_on_surface(s)) for _ in range(k)]
        return self.put(Ent(144, 0, [("P", Ref(s)), ("I", n1), ("I", k), ("P", pto)] + [("P", x) for x in pti]), **kw)

    # ---- solids
    def cyl(self, **kw):
        n = self.unit()
        if self.r.random() < 0.4: n = [0.0, 0.0, 1.0]
        p = [self.num() if self.r.random() < 0.6 else 0.0 for _ in range(3)]
        return self.put(Ent(154, 0, [("L", self.pos()), ("L", self.pos())] + [("L", x) for x in p] + [("R", x) for x in n]), **kw)

    def extrusion(self, **kw):
        n = self.unit()
        if self.r.random() < 0.4: n = [0.0, 0.0, 1.0]
        return self.put(Ent(164, 0, [("P", Ref(self.closed_curve())), ("L", self.pos())] + [("R", x) for x in n]), **kw)

    def btree(self, depth=0, **kw):
        r = self.r
        n = r.randint(2, 4)
        ops = []
        for i in range(n):
            c = r.randint(0, 2 if depth < 2 else 1)
            if self.use_props and r.random() < 0.12: ops.append(self.brep())
            else: ops.append(self.cyl() if c == 0 else self.extrusion() if c == 1 else self.btree(depth + 1))
        p = [("P", Ref(ops[0], True))]
        pend = 0
        for o in ops[1:]:
            p.append(("P", Ref(o, True)))
            pend += 1
            while pend and r.random() < 0.6:
                p.append(("I", r.randint(1, 3))); pend -= 1
        while pend:
            p.append(("I", r.randint(1, 3))); pend -= 1
        form = 1 if any(self.m.ents[o].type == 186 for o in ops) else 0
        return self.put(Ent(180, form, [("I", len(p))] + p), **kw)

    def brep(self, **kw):
        r = self.r
        nv = r.randint(3, 6)
        vl = self.put(Ent(502, 1, [("I", nv)] + [("L", self.num()) for _ in range(3 * nv)]))
        vl2 = vl
        if r.random() < 0.3:
            vl2 = self.put(Ent(502, 1, [("I", nv)] + [("L", self.num()) for _ in range(3 * nv)]))
        ne = r.randint(1, 5)
        p = []
        for i in range(ne):
            p += [("P", Ref(r.choice([self.line, self.arc, self.nurbs])())), ("P", Ref(vl)), ("I", r.randint(1, nv)), ("P", Ref(vl2)), ("I", r.randint(1, nv))]
        el = self.put(Ent(504, 1, [("I", ne)] + p))
        faces = []
        for _ in range(r.randint(1, 3)):
            loops = []
            for _ in range(r.randint(1, 2)):
                n = r.randint(1, 4)
                q = []
                for i in range(n):
                    v = i > 0 and r.random() < 0.15     # the edge list is in use
                    k = r.choice([0, 0, 1, 2])
                    q += [("B", 1 if v else 0), ("P", Ref(vl if v else el)), ("I", r.randint(1, nv if v else ne)), ("B", r.randint(0, 1)), ("I", k)]
                    for _ in range(k):
                        q += [("B", r.randint(0, 1)), ("P", Ref(self.nurbs(planar=True)))]
                loops.append(self.put(Ent(508, 1, [("I", n)] + q)))
            s = self.surface()
            faces.append(self.put(Ent(510, 1, [("P", Ref(s)), ("I", len(loops)), ("B", r.randint(0, 1))] + [("P", Ref(l)) for l in loops])))
        q = []
        for f in faces:
            q += [("P", Ref(f)), ("B", r.randint(0, 1))]
        sh = self.put(Ent(514, 1, [("I", len(faces))] + q))
        if kw.pop("shell_only", False):
            return sh
        voids = []
        if r.random() < 0.3:
            voids = [self.brep(shell_only=True)]
        q = []
        for v in voids: q += [("P", Ref(v)), ("B", r.randint(0, 1))]
        return self.put(Ent(186, 0, [("P", Ref(sh)), ("B", r.randint(0, 1)), ("I", len(voids))] + q), **kw)

    # ---- structure
    def subfigure(self, depth=0, **kw):
        r = self.r
        mem = []
        d = 0
        for _ in range(r.randint(1, 4)):
            if depth < 2 and r.random() < 0.35:
                i, dd = self.instance(depth + 1)
                d = max(d, dd + 1)
                mem.append(i)
            else:
                mem.append(r.choice([self.curve, self.trimmed, self.cyl])())
        i = self.put(Ent(308, 0, [("I", d), ("S", self.name()), ("I", len(mem))] + [("P", Ref(x)) for x in mem]), **kw)
        return i, d

    def instance(self, depth=0, sub=None, **kw):
        r = self.r
        s, d = sub or self.subfigure(depth)
        i = self.put(Ent(408, 0, [("P", Ref(s))] + [("L", self.num()) for _ in range(3)] + [("R", r.choice([1.0, 1.0, 2.5, 0.125]))]), **kw)
        return i, d

    TOP = ["line", "arc", "conic", "nurbs", "composite", "revolution", "tabcyl", "nurbs_surf", "curve_on_surface", "trimmed",
           "cyl", "extrusion", "btree", "brep", "inst"]

    def top(self, what=None):
        w = what or self.r.choice(self.TOP)
        if w == "inst":
            s = self.subfigure()
            for _ in range(self.r.randint(1, 2)):
                i = self.instance(sub=s)
            return i
        return getattr(self, w)()

    def finish(self):
        used = set()
        for e in self.m.ents:
            for _, v in e.refs():
                used.add(v.i)
        for i, e in enumerate(self.m.ents):
            # an unreferenced entity must be independent
            if i not in used and e.type not in SUBFIX:
                e.subord = 0
        return self.m


def shuffle(m, rnd):
    """The same model with entities in another order (subscripts kept)."""
    n = len(m.ents)
    order = list(range(n))
    rnd.shuffle(order)
    where = {o: k for k, o in enumerate(order)}
    m2 = m.copy()
    m2.ents = [m.ents[o].copy() for o in order]

    def mp(v):
        return Ref(where[v.i], v.neg) if isinstance(v, Ref) and v.i is not None else v
    for e in m2.ents:
        for f in ("structure", "linefont", "level", "view", "transform", "labelassoc", "color"):
            setattr(e, f, mp(getattr(e, f)))
        e.params = [(k, mp(v) if k == "P" else v) for k, v in e.params]
        if e.extras:
            e.extras = ([mp(v) for v in e.extras[0]], [mp(v) for v in e.extras[1]])
    return m2


def random_style(rnd, plain=False):
    if plain:
        return Style(rnd)
    st = Style(rnd)
    st.spaces = rnd.random() < 0.4
    st.breaks = rnd.random() < 0.4
    st.expo = rnd.choice([None, None, "E", "D", "mixED", "e"])
    st.defaults = rnd.random() < 0.5
    st.blank_de = rnd.random() < 0.4
    st.plus = rnd.random() < 0.2
    st.crlf = rnd.random() < 0.2
    if rnd.random() < 0.3:
        st.pd, st.rd = rnd.choice([("/", ":"), ("|", "!"), ("@", ";"), (",", "#"), ("%", "&"), ("*", "~")])
    return st
