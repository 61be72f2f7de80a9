"""C07: exporting a model as a part moves everything across once, unaltered, and lists its top-level geometry."""
import os
from vlib import build, drive, gen, apigen, igeslib as I
from vlib.igeslib import Ref, Ent
from .c03 import norm
from .c05 import pspace, expected, flat, mm

UNITS = [1, 2, 6, 8, 9, 10]


def run(c):
    exe = build.build("san", ("vh",))["vh"]
    c.rule = ("A case is a history over three models, each filled through the API or from a file and put through random unit and scale changes and line weight ranges; models are "
              "exported into each other (siblings, nested, repeated after refilling the source, models without exportable geometry, refused exports), instances of the returned "
              "definitions are placed with transforms, and the outermost model is written. Oracle: a merge of the generated models computed independently; entity identity is "
              "tracked by subscripts, every parameter, attribute and reference of the written file is compared with the merge. Distinct: by content and order of exports; "
              "non-trivial: at least one export moved two or more entities.")
    c.assume = ["models in which one curve or transform is used in model space and in parameter space are not judged",
                "top-level geometry: instances, else trimmed surfaces, else solids, as documented in the implementation of Export()",
                "the order of the list in the returned definition is not significant"]
    c.parallel(lambda sub, lo, hi: part(sub, lo, hi, exe), c.n(5000, 90000))


class Mod(object):
    """What a model must contain."""

    def __init__(self, name):
        self.name = name
        self.unit, self.scale, self.grad, self.mr = 2, 1.0, 1, 1e-8
        self.file = ""
        self.m = I.Model()
        self.ps = set()
        self.amb = False

    def fac(self): return self.scale / mm(self.unit)

    def rescale(self, f):
        self.m = expected(self.m, f, self.ps)
        self.mr *= f

    def top(self):
        E = self.m.ents
        refs = [[] for _ in E]
        for i, e in enumerate(E):
            for _, v in e.refs():
                if v.i is not None and i not in refs[v.i]: refs[v.i].append(i)

        def istop(i, deep):
            return not refs[i] or deep and len(refs[i]) == 1 and E[refs[i][0]].type == 308 and not refs[refs[i][0]]
        for t, deep in ((408, True), (144, False), (186, True)):
            l = [i for i, e in enumerate(E) if e.type == t and istop(i, deep)]
            if l: return l
        return []

    def absorb(self, m, ps):
        """Append the entities of m; returns the index offset."""
        off = len(self.m.ents)
        sh = lambda v: Ref(v.i + off, v.neg) if isinstance(v, Ref) and v.i is not None else v
        for e in m.ents:
            e = e.copy()
            e.params = [(k, sh(v)) for k, v in e.params]
            for f in ("structure", "linefont", "level", "view", "transform", "labelassoc", "color"): setattr(e, f, sh(getattr(e, f)))
            if e.extras: e.extras = tuple([sh(v) for v in l] for l in e.extras)
            self.m.ents.append(e)
        self.ps = self.ps | {i + off for i in ps}
        return off


class Story(object):
    def __init__(self, r, i, d):
        self.r, self.i, self.d = r, i, d
        self.s, self.want, self.files = [], [], []
        self.sub, self.npre = 1, 0
        self.M = {k: Mod(k) for k in "abc"}
        self.mr = r.choice([1e-3, 1e-5, 1e-8])
        self.moved = 0
        self.log = []
        self.amb = False
        for k in "abc": self.cmd("new " + k)
        for k in "abc":
            if r.random() < 0.8: self.ops(k)

    def cmd(self, s, want=None):
        self.s.append(s)
        self.want.append(want)
        return len(self.s) - 1

    def ops(self, k):
        r, M = self.r, self.M[k]
        for _ in range(r.randint(0, 2)):
            if r.random() < 0.5:
                u = r.choice(UNITS)
                f = mm(M.unit) / mm(u); M.unit = u
                self.cmd("conv %s %d" % (k, u), "1")
            else:
                x = r.choice([1.0, 0.5, 2.0, 10.0, 0.1, 25.4])
                f = x / M.scale; M.scale = x
                self.cmd("scale %s %r" % (k, x), "1")
            M.rescale(f)

    def gen(self, api):
        r = self.r
        while True:
            g = gen.Gen(r, minres=self.mr, attrs=r.random() < 0.8, props=not api)
            flavour = r.random()
            n = r.randint(1, 3)
            kinds = apigen.TOPS if api else gen.Gen.TOP
            for _ in range(n):
                if flavour < 0.3: g.top(r.choice(["trimmed", "line", "trimmed"]))
                elif flavour < 0.5: g.top("inst")
                elif flavour < 0.65 and not api: g.top(r.choice(["brep", "line", "arc", "brep", "btree"]))
                elif flavour < 0.75: g.top(r.choice(["line", "arc", "nurbs", "composite"]))
                else: g.top(r.choice(kinds))
            m = g.finish()
            ps = pspace(m)
            if ps is not None: break
        for e in m.ents:
            e.subscript = self.sub
            self.sub += 1
        return m, ps

    def fill(self, k):
        r, M = self.r, self.M[k]
        api = r.random() < 0.5 or M.m.ents
        m, ps = self.gen(api)
        if api:
            self.npre += 1
            pre = "e%d_" % self.npre
            f = M.fac()
            q = expected(m, f, ps)
            first = not M.m.ents
            if first:
                # the resolution also applies to the parameter space of surfaces
                q.g["minResolution"] = M.mr = min(self.mr * f, 1e-3)
                M.grad = m.g["maxLinewidthGrad"]
            else:
                q.g["minResolution"], q.g["maxLinewidthGrad"] = M.mr, M.grad
                for e in q.ents: e.weight = min(e.weight, M.grad)
            for x in apigen.build(q, k, pre): self.cmd(x)
            if first and r.random() < 0.3:
                M.file = r.choice(["part.igs", "a.b.c", "noext", ".igs", "x y.iges"])
                self.cmd("gset %s fileName %s" % (k, drive.enc(M.file)))
            M.absorb(q, ps)
            self.log.append("build %s %d" % (k, len(m.ents)))
        else:
            fn = os.path.join(self.d, "i%d_%d.igs" % (self.i, len(self.files)))
            self.files.append(fn)
            if M.unit != 2: m.g["unitsFlag"] = 2
            m.start = ["part"]
            open(fn, "wb").write(I.write(m, gen.random_style(r)))
            self.cmd("clear " + k)
            self.cmd("read %s %s" % (k, fn), "1")
            M.unit, M.scale, M.grad, M.mr = 2, 1.0, m.g["maxLinewidthGrad"], self.mr
            M.file = os.path.basename(fn)
            M.absorb(m, ps)
            self.log.append("read %s %d" % (k, len(m.ents)))
        if r.random() < 0.5: self.ops(k)

    def export(self, s, t):
        r, S, T = self.r, self.M[s], self.M[t]
        if not S.m.ents: self.fill(s)
        if r.random() < 0.06:
            self.cmd("export %s %s bad" % (s, s), "0 null")
        top = S.top()
        self.npre += 1
        p = "p%d" % self.npre
        if not top:
            self.cmd("export %s %s %s" % (s, t, p), "1 null")
            self.log.append("export %s>%s null" % (s, t))
            # the source stays as it was
            fn = os.path.join(self.d, "n%d_%d.igs" % (self.i, len(self.files)))
            self.files.append(fn)
            self.cmd("write %s %s 1" % (s, fn), "1")
            self.nulls = getattr(self, "nulls", []) + [(fn, S.m.copy(), set(S.ps), S.fac(), S.mr)]
            # brought to the units of the target, or not
            self.cmd("conv %s %d" % (s, T.unit), "1")
            self.cmd("scale %s %r" % (s, T.scale), "1")
            S.rescale(T.fac() / S.fac())
            S.unit, S.scale = T.unit, T.scale
            S.file = os.path.basename(fn)
            return
        self.cmd("export %s %s %s" % (s, t, p), "1 p")
        q = expected(S.m, T.fac() / S.fac(), S.ps)
        lw = float(T.grad) / S.grad
        for e in q.ents:
            if e.weight > 0: e.weight = max(1, int(e.weight * lw))
        off = T.absorb(q, S.ps)
        self.moved = max(self.moved, len(q.ents))
        self.log.append("export %s>%s %d" % (s, t, len(q.ents)))
        # the source is empty
        if r.random() < 0.5: self.cmd("write %s %s 1" % (s, os.path.join(self.d, "e%d.igs" % self.i)), "0")
        nm = S.file
        if "." in nm[1:]: nm = nm[:nm.rindex(".")]
        nm = nm or None
        e = Ent(308, 0, [("I", 0), ("S", nm), ("I", len(top))] + [("P", Ref(i + off)) for i in top], subscript=self.sub, use=2)
        self.sub += 1
        pi = T.m.add(e)
        self.cmd("setattr %s subscript %d" % (p, e.subscript))
        S.m, S.ps = I.Model(), set()
        S.conv = None
        # the source has been converted to the target's units
        S.mr *= T.fac() / S.fac()
        S.unit, S.scale = T.unit, T.scale
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            self.place(t, p, pi)
        if r.random() < 0.4:
            if r.random() < 0.3:
                self.cmd("del " + s)
                self.cmd("new " + s)
                self.M[s] = Mod(s)
            if r.random() < 0.3:
                self.cmd("clear " + s)
                self.M[s] = Mod(s)
            self.ops(s)

    def place(self, t, p, pi):
        r, T = self.r, self.M[t]
        self.npre += 1
        n = "q%d" % self.npre
        f = T.fac()
        x = [r.uniform(-100, 100) * f for _ in range(3)] + [r.choice([1.0, 1.0, 2.0, 0.25])]
        self.cmd("nent %s 408 %s" % (t, n), "1")
        self.cmd("link %s DE %s" % (n, p), "1")
        for k, v in zip("XYZS", x): self.cmd("set %s %s %r" % (n, k, v))
        e = Ent(408, 0, [("P", Ref(pi))] + [("L", v) for v in x[:3]] + [("R", x[3])], subscript=self.sub)
        self.sub += 1
        self.cmd("setattr %s subscript %d" % (n, e.subscript))
        if r.random() < 0.5:
            g = gen.Gen(r, minres=self.mr, attrs=False)
            xi = g.xform()
            xe = [y for y in g.finish().ents if y.type == 124][0]
            xe.extras, xe.transform, xe.color, xe.comments = None, 0, 0, []
            xe = I.scaled(xe, f)
            xe.subscript = self.sub
            self.sub += 1
            h = Mod("h"); h.m.add(xe)
            self.cmd("nent %s 124 %sx" % (t, n), "1")
            for y in apigen.data(h.m, 0, n + "x") + apigen.attrs(h.m, 0, n + "x"): self.cmd(y.replace(n + "x0", n + "x"))
            self.cmd("link %s transform %sx" % (n, n), "1")
            e.transform = Ref(T.m.add(xe))
        T.m.add(e)

    def finish(self, t):
        T = self.M[t]
        fn = os.path.join(self.d, "o%d.igs" % self.i)
        self.files.append(fn)
        if self.r.random() < 0.4: self.ops(t)
        for k in "ab":
            if self.r.random() < 0.5: self.cmd("del " + k)
        self.cmd("write %s %s 1" % (t, fn), "1")
        self.cmd("new z")
        self.cmd("read z " + fn, "1")
        self.out = fn


def story(r, i, d):
    st = Story(r, i, d)
    if r.random() < 0.5: st.fill("c")
    if r.random() < 0.5:
        if r.random() < 0.5: st.fill("b")
    for _ in range(r.randint(1, 4)):
        s, t = r.choice(["ab", "bc", "ac", "bc"])
        st.export(s, t)
    if not st.M["c"].m.ents: st.export("b" if st.M["b"].m.ents or r.random() < 0.5 else "a", "c")
    if not st.M["c"].m.ents: st.fill("c")
    st.finish("c")
    return st


def part(c, lo, hi, exe):
    d = c.dir("f")
    cases, info = [], {}
    for i in range(lo, hi):
        st = story(c.rnd(i), i, d)
        cases.append((str(i), st.s))
        info[str(i)] = st
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, st in info.items():
        c.evals += 1
        if c.crash(res[k], st.files, st.s, exe, "exports"):
            judge(c, res[k], exe, st)
        for p in st.files:
            if os.path.exists(p): os.unlink(p)


def depth(m, i, seen=()):
    if i in seen: return 0
    e = m.ents[i]
    d = 0
    for k, v in e.params[3:]:
        if isinstance(v, Ref) and v.i is not None and m.ents[v.i].type == 408:
            w = m.ents[v.i].params[0][1]
            if w.i is not None: d = max(d, 1 + depth(m, w.i, seen + (i,)))
    return d


def fields(m, ps, P, mr):
    pair, mi, xx, dup = I.match_by_subscript(m.ents, P.ents)
    if mi or xx or dup: return ["entities lost, added or duplicated: lost %s, added %s, duplicated %s" % (
        [(m.ents[i].type, m.ents[i].subscript) for i in mi], [(P.ents[i].type, P.ents[i].subscript) for i in xx], dup)]
    m = m.copy()
    B = list(P.ents)
    for i in ps:
        m.ents[i] = flat(m.ents[i])
        B[pair[i]] = flat(B[pair[i]])
    for i, e in enumerate(m.ents):
        if e.type == 308:
            b = B[pair[i]]
            e.params[0] = ("I", depth(m, i))
            if e.params[1][1] is None:
                nm = b.params[1][1]
                if nm[:4] not in ("part", "assy"): return ["308 NAME %r was not generated" % nm]
                e.params[1] = ("S", nm)
            # order does not matter
            want = sorted(pair[v.i] for _, v in e.params[3:])
            if want == sorted(v.i for _, v in b.params[3:]):
                inv = {v: k for k, v in pair.items()}
                e.params[3:] = [("P", Ref(inv[v.i], v.neg)) for _, v in b.params[3:]]
    class X(object): pass
    PP = X(); PP.ents = B
    return apigen.compare(m, PP, pair, I.Tol(mr, rel=3e-14, extra=2e-15, floor=1.02e-8))


def judge(c, r, exe, st):
    def bad(key, text):
        c.violation(key, text + "\nhistory: " + "; ".join(st.log), st.files, st.s, exe)
    for i, w in enumerate(st.want):
        g = r.r(i)
        if w is not None and g != w:
            return bad("%s-%s-for-%s" % (st.s[i].split()[0], g, w), "%s returned %s, expected %s" % (st.s[i].replace(st.d, ""), g, w))
    P = I.parse(open(st.out, "rb").read())
    if P.errs: return bad("malformed-" + norm(P.errs[0]), "the written file is malformed: %s" % P.errs[:5])
    T = st.M["c"]
    g = P.g
    for k, v in (("unitsFlag", T.unit), ("modelScale", T.scale), ("maxLinewidthGrad", T.grad), ("minResolution", T.mr)):
        if abs(g[k] - v) > 1e-12 * abs(v): return bad("global-" + k, "%s of the target is %r, should be %r" % (k, g[k], v))
    e = fields(T.m, T.ps, P, max(T.mr, 0))
    if e: return bad("target-" + norm(e[0]), "the written assembly differs from what was exported: " + "\n".join(e[:10]))
    names = [x.params[1][1] for i, x in enumerate(T.m.ents) if x.type == 308]
    gen_ = [b.params[1][1] for b in P.ents if b.type == 308 and b.params[1][1] and b.params[1][1][:4] in ("part", "assy") and len(b.params[1][1]) > 15]
    if len(set(gen_)) != len(gen_): return bad("names", "generated names are not unique: %s" % gen_)
    for fn, m, ps, f, mr in getattr(st, "nulls", ()):
        Q = I.parse(open(fn, "rb").read())
        if Q.errs: return bad("null-malformed-" + norm(Q.errs[0]), "the source of a null export is malformed: %s" % Q.errs[:5])
        fq = Q.g["modelScale"] / mm(Q.g["unitsFlag"]) / f
        e = fields(expected(m, fq, ps), ps, Q, mr * fq)
        if e: return bad("null-" + norm(e[0]), "an export which moved nothing changed the source: " + "\n".join(e[:10]))
        c.event("exports without a part")
    for x in st.log: c.event(x.split()[0] + (" nested" if x.startswith("export b>c") and any(y.startswith("export a>b") for y in st.log) else ""))
    c.event("entities compared", len(T.m.ents))
    for x in T.m.ents: c.event("type %d" % x.type)
    if st.moved > 1: c.distinct.add((tuple(st.log), tuple(e.type for e in T.m.ents), c.evals))
    c.sample(dict(log=st.log, unit=T.unit, scale=T.scale, types=[e.type for e in T.m.ents][:40]))
