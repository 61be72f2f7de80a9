"""C05: unit and scale changes multiply every length by the one required factor and change nothing else."""
import os, re
from vlib import build, drive, corpus, gen, apigen, igeslib as I
from vlib.igeslib import Ref
from .c03 import norm
from .c04 import parse_gget

FLAGS = [u for u in I.UNITS if u != 3]
mm = lambda u: I.UNITS[u][1]


def pspace(m):
    """Indices of the entities whose coordinates are surface parameters; None if one is used both ways."""
    E = m.ents
    ps, ms = set(), set()

    def mark(i, S):
        if i is None or i in S: return
        S.add(i)
        if E[i].type == 102:
            for k, v in E[i].params:
                if isinstance(v, Ref): mark(v.i, S)
    for i, e in enumerate(E):
        v = [p[1] for p in e.params]
        bp = []
        if e.type == 142: bp = [2]
        elif e.type == 508:
            k = 1
            for _ in range(v[0]):
                bp += [k + 6 + 2 * j for j in range(v[k + 4])]
                k += 5 + 2 * v[k + 4]
        for n, x in enumerate(v):
            if isinstance(x, Ref):
                if n in bp: mark(x.i, ps)
                elif e.type != 102: mark(x.i, ms)
        if e.extras:
            pass
    for i, e in enumerate(E):
        if i not in ps and e.type == 102: mark(i, ms)
    if ps & ms: return None
    # transforms used by curves in parameter space only
    users = {}
    for i, e in enumerate(E):
        if isinstance(e.transform, Ref) and e.transform.i is not None: users.setdefault(e.transform.i, []).append(i)

    def kind(t, depth=0):
        k = set()
        for u in users.get(t, ()):
            if E[u].type == 124: k |= kind(u, depth + 1) if depth < 20 else set()
            else: k.add(u in ps)
        return k
    for i, e in enumerate(E):
        if e.type == 124:
            k = kind(i)
            if len(k) > 1: return None
            if k == {True}: ps.add(i)
    return ps


def expected(m, f, ps):
    q = m.copy()
    q.ents = [e.copy() if i in ps else I.scaled(e, f) for i, e in enumerate(m.ents)]
    return q


def flat(e):
    """A curve in parameter space has no z coordinate."""
    e = e.copy()
    if e.type == 126:
        v = [p[1] for p in e.params]
        o = 9 + 2 * v[0] + v[1]
        for j in range(v[0] + 1): e.params[o + 3 * j + 2] = ("R", 0.0)
    elif e.type == 110:
        e.params[2] = e.params[5] = ("R", 0.0)
    return e


def run(c):
    exe = build.build("san", ("vh",))["vh"]
    c.rule = ("A case is (a) a generated model in a random unit and model scale, read and written; (b) a model read from a file or (c) built through the API, then put "
              "through a random sequence of unit and scale changes (valid and refused), written, read back and restored. Oracle: an independent parser and a per-field "
              "table of which parameters are lengths; every parameter, directory field and the global tolerances are compared with the value required by the factor. "
              "Distinct: by content and factor; non-trivial: factor differs from 1 and two entities were compared.")
    c.assume = ["a coordinate in the parameter space of a surface is not a length", "a conic's coefficients scale as those of a homogeneous quadratic",
                "models in which one curve or transform is used in model space and in parameter space are not judged"]
    c.parallel(lambda sub, lo, hi: part(sub, lo, hi, exe), c.n(9000, 150000))


def ops(r):
    """A sequence of changes and the resulting factors."""
    s, unit, scale = [], 2, 1.0
    f = 1.0
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if k < 0.5:
            u = r.choice(FLAGS)
            s.append(("conv m %d" % u, "1"))
            f *= mm(unit) / mm(u); unit = u
        elif k < 0.85:
            x = r.choice([0.5, 2.0, 25.4, 1 / 25.4, 10.0, 0.1, 1000.0, 0.001, 1.0, float("%.*g" % (r.randint(1, 15), 10 ** r.uniform(-4, 4)))])
            s.append(("scale m %r" % x, "1"))
            f *= x / scale; scale = x
        elif k < 0.95:
            s.append((r.choice(["scale m 0", "scale m -1", "scale m nan", "scale m 1e8", "scale m 1e-9", "scale m inf", "conv m 3"]), "0"))
        else:
            s.append((r.choice(["conv m %d" % unit, "scale m %r" % scale]), "1"))
    return s, unit, scale, f


def part(c, lo, hi, exe):
    d = c.dir("f")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd(i)
        kind = "abbaac"[i % 6]
        mr = r.choice([1e-3, 1e-5, 1e-8])
        if kind == "c":
            g = gen.Gen(r, minres=mr, attrs=r.random() < 0.8, props=False)
            for _ in range(r.randint(1, 3)): g.top(r.choice(apigen.TOPS))
            m = g.finish()
        else:
            m = corpus.model(r, minres=mr)
        m.start = ["case %d" % i]
        ps = pspace(m)
        if ps is None:
            c.event("case skipped: entity used in model space and parameter space")
            continue
        m.g["maxLinewidth"] = r.choice([1.0, 0.5, 2.54, 100.0])
        f = [os.path.join(d, "i%d%s.igs" % (i, x)) for x in "ab"]
        o = [os.path.join(d, "o%d%s.igs" % (i, x)) for x in "abc"]
        if kind == "a":
            u = r.choice(FLAGS)
            sc = r.choice([1.0, 1.0, 0.5, 2.0, 25.4, 100.0, 0.01, float("%.*g" % (r.randint(1, 15), 10 ** r.uniform(-4, 4)))])
            m.g["unitsFlag"], m.g["modelScale"] = u, sc
            m.g["unitsName"] = r.choice(["", I.UNITS[u][0]])
            fac = mm(u) / sc
            open(f[0], "wb").write(I.write(m, gen.random_style(r)))
            # the equivalent file in millimetres
            q = expected(m, fac, ps)
            q.g["unitsFlag"], q.g["unitsName"], q.g["modelScale"] = 2, "MM", 1.0
            for k in ("minResolution", "maxLinewidth", "maxCoordinateValue"): q.g[k] *= fac
            open(f[1], "wb").write(I.write(q, gen.random_style(r)))
            s = ["new m", "read m " + f[0], "gget m", "write m %s 1" % o[0], "new q", "read q " + f[1], "gget q", "write q %s 1" % o[1]]
            want = ["1"] * 8
            want[2] = want[6] = None
            x = (2, 1.0, fac)
        else:
            seq, u, sc, fac = ops(r)
            if kind == "b":
                open(f[0], "wb").write(I.write(m, gen.random_style(r)))
                s = ["new m", "read m " + f[0]]
                want = ["1", "1"]
            else:
                s = ["new m"] + apigen.build(m)
                want = [None] * len(s)
            for k, w in seq: s.append(k); want.append(w)
            s += ["unitname m", "gget m"]; want += [None, None]
            s += ["write m %s 1" % o[0], "new q", "read q " + o[0], "write q %s 1" % o[1], "scale m 1", "conv m 2", "write m %s 1" % o[2]]
            want += ["1"] * 7
            x = (u, sc, fac)
        cases.append((str(i), s))
        info[str(i)] = (kind, m, ps, f, o, s, want, x)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, t in info.items():
        c.evals += 1
        if c.crash(res[k], t[3], t[5], exe, "unit and scale changes"):
            judge(c, res[k], exe, *t)
        for p in t[3] + t[4]:
            if os.path.exists(p): os.unlink(p)


def close(a, b, rel=1e-13):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def cmp(m, P, fac, ps, tolx, api, fmin):
    """Differences between m scaled by fac and the parsed file P."""
    pair, mi, xx, dup = I.match_by_subscript(m.ents, P.ents)
    if mi or xx or dup: return ["entities lost or added: %s %s %s" % (mi, xx, dup)]
    q = expected(m, fac, ps)
    # values written with the minimum resolution in the units of the file, possibly more than once
    tol = I.Tol(P.g["minResolution"] * tolx, rel=3e-14, extra=2e-15 / fmin, floor=1.02e-8 / fmin)
    B = list(P.ents)
    for i in ps:
        q.ents[i] = flat(q.ents[i])
        B[pair[i]] = flat(B[pair[i]])
    A = q.ents
    if api:
        class X(object): pass
        PP = X(); PP.ents = B
        mm_ = X(); mm_.ents = A
        return apigen.compare(mm_, PP, pair, tol)
    return I.compare_ents(A, B, pair, tol)


def judge(c, r, exe, kind, m, ps, f, o, s, want, x):
    u, sc, fac = x

    def bad(key, text):
        c.violation(key, text + "\nfactor %r, unit %s, scale %r" % (fac, u, sc), f + o, s, exe)
    types = sorted({e.type for e in m.ents})
    for i, w in enumerate(want):
        if w is not None and r.r(i) != w:
            return bad("%s-%s" % (s[i].split()[0], "failed" if w == "1" else "accepted"),
                       "%s returned %s, expected %s; types %s" % (s[i].replace(os.path.dirname(f[0]), ""), r.r(i), w, types))
    for i, w in enumerate(s):
        # the name and the flag of the unit in the data a user sees
        if w[:4] != "gget": continue
        g = parse_gget(r.r(i))
        wu = 2 if kind == "a" else u
        nm = {g["unitsName"]} | ({drive.dec(r.r(i - 1))} if s[i - 1][:8] == "unitname" else set())
        if g["unitsFlag"] != wu or not nm <= I.UNIT_NAMES.get(wu, {I.UNITS[wu][0]}) | {I.UNITS[wu][0], ""}:
            return bad("unit-name", "the model is in unit %r but names %r %r" % (wu, g["unitsFlag"], sorted(nm)))
    P = [I.parse(open(p, "rb").read()) if os.path.exists(p) else None for p in o]
    for k, p in enumerate(P):
        if p is not None and p.errs: return bad("malformed-" + norm(p.errs[0]), "the written file %s is malformed: %s" % (o[k], p.errs[:5]))

    def glob(P, what, f_, u_, s_):
        g = P.g
        e = []
        for k in ("minResolution", "maxLinewidth"):
            if not close(g[k], m.g[k] * f_, 1e-12): e.append("%s %r should be %r" % (k, g[k], m.g[k] * f_))
        if g["unitsFlag"] != u_ or g["unitsName"] not in I.UNIT_NAMES.get(u_, ()) and g["unitsName"] != I.UNITS[u_][0]: e.append("units %r %r should be %r" % (g["unitsFlag"], g["unitsName"], u_))
        if not close(g["modelScale"], s_): e.append("model scale %r should be %r" % (g["modelScale"], s_))
        if e: bad("global-%s-%s" % (what, e[0].split()[0]), "%s: %s" % (what, e))
        return not e
    if kind == "a":
        what = [("read in other units", P[0], fac, 2, 1.0), ("the equivalent file in mm", P[1], fac, 2, 1.0)]
    else:
        what = [("after the changes", P[0], fac, u, sc), ("read back", P[1], 1.0, 2, 1.0), ("converted back", P[2], 1.0, 2, 1.0)]
    for n, (w, p, f_, u_, s_) in enumerate(what):
        if not glob(p, w, f_, u_, s_): return
        d = cmp(m, p, f_, ps, 2.0 if n else 1.0, kind == "c", min(1.0, fac) if n == 1 and kind != "a" else 1.0)
        if d: return bad("%s-%s" % (w, norm(d[0])), "%s: %s" % (w, "\n".join(d[:10])))
    for t in types: c.event("type %d compared" % t)
    c.event("curves and transforms in parameter space", len(ps))
    c.event("lengths compared", sum(1 for e in m.ents for k, v in e.params if k == "L"))
    c.event("sequences of changes" if kind != "a" else "files in other units")
    if len(m.ents) > 1 and abs(fac - 1) > 1e-9: c.distinct.add((kind, fac, tuple(types), len(m.ents), c.evals))
    c.sample(dict(kind=kind, factor=fac, unit=u, scale=sc, types=types, ops=[y for y in s if y[:4] in ("conv", "scal")]))
