"""Builds a generated model through the public API of the library."""
from .drive import enc
from . import igeslib as I
from .igeslib import Ref

# entity types whose data the public API can set
API = {100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 308, 314, 408, 502, 504, 508, 510}
TOPS = ["line", "arc", "conic", "nurbs", "composite", "revolution", "tabcyl", "nurbs_surf", "curve_on_surface", "trimmed", "cyl", "extrusion", "btree", "inst"]
FIELDS = {100: "ZT X1 Y1 X2 Y2 X3 Y3", 104: "A B C D E F ZT X1 Y1 X2 Y2", 110: "X1 Y1 Z1 X2 Y2 Z2", 154: "H R X1 Y1 Z1 I1 J1 K1",
          124: "R00 R01 R02 TX R10 R11 R12 TY R20 R21 R22 TZ"}


def f(x):
    return repr(float(x))


def name(i, pre="e"):
    return "%s%d" % (pre, i)


def data(m, i, pre="e"):
    """Commands that set the parameters of entity i."""
    e = m.ents[i]
    n = name(i, pre)
    v = [p[1] for p in e.params]
    out = []

    def ln(slot, r):
        if r.i is not None: out.append("link %s %s %s" % (n, slot, name(r.i, pre)))
    t = e.type
    if e.form: out.append("form %s %d" % (n, e.form))
    if t in FIELDS:
        for k, x in zip(FIELDS[t].split(), v): out.append("set %s %s %s" % (n, k, f(x)))
    elif t == 102:
        for r in v[1:]: ln("seg", r)
    elif t == 120:
        ln("L", v[0]); ln("C", v[1])
        out += ["set %s SA %s" % (n, f(v[2])), "set %s TA %s" % (n, f(v[3]))]
    elif t == 122:
        ln("DE", v[0])
        out += ["set %s %s %s" % (n, k, f(x)) for k, x in zip(("LX", "LY", "LZ"), v[1:])]
    elif t == 126:
        K, M = v[0], v[1]
        kn = v[6:8 + K + M]
        w = v[8 + K + M:9 + 2 * K + M]
        p = v[9 + 2 * K + M:12 + 5 * K + M]
        rat = v[4] == 0
        c = []
        for j in range(K + 1):
            c += p[3 * j:3 * j + 3] + ([w[j]] if rat else [])
        out.append("nurbs %s %d %d %d %s %s %s" % (n, K + 1, M + 1, rat, f(v[12 + 5 * K + M]), f(v[13 + 5 * K + M]), " ".join(map(f, kn + c))))
    elif t == 128:
        K1, K2, M1, M2 = v[:4]
        o = 9
        k1 = v[o:o + K1 + M1 + 2]; o += len(k1)
        k2 = v[o:o + K2 + M2 + 2]; o += len(k2)
        q = (K1 + 1) * (K2 + 1)
        w = v[o:o + q]; o += q
        p = v[o:o + 3 * q]; o += 3 * q
        rat = v[6] == 0
        c = []
        for j in range(q):
            c += p[3 * j:3 * j + 3] + ([w[j]] if rat else [])
        out.append("nurbss %s %d %d %d %d %d %d %d %s %s" % (n, K1 + 1, K2 + 1, M1 + 1, M2 + 1, rat, v[7], v[8], " ".join(map(f, v[o:o + 4])),
                                                           " ".join(map(f, k1 + k2 + c))))
    elif t == 142:
        out += ["set %s CRTN %d" % (n, v[0]), "set %s PREF %d" % (n, v[4])]
        ln("SPTR", v[1]); ln("BPTR", v[2]); ln("CPTR", v[3])
    elif t == 144:
        ln("PTS", v[0])
        if v[1]: ln("PTO", v[3])
        for r in v[4:]: ln("PTI", r)
    elif t == 164:
        ln("curve", v[0])
        out += ["set %s %s %s" % (n, k, f(x)) for k, x in zip(("L", "I1", "J1", "K1"), v[1:])]
    elif t == 180:
        for x in v[1:]:
            if isinstance(x, Ref): ln("arg", x)
            else: out.append("op180 %s %d" % (n, x))
    elif t == 308:
        out.append("sets %s %s" % (n, enc(v[1])))
        for r in v[3:]: ln("DE", r)
    elif t == 314:
        out += ["set %s %s %s" % (n, k, f(x)) for k, x in zip(("red", "green", "blue"), v)]
        if v[3]: out.append("sets %s %s" % (n, enc(v[3])))
    elif t == 408:
        ln("DE", v[0])
        out += ["set %s %s %s" % (n, k, f(x)) for k, x in zip("XYZS", v[1:])]
    elif t == 502:
        for j in range(v[0]): out.append("vert502 %s %s" % (n, " ".join(map(f, v[1 + 3 * j:4 + 3 * j]))))
    elif t == 504:
        for j in range(v[0]):
            a = v[1 + 5 * j:6 + 5 * j]
            out.append("edge504 %s %s %s %d %s %d" % (n, name(a[0].i, pre), name(a[1].i, pre), a[2], name(a[3].i, pre), a[4]))
    elif t == 508:
        k = 1
        for _ in range(v[0]):
            q = ["%s %d" % (name(v[k + 6 + 2 * j].i, pre), v[k + 5 + 2 * j]) for j in range(v[k + 4])]
            out.append("edge508 %s %s %d %d %d %s" % (n, name(v[k + 1].i, pre), v[k], v[k + 2], v[k + 3], " ".join(q)))
            k += 5 + 2 * v[k + 4]
    elif t == 510:
        ln("surf", v[0])
        out.append("outer510 %s %d" % (n, v[2]))
        for r in v[3:]: ln("loop", r)
    return out


def attrs(m, i, pre="e"):
    e = m.ents[i]
    n = name(i, pre)
    out = []

    def sa(k, x): out.append("setattr %s %s %s" % (n, k, x))
    if e.label: sa("label", enc(e.label))
    sa("subscript", e.subscript)
    if isinstance(e.level, int) and e.level: sa("level", e.level)
    if isinstance(e.linefont, int) and e.linefont: sa("linefont", e.linefont)
    if e.weight: sa("weight", e.weight)
    if isinstance(e.color, Ref): out.append("link %s color %s" % (n, name(e.color.i, pre)))
    elif e.color: sa("color", e.color)
    if isinstance(e.transform, Ref): out.append("link %s transform %s" % (n, name(e.transform.i, pre)))
    if e.blank: sa("visible", 0)
    if e.subord: sa("depends", e.subord)
    if e.use: sa("use", e.use)
    if e.hier: sa("hier", e.hier)
    for c in e.comments: out.append("comment %s %s" % (n, enc(c)))
    if e.extras:
        for l in e.extras:
            for r in l: out.append("link %s opt %s" % (n, name(r.i, pre)))
    return out


def build(m, mod="m", pre="e", order=None):
    """Commands creating all entities of m in model `mod` (children first)."""
    out = []
    for k in ("minResolution", "maxLinewidthGrad", "maxLinewidth"):
        out.append("gset %s %s %r" % (mod, k, m.g[k]))
    for i in order or range(len(m.ents)):
        out.append("nent %s %d %s" % (mod, m.ents[i].type, name(i, pre)))
    for i in order or range(len(m.ents)):
        out += data(m, i, pre)
    for i in order or range(len(m.ents)):
        out += attrs(m, i, pre)
    return out


def compare(m, P, pair, tol):
    """As igeslib.compare_ents, apart from what the API derives itself: dependency status, the nearest standard colour of a
    definition, and the planarity and closedness of NURBS curves and surfaces (checked separately)."""
    A = []
    B = [b.copy() for b in P.ents]
    for i, e in enumerate(m.ents):
        e = e.copy()
        b = B[pair[i]]
        if e.type == 314: e.color = b.color
        if e.type in (308, 314): e.blank = b.blank
        if e.type == 126:
            e.params[2], e.params[3] = b.params[2], b.params[3]
            e.params[-3:] = b.params[-3:]
        if e.type == 128: e.params[4], e.params[5] = b.params[4], b.params[5]
        A.append(e)
    return I.compare_ents(A, B, pair, tol, fields=[x for x in I.DEF if x != "subord"])
