"""Compares what the getters of the library tell (command `inspect` of harness/vh.cpp) with a generated model."""
import re
from .drive import dec
from .igeslib import Ref
from .apigen import FIELDS

SCAL = dict(FIELDS)
SCAL[164] = "L I1 J1 K1"


def parse(s):
    """subscript -> (type, form, attributes, data, comments, links)"""
    out, dup = {}, []
    if s == "-": return out, dup
    for x in s.split(" "):
        sub, t, form, at, dat, com, links = dec(x).split("|")
        l = {}
        for y in links.split(";"):
            if y:
                k, v = y.split("=")
                l[k] = [int(z) for z in v.split(",")]
        com = dec(com)
        v = (int(t), int(form), dict(y.split("=", 1) for y in at.split()), dec(dat), com, l)
        if int(sub) in out: dup.append(int(sub))
        out[int(sub)] = v
    return out, dup


def expected(m, e, api):
    """attributes, numbers [(kind, value)], text and links of entity e"""
    S = lambda r: m.ents[r.i].subscript
    at = dict(linefont=e.linefont, level=e.level, weight=e.weight, subscript=e.subscript, visible=int(not e.blank), use=e.use, hier=e.hier,
              color=-1 if isinstance(e.color, Ref) else e.color)
    if not api: at["depends"] = e.subord
    t = e.type
    if t in (308, 314) and api: del at["visible"], at["use"]
    if t == 314 and api: del at["color"]
    L = {}
    if isinstance(e.color, Ref): L["color"] = [S(e.color)]
    if isinstance(e.transform, Ref): L["transform"] = [S(e.transform)]
    if e.extras and e.extras[0] + e.extras[1]: L["opt"] = [S(r) for r in e.extras[0] + e.extras[1]]
    v, kv = [p[1] for p in e.params], e.params
    num, text = [], None

    def sl(k, *r):
        r = [S(x) for x in r if x.i is not None]
        if r: L[k] = r
    if t in SCAL: num = dict(zip(SCAL[t].split(), kv[1:] if t == 164 else kv))
    if t == 102: sl("seg", *v[1:])
    elif t == 120: sl("L", v[0]); sl("C", v[1]); num = {"SA": kv[2], "TA": kv[3]}
    elif t == 122: sl("DE", v[0]); num = dict(zip(("LX", "LY", "LZ"), kv[1:]))
    elif t == 126:
        K, M, rat = v[0], v[1], v[4] == 0
        q = kv[6:8 + K + M]
        w = kv[8 + K + M:9 + 2 * K + M]
        p = kv[9 + 2 * K + M:12 + 5 * K + M]
        num = [("I", K + 1), ("I", M + 1), ("I", int(rat)), kv[12 + 5 * K + M], kv[13 + 5 * K + M]] + q
        for j in range(K + 1): num += p[3 * j:3 * j + 3] + ([("W", w[j][1])] if rat else [])
    elif t == 128:
        K1, K2, M1, M2 = v[:4]
        rat = v[6] == 0
        o = 9
        q = kv[o:o + K1 + M1 + K2 + M2 + 4]; o += len(q)
        n = (K1 + 1) * (K2 + 1)
        w = kv[o:o + n]; p = kv[o + n:o + 4 * n]
        num = [("I", K1 + 1), ("I", K2 + 1), ("I", M1 + 1), ("I", M2 + 1), ("I", int(rat))] + q
        for j in range(n): num += p[3 * j:3 * j + 3] + ([("W", w[j][1])] if rat else [])
    elif t == 142: sl("SPTR", v[1]); sl("BPTR", v[2]); sl("CPTR", v[3]); num = [kv[0], kv[4]]
    elif t == 144:
        sl("PTS", v[0])
        if v[1]: sl("PTO", v[3])
        sl("PTI", *v[4:])
    elif t == 164: sl("curve", v[0])
    elif t == 180:
        sl("arg", *[x for x in v[1:] if isinstance(x, Ref)])
        text = "".join("%d:%d;" % (i, x) for i, x in enumerate(v[1:]) if not isinstance(x, Ref))
    elif t == 308: text = v[1]; sl("DE", *v[3:])
    elif t == 314:
        num = dict(zip(("red", "green", "blue"), kv)); text = v[3]
    elif t == 406: text = v[1]
    elif t == 408: sl("DE", v[0]); num = dict(zip("XYZS", kv[1:]))
    elif t == 502: num = kv[1:]
    elif t == 504:
        a = [v[1 + 5 * j:6 + 5 * j] for j in range(v[0])]
        sl("ecurv", *[x[0] for x in a]); sl("evert", *[y for x in a for y in (x[1], x[3])])
        num = [("I", y) for x in a for y in (x[2], x[4])]
    elif t == 508:
        k, ed, pc = 1, [], []
        for _ in range(v[0]):
            n = v[k + 4]
            ed.append(v[k + 1])
            num += [("I", v[k]), ("I", v[k + 2]), ("I", v[k + 3])]
            for j in range(n):
                num.append(("I", v[k + 5 + 2 * j])); pc.append(v[k + 6 + 2 * j])
            k += 5 + 2 * n
        sl("edge", *ed); sl("pcurve", *pc)
    elif t == 510: sl("surf", v[0]); sl("loop", *v[3:]); num = [("I", v[2])]
    return at, num, text, L


def exported(m):
    """What Export packs into a subfigure definition: the instances of the top level, or the surfaces, or the solids."""
    used = {r.i for e in m.ents for _, r in e.refs()}
    for t in (408, 144, 186):
        l = [i for i, e in enumerate(m.ents) if e.type == t and i not in used]
        if l: break
    seen, todo = set(), list(l)
    while todo:
        i = todo.pop()
        if i in seen: continue
        seen.add(i)
        # the parameters of a solid cannot be inspected
        todo += [r.i for k, r in m.ents[i].refs() if m.ents[i].type != 186 or k[0] != "p"]
    return sorted(seen), l


def compare(m, s, tol, api=False, need=None, top=()):
    """Differences between model m and the inspection s. need: indices which must be there (default: every entity)"""
    G, dup = parse(s)
    G.pop(0, None)
    diff = []
    if dup: diff.append("entities met twice: %s" % dup)
    by = {e.subscript: e for e in m.ents}
    for k in sorted(G):
        if k not in by: diff.append("an entity %d (type %d) is presented which does not exist" % (k, G[k][0]))
    for i in range(len(m.ents)) if need is None else need:
        if m.ents[i].subscript not in G: diff.append("entity %d (type %d) is not reachable" % (i, m.ents[i].type))
    n = 0
    for k, (t, form, at, dat, com, L) in sorted(G.items()):
        if k not in by: continue
        e = by[k]
        w = "entity %d (type %d)" % (k, e.type)
        if (t, form) != (e.type, e.form):
            diff.append("%s: type and form %s presented as %s" % (w, (e.type, e.form), (t, form)))
            continue
        xa, num, text, xl = expected(m, e, api)
        for f, x in xa.items():
            if f == "depends" and m.ents.index(e) in top: continue        # changed by the export
            if int(at[f]) != x: diff.append("%s: %s %r presented as %s" % (w, f, x, at[f]))
        if dec(at["label"]) != e.label: diff.append("%s: label %r presented as %r" % (w, e.label, dec(at["label"])))
        if L.get("color") and t == 314 and api: L.pop("color")
        if L != xl: diff.append("%s: links %s presented as %s" % (w, xl, L))
        c = "".join("/" + x.rstrip() for x in e.comments)
        if re.sub(r" +(?=/|$)", "", com) != re.sub(r" +(?=/|$)", "", c): diff.append("%s: comments %r presented as %r" % (w, c, com))
        if isinstance(num, dict):
            g = {}
            for y in num: pass
            for y in re.findall(r"([A-Za-z]\w*)=([^,]*),", dat[:dat.rfind(",") + 1] if t != 314 else ",".join(dat.split(",", 3)[:3]) + ","):
                g[y[0]] = float(y[1])
            rest = dat.split(",", 3)[3] if t == 314 else None
            pairs = [(f, kx, g.get(f)) for f, kx in num.items()]
            extra = set(g) - set(num)
            if extra: diff.append("%s: fields %s presented" % (w, sorted(extra)))
        else:
            rest = dat
            pairs = []
            if num:
                g = [float(y) for y in re.split("[,;]", dat) if y]
                if len(g) != len(num):
                    diff.append("%s: %d numbers presented as %d" % (w, len(num), len(g)))
                    continue
                pairs = [(j, kx, y) for j, (kx, y) in enumerate(zip(num, g))]
        for f, (kd, x), y in pairs:
            if y is None: ok = False
            elif kd == "W": ok = abs(x - y) <= 1e-9 * max(1.0, abs(x))
            elif kd == "L": ok = tol.ok(x, y)
            elif kd in "RA": ok = tol.okr(x, y, t)
            else: ok = x == y
            if not ok:
                diff.append("%s: %s %r presented as %r" % (w, f, x, y))
                break
        if text is not None and rest != text: diff.append("%s: text %r presented as %r" % (w, text, rest))
        n += 1
    return diff, n
