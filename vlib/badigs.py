"""Writes a valid model with one item that has no meaning, so that the file must be refused."""
from . import gen, igeslib as I
from .igeslib import Ref

# where an entity of another kind cannot stand: (type, index) of parameters that must be a curve, a surface, ...
CURVES = {100, 102, 104, 110, 126}
SURF = {120, 122, 128, 144, 108}
WRONG = {   # slot -> a type that is never valid there
    102: (314, 124), 120: (314, 124), 122: (314, 124), 142: (314, 124), 144: (314, 124), 164: (314, 124), 180: (314, 124), 408: (314, 110, 124),
    504: (314, 124), 508: (314, 124), 510: (314, 124), 514: (314, 124), 186: (314, 124)}


def I_NA(t): return gen.NA.get(t, ())


def junk(r, o): return r.choice(["abc", "x" + o, "--" + o, "-", "NONE", "?", "$1", "e5"])


def spoil(m, st, r):
    """(bytes, description) or None"""
    kind = r.choice(["num", "num", "ptr", "ptr", "type", "few", "few", "many", "range", "range", "de", "de", "de2", "de2", "line", "sect", "count", "hol", "pdtype", "glob", "glob", "extra", "trans", "form", "form", "status"])
    m = m.copy()
    if kind == "glob":
        t = I.global_toks(m.g, st)
        # numbers of the Global section
        if r.random() < .5:
            # out of range
            dt = ["20201301.000000", "20200132.000000", "20200001.000000", "20200100.000000", "20200101.250000", "20200101.006100", "20200101.000061", "20200101000000", "2020010x.000000", "001301.000000", "x"]
            j, v = r.choice([(12, ["0.0", "-1.0"]), (13, ["0", "12", "-1"]), (15, ["0", "-3"]), (16, ["-1.0"]), (17, [I.hstr(x) for x in dt] + [""]), (18, ["0.0", "-1.0"]), (19, ["-1.0"]), (24, [I.hstr(x) for x in dt])])
            o, t[j] = t[j], r.choice(v)
            if j == 13 and o == "3": return None
            return I.write(m, st, gtoks=t), "glob: Global parameter %d: %r" % (j + 1, t[j])
        if r.random() < .2:
            k = r.randrange(2, 19)
            return I.write(m, st, gtoks=t[:k]), "glob: %d parameters" % k
        j = r.choice([6, 7, 8, 9, 10, 12, 13, 15, 16, 18])
        t[j] = r.choice(["abc", "x" + t[j], "--1", "-"] if j < 15 else ["abc", "-"])
        return I.write(m, st, gtoks=t), "glob: Global parameter %d: %r" % (j + 1, t[j])
    st.defaults = False
    idx = list(range(len(m.ents)))
    r.shuffle(idx)
    if kind in ("num", "ptr", "type", "few", "many", "hol", "extra", "range"):
        for i in idx:
            e = m.ents[i]
            if kind == "extra":
                if not e.extras or not e.extras[1]: continue
                e.extras = (list(e.extras[0]), list(e.extras[1]))
                e.extras[1][r.randrange(len(e.extras[1]))] = Ref(len(m.ents) + r.choice([0, 1, 40]))
                return I.write(m, st), "extra: additional pointer of entity %d (type %d) out of range" % (i, e.type)
            js = list(range(len(e.params)))
            r.shuffle(js)
            if kind == "range":
                # a number outside of the values which have a meaning
                c = []
                lo = {102: (0,), 406: (0,), 502: (0,), 504: (0,), 508: (0,), 514: (0,), 126: (0, 1), 128: (0, 1, 2, 3), 308: (2,), 510: (1,), 186: (2,), 154: (0, 1)}.get(e.type, ())
                c += [(j, r.choice(["-1", "-7"] + (["0"] if e.type in (102, 502, 504, 508, 514, 126, 154) else []))) for j in lo]
                c += [(j, r.choice(["2", "-1", "7"])) for j in range(len(e.params)) if e.params[j][0] == "B"]
                if e.type == 142: c += [(j, r.choice(["4", "-1", "7"])) for j in (0, 4)]
                if e.type == 144: c += [(1, r.choice(["2", "-1"]))]
                K = []
                if e.type == 126:
                    k, d = e.params[0][1], e.params[1][1]
                    K = [(6, k + d + 2)]
                    c += [(k + d + 8 + r.randrange(k + 1), r.choice(["-1.", "0."]))] * 4
                if e.type == 128:
                    k, k2, d, d2 = [e.params[q][1] for q in range(4)]
                    K = [(9, k + d + 2), (k + d + 11, k2 + d2 + 2)]
                for a, n in K:
                    j = a + r.randrange(1, n)
                    c += [(j, repr(e.params[j - 1][1] - r.choice([1, .125, 1e3])))] * 4
                if e.type == 508:
                    j = 1
                    while j < len(e.params):
                        c.append((j + 2, r.choice(["0", "-1"])))
                        j += 5 + 2 * e.params[j + 4][1]
                if not c: continue
                j, v = r.choice(c)
                o = e.params[j]
                e.params[j] = ("T", v)
                return I.write(m, st), "range: parameter %d of entity %d (type %d) %r became %s" % (j + 1, i, e.type, o[1], v)
            if kind == "few":
                n = len(e.params)
                if e.extras: continue
                opt = {154: 6, 164: 3, 408: 4, 314: 1, 108: 5, 126: 3}.get(e.type, 0)
                if n - opt < 2: continue
                k = r.randrange(1, n - opt)
                if e.type in (308, 180, 102, 142, 406, 124, 502): pass
                e.params = e.params[:k]
                return I.write(m, st), "few: %d of %d parameters of entity %d (type %d)" % (k, n, i, e.type)
            if kind == "many":
                # a count larger than the number of items
                c = {102: 0, 308: 2, 502: 0, 504: 0, 508: 0, 510: 1, 514: 0, 180: 0, 186: 2, 144: 2}.get(e.type)
                if c is None or e.extras or e.comments: continue
                e.params[c] = ("I", e.params[c][1] + r.choice([2, 5, 100]))
                return I.write(m, st), "many: count %d of entity %d (type %d)" % (e.params[c][1], i, e.type)
            for j in js:
                k, v = e.params[j]
                if kind == "num" and k in "LRAIB":
                    e.params[j] = ("T", junk(r, I.tok(k, v, I.Style())))
                elif kind == "hol" and k == "S" and v:
                    o = I.hstr(v)
                    e.params[j] = ("T", r.choice(["%d%s" % (len(v), v.replace(st.pd, " ").replace(st.rd, " ").replace("H", " ")), "xH" + o]))
                elif kind == "ptr" and k == "P" and isinstance(v, Ref) and v.i is not None:
                    e.params[j] = ("T", r.choice(["abc", "x3", str(2 * v.i), str(2 * len(m.ents) + r.choice([1, 3, 101])), "999999"]))
                    if v.neg: e.params[j] = ("T", "-" + e.params[j][1])
                elif kind == "type" and k == "P" and isinstance(v, Ref) and v.i is not None and e.type in WRONG:
                    l = [q for q, x in enumerate(m.ents) if x.type in WRONG[e.type]]
                    if not l: continue
                    q = r.choice(l)
                    e.params[j] = ("P", Ref(q, v.neg))
                else: continue
                return I.write(m, st), "%s: parameter %d of entity %d (type %d) %r became %r" % (kind, j + 1, i, e.type, v, e.params[j][1])
        return None
    b = I.write(m, st)
    nl = b"\r\n" if st.crlf else b"\n"
    L = b.split(nl)
    D = [k for k, l in enumerate(L) if l[72:73] == b"D"]
    P = [k for k, l in enumerate(L) if l[72:73] == b"P"]

    def done(w): return nl.join(L), kind + ": " + w
    if kind == "de":
        # a field of the directory entry which is no number
        k = r.choice(D)
        # fields which the standard leaves without effect are not looked at, and a line weight is replaced on purpose
        na = I_NA(m.ents[(k - D[0]) // 2].type)
        fs = [f for f, n in ((0, "type"), (1, "pd"), (2, "structure"), (3, "linefont"), (4, "level"), (5, "view"), (6, "transform"), (7, "labelassoc")) if n not in na] \
            if (k - D[0]) % 2 == 0 else [f for f, n in ((0, "type"), (2, "color"), (3, "count"), (4, "form"), (8, "sub")) if n not in na]
        f = r.choice(fs)
        o = L[k]
        L[k] = o[:8 * f] + r.choice([b"     abc", b"      x1", b"    1.5x", b"       -", b"      --", b"     1 2"]) + o[8 * f + 8:]
        return done("field %d of line %d of the directory: %r" % (f, k - D[0], L[k]))
    if kind in ("form", "status"):
        j = r.randrange(len(m.ents))
        e = m.ents[j]
        if kind == "form":
            sh = [q for q, x in enumerate(m.ents) if x.type == 514 and x.form == 1 and any(y.type == 186 and any(isinstance(p[1], Ref) and p[1].i == q for p in y.params) for y in m.ents)]
            if sh and r.random() < .8: j, v = r.choice(sh), 2
            else: v = r.choice([99, -2, 13, 50])
            k, f, t = D[0] + 2 * j + 1, 4, b"%8d" % v
            w = "form of entity %d (type %d): %d" % (j, m.ents[j].type, v)
        else:
            k, f, q = D[0] + 2 * j, 8, r.choice([(2, 4), (4, 7), (6, 4)])
            t = bytearray(L[k][64:72].replace(b" ", b"0")); t[q[0]:q[0] + 2] = b"%02d" % r.choice([q[1], q[1] + 5, 99]); t = bytes(t)
            w = "status of entity %d (type %d): %s" % (j, e.type, t.decode())
        L[k] = L[k][:8 * f] + t + L[k][8 * f + 8:]
        return done(w)
    if kind == "de2":
        k = r.choice(D)
        o = L[k]
        na = I_NA(m.ents[(k - D[0]) // 2].type)
        if (k - D[0]) % 2 == 0:
            f, v = r.choice([(6, "%8d" % (2 * r.randrange(1, len(m.ents) + 1))), (3, "%8d" % -(2 * len(m.ents) + 7)), (4, "%8d" % -(2 * len(m.ents) + 7)), (1, "%8d" % (len(P) + r.choice([1, 50]))), (1, "       0"), (6, "%8d" % (2 * len(m.ents) + 1)), (1, "      -1"), (0, "     999")])
        else: f, v = r.choice([(2, "%8d" % -(2 * r.randrange(1, len(m.ents) + 1))), (3, "%8d" % (len(P) + 1)), (0, "     112"), (3, "       0"), (3, "      -1"), (2, "%8d" % -(2 * len(m.ents) + 1))])
        if f == 6 and "transform" in na or f == 3 and "linefont" in na or f == 4 and "level" in na or f == 2 and ("color" in na or "color_def" in na): return None
        L[k] = o[:8 * f] + v.encode() + o[8 * f + 8:]
        return done("field %d of line %d of the directory: %s" % (f, k - D[0], v))
    if kind == "line":
        k = r.choice(D + P)
        if r.random() < .5: del L[k]; return done("line %d removed" % k)
        L.insert(k, L[k]); return done("line %d twice" % k)
    if kind == "trans":
        del L[-2]
        return done("no Terminate section")
    if kind == "sect":
        k = r.choice(D + P)
        o = L[k]
        L[k] = o[:72] + r.choice([b"X", b"S", b"G", b"T", b" "]) + o[73:]
        return done("section letter of line %d: %r" % (k, L[k][72:]))
    if kind == "count":
        # the sequence number
        k = r.choice(range(len(L) - 2))
        o = L[k]
        L[k] = o[:73] + b"%7d" % (int(o[73:80]) + r.choice([1, -1, 10]))
        return done("sequence number of line %d" % k)
    if kind == "pdtype":
        k = r.choice([k for k in P if k == P[0] or L[k][64:72] != L[k - 1][64:72]])
        o = L[k]
        n = len(o.split(st.pd.encode())[0]) if st.pd != " " else 3
        L[k] = b"999" [:n].ljust(n) + o[n:]
        return done("type in line %d: %r" % (k, L[k][:30]))
    return None
