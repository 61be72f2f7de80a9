"""C04: Start and Global section data survive reading and writing."""
import os, re, string
from vlib import build, drive, gen, igeslib as I
from vlib.drive import enc, dec

PRINT = string.digits + string.ascii_letters + string.punctuation + "      "
OKDELIM = [x for x in map(chr, range(33, 127)) if x not in "+-.0123456789DEH"]
STRK = ["productIDSS", "fileName", "nativeSystemID", "preprocessorVersion", "productIDRS", "author", "organization", "applicationNote"]
LIBINT = dict(nIntegerBits=32, floatMaxExp=38, floatMaxSig=6, doubleMaxExp=308, doubleMaxSig=15)
SUPP = dict(nIntegerBits=(8, 32), floatMaxExp=(4, 308), floatMaxSig=(3, 16), doubleMaxExp=(4, 308), doubleMaxSig=(3, 16))    # others are rejected by design
UN = {1: "INCH", 2: "MM"}


def text(r, empty=True):
    k = r.random()
    if k < 0.12 and empty: return ""
    if k < 0.35: return r.choice(["a", "1H,", "H", "12H", ",", ";", ",;,;", "5Habcde", "D1.0", " lead", "trail ", "   ", "1.0E5", "3H", "0", "-", "'\"", "72H", "/", "|!"])
    n = r.choice([1, 3, 8, 20, 50, 60, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 100, 144, 300, r.randint(1, 400)])
    return "".join(r.choice(PRINT) for _ in range(n))


def date(r):
    y = r.randint(1980, 2099)
    mo = r.randint(1, 12)
    d = r.randint(1, 28) if r.random() < 0.6 else [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
    t = "%02d%02d.%02d%02d%02d" % (mo, d, r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]))
    return "%04d" % y + t if r.random() < 0.6 else "%02d" % r.randint(0, 99) + ("%02d%02d" % (mo, min(d, 28)) + t[4:])


def real(r, lo=-6, hi=6):
    k = r.random()
    if k < 0.3: return r.choice([1.0, 0.5, 2.0, 25.4, 1 / 25.4, 0.1, 1 / 3., 100.0, 1000.0, 0.001, 12.0])
    x = 10 ** r.uniform(lo, hi)
    return float("%.*g" % (r.randint(1, 15), x))


def start(r):
    n = r.choice([1, 1, 2, 3, 10, r.randint(1, 60)])
    return ["".join(r.choice(PRINT) for _ in range(r.choice([0, 1, 10, 71, 72, r.randint(0, 72)]))).rstrip() for _ in range(n)]


def pick_delims(r):
    k = r.random()
    if k < 0.3: return ",", ";"
    if k < 0.4: return ";", ","
    return tuple(r.sample(OKDELIM, 2))


def file_case(r):
    """A model with random global data. Returns (bytes, expected dict after reading, start lines)."""
    m = I.Model()
    m.start = start(r)
    st = gen.random_style(r)
    st.pd, st.rd = pick_delims(r)
    st.plus = False
    if set("de") & {st.pd, st.rd}: st.expo = "E"
    g = m.g
    for k in STRK: g[k] = text(r, k in ("author", "organization", "applicationNote", "productIDRS"))
    for k in ("nIntegerBits", "floatMaxExp", "floatMaxSig", "doubleMaxExp", "doubleMaxSig"):
        g[k] = r.randint(*SUPP[k]) if r.random() < 0.6 else LIBINT[k]
    g["modelScale"] = 1.0 if r.random() < 0.5 else real(r, -3, 3)
    u = g["unitsFlag"] = r.choice(list(I.UNITS)) if r.random() < 0.7 else 3
    g["unitsName"] = "furlong" if u == 3 else r.choice(["", I.UNITS[u][0]])
    g["maxLinewidthGrad"] = r.choice([1, 2, 8, 255, r.randint(1, 100000)])
    g["maxLinewidth"] = r.choice([0.0, 1.0, real(r, -4, 3)])
    g["creationDate"] = date(r)
    g["minResolution"] = real(r, -10, -1)
    g["maxCoordinateValue"] = r.choice([0.0, real(r, 0, 6)])
    g["igesVersion"] = r.choice([3, 6, 8, 9, 10, 11])
    g["draftStandard"] = r.randint(0, 7)
    g["modificationDate"] = r.choice(["", date(r)])
    toks = I.global_toks(g, st, ())
    x = {k: v for k, v in g.items() if k not in ("pd", "rd")}
    # defaulted fields
    dflt = dict(productIDRS=g["productIDSS"], modelScale=1.0, unitsFlag=1, unitsName=None, maxLinewidthGrad=1, maxCoordinateValue=0.0, author="", organization="",
                igesVersion=3, draftStandard=0, modificationDate="", applicationNote="")
    ks = I.GLOBAL_KEYS
    for i in range(2, 26):
        k = ks[i]
        if k in dflt and k != "unitsName" and r.random() < 0.15 and not (k == "unitsFlag" and u == 3):
            toks[i] = ""
            x[k] = dflt[k]
        elif g[k] == "": toks[i] = ""
    if x["productIDRS"] == "": x["productIDRS"] = x["productIDSS"]
    if r.random() < 0.3:        # early end of the record
        n = r.randint(19, 26)
        toks = toks[:n]
        for k in ks[n:]: x[k] = dflt[k]
    if st.pd == "," and r.random() < 0.5: toks[0] = ""
    if st.rd == ";" and r.random() < 0.5: toks[1] = ""
    # some geometry, far from any tolerance
    m.add(I.Ent(110, 0, [("R", 0.0), ("R", 0.0), ("R", 0.0), ("R", 1000.0), ("R", 2000.0), ("R", 3000.0)]))
    b = I.write(m, st, gtoks=toks)
    # what the model holds after reading
    s, u = x["modelScale"], x["unitsFlag"]
    f = 1.0
    if not 0.9999998 <= s <= 1.000001: f, x["modelScale"] = 1 / s, 1.0
    if u not in (2, 3): f *= I.UNITS[u][1]; x["unitsFlag"] = 2
    x["minResolution"] *= f
    x["maxLinewidth"] *= f
    x["maxCoordinateValue"] *= f
    if x["unitsFlag"] != 3: x["unitsName"] = {"MM", ""}
    x["pdelim"], x["rdelim"] = ord(st.pd), ord(st.rd)
    return b, x, m.start


def same(k, a, b):
    if isinstance(b, float): return abs(a - b) <= 1e-13 * abs(b)
    if isinstance(b, set): return a in b
    return a == b


def parse_gget(s):
    d = {}
    for t in s.split():
        k, v = t.split("=", 1)
        kind = I.GLOBAL_KIND.get(k, "I")
        d[k] = dec(v) if kind == "S" else float(v) if kind == "R" else int(v)
    return d


def cmp_read(x, line, what, skip=()):
    d = parse_gget(line)
    return ["%s: %s is %r, expected %r" % (what, k, d[k], v) for k, v in sorted(x.items()) if k not in skip and not same(k, d[k], v)]


DRE = re.compile(r"^\d{8}\.\d{6}$")


def written(x, fname):
    """What a file written from a model with these global data must contain."""
    w = dict(LIBINT)
    w["productIDSS"] = x["productIDSS"] or "none"
    w["fileName"] = fname
    w["nativeSystemID"] = x["nativeSystemID"] or "none"
    w["productIDRS"] = x["productIDRS"]
    for k in ("modelScale", "unitsFlag", "minResolution", "author", "organization", "draftStandard", "applicationNote"): w[k] = x[k]
    w["maxLinewidthGrad"] = max(1, x["maxLinewidthGrad"])
    w["maxLinewidth"] = x["maxLinewidth"] if x["maxLinewidth"] > 0 else 1.0
    w["igesVersion"] = 11
    w["maxCoordinateValue"] = 0.0
    w["creationDate"] = x["creationDate"] or None
    w["unitsName"] = x["unitsName"] if x["unitsFlag"] == 3 else I.UNIT_NAMES[x["unitsFlag"]]
    w["pd"], w["rd"] = chr(x["pdelim"]), chr(x["rdelim"])
    return w


def cmp_file(w, p, what):
    d = ["%s: malformed: %s" % (what, e) for e in p.errs[:3]]
    g = dict(p.g)
    for k in I.GLOBAL_KEYS: g.setdefault(k, None)
    for k in ("author", "organization", "applicationNote"): g[k] = g[k] or ""
    g["productIDRS"] = g["productIDRS"] or ""
    if w["productIDRS"] in ("", w["productIDSS"]): g["productIDRS"] = w["productIDRS"]
    for k, v in sorted(w.items()):
        if v is None:
            if not DRE.match(g[k] or ""): d.append("%s: %s is %r, not a date" % (what, k, g[k]))
        elif g[k] is None or not same(k, g[k], v): d.append("%s: %s is %r, expected %r" % (what, k, g[k], v))
    if not DRE.match(g["modificationDate"] or ""): d.append("%s: modification date is %r" % (what, g["modificationDate"]))
    if not (g["preprocessorVersion"] or "").startswith("libIGES"): d.append("%s: preprocessor is %r" % (what, g["preprocessorVersion"]))
    return d


def lines(s):
    t = s.split()
    return [dec(x).rstrip() for x in t[1:]]


def api_case(r):
    """gset commands, expected model data and Start lines."""
    x = dict(productIDSS="", nativeSystemID="", productIDRS="", author="", organization="", applicationNote="", modelScale=1.0, unitsFlag=2, unitsName="",
             maxLinewidthGrad=1, maxLinewidth=0.0, creationDate="", minResolution=1e-8, draftStandard=0, pdelim=44, rdelim=59)
    s, hd = [], []
    for k in ("productIDSS", "nativeSystemID", "productIDRS", "author", "organization", "applicationNote", "preprocessorVersion", "fileName", "modificationDate"):
        if r.random() < 0.6:
            v = text(r)
            s.append("gset m %s %s" % (k, enc(v)))
            if k in x: x[k] = v
    if r.random() < 0.4: x["modelScale"] = real(r, -3, 3); s.append("gset m modelScale %r" % x["modelScale"])
    if r.random() < 0.6:
        x["unitsFlag"] = r.choice(list(I.UNITS) + [3])
        s.append("gset m unitsFlag %d" % x["unitsFlag"])
        if x["unitsFlag"] == 3: x["unitsName"] = text(r, False); s.append("gset m unitsName " + enc(x["unitsName"]))
    if r.random() < 0.6: x["maxLinewidthGrad"] = r.choice([0, 1, 5, 32768, 2147483647]); s.append("gset m maxLinewidthGrad %d" % x["maxLinewidthGrad"])
    if r.random() < 0.6: x["maxLinewidth"] = r.choice([0.0, real(r, -4, 3)]); s.append("gset m maxLinewidth %r" % x["maxLinewidth"])
    if r.random() < 0.6: x["minResolution"] = real(r, -10, -1); s.append("gset m minResolution %r" % x["minResolution"])
    if r.random() < 0.5: x["draftStandard"] = r.randint(0, 7); s.append("gset m draftStandard %d" % x["draftStandard"])
    if r.random() < 0.5:
        d = date(r)
        if r.random() < 0.2:
            d = r.choice(["", "x", "20151301.000000", "20150100.000000", "2015010.1000000", "20150101.240000", "20150101.006000", "20150101,000000"])
            s.append("gset m creationDate " + enc(d))
        else: x["creationDate"] = d; s.append("gset m creationDate " + enc(d))
    if r.random() < 0.5:
        a, b = pick_delims(r)
        x["pdelim"], x["rdelim"] = ord(a), ord(b)
        s += ["gset m pdelim " + enc(a), "gset m rdelim " + enc(b)]
    for _ in range(r.choice([0, 1, 1, 2, 5, 20])):
        t = "".join(r.choice(PRINT) for _ in range(r.choice([0, 1, 10, 71, 72, 73, 143, 144, 145, r.randint(0, 400)])))
        s.append("hdr m " + enc(t))
        hd += [t[i:i + 72].rstrip() for i in range(0, len(t), 72)]
    return s, x, hd


def run(c):
    exe = build.build("san", ("vh",))["vh"]
    c.rule = ("Half of the cases read a file whose 26 Global parameters, delimiters, Start lines, spelling, defaulted fields and early record end are random, compare every "
              "field and line that the API returns with what the standard demands, write the model and compare the records of the new file, read by an independent parser; "
              "sometimes the model object has read another file before. The other half set the fields and Start lines through the API, and compare the written file and "
              "the model that is read back from it. Distinct: by content of the input file or script.")
    c.assume = ["documented normalisations: data are brought to millimetres and scale 1; the writer itself sets file name, preprocessor, number representation, version 11, "
                "maximum coordinate 0 and modification date, and fills required fields left empty"]
    c.parallel(lambda sub, lo, hi: part(sub, lo, hi, exe), c.n(30000, 900000))


def part(c, lo, hi, exe):
    d = c.dir("f")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd(i)
        f, o, pre = (os.path.join(d, "%s%d.igs" % (x, i)) for x in "iop")
        s = ["new m"]
        if i % 2:
            b, x, hd = file_case(r)
            if r.random() < 0.3:        # the object has been used before
                k = r.random()
                if k < 0.5:
                    open(pre, "wb").write(file_case(r)[0])
                    s += ["read m " + pre, "clear m"]
                elif k < 0.8: s += api_case(r)[0]
                else: s += api_case(r)[0] + ["clear m"]
            open(f, "wb").write(b)
            q = len(s)
            s += ["read m " + f, "gget m", "hdrs m", "write m %s 1" % o, "new z", "read z " + o, "gget z", "hdrs z"]
            ky = hash(b)
        else:
            a, x, hd = api_case(r)
            s += a
            s += ["nent m 110 e", "set e X2 1000.0"]
            q = len(s)
            s += ["nop", "nop", "hdrs m", "write m %s 1" % o, "new z", "read z " + o, "gget z", "hdrs z"]
            ky = hash("".join(s[1:q]))
        cases.append((str(i), s))
        info[str(i)] = (s, q, f, o, pre, x, hd, ky)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (s, q, f, o, pre, x, hd, ky) in info.items():
        r = res[k]
        c.evals += 1
        fl = [f, o, pre]
        api = int(k) % 2 == 0
        if c.crash(r, fl, s, exe, "handling global data"):
            c.distinct.add(ky)
            diff = []
            if not api and r.r(q) != "1": diff.append("read: a valid file was rejected")
            else:
                if not api:
                    x["fileName"] = os.path.basename(f)
                    diff += cmp_read(x, r.r(q + 1), "read")
                    if lines(r.r(q + 2)) != hd: diff.append("start: lines read are %r, expected %r" % (lines(r.r(q + 2))[:5], hd[:5]))
                elif lines(r.r(q + 2)) != hd: diff.append("start: lines of the model are %r, expected %r" % (lines(r.r(q + 2))[:5], hd[:5]))
                if r.r(q + 3) != "1": diff.append("write: refused")
                else:
                    p = I.parse(open(o, "rb").read())
                    w = written(x, os.path.basename(o))
                    diff += cmp_file(w, p, "file")
                    if hd and [l.rstrip() for l in p.start] != hd: diff.append("file start: %r, expected %r" % (p.start[:5], hd[:5]))
                    if not p.start: diff.append("file start: no lines")
                    if r.r(q + 5) != "1": diff.append("re-read: rejected")
                    else:
                        y = dict(x)
                        sc = 1.0
                        if not 0.9999998 <= y["modelScale"] <= 1.000001: sc, y["modelScale"] = 1 / y["modelScale"], 1.0
                        if y["unitsFlag"] not in (2, 3): sc *= I.UNITS[y["unitsFlag"]][1]; y["unitsFlag"] = 2
                        y["maxLinewidth"] = w["maxLinewidth"] * sc
                        y["minResolution"] *= sc
                        y["maxCoordinateValue"] = 0.0
                        y["maxLinewidthGrad"] = w["maxLinewidthGrad"]
                        for a in ("productIDSS", "nativeSystemID"): y[a] = w[a]
                        if not y["productIDRS"]: y["productIDRS"] = y["productIDSS"]
                        y["igesVersion"] = 11
                        y["fileName"] = os.path.basename(o)
                        if y["unitsFlag"] != 3: y["unitsName"] = {"MM"}
                        y.update(LIBINT)
                        sk = ["modificationDate", "preprocessorVersion"] + ([] if y["creationDate"] else ["creationDate"])
                        diff += cmp_read(y, r.r(q + 6), "re-read", sk)
                        if hd and lines(r.r(q + 7)) != hd: diff.append("re-read start: %r, expected %r" % (lines(r.r(q + 7))[:5], hd[:5]))
                    c.event("global parameters compared", 26 * 3)
                    c.event("Start lines compared", 3 * len(hd))
            c.event("API case" if api else "file case")
            for e in diff[:6]:
                key = re.sub(r" is .*", "", re.sub(r": ['\[{].*", "", e)) if ":" in e else e
                c.violation(key[:80], e[:600], fl, s, exe)
            if not diff: c.sample(dict(kind="api" if api else "file", globals={a: str(b)[:60] for a, b in x.items()}, start_lines=len(hd)))
        for p in fl:
            if os.path.exists(p): os.unlink(p)
