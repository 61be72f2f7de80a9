"""C02: whatever the library reports as written is a well-formed IGES file that it can read back."""
import os, re
from vlib import build, drive, corpus, gen, igeslib as I, mutate, apigen
from vlib.drive import enc

XR = [0.0, -0.0, 1e-9, 9.9e-9, 1.1e-8, -1e-8, 5e-324, 1e-300, 1.0, -1.0, 0.1, 1 / 3., 123456789.125, 1e9, 2.0 ** 31, 1e12, 1e15, 9.99999999999999e15, 1e16,
      1.5e17, 1e20, 1e100, 1e300, 1.7976931348623157e308, -1e15, -123456789012.345, 99999999.99999999, 0.99999999999999, 9.999999999999999e22, "nan", "inf", "-inf"]
STR = ["", "a", "1H,", "H", "12H", ",", ";", ",;,;", "x" * 60, "y" * 64, "z" * 65, "long " * 50, "5Habcde", "D1.0", " lead", "trail ", "   ", "a" * 72, "b" * 200,
       "#", "E", "é", "tab\there", "nl\nx", "\x01", "\x7f"]
HDR = ["", " ", "x" * 72, "x" * 73, "y" * 200, "plain", "S      1", ";,", "nul\x01", "e\xe9", "two\nlines", "cr\r"]
DELIMS = [(",", ";"), ("/", ":"), ("|", "!"), ("@", ";"), ("#", "&"), (";", ","), (",", ","), ("1", ";"), ("+", ";"), ("H", ";"), (" ", ";"), (",", "."), ("(", ")")]


def api_case(r, i, o):
    g = gen.Gen(r, minres=r.choice([1e-3, 1e-5, 1e-8, 1e-12]), attrs=r.random() < 0.8, props=False)
    for _ in range(r.randint(1, 3)): g.top(r.choice(apigen.TOPS))
    m = g.finish()
    for e in m.ents:
        if r.random() < 0.2: e.comments = [r.choice(STR) for _ in range(r.randint(1, 3))]
        if r.random() < 0.1: e.label = r.choice(["12345678", "123456789", "a b", "x", " ", "0", "-1", "é", "a\tb", ",", ";;"])
    s = ["new m"] + apigen.build(m)
    n = len(m.ents)
    wild = r.choice([0, 0, 1, 2, 4])
    for _ in range(wild):      # extreme values
        k = r.randrange(n)
        e = m.ents[k]
        nm = apigen.name(k)
        if e.type in apigen.FIELDS: s.append("set %s %s %s" % (nm, r.choice(apigen.FIELDS[e.type].split()), r.choice(XR)))
        elif e.type == 502: s.append("vert502 %s %s %s %s" % (nm, r.choice(XR), r.choice(XR), r.choice(XR)))
        elif e.type == 308: s.append("sets %s %s" % (nm, enc(r.choice(STR))))
        elif e.type == 122: s.append("set %s LX %s" % (nm, r.choice(XR)))
        elif e.type == 142: s.append("set %s %s %d" % (nm, r.choice(["CRTN", "PREF"]), r.choice([-1, 0, 3, 4, 99999999])))
    for _ in range(r.choice([0, 0, 1, 3])):
        nm = apigen.name(r.randrange(n))
        k, hi = r.choice([("color", 8), ("linefont", 5), ("visible", 1), ("depends", 3), ("use", 6), ("hier", 2)])
        s.append("setattr %s %s %d" % (nm, k, r.randint(0, hi)) if r.random() < 0.5 else
                 "setattr %s %s %d" % (nm, r.choice(["level", "weight", "subscript"]), r.choice([-1, -99999999, 9999999, 10000000, 99999999, 100000000, 2147483647])))
    for _ in range(r.choice([0, 1, 1, 2])): s.append("hdr m " + enc(r.choice(HDR)))
    for _ in range(r.choice([0, 0, 1, 2])):
        k = r.choice(["productIDSS", "fileName", "nativeSystemID", "preprocessorVersion", "productIDRS", "author", "organization", "applicationNote", "creationDate",
                      "modificationDate", "unitsName"])
        s.append("gset m %s %s" % (k, enc(r.choice(STR))))
    if r.random() < 0.3:
        k = r.choice(["modelScale", "maxLinewidth", "minResolution", "maxCoordinateValue"])
        s.append("gset m %s %s" % (k, r.choice(XR)))
        wild = 1
    if r.random() < 0.15:
        k = r.choice(["nIntegerBits", "floatMaxExp", "floatMaxSig", "doubleMaxExp", "doubleMaxSig", "maxLinewidthGrad", "igesVersion"])
        s.append("gset m %s %d" % (k, r.choice([-1, 0, 1, 11, 32, 1000, 32768, 2147483647])))
    if r.random() < 0.2:
        p, q = r.choice(DELIMS)
        s += ["gset m pdelim " + enc(p), "gset m rdelim " + enc(q)]
    if r.random() < 0.2: s.append("scale m %s" % r.choice(["0.5", "25.4", "1e-6", "1e6"]))
    if r.random() < 0.2: s.append("conv m %d" % r.choice([1, 4, 5, 6, 7, 8, 9, 10, 11]))
    if r.random() < 0.3:
        s.append("delent m " + apigen.name(r.randrange(n)))
        wild = 1            # what is left of the parent may be an open contour
    if r.random() < 0.2: s.append("cull m")
    if r.random() < 0.2: s.append("compact m")
    return s, not wild


def file_case(r, base, f):
    b, log = mutate.mutate(base, r) if r.random() < 0.85 else (base, [])
    open(f, "wb").write(b)
    s = ["new m", "read m " + f]
    if r.random() < 0.2: s.append("conv m %d" % r.choice([1, 4, 5, 6, 7, 8, 9, 10, 11]))
    if r.random() < 0.2: s.append("scale m %s" % r.choice(["0.5", "25.4"]))
    if r.random() < 0.1: s.append("hdr m " + enc(r.choice(HDR)))
    if r.random() < 0.2: s += ["new q", "hdr q x", "export m q top", "del m", "new m", "write q @O 1"]
    return s


def run(c):
    exe = build.build("san", ("vh",))["vh"]
    c.rule = ("A case writes a model that was (a) built through the public API with ordinary and extreme values, strings, delimiters, attributes and edits, or (b) read "
              "from a valid or mutated file that the reader accepted, possibly edited or exported. Every file whose write was reported successful is parsed by an "
              "independent validator (record layout, sequence numbers, counts, pairing, tokens, pointer targets) and read back by the library. Distinct: by "
              "content of the written file; non-trivial: it was written.")
    c.assume = ["values that the API lets a program assign directly to public fields are within the machine's range; NaN and infinity must be refused by the writer"]
    c.parallel(lambda sub, lo, hi: part(sub, lo, hi, exe), c.n(16000, 240000))


def norm(x):
    return re.sub(r"'[^']*'", "S", re.sub(r"-?\d[\d.e+-]*", "#", x))[:100]


def part(c, lo, hi, exe):
    d = c.dir("f")
    cases, info = [], {}
    base = None
    for i in range(lo, hi):
        r = c.rnd(i)
        f, o, o2 = (os.path.join(d, "%s%d.igs" % (x, i)) for x in "iow")
        if i % 2:
            if base is None or i % 10 == 1:
                m, st = corpus.valid(r)
                base = I.write(m, st)
            s, sane = file_case(r, base, f), True
        else:
            s, sane = api_case(r, i, o)
        s = [x.replace("@O", o) for x in s]
        if not any(x.startswith("write") for x in s): s.append("write m %s 1" % o)
        w = [k for k, x in enumerate(s) if x.startswith("write")][0]
        s += ["new z", "read z " + o, "write z %s 1" % o2]
        cases.append((str(i), s))
        info[str(i)] = (s, f, o, o2, w, sane)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (s, f, o, o2, w, sane) in info.items():
        r = res[k]
        c.evals += 1
        if c.crash(r, [f, o], s, exe, "building and writing a model"):
            kind = "file" if int(k) % 2 else "api"
            exc = [l for l in r.lines if l.startswith("EXC")]
            if exc: c.violation("exception " + exc[0][:60], exc[0], [f, o], s, exe)
            elif kind == "file" and r.r(1) != "1":
                c.event("input rejected")
            elif r.r(w) == "1":
                c.event("written (%s)" % kind)
                try:
                    b = open(o, "rb").read()
                except OSError:
                    c.violation("no-file", "Write reported success but there is no file", [f], s, exe)
                    continue
                c.distinct.add(hash(b))
                p = I.parse(b)
                # garbage in, garbage out: what does not affect the structure
                p.errs = [x for x in p.errs if "non-printing" not in x and "knots decrease" not in x]
                if p.errs:
                    c.violation("malformed-" + norm(p.errs[0]), "a successfully written file is malformed: %s" % p.errs[:5], [f, o], s, exe)
                else:
                    for e in p.ents: c.event("type %d written" % e.type)
                    if not (sane and 1e-14 <= p.g["minResolution"] <= 1e3): c.event("degenerate geometry set through the API: reading it back is not demanded")
                    elif r.r(w + 2) != "1":
                        c.violation("not-readable", "the library cannot read the file it has written; types %s" % sorted({e.type for e in p.ents}), [f, o], s, exe)
                    elif r.r(w + 3) != "1":
                        c.violation("not-writable-again", "the file read back cannot be written; types %s" % sorted({e.type for e in p.ents}), [f, o], s, exe)
                    c.sample(dict(kind=kind, script=[x.replace(d + "/", "")[:100] for x in s[-14:]], entities=len(p.ents), bytes=len(b)))
            else:
                c.event("write refused (%s)" % kind)
        for p in (f, o, o2):
            if os.path.exists(p): os.unlink(p)
