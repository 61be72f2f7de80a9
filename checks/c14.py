"""C14: the same scripts run under many locales; results, files and the locale itself compared."""
import os, re
from vlib import build, drive, corpus, gen, apigen, igeslib as I, mutate, idf, mutidf
from vlib.drive import enc

STAMP = re.compile(r"(?<=part)\d{17}|(?<=assy)\d{17}|\d{8}\.\d{6}\b|\b\d{4}/\d\d/\d\d?\.\d\d?:\d\d?:\d\d?")
DATE = re.compile(rb"15H\d{8}\.\d{6}|13H\d{6}\.\d{6}")
IDFDATE = re.compile(rb"\d{4}/\d\d/\d\d?\.\d\d?:\d\d?:\d\d?")


def content(p):
    """The file without the time of writing."""
    if not os.path.exists(p): return None
    b = open(p, "rb").read()
    if p.endswith(".igs"):
        L = b.split(b"\n")
        g = b"".join(l[:72] for l in L if l[72:73] == b"G")
        n = os.path.basename(p)
        return DATE.sub(b"", g).replace(n.encode(), re.sub(r"-\d", "-#", n).encode()), [l for l in L if l[72:73] != b"G"]
    return IDFDATE.sub(b"", b)


def iges_case(r, d, i):
    """Commands with $ for the names of output files, input files, kind."""
    s, ins = [], []
    k = r.random()
    if k < .55:
        m, st = corpus.valid(r)
        data = I.write(m, st)
        kind = "file"
        if r.random() < .25: data, log = mutate.mutate(data, r); kind = "broken file"
        f = os.path.join(d, "i%d.igs" % i)
        open(f, "wb").write(data)
        ins.append(f)
        s = ["new m", "read m " + f]
    else:
        g = gen.Gen(r, minres=r.choice([1e-3, 1e-5, 1e-8]), props=False)
        for _ in range(r.randint(1, 3)): g.top(r.choice(apigen.TOPS))
        m = g.finish()
        s = ["new m"] + apigen.build(m) + ["hdr m some%20header"]
        kind = "api"
        if r.random() < .4: s += ["gset m maxCoordinateValue %s" % r.choice(["1e5", "1234567.875", "1e15"])]
    for _ in range(r.randint(0, 2)): s.append(r.choice(["conv m %d" % r.choice([1, 2, 6, 9, 10]), "scale m %s" % r.choice(["0.5", "1e5", "12345.678"]), "partname m", "assyname m", "hdrs m", "exportlist m", "cull m"]))
    if r.random() < .2: s.append("read m " + (ins[0] if ins else "/nonexistent"))        # refused: the model is not empty, or there is no file
    if r.random() < .2: s.append("write m /nonexistent/x.igs 1")
    s.append("write m $.igs 1")
    if r.random() < .3: s.append("write m $.igs 0")                 # refused: it exists
    s += ["new q", "read q $.igs", "hdrs q", "gget q maxCoordinateValue", "gget q minResolution", "exportlist q"]
    if r.random() < .2: s += ["clear m", "write m $b.igs 1"]        # refused: empty
    if r.random() < .2: s += ["new z", "read z /nonexistent.igs"]
    return s, ins, kind


def idf_case(r, d, i):
    b = idf.Board(r)
    t = idf.Text(b, r)
    x, y = t.emn(), t.emp()
    kind = "board"
    if r.random() < .25: x, log = mutidf.mutate(x, r); kind = "broken board"
    p = os.path.join(d, "b%d" % i)
    open(p + ".emn", "wb").write(x)
    open(p + ".emp", "wb").write(y)
    s = ["load %s.emn %d 0 $.emn %d" % (enc(p), r.randrange(2), r.randrange(2)), "load $.emn 1 1"]
    if r.random() < .2: s.append("load /nonexistent.emn 1 1")
    if r.random() < .2: s.append("load %s.emn 1 1 /nonexistent/o.emn 1" % enc(p))
    return s, [p + ".emn", p + ".emp"], kind


def where(r, names):
    """A locale command."""
    k = r.randrange(7)
    a, b = r.choice(names), r.choice(names)
    return ["num " + a, "c " + a, "cpp " + a, "odd", "oddc " + a, "mix %s %s" % (a, b), "mix %s C" % a][k]


def run(c):
    P = build.build("san", ("vh", "vidf"))
    lp, names = build.locales()
    c.event("locales available", len(names))
    if not names: raise RuntimeError("no locale could be compiled")
    work = lambda kind, exe: (lambda sub, lo, hi: part(sub, lo, hi, kind, exe, lp, names))
    c.parallel(work("iges", P["vh"]), c.n(4000, 60000), batch=100)
    c.parallel(work("idf", P["vidf"]), c.n(1600, 25000), batch=100)
    c.parallel(work("conv", P["vidf"]), c.n(240, 5000), batch=15)
    c.rule = ("A case is a script (a valid or broken file read, or a model built through the API; units or scale changed; names made; written, also to places that refuse it; read "
              "again; boards loaded, written, loaded again; boards converted by the program) run once in the C locale and in 2 others: LC_NUMERIC or LC_ALL of the C library, the global "
              "C++ locale, or both, named or with a custom numeric facet; decimal comma, multi-byte decimal point, groups of 1, 2 and 3 digits, a name of more than 100 characters. "
              "Distinct: by script and locale.")
    c.assume = ["time stamps are not compared", "the converter program takes its locale from the environment"]


def part(sub, lo, hi, kind, exe, lp, names):
    d = sub.dir("f")
    info, plain, other = {}, [], []
    for i in range(lo, hi):
        r = sub.rnd(kind, i)
        if kind == "iges": s, ins, what = iges_case(r, d, i)
        elif kind == "idf": s, ins, what = idf_case(r, d, i)
        else:
            s, ins, what = idf_case(r, d, i)
            s = ["conv %s.emn" % enc(os.path.splitext(ins[0])[0])]
        locs = ["none"] + ([where(r, names), where(r, names)] if kind != "conv" else ["c " + r.choice(names)])
        info[i] = (s, ins, what, locs)
        for k, l in enumerate(locs):
            q = ["locale " + l, "qlocale"]
            for x in s:
                x = x.replace("$", enc(os.path.join(d, "o%d-%d" % (i, k))))
                q.append(x)
                if k: q.append("qlocale")
            (other if k else plain).append(("%d-%d" % (i, k), q))
    env = {"LOCPATH": lp}
    res = {}
    # the converter writes beside its input
    res.update(drive.run_chunk(exe, plain, sub.dir("run"), env))
    keep = {}
    if kind == "conv":
        for i, (s, ins, what, locs) in info.items():
            o = os.path.splitext(ins[0])[0] + ".igs"
            keep[i] = content(o)
            if os.path.exists(o): os.remove(o)
    res.update(drive.run_chunk(exe, other, sub.dir("run"), dict(env, LC_ALL=sub.rnd(kind, lo, "env").choice([n for n in names]))))
    for i, (s, ins, what, locs) in info.items():
        scripts = dict(plain + other) if False else None
        base = res["%d-0" % i]
        outs = lambda k: [os.path.join(d, "o%d-%d%s" % (i, k, x)) for x in (".igs", "b.igs", ".emn", ".emp")]
        drop = list(ins) + outs(0) + [os.path.splitext(ins[0])[0] + ".igs"] if ins else outs(0)
        for k, l in enumerate(locs):
            r = res["%d-%d" % (i, k)]
            sub.evals += 1
            q = next(x for n, x in (other if k else plain) if n == "%d-%d" % (i, k))
            files = [x for x in ins if os.path.exists(x)]
            if not sub.crash(r, files, q, exe, "locale %s" % l): break
            if r.r(0) != "1": raise RuntimeError("locale %s could not be set" % l)
            if not k: continue
            bad = None
            for j, x in enumerate(s):
                a, b = base.r(2 + j), r.r(2 + 2 * j)
                if a is None or b is None: bad = "no result of " + x; break
                p = lambda v, k: STAMP.sub("#", v.replace("o%d-%d" % (i, k), "OUT"))
                if p(a, 0) != p(b, k): bad = "%s: in the C locale %s, in locale %s %s" % (x[:80], p(a, 0)[:300], l, p(b, k)[:300]); break
                if kind != "conv" and r.r(3 + 2 * j) != r.r(1): bad = "%s changed the locale from %s to %s" % (x[:80], r.r(1), r.r(3 + 2 * j)); break
                sub.event("command " + x.split()[0])
            if not bad and kind == "conv":
                if keep[i] != content(os.path.splitext(ins[0])[0] + ".igs"): bad = "the converted files differ"
                elif keep[i]: sub.event("files compared")
            elif not bad:
                for x, y in zip(outs(0), outs(k)):
                    u, v = content(x), content(y)
                    if u != v: bad = "the files written in the C locale and in locale %s differ: %s" % (l, os.path.basename(y)); files += [z for z in (x, y) if os.path.exists(z)]; break
                    if u is not None: sub.event("files compared")
            drop += outs(k)
            if bad:
                sub.violation(" ".join(w for w in re.sub(r"[^A-Za-z ]", " ", bad).split()[:4]), "case %s %d (%s), locale %s\n%s" % (kind, i, what, l, bad), files, q, exe)
                break
            sub.event("locale " + l.split()[0])
            sub.event("workload " + what)
            sub.distinct.add((kind, i, l))
            if len(sub.samples) < 3: sub.sample(dict(workload=what, locale=l, before=r.r(1), script=[x.replace(d + "/", "") for x in q[2:16]], result=r.lines[2:14]))
        for x in drop:
            if os.path.exists(x): os.remove(x)
        if sub.enough(): break
