"""C12: hostile IDF input.  Oracle: sanitizers, leaks, uncaught exceptions, CPU limit, and what the converter leaves behind."""
import glob, os
from vlib import build, drive, fw, igeslib, idf, mutidf


def corpus():
    out = []
    for f in sorted(glob.glob(os.path.join(build.REPO, "samples/idftest/*.emn"))):
        g = f[:-3] + "emp"
        out.append((open(f, "rb").read(), open(g, "rb").read() if os.path.exists(g) else None))
    return out


def run(c):
    exe = build.build("san", ("vidf",))["vidf"]
    have = [x for x in corpus() if len(x[0]) < 3000]

    def work(sub, lo, hi):
        d = sub.dir("f")
        cases, info = [], {}
        for i in range(lo, hi):
            r = sub.rnd(i)
            if have and r.random() < .15: a, b = r.choice(have)
            else:
                t = idf.Text(idf.Board(r), r)
                a, b = t.emn(), t.emp()
            log = []
            k = r.random()
            if k < .6: a, l = mutidf.mutate(a, r); log += l
            elif k < .95 and b is not None: b, l = mutidf.mutate(b, r); log += ["lib " + x for x in l]
            elif k < .97: b = None; log.append("no library")
            p = os.path.join(d, "i%d" % i)
            open(p + ".emn", "wb").write(a)
            if b is not None: open(p + ".emp", "wb").write(b)
            conv = "conv %s.emn" % drive.enc(p)
            s = []
            if r.random() < .5: s.append("load %s.emn %d %d" % (drive.enc(p), r.randrange(2), r.randrange(2)) + (" %s.o.emn %d" % (drive.enc(p), r.randrange(2)) if r.random() < .6 else ""))
            if s and len(s[0].split()) > 4 and r.random() < .5: s.append("load %s.o.emn 1 1" % drive.enc(p))
            if r.random() < .2: s.append("twice %s.emn %s.emn" % (drive.enc(p), drive.enc(p)))
            if not s or r.random() < .8: s.append(conv)
            cases.append((str(i), s))
            info[i] = (p, s, log, hash((a, b)))
        res = drive.run_leaks(exe, cases, sub.dir("run"))
        for i, (p, s, log, h) in info.items():
            r = res[str(i)]
            sub.evals += 1
            files = [x for x in (p + ".emn", p + ".emp", p + ".igs", p + ".o.emn", p + ".o.emp") if os.path.exists(x)]
            if sub.crash(r, files, s, exe, "mutations: %s" % log):
                for x in log: sub.event("mutation " + x)
                bad = None
                for k, q in enumerate(s):
                    v, w = r.r(k), q.split()[0]
                    l = r.lines[k] if k < len(r.lines) else ""
                    if l.startswith("EXC"): bad = "uncaught exception: " + l
                    elif v == "0 nomessage": bad = "load failed without a message"
                    elif w == "load": sub.event("read: " + ("accepted" if v[:1] == "1" else "refused"))
                    elif w == "conv":
                        ok = v == "0"
                        there = os.path.exists(p + ".igs")
                        sub.event("conversion: " + ("done" if ok else "refused"))
                        if not ok and there: bad = "the conversion failed (status %s) but left a file" % v
                        elif ok and not there: bad = "the conversion reported success without a file"
                        elif ok:
                            P = igeslib.parse(open(p + ".igs", "rb").read())
                            E = [x for x in P.errs if "non-printing" not in x]       # names in the IDF file may have any byte
                            if E: bad = "the converted file is invalid: " + E[0]
                    if bad: break
                if bad: sub.violation(" ".join(bad.split()[:7]), "case %d, mutations %s\n%s" % (i, log, bad), files, s, exe)
                else: sub.distinct.add(h)
                if len(sub.samples) < 4 and r.r(-1 if False else len(s) - 1) == "0": sub.sample(dict(mutations=log, script=[x.replace(d + "/", "") for x in s], result=[x[:200] for x in r.lines[:4]]))
            for x in files: os.remove(x)
            if sub.enough(): break
    c.parallel(work, c.n(9000, 150000), batch=100)
    c.rule = ("A case is a generated valid board and library (or one of the sample boards) with 1-6 mutations of one of the two files at line, token, loop, section or byte level, "
              "loaded, written, loaded again into the same object, and converted. Distinct: by content.")
    c.assume = ["memory safety is observed by ASan/UBSan instrumentation of the IDF and IGES libraries; SISL is not instrumented",
                "a hang is more than 40 s of processor time for one small board"]
