"""C01: hostile IGES input.  Oracle: sanitizers, uncaught exceptions, CPU limit."""
import os
from vlib import build, drive, corpus, gen, igeslib as I, mutate


def follow(r, d, i, f):
    out = os.path.join(d, "o%s.igs" % i)
    ops = ["exportlist m", "conv m %d" % r.randint(1, 11), "scale m %s" % r.choice(["0.5", "25.4", "0", "-1", "1e300", "nan"]),
           "cull m", "compact m", "write m %s 1" % out, "hdrs m", "gget m modelScale", "unitname m", "clear m", "read m %s" % f, "exportlist m",
           "export m q e%s" % i]
    l = [r.choice(ops) for _ in range(r.randint(0, 4))]
    if any(x.startswith("export") for x in l): l.insert(0, "new q")
    return l, out


def run(c):
    exe = build.build("san", ("vh",))["vh"]
    c.rule = ("A case is a valid generated file (all supported entity types, random spelling) with 1-8 structural, record or byte mutations, read and then "
              "inspected, written, converted, culled, cleared, read again and destroyed. Distinct: by content. Non-trivial: the reader got past the Global section "
              "(it created entities, or rejected an entity).")
    c.assume = ["memory safety is observed by ASan/UBSan instrumentation of the library; SISL is not instrumented",
                "a hang is more than 40 s of processor time for one small file"]
    good = os.path.join(c.work, "good.igs")
    m, st = corpus.valid(c.rnd("good"))
    open(good, "wb").write(I.write(m, st))
    c.parallel(lambda sub, lo, hi: part(sub, lo, hi, exe, good), c.n(52000, 800000))
    edits = []
    for j in range(1 if c.tier == "quick" else 4):
        r = c.rnd("sweep", j)
        g = gen.Gen(r, minres=1e-6)
        for k in gen.Gen.TOP: g.top(k)
        edits += list(mutate.sweep(I.write(g.finish(), gen.Style(r))))
    c.parallel(lambda sub, lo, hi: part(sub, lo, hi, exe, good, edits), len(edits))


def part(c, lo, hi, exe, good, edits=None):
    d = c.dir("f")
    cases, info = [], {}
    base = None
    for i in range(lo, hi):
        r = c.rnd(i)
        if base is None or i % 8 == 0:
            m, st = corpus.valid(r)
            base = I.write(m, st)
        if edits: b, log = edits[i][1](), [edits[i][0]]
        else: b, log = mutate.mutate(base, r) if i % 8 or r.random() < 0.9 else (base, ["none"])
        f = os.path.join(d, "i%d.igs" % i)
        open(f, "wb").write(b)
        fo, out = follow(r, d, i, f)
        s = ["new m", "read m " + f] + fo
        if r.random() < 0.3: s += ["clear m", "read m " + good, "exportlist m"]
        s += ["del m"]
        cases.append((str(i), s))
        info[str(i)] = (f, s, log, out, hash(b))
    res = drive.run_leaks(exe, cases, c.dir("run"))
    for k, (f, s, log, out, h) in info.items():
        r = res[k]
        c.evals += 1
        if c.crash(r, [f, good], s, exe, "mutations: %s" % log):
            ok = r.r(1) == "1"
            c.event("read accepted" if ok else "read rejected")
            for x in log: c.event("mutation " + x.split("@")[0])
            for q, l in zip(s[2:], r.lines[2:]):
                c.event("follow-up %s: %s" % (q.split()[0], "done" if not l.startswith("EXC") else "exception"))
            exc = [l for l in r.lines if l.startswith("EXC")]
            if exc:
                c.violation("exception " + exc[0][:80], "mutations %s\nuncaught exception: %s" % (log, exc[0]), [f, good], s, exe)
            if ok or any(x.split("@")[0] not in ("g", "gdel", "gtrunc") for x in log): c.distinct.add(h)
            if len(c.samples) < 4 and ok and log != ["none"]:
                c.sample(dict(mutations=log, script=[x.replace(d + "/", "") for x in s], result=r.lines[:8]))
        for p in (f, out, os.path.splitext(out)[0]):
            if os.path.exists(p): os.unlink(p)
