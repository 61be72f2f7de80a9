"""C03: reading and writing preserve entities, data and relationships."""
import os, re
from vlib import apigen, build, drive, corpus, gen, inspect, igeslib as I

DP = lambda b: [l for l in b.split(b"\n") if l[72:73] in (b"D", b"P")]


def norm(x):
    return re.sub(r"(entity|parameter) \d+", r"\1", re.sub(r"-?\d+\.\d*(e[-+]?\d+)?|Ref\([^)]*\)|'[^']*'", "#", x))[:90]


def run(c):
    exe = build.build("san", ("vh",))["vh"]
    c.rule = ("A case is a generated valid model over the 24 supported entity types, written by an independent writer in two random spellings (white space, "
              "line packing, defaulted fields, exponent letters, delimiters, line ends), read and written by the library, and read and written again. "
              "Oracle: independent parser and labelled-graph comparison by unique entity subscripts. Distinct: by content; non-trivial: the first read "
              "succeeded and at least two entities were compared.")
    c.assume = ["reals agree within the precision the writer documents (minimum resolution / 1000 for lengths, 1e-9 relative for weights)",
                "directory fields which the standard leaves without effect for an entity type may be normalised"]
    c.parallel(lambda sub, lo, hi: part(sub, lo, hi, exe), c.n(8000, 120000))
    c.parallel(lambda sub, lo, hi: views(sub, lo, hi, exe), c.n(3000, 60000))


def views(c, lo, hi, exe):
    """What the getters tell is what the file says, or what the setters were given."""
    d = c.dir("v")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd("view", i)
        api = i % 2
        if api:
            g = gen.Gen(r, minres=r.choice([1e-3, 1e-5, 1e-8]), props=False)
            for _ in range(r.randint(1, 3)): g.top(r.choice(apigen.TOPS))
            m = g.finish()
        else: m = corpus.model(r, what=r.choice([["inst"], ["trimmed"], ["brep"], None]))
        f = []
        if api:
            s = ["new m"] + apigen.build(m) + ["inspect " + " ".join(apigen.name(j) for j in range(len(m.ents)))]
        else:
            f = [os.path.join(d, "v%d.igs" % i)]
            open(f[0], "wb").write(I.write(m, gen.random_style(r)))
            s = ["new m", "read m " + f[0], "new q"] + ["gset q %s %r" % (k, m.g[k]) for k in ("maxLinewidthGrad", "maxLinewidth")] + [
                "export m q p", "inspect p"]
        cases.append((str(i), s))
        info[str(i)] = (m, f, s, api)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (m, f, s, api) in info.items():
        r = res[k]
        c.evals += 1
        if c.crash(r, f, s, exe, "inspection"):
            judge_view(c, m, f, s, api, r, exe)
        for p in f: os.unlink(p)


def judge_view(c, m, f, s, api, r, exe):
    bad = [q for q in range(len(s) - 1) if r.r(q) == "0"]
    if bad: return c.violation("view-refused", "a valid command was refused: %s" % s[bad[0]], f, s, exe)
    need, top = (None, ()) if api else inspect.exported(m)
    diff, n = inspect.compare(m, r.r(len(s) - 1), I.Tol(m.g["minResolution"]), api, need, top)
    if diff:
        return c.violation(("setters-" if api else "getters-") + norm(diff[0]), "\n".join(diff[:10]), f, s, exe)
    c.event("entities built and inspected" if api else "entities read and inspected", n)


def part(c, lo, hi, exe):
    d = c.dir("f")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd(i)
        m = corpus.model(r)
        m.start = ["case %d" % i]
        if r.random() < 0.3: m = gen.shuffle(m, r)
        f = [os.path.join(d, "i%d%s.igs" % (i, x)) for x in "ab"]
        o = [os.path.join(d, "o%d%s.igs" % (i, x)) for x in "abc"]
        st = [gen.random_style(r) for _ in f]
        if r.random() < 0.5: st[1].pd, st[1].rd = st[0].pd, st[0].rd
        by = [I.write(m, x) for x in st]
        for p, b in zip(f, by): open(p, "wb").write(b)
        s = ["new m", "read m " + f[0], "write m %s 1" % o[0], "clear m", "read m " + f[1], "write m %s 1" % o[1], "new q", "read q " + o[0],
             "write q %s 1" % o[2], "write m %s 1" % o[1]]
        cases.append((str(i), s))
        info[str(i)] = (m, f, o, s, hash(by[0]), st[0].pd + st[0].rd == st[1].pd + st[1].rd)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (m, f, o, s, h, same) in info.items():
        r = res[k]
        c.evals += 1
        if c.crash(r, f, s, exe, "round trip of a valid file"):
            judge(c, m, f, o, s, r, h, exe, same)
        for p in f + o:
            if os.path.exists(p): os.unlink(p)


def judge(c, m, f, o, s, r, h, exe, same):
    def bad(key, text):
        c.violation(key, text, f + o, s, exe)
    types = sorted({e.type for e in m.ents})
    for i, what in ((1, "read"), (2, "write"), (4, "second read"), (5, "second write"), (7, "read back"), (8, "write again"), (9, "repeated write")):
        if r.r(i) != "1":
            return bad("%s-failed" % what, "%s of a valid model reported failure (%s); types %s" % (what, r.r(i), types))
    B = [open(p, "rb").read() for p in o]
    P = [I.parse(b) for b in B]
    for k, p in enumerate(P):
        if p.errs:
            return bad("malformed-" + norm(p.errs[0]), "the written file %s is malformed: %s" % (o[k], p.errs[:5]))
    tol = I.Tol(m.g["minResolution"])
    pair, mi, xx, dup = I.match_by_subscript(m.ents, P[0].ents)
    if mi: return bad("missing-%s" % m.ents[mi[0]].type, "entities lost: %s" % [(i, m.ents[i].type) for i in mi])
    if xx or dup: return bad("extra", "entities added: %s %s" % (xx, dup))
    diff = I.compare_ents(m.ents, P[0].ents, pair, tol)
    if diff: return bad("diff-" + norm(diff[0]), "\n".join(diff[:10]))
    # spelling: the second file is the same model
    p2, mi, xx, dup = I.match_by_subscript(m.ents, P[1].ents)
    if mi or xx or dup: return bad("spelling-entities", "another spelling gave other entities: %s %s %s" % (mi, xx, dup))
    diff = I.compare_ents(m.ents, P[1].ents, p2, tol)
    if diff: return bad("spelling-" + norm(diff[0]), "\n".join(diff[:10]))
    if same and DP(B[0]) != DP(B[1]):
        dl = [(a, b) for a, b in zip(DP(B[0]), DP(B[1])) if a != b][:3]
        return bad("spelling-bytes", "two spellings of one model are written differently: %s" % dl)
    if not same:
        diff = order(P[0], P[1]) or I.compare_ents(P[0].ents, P[1].ents, {i: i for i in range(len(P[0].ents))}, I.Tol(0, 0))
        if diff: return bad("spelling-delimiters-" + norm(diff[0]), "the same model with other delimiters is written differently: %s" % diff[:5])
    if DP(B[0]) != DP(B[2]):
        # unit vectors may be normalised again: one unit of the last place
        diff = order(P[0], P[2]) or I.compare_ents(P[0].ents, P[2].ents, {i: i for i in range(len(P[0].ents))}, tol)
        if diff: return bad("not-idempotent-" + norm(diff[0]), "writing, reading and writing again gives another file: %s" % diff[:5])
        c.event("repeated round trips differing in a last digit")
    for t in types: c.event("type %d compared" % t)
    c.event("entities compared", len(m.ents))
    c.event("references compared", sum(len(list(e.refs())) for e in m.ents))
    if len(m.ents) > 1: c.distinct.add(h)
    c.sample(dict(types=types, entities=len(m.ents), first_lines=[l.decode("latin-1") for l in DP(B[0])[:3]]))


def order(A, B):
    a, b = [e.subscript for e in A.ents], [e.subscript for e in B.ents]
    return [] if a == b else ["order of entities %s became %s" % (a[:20], b[:20])]
