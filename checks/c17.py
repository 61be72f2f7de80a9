"""C17: the same scripts under different memory contents, placements and histories of the process; results and files compared."""
import os, re, subprocess
from vlib import build, drive, corpus, gen, apigen, igeslib as I, mutate, idf
from vlib.drive import enc
from checks import c05, c06, c07, c10, c11, c14, c16

STAMP = re.compile(r"(?<=part)\d{17}|(?<=assy)\d{17}|\d{8}\.\d{6}\b|\b\d{4}/\d\d/\d\d?\.\d\d?:\d\d?:\d\d?")


def bare(r, i, d):
    """Entities of every type, without data or with a part of them."""
    cmds = ["new m", "new q"]
    ents = []
    for k in range(r.randint(1, 12)):
        t = r.choice(c16.WT + c16.NOW)
        n = "e%d" % k
        if r.random() < .3: cmds.append("mkent %d %s" % (t, n))
        else: cmds.append("nent m %d %s" % (t, n))
        ents.append((n, t))
    cmds.append("gdump")
    for _ in range(r.choice([0, 3, 10])):
        n, t = r.choice(ents)
        cmds.append(c16.change(r, n, t, ents))
    cmds += c16.queries(r, ents, True)
    cmds += ["gdump", "conv m %d" % r.choice([1, 2, 3, 10]), "scale m 2"]
    f = os.path.join(d, "o%d.igs" % i)
    cmds += ["write m %s 1" % f, "gdump", "export m q p", "gdump", "write q %s 1" % f.replace(".igs", "b.igs"), "gdump", "cull m", "gdump"]
    return cmds, [f, f.replace(".igs", "b.igs")]


def same_d(r, i, d):
    """As in C14: files, also broken ones, models and boards."""
    s, ins, what = c14.iges_case(r, d, i)
    if what == "file" and r.random() < .6:
        data, log = mutate.mutate(open(ins[0], "rb").read(), r)
        open(ins[0], "wb").write(data)
    o = os.path.join(d, "o%d" % i)
    return [x.replace("$", enc(o)) for x in s if x.split()[0] not in ("partname", "assyname")], [o + ".igs", o + "b.igs"] + ins


def boards(r, i, d):
    s, ins, what = c14.idf_case(r, d, i)
    o = os.path.join(d, "o%d" % i)
    s = [x.replace("$", enc(o)) for x in s]
    p = os.path.splitext(ins[0])[0]
    if r.random() < .25: s.append("conv %s.emn" % enc(p))
    return s, [o + ".emn", o + ".emp", p + ".igs"] + ins


def wraps(r, i, d):
    s, files = c16.same_script(r, i, d)
    p = os.path.join(d, "%d" % i)
    return [x.replace("@@", p) for x in s], [p + f for f in files]


def hist(r, i, d):
    how = r.choice(["api", "file", "empty"])
    m = corpus.model(r, what=apigen.TOPS if how != "file" else ["brep", "trimmed", "inst"] + gen.Gen.TOP, ntop=1)
    while len(m.ents) > 40: m = corpus.model(r, what=["trimmed", "line", "inst"], ntop=1)
    s, ops, files, _ = c06.history(r, m, r.choice([12, 30]), d, i, how)
    return s, files


def exports(r, i, d):
    st = c07.story(r, i, d)
    return st.s, st.files


def curves(r, i, d):
    p = os.path.join(d, "c%d.igs" % i)
    st = c11.Story(r, p)
    return st.cmds, [p]


def content(p):
    """The file without the time of writing and the names made from it."""
    v = c14.content(p)
    if not v or not p.endswith(".igs"): return v
    text = b"".join(l[:64] for l in v[1] if l[72:73] == b"P")
    return v[0], re.sub(rb"(part|assy)\d{17}", rb"\1#", text), [l[64:] if l[72:73] == b"P" else l for l in v[1]]


class NoCount(object):
    def __getattr__(self, n): return lambda *a, **k: None


def shapes_(r, i, d):
    p = os.path.join(d, "s%d" % i)
    if r.random() < .2:
        st = c10.Single(r, p + "s.igs")
        return st.cmds, [p + "s.igs"]
    return [x.replace("@@", p) for x in c16.gscript(NoCount(), r, d)], [p + "s.igs"]


KINDS = [("vh", "bare", bare, 1600, 40000), ("vh", "files and models", same_d, 1600, 40000), ("vh", "changes", wraps, 500, 12000), ("vh", "histories", hist, 500, 12000),
         ("vh", "exports", exports, 500, 12000), ("vh", "curves", curves, 800, 20000), ("vg", "outlines", shapes_, 1200, 30000), ("vidf", "boards", boards, 400, 10000)]


def part(sub, lo, hi, kind, gen_, exes, pre):
    A, B = [sub.dir(x) for x in ("f0", "f1")]
    info, ca, cb = {}, [], []
    for i in range(lo, hi):
        (a, fa), (b, fb) = [gen_(sub.rnd(kind, i), i, d) for d in (A, B)]
        info[i] = (a, fa, b, fb)
        ca.append((str(i), a))
        cb.append((str(i), b))
    r = sub.rnd(kind, lo, "memory")
    fill = r.choice(["65", "255", "r", "r", "1"])
    ea = dict(LD_PRELOAD=pre, VMEM_FILL="0", VMEM_STACK="0")
    eb = dict(LD_PRELOAD=pre, VMEM_FILL=fill, VMEM_STACK=r.choice(["65", "255", "1", "170"]), VMEM_SHUF=str(r.randint(1, 10 ** 6)))
    ra = drive.run_chunk(exes[0], ca, sub.dir("run"), ea)
    rb = drive.run_chunk(exes[1], cb[::-1], sub.dir("run"), eb)
    for i, (a, fa, b, fb) in info.items():
        x, y = ra[str(i)], rb[str(i)]
        sub.evals += 1
        what = "%s, memory holds %s, order of blocks %s" % (kind, fill, eb["VMEM_SHUF"])
        bad = None
        if sub.crash(x, [f for f in fa if os.path.isfile(f)], a, exes[0], kind) and sub.crash(y, [f for f in fb if os.path.isfile(f)], b, exes[1], what):
            for k, cmd in enumerate(a):
                w = cmd.split()
                if w[0] in ("partname", "assyname"): continue
                p, q = [STAMP.sub("#", c16.TIME.sub("", (z.r(k) or "").replace(d + "/", ""))) for z, d in ((x, A), (y, B))]
                if p != q:
                    bad = ("%s%s" % (w[0], "-" + w[2] if w[0] in ("link", "links", "set", "get", "setattr", "gset") and len(w) > 2 else ""),
                           "command %d: %s\nmemory of zeros: %s\nother memory:    %s" % (k, cmd[:500], p[:1500], q[:1500]))
                    break
                sub.event("answers compared")
            else:
                for p, q in zip(fa, fb):
                    u, v = content(p), content(q)
                    if u != v:
                        bad = ("file", "the files %s and %s differ" % (p, q))
                        break
                    if u: sub.event("files compared")
            if bad:
                sub.violation("%s-%s" % (kind.replace(" ", "-"), bad[0]), "case %d (%s), environment %s\n%s" % (i, what, eb, bad[1]), [f for f in fa + fb[:2] if os.path.isfile(f)], b, exes[1])
            else:
                sub.event("scripts: " + kind)
                sub.event("memory filled with " + {"r": "random bytes"}.get(fill, "byte " + fill))
                sub.distinct.add((kind, i))
                if i % 200 == 0: sub.sample(dict(kind=kind, commands=len(a), last=[z.replace(A + "/", "") for z in a[-8:]]))
        for f in fa + fb:
            if os.path.isfile(f): os.remove(f)
        if sub.enough(): break


def memcheck(sub, lo, hi, kind, gen_, exe):
    """The same kinds of scripts under valgrind's memcheck, which follows every byte that was never set to where it matters."""
    d = sub.dir("v")
    sp, op, log = [os.path.join(d, x) for x in ("s.in", "s.out", "s.log")]
    cmds, files = [], []
    for i in range(lo, hi):
        a, fa = gen_(sub.rnd(kind, i, "memcheck"), i, d)
        cmds += ["CASE %d" % i] + a + ["END"]
        files += fa
    open(sp, "w", encoding="latin-1").write("\n".join(cmds) + "\n")
    if os.path.exists(op): os.remove(op)
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": d, "VH_CPU": "2000"}
    try:
        rc = subprocess.run(["valgrind", "-q", "--leak-check=no", "--track-origins=yes", "--num-callers=12", "--log-file=" + log, exe, sp, op], env=env,
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600, cwd=d).returncode
        text = open(log, errors="replace").read() if os.path.exists(log) else ""
        done = os.path.exists(op) and open(op, errors="replace").read().rstrip().endswith("DONE")
    except subprocess.TimeoutExpired:
        rc, text, done = None, "", False
    sub.evals += hi - lo
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid (?:read|write|free))", text)
    if m:
        fn = re.search(r"(?:at|by) 0x[0-9A-F]+: ([^\n(]+)\((?!in )[^\n]*\.(?:cpp|h):\d+\)", text[m.start():])
        sub.violation("memcheck-%s-%s" % (m.group(1), fn.group(1).strip().split("(")[0] if fn else "?"), "%s, scripts %d to %d under valgrind\n%s" % (kind, lo, hi, text[:6000]),
                      [f for f in files if os.path.isfile(f)], [x for x in cmds if x.split()[0] not in ("CASE", "END")], exe)
    elif not done or rc != 0:
        sub.inconclusive += 1
    else:
        sub.event("scripts under memcheck: " + kind, hi - lo)
        for i in range(lo, hi): sub.distinct.add(("memcheck", kind, i))
    for f in files:
        if os.path.isfile(f): os.remove(f)


def run(c):
    Z = build.build("zero", ("vh", "vg", "vidf"))
    P = build.build("patt", ("vh", "vg", "vidf"))
    V = build.build("plain", ("vh", "vg", "vidf"))
    pre = build.clib("vmem")
    for prog, kind, g, q, t in KINDS:
        c.parallel(lambda sub, lo, hi: part(sub, lo, hi, kind, g, (Z[prog], P[prog]), pre), c.n(q, t), batch=25 if prog == "vidf" else 50)
    c.rule = ("a script whose answers and files were compared between two runs with different memory contents, order of blocks and order of scripts, "
              "or which ran under memcheck to its end")
    c.assume = ["time stamps, and the names made from them, are not compared", "memory which is obtained without malloc or from classes with constructors of their own on the stack holds what earlier calls left"]
    for prog, kind, g, q, t in KINDS:
        c.parallel(lambda sub, lo, hi: memcheck(sub, lo, hi, kind, g, V[prog]), c.n(24, 400), batch=3)
