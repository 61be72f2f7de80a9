"""C15: writes which fail or are refused, by injected faults, limits and bad targets."""
import errno, os, re
from vlib import build, drive, corpus, gen, apigen, igeslib as I, idf
from vlib.drive import enc
from .c14 import content, STAMP

OPS = {1: "open", 2: "write", 3: "close", 4: "rename"}


def fault(r):
    """(commands, description): what fails during the next write."""
    k = r.randrange(10)
    if k < 4:
        n = r.choice([0, 1, 80, 81, 500, 4096, 8191, 8192, 16384, r.randrange(3000), r.randrange(20000), r.randrange(60000)])
        return ["limit %d" % n], "limit"
    op = r.choice([2, 2, 2, 1, 3])
    nth = r.choice([1, 1, 2, 2, 3, r.randrange(1, 9)]) if op == 2 else r.choice([1, 1, 2, 3])
    e = r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT]) if op != 1 else r.choice([errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS])
    st = r.choice([0, 1]) if op != 3 else 0
    return ["fault %d %d %d %d %d" % (op, nth, e, st, r.choice([0, 1]) if op == 2 else 0)], OPS[op] + (" repeated" if st else " once")


def stale(r, p):
    """Something at the target; what it is and what must stay as it is."""
    k = r.randrange(8)
    if k < 3: return "absent", None
    if k < 6:
        b = r.choice([b"", b"precious\n", b"x" * 5000, b"y" * 200000])
        open(p, "wb").write(b)
        return "file of %d bytes" % len(b), b
    if k == 6:
        b = b"behind a link\n" * 20
        open(p + ".real", "wb").write(b)
        os.symlink(p + ".real", p)
        return "link", b
    os.mkdir(p)
    return "directory", "dir"


def iges_case(r, d, i):
    """The commands which make a model m."""
    if r.random() < .45:
        m, st = corpus.valid(r)
        f = os.path.join(d, "i%d.igs" % i)
        open(f, "wb").write(I.write(m, st))
        return ["new m", "read m " + f], [f], "file"
    g = gen.Gen(r, minres=r.choice([1e-3, 1e-5, 1e-8]), props=False)
    for _ in range(r.choice([1, 1, 2, 4])): g.top(r.choice(apigen.TOPS))
    m = g.finish()
    return ["new m"] + apigen.build(m) + ["hdr m %s" % enc("a header line " * r.choice([1, 2, 9]))] * r.randrange(3), [], "api"


STATE = ["gdump", "hdrs m", "gget m"]


def run(c):
    P = build.build("san", ("vh", "vidf"))
    pre = build.clib("vfault")
    c.parallel(lambda sub, lo, hi: iges(sub, lo, hi, P["vh"], pre), c.n(5000, 80000), batch=125)
    c.parallel(lambda sub, lo, hi: boards(sub, lo, hi, P["vidf"], pre), c.n(1200, 20000), batch=75)
    c.rule = ("A case is a model (read from a file or built through the API) or board written with a fault: the n-th open, write (complete or short) or close fails once or "
              "for good, the size of files is limited at any byte, the device is full, the target is a directory, has no directory, or is an existing file or link, with and "
              "without permission to overwrite; then written again to a good place. Distinct: by fault, target and content. Non-trivial: a fault fired or the write was refused.")
    c.assume = ["time stamps, and the name of the file in the Global section, change with every write",
                "a file which may be overwritten may be lost if writing fails",
                "the status flags of entities, of which the specification fixes some when the entity is written, are compared in the files only",
                "a board in memory counts its versions and takes the unit in which it was written"]


def judge_write(ok, fired, target, ref):
    """A write to `target` which answered ok; ref: the complete content."""
    if not ok: return None
    have = content(target)
    if have is None: return "success was reported but there is no file"
    if have != ref: return "success was reported but the file is incomplete"
    return None


def iges(sub, lo, hi, exe, pre):
    d = sub.dir("f")
    cases, info = [], {}
    for i in range(lo, hi):
        r = sub.rnd("iges", i)
        make, ins, what = iges_case(r, d, i)
        o = lambda k: os.path.join(d, "o%d-%d.igs" % (i, k))
        t = o(1)
        over = r.random() < .6
        k = r.random()
        fc, fd = [], "none"
        if k < .12: t, old, fd, have = "/dev/full", None, "full device", "device"
        elif k < .2: t, old, have = os.path.join(d, "none", "o.igs"), None, "no directory"
        elif k < .26: have, old = stale(r, t)
        else:
            have, old = stale(r, t)
            fc, fd = fault(r)
        refuse = None
        if r.random() < .08:
            refuse, undo = r.choice([("gset m pdelim 1", "gset m pdelim ,"), ("gset m modelScale 0", "gset m modelScale 1")])
            if what == "file": refuse = None
        q = list(make) + ["cull m"]
        a = len(q)
        q += STATE
        if refuse: q.append(refuse)
        q += ["fstat " + t] + fc
        w = len(q)
        q += ["write m %s %d" % (t, over), "qfault", "fstat " + t]
        if refuse: q.append(undo)
        b = len(q)
        q += STATE + ["write m %s 1" % o(2)]
        g = len(q) - 1
        q += STATE + ["new q", "read q " + o(2), "write q %s 1" % o(3)]
        # the reference: another object, no fault
        z = len(q)
        q += [x.replace(" m ", " ref ") if x != "new m" else "new ref" for x in make if False]
        cases.append((str(i), q))
        cases.append(("%d-r" % i, list(make) + ["cull m", "write m %s 1" % o(0)]))
        info[i] = (q, ins, what, t, have, old, over, fd, refuse, a, w, b, g)
    res = drive.run_chunk(exe, cases, sub.dir("run"), {"LD_PRELOAD": pre})
    for i, (q, ins, what, t, have, old, over, fd, refuse, a, w, b, g) in info.items():
        r, rr = res[str(i)], res["%d-r" % i]
        o = lambda k: os.path.join(d, "o%d-%d.igs" % (i, k))
        sub.evals += 1
        files = list(ins)
        bad = None
        if sub.crash(rr, files, q, exe, "reference") and sub.crash(r, files, q, exe, "%s, target %s, fault %s" % (what, have, fd)):
            good = rr.lines[-1] == "1"
            ref = content(o(0))
            ok = r.r(w) == "1"
            n = [int(x) for x in r.r(w + 1).split()]
            before = r.r(w - 1 - (1 if q[w - 1].split()[0] in ("fault", "limit") else 0))
            after = r.r(w + 2)
            if not good: sub.event("model cannot be written"); bad = "0"
            fired = n[0] > 0
            if bad is None: bad = judge_write(ok, fired, t, ref)
            if not bad and ok and refuse: bad = "an invalid model was written"
            if not bad and ok and not over and have not in ("absent",): bad = "an existing file was overwritten without permission (%s)" % have
            if not bad and ok and have in ("directory", "device", "no directory"): bad = "success was reported although the target was: " + have
            if not bad and not ok and not refuse and not fired and fd in ("none", "open once", "write once", "close once", "write repeated", "open repeated") and (have == "absent" or over and (have.startswith("file") or have == "link")):
                bad = "the write failed without a reason"
            if not bad and not over and have not in ("absent", "device", "no directory"):
                if before != after: bad = "an existing file which must not be overwritten was touched: %s, before %s, after %s" % (have, before, after)
                elif old != "dir" and open(t, "rb").read() != old: bad = "an existing file which must not be overwritten was changed (%s)" % have
                else: sub.event("existing file kept")
            if not bad and refuse and have not in ("absent", "device", "no directory") and before != after: sub.event("refused model: file touched")
            # the model
            if not bad:
                for k, x in enumerate(STATE):
                    for at in (b, g + 1):
                        u, v = [strip(y) for y in (r.r(a + k), r.r(at + k))]
                        if u != v: bad = "%s of the model was changed by a %s write: %s" % (x, "successful" if at == g + 1 or ok else "failed", first(u, v)); break
                    if bad: break
            if not bad:
                if r.r(g) != "1": bad = "a later write to a good place failed"
                elif content(o(2)) != ref: bad = "a later write is not complete"
                else: sub.event("later write complete")
            if not bad:
                key = "%s, target %s, %s" % (fd, have.split(" of")[0], "overwrite" if over else "keep")
                sub.event(("written: " if ok else "fault fired: " if fired else "not written: ") + key)
                if not ok: sub.distinct.add((key, n[1], n[2], ref and hash(str(ref))))
                if len(sub.samples) < 4 and fired: sub.sample(dict(model=what, target=have, overwrite=over, fault=q[w - 1], result=r.lines[w:w + 3]))
        if bad and bad != "0":
            files += [x for x in (o(0), o(1), o(2)) if os.path.isfile(x)]
            sub.violation(" ".join(re.sub(r"[^A-Za-z ]", " ", bad).split()[:9]), "case %d: %s, target %s, %s, fault %s\n%s" % (i, what, have, "overwrite" if over else "keep", fd, bad), files, q, exe)
        wipe(ins + [o(k) for k in range(4)] + [o(1) + ".real"])
        if sub.enough(): break


def strip(s):
    s = re.sub(r"(\|\d+:\d+\|\d+\|[0-9a-f]{16})\|[0-9a-f]{16}", r"\1", STAMP.sub("#", s or ""))
    return re.sub(r"fileName=\S*", "", s)


def first(u, v):
    k = next((k for k in range(min(len(u), len(v))) if u[k] != v[k]), min(len(u), len(v)))
    return "...%s... and ...%s..." % (u[max(0, k - 40):k + 60], v[max(0, k - 40):k + 60])


def wipe(l):
    for x in l:
        if os.path.islink(x) or os.path.isfile(x): os.remove(x)
        elif os.path.isdir(x): os.rmdir(x)


def boards(sub, lo, hi, exe, pre):
    d = sub.dir("f")
    cases, info = [], {}
    for i in range(lo, hi):
        r = sub.rnd("idf", i)
        b = idf.Board(r)
        t = idf.Text(b, r)
        p = os.path.join(d, "b%d" % i)
        open(p + ".emn", "wb").write(t.emn())
        open(p + ".emp", "wb").write(t.emp())
        conv = r.random() < .5
        fc, fd = fault(r)
        o = lambda k: os.path.join(d, "o%d-%d" % (i, k))
        if conv:
            q = fc + ["conv %s.emn" % enc(p), "qfault"]
            cases.append((str(i), q))
            if r.random() < .4: open(p + ".igs", "wb").write(b"old\n" * r.choice([1, 50000]))
        else:
            u = r.randrange(2)
            tgt = o(1)
            if r.random() < .1: tgt, fd = os.path.join(d, "none", "o"), "no directory"
            q = fc + ["load %s.emn 0 0 %s.emn %d %s.emn" % (enc(p), enc(tgt), u, enc(o(2))), "qfault"]
            cases.append((str(i), q))
            cases.append(("%d-r" % i, ["load %s.emn 0 0 %s.emn %d" % (enc(p), enc(o(0)), u)]))
        info[i] = (q, conv, p, fd)
    res = drive.run_chunk(exe, cases, sub.dir("run"), {"LD_PRELOAD": pre})
    again, keep = [], {}
    for i, (q, conv, p, fd) in info.items():
        if conv:
            keep[i] = content(p + ".igs")
            if os.path.exists(p + ".igs"): os.remove(p + ".igs")
            again.append(("%d-r" % i, ["conv %s.emn" % enc(p)]))
    res.update(drive.run_chunk(exe, again, sub.dir("run"), {"LD_PRELOAD": pre}))
    for i, (q, conv, p, fd) in info.items():
        r, rr = res[str(i)], res["%d-r" % i]
        o = lambda k: os.path.join(d, "o%d-%d" % (i, k))
        sub.evals += 1
        files = [p + ".emn", p + ".emp"]
        bad = None
        if sub.crash(rr, files, q, exe, "reference") and sub.crash(r, files, q, exe, "fault %s" % fd):
            n = [int(x) for x in r.r(2).split()]
            if r.r(1).startswith("EXC"): bad = "uncaught exception: " + r.r(1)
            elif conv:
                ok = r.r(1) == "0"
                if rr.r(0) != "0": sub.event("board cannot be converted"); ok = None
                else:
                    ref = content(p + ".igs")
                    if ok and keep[i] != ref: bad = "the converter's status is 0 but the file is incomplete: " + first(str(keep[i]), str(ref))
                    elif not ok and not n[0] and fd != "limit": bad = "the conversion failed without a reason (%s)" % r.r(1)
            else:
                x = r.r(1).split()
                ok = "written" in x and x.index("written") == min(x.index(y) for y in ("written", "unwritten") if y in x)
                if "written" not in rr.r(0).split(): sub.event("board cannot be written"); ok = None
                else:
                    ref = [content(o(0) + e) for e in (".emn", ".emp")]
                    if ok and fd == "no directory": bad = "success was reported without a directory"
                    elif ok and [content(o(1) + e) for e in (".emn", ".emp")] != ref: bad = "success was reported but the files are incomplete"
                    elif not ok and not n[0] and fd not in ("limit", "no directory"): bad = "writing a board failed without a reason"
                    elif x[-1] != "written": bad = "a later write of the board failed"
                    elif [vers(content(o(2) + e)) for e in (".emn", ".emp")] != [vers(y) for y in ref]: bad = "a later write of the board is not complete"
            if not bad and ok is not None:
                key = "%s: %s" % ("converter" if conv else "board", fd)
                sub.event(("written: " if ok else "failed: ") + key)
                if not ok: sub.distinct.add((i, key, n[1], n[2]))
        if bad:
            files += [x for x in (o(1) + ".emn", o(1) + ".emp", o(2) + ".emn", o(0) + ".emn", p + ".igs") if os.path.isfile(x)]
            sub.violation(" ".join(re.sub(r"[^A-Za-z ]", " ", bad).split()[:9]), "case %d: %s, fault %s: %s\n%s" % (i, "converter" if conv else "board", fd, q[0], bad), files, q, exe)
        wipe([p + e for e in (".emn", ".emp", ".igs")] + [o(k) + e for k in range(3) for e in (".emn", ".emp")])
        if sub.enough(): break


def vers(b):
    """Without the counter of versions in the header."""
    return b and re.sub(rb'(_FILE 3\.0 "[^"]*" +)\d+', rb"\1", b)
