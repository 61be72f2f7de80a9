"""C19: files with one record that has no meaning must be refused, and the file without that mistake must be read."""
import os, re
from vlib import build, drive, idf, corpus, gen, badidf, badigs, igeslib



def masked(f):
    """A written file without its name and date."""
    return b"\n".join(re.sub(rb"\d", b"0", l) if l[72:73] == b"G" else l for l in open(f, "rb").read().replace(b"y.igs", b"x.igs").split(b"\n"))


def run(c):
    exe = build.build("san", ("vh", "vidf"))
    n = c.n(15000, 400000)

    def iges(sub, i, d):
        r = sub.rnd("iges", i)
        m = corpus.model(r, attrs=r.random() < .5)
        m.start = ["x"]
        st = gen.random_style(r)
        x = badigs.spoil(m, st, r)
        if not x: return None
        g, b = os.path.join(d, "g%d.igs" % i), os.path.join(d, "b%d.igs" % i)
        open(g, "wb").write(igeslib.write(m, st))
        open(b, "wb").write(x[0])
        # the refused model can be thrown away, or used for the good file
        cmds = ["new m", "read m " + drive.enc(b), "free m", "new m", "read m " + drive.enc(g), "free m"]
        w = [os.path.join(d, "w%d%s.igs" % (i, k)) for k in "xy"]
        if r.random() < .4: cmds = ["new m", "read m " + drive.enc(b), "new q", "read q " + drive.enc(g), "read m " + drive.enc(g), "write m %s 1" % w[0], "write q %s 1" % w[1], "free m", "free q"]
        return (exe["vh"], x[1], cmds, [g, b] + w, 1, 3 if len(cmds) > 6 else 4, "1", "0")

    def board(sub, i, d):
        r = sub.rnd("idf", i)
        t = idf.Text(idf.Board(r), r)
        emn, emp = t.emn(), t.emp()
        lib = r.random() < .3
        x = badidf.spoil(emp if lib else emn, r, lib)
        if not x: return None
        g, b = os.path.join(d, "g%d" % i), os.path.join(d, "b%d" % i)
        for p, k in ((g, False), (b, True)):
            open(p + ".emn", "wb").write(x[0] if k and not lib else emn)
            open(p + ".emp", "wb").write(x[0] if k and lib else emp)
        cmds = ["rewrite %s 0 %s 1" % (drive.enc(b + ".emn"), drive.enc(b + "w.emn")), "rewrite %s 0 %s 1" % (drive.enc(g + ".emn"), drive.enc(g + "w.emn"))]
        return (exe["vidf"], ("library " if lib else "board ") + x[1], cmds, [p + e for p in (g, b) for e in (".emn", ".emp")], 0, 1, "1 1", "0 0")

    def work(sub, lo, hi):
        d = sub.dir("r.d")
        S = {"vh": {}, "vidf": {}}
        for i in range(lo, hi):
            w = board if i % 3 == 0 else iges
            x = w(sub, i, d)
            if x: S["vidf" if w is board else "vh"][str(i)] = x
        for p, sts in S.items():
            res = drive.run_cases(exe[p], [(k, s[2]) for k, s in sts.items()], d) if sts else {}
            for k, (e, what, cmds, files, jb, jg, ok, no) in sts.items():
                sub.evals += 1
                r = res[k]
                if sub.crash(r, files=files, script=cmds, exe=e, what="case %s (%s)" % (k, what)):
                    f = None
                    if r.r(jg) != ok: f = "the valid file is not read (%s)" % r.r(jg)
                    elif r.r(jb) != no: f = "accepted: " + what
                    elif len(cmds) > 6:
                        if r.r(4) != "1" or r.r(5) != r.r(6): f = "valid file after the refused one: read %s, written %s, and %s by a new model" % (r.r(4), r.r(5), r.r(6))
                        elif r.r(5) == "1":
                            if masked(files[2]) != masked(files[3]): f = "valid file after the refused one is written otherwise than by a new model (%s)" % what
                            else: sub.event("written by the model which refused a file")
                    kind = ("idf " if p == "vidf" else "iges ") + what.replace("board ", "").replace("library ", "").split(":")[0].split(",")[0].split(" of ")[0]
                    if f: sub.violation(kind if f[0] == "a" else "valid file after the refused" if "after" in f else "valid file refused", "case %s: %s" % (k, f), files=files, script=cmds, exe=e)
                    else:
                        sub.event(kind)
                        sub.distinct.add(what[:60])
                        if int(k) % 200 == 0: sub.sample("refused: " + what)
                for f in files:
                    if os.path.exists(f): os.remove(f)
            if sub.enough(): break
        for f in os.listdir(d):
            if f.endswith("w.emn") or f.endswith("w.emp"): os.remove(os.path.join(d, f))
    c.parallel(work, n, batch=200)
    c.rule = "the spoiled item: kind, record, field and text"
    c.assume = ["numbers followed by other text are read up to that text, an unknown owner counts as none, and a line weight out of range is replaced: the code does so on purpose",
                "records between the sections of an IDF board are passed over, and repeated NOTES and DRILLED_HOLES sections are joined: the code does so",
                "directory fields which the standard leaves without effect for an entity are not looked at"]
