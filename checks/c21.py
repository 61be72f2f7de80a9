"""C21: file paths: what a path is told to be, what it answers, and what the file system holds."""
import os, stat
from vlib import build, drive
from vlib.drive import enc, dec

STEM = ["board", "a", "x y", "v1", "-", "caf\xe9", "b%41", ".hidden", "p:q", "LONG" * 30, "_1", "[0]", ".emn"]
EXT = ["igs", "emn", "emp", "IGS", "x", "tar", "1", "a b", "e" * 40]


def comp(rd, dots=True):
    s = rd.choice(STEM)
    if dots and rd.random() < .6:
        for k in range(rd.choice([1, 1, 1, 2, 3])): s += "." + rd.choice(EXT)
    return s


def join(rd, parts):
    s = parts[0]
    for p in parts[1:]: s += rd.choice("//\\") + p
    return s


def rel(rd):
    return join(rd, [comp(rd) for k in range(rd.choice([1, 1, 2, 3, 5]))])


def native(s): return s.replace("\\", "/")


def split(p):
    """name, base, extension or None"""
    n = p[p.rfind("/") + 1:]
    k = n.rfind(".")
    return (n, n[:k], n[k + 1:]) if k > 0 else (n, n, None)


class Path:
    def __init__(self, rd, fs):
        self.rd, self.fs, self.p = rd, fs, ""
        self.cmds, self.want, self.kinds = [], [], set()

    def do(self, cmd, want):
        self.cmds.append(cmd); self.want.append(want)

    def kind(self):
        f = self.fs.get(self.p)
        if f: return f
        # below the scratch folder nothing else exists
        return "none"

    def ask(self, ks=None):
        rd = self.rd
        ks = ks or [rd.choice("pnbexdrs") for k in range(rd.choice([1, 1, 2, 3]))]
        w = []
        for k in ks:
            n, b, e = split(self.p)
            if k == "s": w.append("/")
            elif k in "xdr":
                t = self.kind() if self.p else "none"
                if k == "x": w.append("?" if t == "special" else "1" if t in ("file", "dir") else "0")
                else: w.append("1" if t == {"d": "dir", "r": "file"}[k] else "0")
                self.kinds.add(k + " " + t)
            elif not self.p: w.append(None); self.kinds.add(k + " empty")
            else:
                v = {"p": self.p, "n": n, "b": b, "e": e}[k]
                w.append(v)
                self.kinds.add("%s %s" % (k, "without extension" if e is None else "with dots in folders" if "." in self.p[:-len(n)] else "plain"))
        self.do("fget F " + " ".join(ks), w)

    def pick(self):
        rd = self.rd
        r = rd.random()
        if r < .5: return rd.choice(list(self.fs))
        if r < .7: return rd.choice(list(self.fs)) + "/" + rel(rd)
        return rel(rd)

    def go(self):
        rd = self.rd
        if rd.random() < .5:
            self.p = native(self.pick()) if rd.random() < .9 else ""
            self.do("fnew F %s %d" % (enc(self.p), rd.random() < .5), "1")
        else: self.do("fnew F % 1", "1")
        for k in range(rd.choice([2, 4, 8, 20])):
            r = rd.random()
            if r < .45: self.ask()
            elif r < .6:
                s = self.pick() if rd.random() < .9 else ""
                self.do("fset F " + ("%N" if not s and rd.random() < .5 else enc(s)), "1")
                self.p = native(s)
                self.kinds.add("set")
            elif r < .85:
                n, b, e = split(self.p)
                x = rd.choice([rd.choice(EXT), rd.choice(EXT), "." + rd.choice(EXT), "", None, "."])
                self.do("fext F " + ("%N" if x is None else enc(x)), "1" if self.p and x != "." else "0")
                if self.p and x != ".":
                    self.p = self.p[:len(self.p) - len(n)] + b + ("." + x.lstrip(".") if x else "")
                    self.kinds.add("ext %s -> %s" % ("none" if e is None else "some", "none" if not x else "dotted" if x[0] == "." else "some"))
                else: self.kinds.add("ext refused")
            else:
                s = rd.choice([None, "", "/", "\\", rel(rd), rel(rd), rel(rd), rel(rd)])
                self.do("fapp F " + ("%N" if s is None else enc(s)), "1")
                if s and native(s) != "/":
                    self.kinds.add("append to " + ("some" if self.p else "nothing"))
                    self.p = (self.p + "/" if self.p else "") + native(s)
                    if len(self.p) > 3000:
                        self.p = ""; self.do("fset F %", "1")
            if rd.random() < .15: self.ask(list("pnbexdr"))
        l = list("pnbexdrs"); rd.shuffle(l)
        self.ask(l)


def tree(d):
    """One of each kind of file; returns path -> kind."""
    d = os.path.join(d, "tree.d")
    os.makedirs(d, exist_ok=True)
    fs = {d: "dir", "/dev/null": "special"}
    def add(n, k, f):
        p = os.path.join(d, n)
        if not os.path.lexists(p): f(p)
        fs[p] = k
    add("file", "file", lambda p: open(p, "w").close())
    add("board.emn", "file", lambda p: open(p, "w").write("x"))
    add(".hid", "file", lambda p: open(p, "w").close())
    add("sub", "dir", os.mkdir)
    add("sub.dir", "dir", os.mkdir)
    add("sub.dir/file", "file", lambda p: open(p, "w").close())
    add("sub.dir/model.a.igs", "file", lambda p: open(p, "w").close())
    add("lfile", "file", lambda p: os.symlink("file", p))
    add("ldir.x", "dir", lambda p: os.symlink("sub", p))
    add("gone.x", "none", lambda p: os.symlink("nothing", p))
    add("fifo.x", "special", os.mkfifo)
    add("sock.x", "special", lambda p: os.mknod(p, stat.S_IFSOCK | 0o600))
    add("missing", "none", lambda p: None)
    add("missing.d/file", "none", lambda p: None)
    return fs


def run(c):
    exe = build.build("san", ("vg",))["vg"]
    n = c.n(20000, 400000)

    def work(sub, lo, hi):
        d = sub.dir("r.d")
        fs = tree(d)
        cases, M = [], {}
        for i in range(lo, hi):
            m = M[i] = Path(sub.rnd(i), fs)
            m.go()
            cases.append((str(i), m.cmds))
        res = drive.run_leaks(exe, cases, d)
        for i in range(lo, hi):
            if str(i) not in res: continue
            r, m = res[str(i)], M[i]
            sub.evals += 1
            if not sub.crash(r, script=m.cmds, exe=exe, what="case %d" % i): continue
            for k, (cmd, w) in enumerate(zip(m.cmds, m.want)):
                g = r.r(k)
                op = cmd.split()[0]
                if isinstance(w, str):
                    sub.event("calls " + op)
                    if g != w:
                        sub.violation("%s-answer-%s" % (op, w), "case %d: %s says %s instead of %s" % (i, cmd, g, w), script=m.cmds, exe=exe)
                        break
                    continue
                t = (g or "").split(" ")
                ks = cmd.split()[2:]
                bad = None
                if len(t) != len(w): bad = ("count", g, w)
                else:
                    for a, x, y in zip(ks, t, w):
                        sub.event("answers " + a)
                        if y == "?": continue
                        v = None if x == "%N" else dec(x) if a in "pnbe" else x
                        if v != y: bad = (a, v, y); break
                if bad:
                    sub.violation("get-%s" % bad[0], "case %d: command %d, %s: %s says %r instead of %r" % (i, k, cmd, bad[0], bad[1], bad[2]), script=m.cmds[:k + 1], exe=exe)
                    break
            for x in m.kinds: sub.event("seen " + x)
            sub.distinct.add(tuple(m.cmds).__hash__())
            sub.sample(dict(commands=m.cmds[:8], expected=[str(x)[:200] for x in m.want[:8]]))
    c.parallel(work, n)
    need = ["ext none -> some", "ext some -> some", "ext some -> none", "ext some -> dotted", "ext refused", "append to some", "append to nothing",
            "b without extension", "e without extension", "n with dots in folders", "p empty", "d special", "r special", "x none", "x dir", "x file"]
    for k in need:
        if not c.viol and not c.cov.get("seen " + k): raise RuntimeError("never seen: " + k)
    c.rule = "sequence of calls; events count the kinds of path and file of which each question was asked"
