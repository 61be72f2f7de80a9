#!/usr/bin/env python3
"""Mutation testing of the checks: mutants.py OUT N SEED FILE... [JOBS=4]
Makes N random small changes to the given sources (relative to src/), one at a time, in a scratch clone, and runs the
repository's tests, then (if they pass) the checks which are responsible for the file until one reports a violation.
The changes that nothing notices are listed in OUT as SURVIVED, for a person to look at.  Needs MT=scratch directory."""
import os, random, re, subprocess, sys, json, shutil, time

MT = os.environ["MT"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("iges/iges.cpp", "C04 C02 C06 C07 C05 C15 C16 C03 C01 C14"), ("iges/iges_io.cpp", "C03 C19 C04 C14 C01 C02"), ("iges/mcad_utils.cpp", "C08 C10 C11 C13 C09"),
       ("entities/iges_entity.cpp", "C03 C06 C02 C07 C16 C05 C01"), ("entities/", "C03 C19 C06 C17 C05 C02 C11 C16 C07 C01"),
       ("geom/mcad_outline", "C09 C10 C13 C16"), ("geom/iges_geom_pcb", "C10 C13 C16"), ("geom/geom_wall", "C10 C13"), ("geom/geom_cyl", "C10 C13"),
       ("geom/", "C08 C09 C10 C17 C13 C16"), ("idf/idf2igs", "C13 C12 C15 C14"), ("idf/", "C13 C18 C19 C12 C14 C15"), ("dllapi/", "C16"), ("", "C03 C06 C16")]


def candidates(path, text):
    """(line number, new line) of every change that could be made."""
    out = []
    lines = text.split("\n")
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: comment = True
            continue
        if not s or s.startswith(("//", "#", "cerr", "ERRMSG", "<<")) or "cerr" in s or "ERRMSG" in s or '"\\n' in s: continue
        code = l.split("//")[0]
        prev = "\n".join(lines[max(0, i - 1):i + 3])
        w = 0.3 if "ERRMSG" in prev else 1.0        # tests for malformed input

        def add(new, kind):
            if new != l: out.append((i, new, kind, w))
        for a, b in (("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="), (" + ", " - "), (" - ", " + "),
                     (" * ", " / "), (" / ", " * "), ("true", "false"), ("false", "true"), (".x", ".y"), (".y", ".x"), (".z", ".x"), ("++", "--"), ("begin()", "end()"),
                     ("sin(", "cos("), ("cos(", "sin("), ("front()", "back()"), ("back()", "front()"), ("Start", "End"), ("End", "Start"), ("Top", "Bot")):
            for m in re.finditer(re.escape(a), code):
                if a in ("<=", ">=") and code[m.start() - 1:m.start()] in "<>": continue
                add(l[:m.start()] + b + l[m.end():], "%s->%s" % (a.strip(), b.strip()))
        for m in re.finditer(r"(?<![<\w]) < (?=[\w(])", code): add(l[:m.start()] + " <= " + l[m.end():], "<-><=")
        for m in re.finditer(r" > ", code): add(l[:m.start()] + " >= " + l[m.end():], ">->>=")
        for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code):
            n = int(m.group(1))
            for d in (n + 1, n - 1):
                if d >= 0: add(l[:m.start()] + str(d) + l[m.end():], "%d->%d" % (n, d))
        for m in re.finditer(r"(?<![\w])(\d+\.\d+)(?![\w])", code): add(l[:m.start()] + repr(float(m.group(1)) * 1.5 + .25) + l[m.end():], "real constant")
        if re.match(r"if\( (.*) \)$", s): add(l.replace(s, "if( !(%s) )" % s[4:-2]), "negated")
        if s.endswith(";") and not re.match(r"(return|break|continue|delete|else|case|goto|using|typedef|[\w:<>*&\s]+\s[*&]?\w+(\[.*\])?\s*(=.*)?;$)", s): add("", "deleted")
        if re.match(r"[\w.\->\[\]\*]+ (\+|-|\*|/)?= .*;$", s): add("", "deleted")
        if s.startswith("delete ") and s.endswith(";"): add("", "deleted")
        if s in ("break;", "continue;"): add("", "deleted")
    return out


def sh(cmd, env=None, timeout=1200, cwd=None):
    return subprocess.run(cmd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=cwd)


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    files = [f for f in sys.argv[4:] if "=" not in f]
    jobs = dict(x.split("=") for x in sys.argv[4:] if "=" in x).get("JOBS", "4")
    os.makedirs(MT, exist_ok=True)
    repo, ver = os.path.join(MT, "repo"), os.path.join(MT, "verif")
    if not os.path.exists(repo): sh(["git", "clone", "-q", "/repo", repo])
    sh(["git", "-C", repo, "pull", "-q"])
    os.makedirs(ver, exist_ok=True)
    sh(["rsync", "-a", "--delete"] + ["--exclude=/" + x for x in (".git", "build", "replays", "seeded", "evidence")] + [HERE + "/", ver + "/"])
    os.makedirs(os.path.join(ver, "evidence"), exist_ok=True)
    for f in ("build.sh", "test.sh", "run_tests.py", "results.py"):
        t = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp/build.sh", MT + "/build.sh").replace("/opt/vp/run_tests.py", MT + "/run_tests.py").replace("/opt/vp/results.py", MT + "/results.py")
        open(os.path.join(MT, f), "w").write(t)
    r = random.Random(seed)
    cand = []
    for f in files:
        p = os.path.join(repo, "src", f)
        t = open(p, errors="replace").read()
        cand += [(f,) + x for x in candidates(p, t)]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    env = dict(VERIF_REPO=repo, VERIF_JOBS=jobs)
    done = set()
    stats = {}
    while n > 0:
        f, i, new, kind, w = r.choice(cand)
        if r.random() > w or (f, i, new) in done: continue
        done.add((f, i, new))
        p = os.path.join(repo, "src", f)
        t = open(p, errors="surrogateescape").read()
        lines = t.split("\n")
        old = lines[i]
        lines[i] = new
        open(p, "w", errors="surrogateescape").write("\n".join(lines))
        t0 = time.time()
        res = None
        try:
            q = sh(["bash", MT + "/build.sh"])
            if q.returncode: res = "uncompilable"
            else:
                sh(["bash", MT + "/test.sh", MT + "/o.json"])
                o = json.load(open(MT + "/o.json"))
                if stable - set(o["passed"]): res = "tests"
            for c in next(v for k, v in MAP if f.startswith(k)).split() if res is None else ():
                q = sh(["python3", "check.py", c], dict(env, VERIF_SCALE="0.5"), cwd=ver)
                if "VIOLATION" in q.stdout: res = c; break
                if q.returncode not in (0, 1): res = "%s gives no answer (%d)" % (c, q.returncode); break
            if res is None: res = "SURVIVED"
        except subprocess.TimeoutExpired: res = "timeout"
        finally: open(p, "w", errors="surrogateescape").write(t)
        if res not in ("uncompilable", "tests"): n -= 1
        stats[res] = stats.get(res, 0) + 1
        with open(out, "a") as g:
            g.write("%s %s:%d [%s] %.0f s\n    - %s\n    + %s\n" % (res, f, i + 1, kind, time.time() - t0, old.strip(), new.strip()))
    with open(out, "a") as g: g.write("== %s %s\n" % (seed, stats))


main()
