"""Runs harness scripts in parallel, attributing crashes and hangs to cases."""
import os, re, shutil, subprocess, tempfile, concurrent.futures as cf
from urllib.parse import unquote_to_bytes

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def enc(s):
    if isinstance(s, str):
        s = s.encode("latin-1", "replace")
    if not s:
        return "%"
    return "".join(chr(c) if 33 <= c < 127 and c != 37 else "%%%02x" % c for c in s)


def dec(s):
    return "" if s == "%" else unquote_to_bytes(s).decode("latin-1")


def san_env(logbase, extra=None):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent"}
    e["ASAN_OPTIONS"] = ("detect_leaks=%s:abort_on_error=0:exitcode=99:log_path=%s:max_allocation_size_mb=512:"
                         "hard_rss_limit_mb=3000:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:"
                         "leak_check_at_exit=0:detect_container_overflow=1:handle_abort=1:malloc_context_size=12:quarantine_size_mb=32"
                         % ((extra or {}).pop("_leaks", "0") if extra else "0", logbase))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99:log_path=%s" % logbase
    e["LSAN_OPTIONS"] = "exitcode=0:log_path=%s:print_suppressions=0" % logbase
    e["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18"
    if not os.path.exists(e["ASAN_SYMBOLIZER_PATH"]):
        e["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or ""
    if extra:
        e.update(extra)
    return e


def read_logs(logbase):
    d, b = os.path.split(logbase)
    out = ""
    for f in sorted(os.listdir(d)):
        if f.startswith(b + "."):
            with open(os.path.join(d, f), errors="replace") as fh:
                out += fh.read()
            os.unlink(os.path.join(d, f))
    return out


def signature(report):
    """A stable short key for a sanitizer report: kind + first library function."""
    if not report:
        return "abort"
    kind = "report"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", report)
    if m:
        kind = m.group(1)
        if kind == "requested":
            kind = "allocation-size-too-big"
    else:
        m = re.search(r"runtime error: (.*)", report)
        if m:
            kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|'[^']*'", "#", m.group(1))[:60].strip().replace(" ", "-")
        elif "LeakSanitizer" in report:
            kind = "leak"
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/[^\s:]+)(?::\d+)?", report):
        f, path = m.groups()
        if "/build/src/" in path or "/repo/" in path:
            fn = re.sub(r"\(.*", "", f).strip()
            break
    return kind + "@" + (fn or "?")


class Result(object):
    __slots__ = ("id", "status", "lines", "report", "sig", "last")

    def __init__(self, id):
        self.id, self.status, self.lines, self.report, self.sig, self.last = id, "lost", [], "", "", -1

    def r(self, i):
        return self.lines[i] if i < len(self.lines) else None


def _parse(path, results):
    """Returns (finished ids in order, current id or None, done flag, hang)."""
    cur, fin, done, hang, clean = None, [], False, False, False
    try:
        fh = open(path, errors="replace")
    except OSError:
        return fin, None, False, False, False
    with fh:
        for l in fh:
            l = l.rstrip("\n")
            if l.startswith("CASE "):
                cur = l[5:]; clean = False
                results[cur] = Result(cur)
            elif l == "END":
                results[cur].status = "ok"
                fin.append(cur)
                cur = None
            elif l == "DONE":
                done = True
            elif l == "HANG":
                hang = True
            elif l == "CLEAN":
                clean = True
            elif cur is not None:
                if l.startswith("R "):
                    results[cur].lines.append(l[2:])
                elif l.startswith("EXC "):
                    results[cur].lines.append("EXC " + l[4:])
                elif l == "R":
                    results[cur].lines.append("")
    return fin, cur, done, hang, clean


def run_chunk(exe, cases, workdir, env=None, wall=600, tag="c", solo_on_hang=True):
    """cases: [(id, [commands])]; every command yields exactly one line."""
    results = {}
    todo = list(cases)
    n = 0
    while todo:
        n += 1
        sp = os.path.join(workdir, "%s.%d.in" % (tag, n))
        op = os.path.join(workdir, "%s.%d.out" % (tag, n))
        lb = os.path.join(workdir, "%s.%d.log" % (tag, n))
        with open(sp, "w", encoding="latin-1") as f:
            for cid, cmds in todo:
                f.write("CASE %s\n" % cid)
                for c in cmds:
                    f.write(c + "\n")
                f.write("END\n")
        if os.path.exists(op):
            os.unlink(op)
        timed = False
        p = subprocess.Popen([exe, sp, op], cwd=workdir, env=san_env(lb, dict(env) if env else None), stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            timed = True
            p.kill(); p.wait(); rc = -9
        fin, cur, done, hang, clean = _parse(op, results)
        rep = read_logs(lb)
        os.unlink(sp)
        if os.path.exists(op):
            os.unlink(op)
        if done and rc == 0:
            if rep and fin: results[fin[-1]].report = rep
            break
        ids = [c[0] for c in todo]
        if cur is None:
            if not fin and not done:
                raise RuntimeError("harness did not start: rc=%d %s" % (rc, rep[:2000]))
            if done:     # died at exit
                r = results[fin[-1]]
                r.status, r.report, r.sig = "crash", rep or "exit status %d at process end" % rc, signature(rep)
                break
            todo = todo[ids.index(fin[-1]) + 1:]
            continue
        r = results[cur]
        r.report = rep
        r.last = len(r.lines)
        if hang or timed:
            k = ids.index(cur)
            if solo_on_hang:
                # decide on a repetition alone, with twice the processor time
                e2 = dict(env or {})
                e2["VH_CPU"] = "40"
                rr = run_chunk(exe, [todo[k]], workdir, e2, wall * 2, tag + "s", False)
                results.update(rr)
            else:
                r.status, r.sig = ("hang", "hang") if hang else ("inconclusive", "wall-clock")
            todo = todo[k + 1:]
            continue
        r.status = "crash"
        r.sig = signature(rep) if rep else "exit%d" % rc
        r.report = (rep or "process ended with status %d, no report" % rc) + ("\n(during cleanup)" if clean else "")
        todo = todo[ids.index(cur) + 1:]
    return results


def run_leaks(exe, cases, workdir, env=None):
    """As run_chunk, with leaks: a case which leaks has the status "leak"."""
    e = dict(env or {}, _leaks="1")
    probe = lambda l: [(cid, list(s) + (["LEAKS"] if k == len(l) - 1 else [])) for k, (cid, s) in enumerate(l)]
    res = run_chunk(exe, probe(cases), workdir, e)

    def drop(l):
        r = res[l[-1][0]]
        if r.status != "ok": return False
        return r.lines.pop() != "0"
    if not drop(cases) and not any(x.endswith(" leaks") for r in res.values() for x in r.lines): return res
    for c in cases:         # one by one
        if res[c[0]].status != "ok": continue
        one = run_chunk(exe, [(c[0], list(c[1]) + ["LEAKS"])], workdir, e, tag="l")
        r = one[c[0]]
        if r.status == "ok" and (r.lines.pop() != "0" or any(x.endswith(" leaks") for x in r.lines)):
            r.status, r.sig = "leak", signature(r.report)
        res[c[0]] = r
    return res


def run_cases(exe, cases, workdir, env=None, chunk=None, jobs=None):
    jobs = jobs or NPROC
    cases = list(cases)
    if not cases:
        return {}
    if chunk is None:
        chunk = max(1, min(200, (len(cases) + jobs * 4 - 1) // (jobs * 4)))
    parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    out = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = []
        for i, p in enumerate(parts):
            d = os.path.join(workdir, "w%d" % i)
            os.makedirs(d, exist_ok=True)
            fs.append(ex.submit(run_chunk, exe, p, d, env, 600, "c"))
        for f in fs:
            out.update(f.result())
    for cid, _ in cases:
        if cid not in out:
            out[cid] = Result(cid)
    return out
