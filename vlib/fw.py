"""Common frame of the checks: scratch space, known findings, evidence, verdict."""
import collections, json, os, pickle, random, re, shutil, sys, time, traceback
from . import build as B, drive

VERIF = B.VERIF
REPLAYS = os.path.join(VERIF, "replays")


def known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


class Ctx(object):
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "150" if self.quick else "780"))
        self.work = os.path.join(B.BUILD, "work", "%s.%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.evals = 0
        self.distinct = set()
        self.cov = collections.Counter()
        self.samples = []
        self.viol = collections.OrderedDict()
        self.kf = known(prop)
        self.kf_seen = {}
        self.inconclusive = 0
        self.notes = {}
        self.assume = []
        self.rule = ""
        self.limit = 12
        self.replays = REPLAYS
        shutil.rmtree(os.path.join(REPLAYS, prop), ignore_errors=True)

    def rnd(self, *key):
        return random.Random("%d/%s/%s" % (self.seed, self.prop, "/".join(map(str, key))))

    def n(self, quick, thorough):
        f = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int((quick if self.quick else thorough) * f))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def enough(self):
        return len(self.viol) >= self.limit or self.left() <= 0

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    def event(self, key, n=1):
        self.cov[key] += n

    def violation(self, key, text, files=(), script=None, exe=None):
        key = re.sub(r"\s+", "-", key)[:160]
        if key in self.kf:
            self.kf_seen[key] = text
            return
        if key in self.viol:
            self.viol[key][1] += 1
            return
        d = os.path.join(self.replays, self.prop, "%03d" % len(self.viol))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        names = {}
        for f in files:
            try:
                b = os.path.basename(f)
                shutil.copy(f, os.path.join(d, b))
                names[f] = b
            except OSError:
                pass
        if script is not None:
            s = "CASE replay\n" + "\n".join(script) + "\nEND\n"
            for f, b in names.items():
                s = s.replace(f, "@DIR@/" + b)
            with open(os.path.join(d, "script.txt"), "w", encoding="latin-1") as fh: fh.write(s)
        with open(os.path.join(d, "report.txt"), "w", errors="replace") as fh:
            fh.write("property %s key %s seed %d tier %s\nharness %s\n\n%s\n" % (self.prop, key, self.seed, self.tier, exe, text))
        self.viol[key] = [d, 1, text]

    def crash(self, r, files=(), script=None, exe=None, what=""):
        """Handle a run that did not end normally; True if it did."""
        if r.status == "ok":
            return True
        if r.status in ("inconclusive", "lost"):
            self.inconclusive += 1
            return False
        self.violation(r.sig, "%s\n%s: %s\nat command %d%s\n%s" % (what, r.status, r.sig, r.last,
                       (": " + script[r.last]) if script and 0 <= r.last < len(script) else "", r.report), files, script, exe)
        return False

    # ---- cases spread over worker processes
    def parallel(self, fn, n, batch=None, jobs=None):
        """fn(sub, lo, hi) for slices of range(n), each in its own process; sub is a context to record in."""
        jobs = jobs or drive.NPROC
        if batch is None:
            batch = max(1, min(400, (n + jobs * 4 - 1) // (jobs * 4)))
        todo = [(lo, min(n, lo + batch)) for lo in range(0, n, batch)]
        running = {}
        failed = None
        while todo or running:
            while todo and len(running) < jobs and not self.enough() and not failed:
                lo, hi = todo.pop(0)
                out = os.path.join(self.work, "slice%d" % lo)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        sub = Ctx.__new__(Ctx)
                        sub.__dict__.update(self.__dict__)
                        sub.work = out + ".d"
                        os.makedirs(sub.work)
                        sub.replays = os.path.join(sub.work, "viol")
                        sub.evals, sub.inconclusive = 0, 0
                        sub.distinct, sub.cov, sub.samples, sub.viol, sub.kf_seen = set(), collections.Counter(), [], collections.OrderedDict(), {}
                        try: fn(sub, lo, hi)
                        except (OSError, MemoryError, RuntimeError): raise
                        except Exception as e:
                            # the code under test gave an answer which the oracle cannot make sense of
                            t = traceback.extract_tb(e.__traceback__)[-1]
                            sub.violation("senseless answer: %s in %s" % (type(e).__name__, t.name), "cases %d to %d\n%s" % (lo, hi, traceback.format_exc()))
                        with open(out, "wb") as f:
                            pickle.dump((sub.evals, sub.inconclusive, sub.distinct, sub.cov, sub.samples[:2], list(sub.viol.items()), sub.kf_seen), f)
                        rc = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush(); sys.stderr.flush()
                        os._exit(rc)
                running[pid] = out
            if not running:
                break
            pid, st = os.wait()
            if pid not in running:
                continue
            out = running.pop(pid)
            if st:
                failed = "a worker failed"
                continue
            with open(out, "rb") as f:
                ev, inc, dis, cov, sam, viol, kf = pickle.load(f)
            self.evals += ev; self.inconclusive += inc; self.distinct |= dis; self.cov.update(cov); self.kf_seen.update(kf)
            for x in sam: self.sample(x)
            for k, (d, cnt, t) in viol:
                if k in self.viol:
                    self.viol[k][1] += cnt
                else:
                    nd = os.path.join(REPLAYS, self.prop, "%03d" % len(self.viol))
                    shutil.rmtree(nd, ignore_errors=True)
                    os.makedirs(os.path.dirname(nd), exist_ok=True)
                    shutil.move(d, nd)
                    self.viol[k] = [nd, cnt, t]
            shutil.rmtree(out + ".d", ignore_errors=True)
        if failed and not self.viol:
            raise RuntimeError(failed)
        self.notes["slices_not_run"] = self.notes.get("slices_not_run", 0) + len(todo)

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples,
                                observed={k: v for k, v in sorted(self.cov.items())}, inconclusive=self.inconclusive, **self.notes),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.kf_seen: ev["coverage"]["known_findings"] = sorted(self.kf_seen)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k, v in self.kf.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, v))
        for k, (d, n, t) in self.viol.items():
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("  key=%s count=%d" % (k, n))
            print("  " + "\n  ".join(t.strip().split("\n")[:6])[:900])
        print("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %d inconclusive, %.1f s" %
              (self.prop, self.tier, self.evals, len(self.distinct), len(self.viol), self.inconclusive, time.time() - self.t0))
        if self.viol:
            return 1
        if not self.evals or self.inconclusive > 0.2 * self.evals:
            print("too little was decided")
            return 2
        return 0
