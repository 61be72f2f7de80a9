"""C18: boards read and written again by the library; the texts are compared by a reader of their own."""
import math, os, re
from math import pi
from vlib import build, drive, idf, badidf
from vlib.idf import UNIT

KO = ("ROUTE_OUTLINE", "ROUTE_KEEPOUT", "PLACE_OUTLINE", "PLACE_KEEPOUT", "VIA_KEEPOUT", "PLACE_REGION", "OTHER_OUTLINE", "BOARD_OUTLINE")


class Bad(Exception): pass


def fields(l):
    """The fields of a record; text in quotes is marked."""
    out = []
    for m in re.finditer(r'"([^"]*)"|(\S+)', l): out.append(m.group(1) if m.group(1) is not None else m.group(2))
    return out


def num(s):
    try: return float(s)
    except ValueError: raise Bad("%r is not a number" % s)


def is_loop(f):
    return len(f) == 4 and f[0].isdigit()


class Doc(object):
    """The content of a board or library file, lengths in millimetres."""
    def __init__(self, data, mech=False):
        self.fixed = "ECAD" if mech else "MCAD"     # fixed by the other side
        self.secs = []          # (name, owner, fields, loops, comments before)
        self.drills, self.notes, self.place, self.parts = [], [], [], []
        t = data.decode("latin-1")
        L = t.split("\n")
        i, com = 0, []
        L = [x.rstrip("\r") for x in L]
        hdr = None
        while i < len(L):
            l = L[i].strip(" \t"); i += 1
            if not l: continue
            if l[0] == "#": com.append(l[1:].strip()); continue
            if l[0] != ".": raise Bad("record %r outside sections" % l)
            f = fields(l)
            n = f[0][1:].upper()
            R = []
            while i < len(L):
                l = L[i].strip(" \t"); i += 1
                if l.upper().startswith(".END_"): break
                if l: R.append(l)
            else: raise Bad("section %s does not end" % n)
            if l.upper() != ".END_" + n: raise Bad("section %s ended by %s" % (n, l))
            F = [fields(x) for x in R]
            self.section(n, f[1:], F, com)
            com = []

    def section(self, n, own, F, com):
        if n == "HEADER":
            h = F[0]
            self.kind, self.ver = h[0], int(num(h[1]))
            self.source, self.version = h[2], h[4]
            if self.kind.upper() == "BOARD_FILE":
                self.name, u = F[1][0], F[1][1].upper()
                if u not in UNIT: raise Bad("unit %r" % u)
                self.unit = u
                self.u = UNIT[u]
            return
        if n == "DRILLED_HOLES":
            for f in F:
                if self.ver == 3:
                    if len(f) != 7: raise Bad("drill record %r" % (f,))
                    d, x, y, pl, ref, ty, ow = f
                    pl, ow = pl.upper(), ow.upper()
                else: (d, x, y, ty, ref), pl, ow = f, None, None
                if ty.upper() in ("PIN", "VIA", "MTG", "TOOL"): ty = ty.upper()
                # holes of no part have no reference
                if ref.upper() in ("BOARD", "NOREFDES", "PANEL"): ref = ref.upper()
                self.drills.append((num(d) * self.u, num(x) * self.u, num(y) * self.u, pl, ref, ty, ow))
        elif n == "NOTES":
            for f in F:
                if len(f) != 5: raise Bad("note record %r" % (f,))
                self.notes.append(tuple(num(x) * self.u for x in f[:4]) + (f[4],))
        elif n == "PLACEMENT":
            if len(F) % 2: raise Bad("odd number of placement records")
            for a, b in zip(F[::2], F[1::2]):
                if len(a) != 3: raise Bad("placement record %r" % (a,))
                if self.ver == 3:
                    if len(b) != 6: raise Bad("placement record %r" % (b,))
                    x, y, z, an, sd, st = b
                else:
                    (x, y, an, sd, st), z = b, "0"
                    if st.upper() == "FIXED": st = self.fixed
                ref = "NOREFDES" if a[2].upper().startswith("NOREFDES") else a[2]
                self.place.append((a[0], a[1], ref, num(x) * self.u, num(y) * self.u, num(z) * self.u, num(an), sd.upper(), st.upper()))
        elif n in ("ELECTRICAL", "MECHANICAL"):
            g, p, u, h = F[0]
            u = UNIT[u.upper()]
            lp = [f for f in F[1:] if f[0].upper() != "PROP"]
            self.parts.append((g, p, n, num(h) * u, self.loops(lp, u), sorted(tuple(f[1:]) for f in F[1:] if f[0].upper() == "PROP"), com))
        elif n in KO:
            meta = []
            while F and not is_loop(F[0]):
                meta.append(F[0]); F = F[1:]
            if len(meta) > 1: raise Bad("records %r in section %s" % (meta, n))
            meta = list(meta[0]) if meta else []
            u = self.u
            if n == "BOARD_OUTLINE": m = ("", num(meta[0]) * u)
            elif n == "OTHER_OUTLINE":
                if len(meta) != 3: raise Bad("OTHER_OUTLINE %r" % (meta,))
                m = (meta[0], num(meta[1]) * u, meta[2].upper() if self.ver == 3 else None)
            elif n in ("ROUTE_OUTLINE", "ROUTE_KEEPOUT"): m = (meta[0].upper() if meta else None,)
            elif n in ("PLACE_OUTLINE", "PLACE_KEEPOUT"): m = (meta[0].upper() if meta else None, num(meta[1]) * u if len(meta) > 1 else None if self.ver < 3 else "")
            elif n == "PLACE_REGION": m = (meta[0].upper(), meta[1])
            else: m = ()
            self.secs.append((n, own[0].upper() if own else None, m, self.loops(F, u), com))
        else: raise Bad("section %s" % n)

    def loops(self, F, u):
        out, last = [], None
        for f in F:
            if not is_loop(f): raise Bad("record %r in an outline" % (f,))
            k, x, y, a = int(f[0]), num(f[1]) * u, num(f[2]) * u, num(f[3])
            if last is None or k != last: out.append((k, [])); last = k
            elif abs(a) < 1e-9 and out[-1][1] and len(out[-1][1]) > 1 and self.closed(out[-1][1]): raise Bad("two loops of index %d" % k)
            out[-1][1].append((x, y, a))
        return out

    def closed(self, P):
        return math.hypot(P[0][0] - P[-1][0], P[0][1] - P[-1][1]) < 1e-9 or abs(abs(P[-1][2]) - 360) < 1e-9


def area(P):
    """Signed area of a closed chain with arcs."""
    A = 0.0
    for (x0, y0, q), (x1, y1, a) in zip(P, P[1:]):
        A += (x0 * y1 - x1 * y0) / 2
        if a:
            w = math.radians(a)
            d = math.hypot(x1 - x0, y1 - y0)
            r = d / 2 / math.sin(w / 2)
            A += r * r * (w - math.sin(w)) / 2
    return A


def ring(P, tol):
    """circle (centre, radius) or the cyclic list of (point, angle of the segment that leaves it)."""
    if len(P) == 2 and abs(abs(P[1][2]) - 360) < 1e-6: return ("circle", P[0][:2], math.hypot(P[1][0] - P[0][0], P[1][1] - P[0][1]))
    if math.hypot(P[0][0] - P[-1][0], P[0][1] - P[-1][1]) > tol: raise Bad("an outline does not end where it starts: %r %r" % (P[0], P[-1]))
    Q = P if area(P) > 0 else [(p[0], p[1], -q[2]) for p, q in zip(P[::-1], [(0, 0, 0)] + P[::-1])]
    return ("chain", [(p[0], p[1], q[2]) for p, q in zip(Q, Q[1:])])


def same_ring(a, b, tol, at):
    if a[0] != b[0]: return False
    if a[0] == "circle": return math.hypot(a[1][0] - b[1][0], a[1][1] - b[1][1]) <= 2 * tol and abs(a[2] - b[2]) <= 3 * tol
    A, B = a[1], b[1]
    n = len(A)
    if n != len(B): return False
    for k in range(n):
        if all(abs(A[i][0] - B[(i + k) % n][0]) <= tol and abs(A[i][1] - B[(i + k) % n][1]) <= tol and abs(A[i][2] - B[(i + k) % n][2]) <= at for i in range(n)): return True
    return False


def near(x, y, tol):
    if isinstance(x, float) and isinstance(y, float): return abs(x - y) <= tol
    return x is None or y is None or x == y


def winding(name, lps):
    """The direction in which each loop must run."""
    for j, (k, P) in enumerate(lps):
        if len(P) == 2:
            if abs(P[1][2] - 360) > 1e-6: return "a circle has the angle %r" % P[1][2]
            continue
        if ( area(P) > 0 ) != ( k == 0 ): return "loop %d of %s runs the wrong way" % (k, name)
    return None


def same_loops(A, B, tol, single):
    if len(A) != len(B): return "%d loops instead of %d" % (len(B), len(A))
    for j, ((k, P), (l, Q)) in enumerate(zip(A, B)):
        if not single and k != l: return "loop %d has index %d" % (j, l)
        if not same_ring(ring(P, 1e-6), ring(Q, 1e-9), tol, 6e-4): return "loop %d differs: %r instead of %r" % (j, ring(Q, 1e-6), ring(P, 1e-6))
    return None


def pair(A, B, same, what):
    """Every record of A has its own in B."""
    B = list(B)
    for a in A:
        for k, b in enumerate(B):
            if same(a, b): del B[k]; break
        else: return "%s %r is missing; there are %r" % (what, a, B[:3])
    if B: return "%s %r was not there" % (what, B[0])
    return None


def compare(A, B, LA, LB, unit):
    """A, LA: board and library as given, B, LB: as written."""
    if B.kind != "BOARD_FILE" or B.ver != 3 or LB.kind != "LIBRARY_FILE" or LB.ver != 3: return "header"
    if int(B.version) != int(A.version) + 1 or int(LB.version) != (int(LA.version) if LA else 0) + 1: return "version counter %s, %s" % (B.version, LB.version)
    if B.unit != unit: return "unit %s instead of %s" % (B.unit, unit)
    if A.name != B.name: return "board name %r instead of %r" % (B.name, A.name)
    # the writer's last place
    t = (5.1e-6 if unit == "MM" else .0501 * .0254) + getattr(A, "slack", 1e-9)
    def ok(a, b):
        if a[0] != b[0] or len(a[2]) != len(b[2]): return False
        return near(a[1], b[1], 0) and all(near(x, y, t) for x, y in zip(a[2], b[2])) and same_loops(a[3], b[3], t, False) is None
    SA, SB = [s for s in A.secs if s[3] or s[0] == "BOARD_OUTLINE"], B.secs
    if A.ver == 3: f = pair(SA, SB, ok, "section")
    else: f = pair([s for s in SA if s[0] != "PLACE_OUTLINE"], [s for s in SB if s[0] != "PLACE_OUTLINE"], ok, "section")
    if f: return f
    for s in SB:
        f = winding(s[0], s[3])
        if f: return f
    CA, CB = [x for s in SA for x in s[4] if x], [x for s in SB for x in s[4] if x]
    if sorted(CA) != sorted(CB): return "comments %r instead of %r" % (CB, CA)
    f = pair(A.drills, B.drills, lambda a, b: all(near(x, y, max(t, 5.01e-4) if k == 0 else t) for k, (x, y) in enumerate(zip(a, b))), "drill")
    if f: return f
    f = pair(A.notes, B.notes, lambda a, b: all(near(x, y, t) for x, y in zip(a, b)), "note")
    if f: return f
    lib = {}
    for p in LA.parts if LA else []: lib.setdefault((p[0] + "_" + p[1]), p)
    tz = max(t, 5.01e-4)
    f = pair([p for p in A.place if p[0] + "_" + p[1] in lib], B.place,
             lambda a, b: a[:3] == b[:3] and a[7:] == b[7:] and near(a[3], b[3], 2 * t) and near(a[4], b[4], 2 * t) and near(a[5], b[5], tz) and abs((a[6] - b[6] + 180) % 360 - 180) <= 1.6e-3, "placement")
    if f: return f
    used = set(p[0] + "_" + p[1] for p in A.place) | getattr(A, "used", set())
    # the library's lengths are written in the unit of the board
    def okp(a, b): return a[:3] == b[:3] and near(a[3], b[3], t) and same_loops(a[4], b[4], t, True) is None and a[5] == b[5]
    f = pair([p for k, p in lib.items() if k in used], LB.parts, okp, "part")
    if f: return f
    for p in LB.parts:
        f = winding("part", p[4])
        if f: return f
    return None


def strip(data):
    """Without the version counter and the date; -0 is 0."""
    data = re.sub(rb"(?m)(?<![^ \n])-(0\.0+)(?=[ \n])", rb"\1", data)
    return re.sub(rb'(_FILE 3\.0 "[^"\n]*") \d{4}/\d\d?/\d\d?\.\d\d?:\d\d?:\d\d? \d+', rb"\1", data)


def run(c):
    exe = build.build("san", ("vidf",))["vidf"]
    n = c.n(4000, 80000)

    def work(sub, lo, hi):
        d = sub.dir("r.d")
        cases, sts = [], {}
        prev = None
        for i in range(lo, hi):
            rd = sub.rnd(i)
            b = idf.Board(rd)
            t = idf.Text(b, rd)
            p = os.path.join(d, "b%d" % i)
            open(p + ".emn", "wb").write(t.emn())
            if b.parts or rd.random() < .5: open(p + ".emp", "wb").write(t.emp())
            mm = rd.random() < .6
            cad = rd.randrange(2)
            # whatever the extension, a board and a library are meant
            ex = lambda: rd.choice([".emn", ".emn", ".emn", "", ".emp", ".x", ".igs"])
            cmds = ["rewrite %s %d %s %d" % (drive.enc(p + ex()), cad, drive.enc(p + "w" + ex()), mm), "rewrite %s %d %s %d" % (drive.enc(p + "w" + ex()), cad, drive.enc(p + "v" + ex()), mm)]
            # an object which was used before, for a valid or a refused file, serves as well as a new one
            again = None
            if prev and rd.random() < .5:
                x = badidf.spoil(prev[1], rd) if rd.random() < .5 else None
                q = prev[0] + "x%d" % i if x else prev[0]
                if x: open(q + ".emn", "wb").write(x[0])
                again = "0" if x else "1"
                cmds.append("again %s %s %d %s %d" % (drive.enc(q + ".emn"), drive.enc(p + ".emn"), cad, drive.enc(p + "u.emn"), mm))
            prev = (p, open(p + ".emn", "rb").read())
            sts[i] = (b, t, p, mm, cmds, cad, again)
            cases.append((str(i), cmds))
        res = drive.run_cases(exe, cases, d)
        for i, (b, t, p, mm, cmds, cad, again) in sts.items():
            sub.evals += 1
            r = res[str(i)]
            files = [p + s + x for s in ("", "w", "v", "u") for x in (".emn", ".emp") if os.path.exists(p + s + x)]
            if sub.crash(r, files=files, script=cmds, exe=exe, what="case %d" % i):
                f = None
                rd = lambda s: open(p + s, "rb").read()
                if r.r(0) != "1 1": f = "reading and writing gives " + r.r(0)
                else:
                    try:
                        A, B, LB = Doc(rd(".emn"), cad), Doc(rd("w.emn")), Doc(rd("w.emp"))
                        LA = Doc(rd(".emp")) if os.path.exists(p + ".emp") else None
                        f = compare(A, B, LA, LB, "MM" if mm else "THOU")
                        if not f and r.r(1) != "1 1": f = "the written file: reading and writing gives " + r.r(1)
                        if not f:
                            for x in (".emn", ".emp"):
                                if strip(rd("w" + x)) != strip(rd("v" + x)): f = "a second pass changes the %s file" % x
                                if again and not f:
                                    if r.r(2) != again + " 1 1": f = "read with an object used before: " + r.r(2)
                                    elif strip(rd("w" + x)) != strip(rd("u" + x)): f = "an object used before writes another %s file" % x
                                    else: sub.event("written by an object used before " + ("(refused file)" if again == "0" else "(cleared)"))
                    except Bad as x: f = "Bad: %s" % x
                if f:
                    sub.violation(" ".join(w for w in f.split()[:5] if w.strip(":").isalpha()), "case %d (IDF %d, %s to %s): %s" % (i, t.ver, t.unit, "MM" if mm else "THOU", f), files=files, script=cmds, exe=exe)
                else:
                    for s in A.secs: sub.event(s[0]); sub.event("loops", len(s[3]))
                    sub.event("drills", len(A.drills)); sub.event("placements", len(B.place)); sub.event("parts", len(LB.parts)); sub.event("notes", len(A.notes))
                    sub.distinct.add((t.ver, t.unit, mm, tuple(sorted(s[0] for s in A.secs)), len(A.drills), len(B.place), len(LB.parts)))
                    if i % 50 == 0: sub.sample("IDF %d %s to %s: %d sections, %d drills, %d placements, %d parts" % (t.ver, t.unit, "MM" if mm else "THOU", len(A.secs), len(A.drills), len(B.place), len(LB.parts)))
            for f in files: os.remove(f)
            if sub.enough(): break
    c.parallel(work, n, batch=50)
    c.rule = "version and unit of the file, unit written, its sections, numbers of drills, placements and parts"
    c.assume = ["lengths agree to the writer's last place: 1e-5 mm or 0.1 mil (drill diameters and offsets in z 1e-3 mm), angles to 1e-3 degrees",
                "parts of the library which no component uses and placements whose part is missing are not written, as intended by the code"]
