"""C20: boards built and edited through the API of the IDF library, against a model of its rules."""
import copy, math, os
from math import pi
from vlib import build, drive, idf, shapes, g2
from vlib.g2 import Rigid, Circle
from .c18 import Doc, Bad, compare

OWN = ["UNOWNED", "MCAD", "ECAD"]
STAT = ["UNPLACED", "PLACED", "MCAD", "ECAD"]
TYPES = ["PIN", "VIA", "MTG", "TOOL", "other", "my type"]
COM = ["a remark", "checked by #3", "x", "see notes, page 2"]
enc, dec = drive.enc, drive.dec


def esc(s): return "".join("%%%02X" % ord(x) if x in ",;|^=:#!" else x for x in enc(s))


def close(a, b):
    if isinstance(a, float) or isinstance(b, float): return abs(float(a) - float(b)) <= 2e-5
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    return a == b


def where(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b): return "%s: %s instead of %s" % (p, sorted(map(str, b)), sorted(map(str, a)))
        for k in sorted(a, key=str):
            if not close(a[k], b[k]): return where(a[k], b[k], "%s %s" % (p, k if not p else "[%s]" % k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b): return "%s: %d instead of %d: %r instead of %r" % (p, len(b), len(a), b, a)
        for k, (x, y) in enumerate(zip(a, b)):
            if not close(x, y): return where(x, y, "%s [%d]" % (p, k))
    return "%s: %r instead of %r" % (p, b, a)


# ---- what the harness tells
def p_ring(s):
    out = []
    for q in s.split(";") if s else []:
        v = [float(x) for x in q.split(",")]
        if len(v) > 5:          # centre and radius belong to the ends and the angle
            x0, y0, x1, y1, a, cx, cy, r = v
            w = math.radians(a)
            e = (cx + (x0 - cx) * math.cos(w) - (y0 - cy) * math.sin(w), cy + (x0 - cx) * math.sin(w) + (y0 - cy) * math.cos(w))
            if abs(a) == 360: e, bad = (x1, y1), math.hypot(cx - x0, cy - y0) > 1e-9 or abs(math.hypot(x1 - cx, y1 - cy) - r) > 1e-9 * (1 + r)
            else: bad = abs(math.hypot(x0 - cx, y0 - cy) - r) > 1e-6 * (1 + r)
            if bad or math.hypot(e[0] - x1, e[1] - y1) > 2e-5 * (1 + r): raise ValueError("arc %r" % (v,))
        out.append(tuple(v[:5]))
    return out


def p_outline(s):
    h = s.split("|")
    f = h[0].split(",")
    L = [x.split(":", 1) for x in h[1:]]
    return {"owner": int(f[0]), "th": float(f[1]), "single": int(f[4]), "n": (int(f[2]), int(f[3])), "com": [dec(x[1:]) for x in f[5:]], "loops": [(n, p_ring(r)) for n, r in L]}


def p_drill(s):
    f = s.split(",")
    return (float(f[0]), float(f[1]), float(f[2]), int(f[3]), dec(f[4]), dec(f[5]), int(f[6]))


def p_dump(s):
    v = dict(x.split("=", 1) for x in s.split(" "))
    S = {"name": dec(v["name"]), "th": float(v["th"]), "ver": int(v["ver"]), "libver": int(v["libver"]), "scale": float(v["scale"]), "prec": int(v["prec"]), "src": dec(v["src"]),
         "off": tuple(float(x) for x in v["off"].split(",")), "nout": int(v["nout"]), "ncomp": int(v["ncomp"]), "out": p_outline(v["out"]), "drills": [p_drill(x) for x in v["drills"].split("|")[1:]]}
    S["comps"] = {}
    for x in v["comps"].split("|")[1:]:
        f = x.split(";")
        h = f[0].split(",")
        q = {"ref": dec(h[1]), "place": int(h[2]), "pos": (float(h[4]), float(h[5]), float(h[6]), int(h[7])) if h[3] == "1" else None, "drills": [p_drill(y[1:]) for y in f[1:] if y[0] == "D"]}
        q["n"] = int([y for y in f[1:] if y[0] not in "DP"][0])
        q["data"] = [(dec(y[1:].split(",")[0]),) + tuple(float(z) for z in y.split(",")[1:]) for y in f[1:] if y[0] == "P"]
        S["comps"][dec(h[0])] = q
    S["parts"] = {}
    for x in v["parts"].split("^")[1:]:
        u, g, p, k, o = x.split(",", 4)
        S["parts"][dec(u)] = {"geom": dec(g), "part": dec(p), "class": int(k), "out": p_outline(o)}
    return S


def segs(chain, rd):
    """Closed chain -> segments."""
    if len(chain) == 1 and chain[0].full:
        s = chain[0]
        P = g2.polar(s.c, s.r, rd.uniform(-pi, pi))
        return [(s.c[0], s.c[1], P[0], P[1], 360.0)]
    out = [(s.start[0], s.start[1], s.end[0], s.end[1], 0.0 if s.kind == "line" else math.degrees(s.sw)) for s in chain]
    return [(a[0], a[1]) + out[(k + 1) % len(out)][:2] + (a[4],) for k, a in enumerate(out)]


def text(s): return ",".join(repr(float(x)) for x in s)


def kicad(s):
    """The same arc with centre and start, and as it must be understood; None if it has none."""
    x0, y0, x1, y1, a = s
    if a == 0 or abs(a) == 360 or abs(a) > 300: return None
    w = math.radians(a)
    d = math.hypot(x1 - x0, y1 - y0)
    r = d / 2 / math.sin(abs(w) / 2)
    h = r * math.cos(abs(w) / 2) * (1 if w > 0 else -1)
    mx, my, ux, uy = (x0 + x1) / 2, (y0 + y1) / 2, (x1 - x0) / d, (y1 - y0) / d
    c = (mx - uy * h, my + ux * h)
    # the start is taken at an angle of four decimals
    o = math.degrees(math.atan2(y0 - c[1], x0 - c[0])) * 1e4
    if abs(o - round(o)) < 1e-3 or r > 200: return None
    o = math.radians(math.trunc(o) / 1e4 + a)
    r = math.hypot(x0 - c[0], y0 - c[1])
    return "K," + text(c + (x0, y0, a)), (x0, y0, c[0] + r * math.cos(o), c[1] + r * math.sin(o), a)


def spell(q, rd, chain=True):
    """Arguments for segments; the segments as they must be understood. A chain stays closed."""
    T, out = [], []
    for j, x in enumerate(q):
        if chain and out: x = out[-1][2:4] + x[2:]
        k = kicad(x) if rd.random() < .3 and (not chain or j < len(q) - 1) else None
        T.append(k[0] if k else text(x))
        out.append(k[1] if k else x)
    return " ".join(T), out


class Model(object):
    def __init__(self, rd, case, d):
        self.rd, self.case, self.d = rd, case, d
        self.cmds = []          # (command, expected answer or None, or a state)
        self.files = []
        self.n = 0
        self.cad = rd.randrange(2)
        self.S = {"name": "", "th": 1.6, "ver": 0, "libver": 0, "scale": 1.0, "prec": 5, "src": "", "off": (0.0, 0.0),
                  "out": {"owner": 0, "single": 0, "com": [], "loops": []}, "drills": [], "comps": {}, "parts": {}}
        self.pfiles, self.byfile = [], {}       # component files; those which the board took
        self.free = {}          # outlines of the user: name -> segments
        self.fcomp = {}         # components of the user
        self.names = {}         # name of component of the board -> ref
        self.uid = {}           # name of part -> uid
        self.other = None       # what the board has besides, from a file
        self.writes = []
        self.events = []

    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def do(self, cmd, want=None):
        self.cmds.append((cmd, want))

    def ev(self, e): self.events.append(e)

    def may(self, owner): return owner == 0 or (owner == 1) == bool(self.cad)

    def maycomp(self, place): return place in (0, 1, 4) or (place == 2) == bool(self.cad)

    # ---- outlines
    def loop(self, s, at=(0.0, 0.0)):
        rd = self.rd
        c = shapes.move(shapes.shape(rd, s), Rigid(rd.uniform(-pi, pi), at))
        return segs(shapes.revchain(c) if rd.random() < .3 and not (len(c) == 1 and c[0].full) else c, rd)

    def outline(self, s=None, at=None):
        rd = self.rd
        q = self.loop(s or rd.choice([1.0, 10.0, 60.0]), at or (rd.uniform(-50, 50), rd.uniform(-50, 50)))
        n = self.new("o")
        T, q = spell(q, rd)
        self.free[n] = q
        A = 0.0
        for x0, y0, x1, y1, a in q:
            A += (x0 * y1 - x1 * y0) / 2
            if a and abs(a) < 360:
                w = math.radians(a)
                r = math.hypot(x1 - x0, y1 - y0) / 2 / math.sin(w / 2)
                A += r * r * (w - math.sin(w)) / 2
        want = "1" * len(q) + (" ccw circle" if abs(q[0][4]) == 360 else " ccw" if A > 0 else " cw")
        self.do("eol %s %s" % (n, T), want)
        return n

    def target(self):
        """(name in commands, state) of an outline to edit."""
        rd = self.rd
        L = [("B", self.S["out"])] * 3 + [("/B", self.S["out"])] * 2 + [(n, self.S["parts"][u]["out"]) for n, u in sorted(self.uid.items())]
        return rd.choice(L)

    def op_add(self):
        rd, (t, o) = self.rd, self.target()
        part = t[-1] != "B"
        k = rd.random()
        if part and o["loops"]:
            # one loop only
            self.do("eo %s clearo" % t, "ok"); o["loops"] = []
        if k < .1 and not part:
            self.do("eadd %s -" % t, "0"); self.ev("refused: no outline"); return
        if k < .25 and not part:
            L = [n for n, q in o["loops"] if n != "?"]
            if L: self.do("eadd %s %s" % (t, rd.choice(L)), "0"); self.ev("refused: outline twice"); return
        n = rd.choice(sorted(self.free)) if self.free and rd.random() < .5 else self.outline()
        if part: self.part_add(t, o, n); return
        ok = self.may(o["owner"])
        self.do("eadd %s %s" % (t, n), str(int(ok)))
        if ok: o["loops"].append((n, self.free.pop(n))); self.ev("outline added")
        else: self.ev("refused: owner of the outline")

    def part_add(self, t, o, n):
        self.do("eadd %s %s" % (t, n), "1")
        o["loops"].append((n, self.free.pop(n)))
        self.ev("outline of a part replaced")

    def op_del(self):
        rd = self.rd
        t = rd.choice(["B", "/B"])
        o = self.S["out"]
        L = o["loops"]
        ok = self.may(o["owner"])
        k = rd.random()
        if k < .5:
            if rd.random() < .1: self.do("edelp %s -" % t, "0"); return
            P = [j for j, (n, q) in enumerate(L) if n != "?"]
            if not P or rd.random() < .1:
                if not self.free: self.outline()
                self.do("edelp %s %s" % (t, rd.choice(sorted(self.free))), "0"); self.ev("refused: not an outline of the board")
                return
            j = rd.choice(P)
            r = ok and (j > 0 or len(L) == 1)
            self.do("edelp %s %s" % (t, L[j][0]), str(int(r)))
            if r: n, q = L.pop(j); self.free[n] = q; self.ev("outline taken back")
            else: self.ev("refused: removal of an outline")
        else:
            j = rd.randrange(len(L) + 2)
            r = ok and j < len(L) and (j > 0 or len(L) == 1)
            self.do("edeli %s %d" % (t, j), str(int(r)))
            if r: L.pop(j); self.ev("outline deleted")
            else: self.ev("refused: deletion of an outline")

    def op_outline(self):
        rd, (t, o) = self.rd, self.target()
        part = t[-1] != "B"
        ok = part or self.may(o["owner"])
        k = rd.choice(["owner", "thick", "thick", "com", "com", "com", "delcom", "clearcom", "at", "comat", "clear", "clearo", "get"])
        if k == "owner":
            if part: return
            w = rd.choice([0, 0, 0, 1, 2])
            self.do("eo %s owner %d" % (t, w), str(int(ok)))
            if ok: o["owner"] = w
        elif k == "thick":
            x = rd.choice([0.8, 1.6, rd.uniform(.05, 20), 0.0, -1.0, float("nan")])
            lo = x >= 0 and (x > 0 or t != "B")
            if not part and x == 0: return
            self.do("eo %s thick %r" % (t, x), str(int(ok and lo)))
            if ok and lo:
                if part: o["th"] = x
                else: self.S["th"] = x
            self.ev("thickness" if ok and lo else "refused: thickness")
        elif k == "com":
            s = rd.choice(COM)
            if rd.random() < .1: s = ""
            self.do("eo %s com %s" % (t, enc(s) or "%"), "ok")
            if s: o["com"].append(s); self.ev("comment")
        elif k == "delcom":
            j = rd.randrange(len(o["com"]) + 2)
            self.do("eo %s delcom %d" % (t, j), str(int(j < len(o["com"]))))
            if j < len(o["com"]): del o["com"][j]; self.ev("comment deleted")
        elif k == "clearcom":
            if rd.random() < .3: self.do("eo %s clearcom" % t, "ok"); o["com"] = []
        elif k == "at":
            j = rd.randrange(len(o["loops"]) + 2)
            self.do("eo %s at %d" % (t, j), o["loops"][j][0] if j < len(o["loops"]) else "-")
        elif k == "comat":
            j = rd.randrange(len(o["com"]) + 2)
            self.do("eo %s comat %d" % (t, j), esc(o["com"][j]) if j < len(o["com"]) else "null")
        elif k == "clearo":
            if rd.random() < .3 and not part:
                self.do("eo %s clearo" % t, "ok")
                if ok: o["loops"] = []
                self.ev("outlines cleared" if ok else "refused: outlines cleared")
        elif k == "clear":
            if rd.random() < .3 and not part:
                self.do("eo %s clear" % t, str(int(ok)))
                if ok:
                    o["loops"], o["com"], o["owner"] = [], [], 0
                    self.do("eo %s thick 1.5" % t, "1")
                    self.S["th"] = 1.5
                self.ev("outline cleared" if ok else "refused: outline cleared")
        elif k == "get": self.do("eo %s get" % t, ("outline", copy.deepcopy(o if part else dict(o, th=self.S["th"]))))

    # ---- header data
    def op_head(self):
        rd, S = self.rd, self.S
        k = rd.choice(["name", "src", "ver", "libver", "scale", "prec", "off"])
        if k in ("name", "src"):
            S[k] = rd.choice(idf.WORDS)
            self.do("ebset B %s %s" % (k, enc(S[k])), "ok")
        elif k in ("ver", "libver"):
            v = rd.choice([0, 1, 7, 100, -1, -7])
            self.do("ebset B %s %d" % (k, v), str(int(v >= 0)))
            if v >= 0: S[k] = v
        elif k == "scale":
            v = rd.choice([0.0, 1.0, 2.5, -1.0])
            self.do("ebset B scale %r" % v, str(int(v != 0)))
            if v: S[k] = v
        elif k == "prec":
            v = rd.choice([0, 1, 3, 8, 9, -1])
            self.do("ebset B prec %d" % v, str(int(1 <= v <= 8)))
            if 1 <= v <= 8: S[k] = v
        else:
            S[k] = (rd.uniform(-9, 9), rd.choice([0.0, 3.0]))
            self.do("ebset B off %r %r" % S[k], "ok")

    # ---- holes
    def hole(self):
        rd = self.rd
        return (rd.choice([0.3, 1.0, rd.uniform(.3, 6)]), float(rd.randint(-40, 40)), rd.choice([0.0, rd.uniform(-50, 50)]), rd.randrange(2), rd.choice(TYPES), rd.choice([0, 0, 1, 2]))

    def drill_args(self, h): return "%r %r %r %d" % h[:4], "%s %d" % (enc(h[4]), h[5])

    def told(self, h, ref): return ("drill", (h[0], h[1], h[2], h[3], ref, h[4], h[5]))

    def op_drill(self):
        rd, S = self.rd, self.S
        k = rd.random()
        # a component whose holes carry its own reference
        C = [(n, c) for n, c in sorted(self.fcomp.items()) + [(n, S["comps"][r]) for n, r in sorted(self.names.items())] if c["ref"] and not c["ref"].upper().startswith("NOREFDES")]
        if k < .35:
            h = self.hole()
            old = [x for x in S["drills"]]
            if old and rd.random() < .2: h = rd.choice(old)[:3] + h[3:]         # another one at the same place
            a, b = self.drill_args(h)
            self.do("edrill B %s %s" % (a, b), self.told(h, "BOARD"))
            S["drills"].append(self.told(h, "BOARD")[1]); self.ev("hole in the board")
        elif k < .5 and C:
            n, c = rd.choice(C)
            h = self.hole()
            a, b = self.drill_args(h)
            self.do("edrill %s %s %s" % (n, a, b), self.told(h, c["ref"]))
            c["drills"].append(self.told(h, c["ref"])[1]); self.ev("hole of a component")
        elif k < .75:
            h = self.hole()
            ref = rd.choice(["BOARD", "PANEL", "NOREFDES", "", "D9", "D 10"] + [c["ref"] for n, c in C])
            n = self.new("d")
            a, b = self.drill_args(h)
            self.do("emkdrill %s %s %s %s" % (n, a, enc(ref) or "%", b), "ok")
            r = ref or "NOREFDES"
            if C and rd.random() < .4:
                m, c = rd.choice(C)
                ok = c["ref"] == r
                self.do("eadddrill %s %s" % (m, n), str(int(ok)))
                if ok: c["drills"].append(self.told(h, r)[1])
                self.ev("hole given to a component" if ok else "refused: hole of another component")
            else:
                self.do("eadddrill B %s" % n, "1")
                q = self.told(h, r)[1]
                if r in ("BOARD", "PANEL"): S["drills"].append(q)
                else:
                    if r not in S["comps"]: S["comps"][r] = {"ref": r, "place": 4, "pos": None, "drills": [], "data": []}; self.ev("component made for a hole")
                    S["comps"][r]["drills"].append(q)
                self.ev("hole given to the board")
        elif k < .9:
            L = S["drills"]
            if not L or rd.random() < .2: x = (9.0, 99.0, 99.0)
            else: x = rd.choice(L)[:3]
            hit = [h for h in L if h[:3] == x]
            gone = [h for h in hit if self.may(h[6])]
            if any(h[:3] != x and max(abs(h[j] - x[j]) for j in range(3)) < 1e-3 for h in L): return
            self.do("edeldrill B %r %r %r" % x, str(int(bool(gone))))
            S["drills"] = [h for h in L if not (h[:3] == x and self.may(h[6]))]
            self.ev("holes deleted" if gone else "refused: hole of another owner" if hit else "no such hole")
        elif C:
            n, c = rd.choice(C)
            L = c["drills"]
            x = rd.choice(L)[:3] if L and rd.random() < .8 else (9.0, 99.0, 99.0)
            if any(h[:3] != x and max(abs(h[j] - x[j]) for j in range(3)) < 1e-3 for h in L): return
            ok = self.maycomp(c["place"])
            r = ok and any(h[:3] == x for h in L)
            self.do("edeldrill %s %r %r %r" % ((n,) + x), str(int(r)))
            if r: c["drills"] = [h for h in L if h[:3] != x]; self.ev("hole of a component deleted")
            elif not ok: self.ev("refused: owner of the component")

    def op_slot(self):
        rd = self.rd
        w, l, a, x, y = rd.choice([0.0005, 1.0, rd.uniform(.01, 5)]), rd.choice([0.0005, 2.0, rd.uniform(.01, 9)]), rd.choice([0.0, 90.0, rd.uniform(-360, 360)]), rd.uniform(-50, 50), rd.uniform(-50, 50)
        ok = w >= .001 and l >= .001
        self.do("eslot B %r %r %r %r %r" % (w, l, a, x, y), str(int(ok)))
        if not ok: self.ev("refused: slot"); return
        t = math.radians(a)
        u, v = (l / 2 * math.cos(t), l / 2 * math.sin(t)), (-w / 2 * math.sin(t), w / 2 * math.cos(t))
        P = [(x + s * u[0] + q * v[0], y + s * u[1] + q * v[1]) for s, q in ((1, -1), (-1, -1), (-1, 1), (1, 1))]
        # clockwise
        self.S["out"]["loops"].append(("?", [P[0] + P[1] + (0.0,), P[1] + P[2] + (-180.0,), P[2] + P[3] + (0.0,), P[3] + P[0] + (-180.0,)]))
        self.ev("slot")

    # ---- parts and components
    def op_part(self):
        rd, S = self.rd, self.S
        if len(S["parts"]) > 6: return
        k = rd.random()
        if k < .5:
            g, p = rd.choice(idf.WORDS), rd.choice(idf.WORDS)
            if rd.random() < .1: g = p = ""
            uid = g + "_" + p if g or p else "NOGEOM_NOPART"
            n = self.new("p")
            old = uid in S["parts"]
            have = [m for m, u in self.uid.items() if u == uid]
            self.do("eipart %s B %s %s" % (n, enc(g) or "%", enc(p) or "%"), have[0] if have else n)
            if not have: self.uid[n] = uid
            if not old:
                S["parts"][uid] = {"geom": g or "NOGEOM", "part": p or "NOPART", "class": 0, "out": {"owner": 0, "th": 5.0, "single": 1, "com": [], "loops": [("?", star())]}}
                self.ev("part: default outline")
        else:
            b = self.b
            q = {"geom": rd.choice(idf.WORDS) + "f", "part": rd.choice(idf.WORDS), "elec": rd.random() < .7, "props": [], "unit": "MM", "h": rd.choice([1.0, rd.uniform(.01, 20)])}
            q["chain"] = segs(shapes.shape(rd, rd.choice([1.0, 8.0])), rd)
            f = os.path.join(self.d, "p%d-%d.idf" % (self.case, len(self.files)))
            uid = q["geom"] + "_" + q["part"]
            if self.pfiles and rd.random() < .3: f, uid, q = rd.choice(self.pfiles)         # one from before
            else: self.libfile(f, q); self.pfiles.append((f, uid, q))
            old = S["parts"].get(uid)
            n = self.new("p")
            if old and uid in self.byfile and self.byfile[uid] == f:
                self.do("epart %s B %s" % (n, enc(f)), [m for m, u in self.uid.items() if u == uid][0]); self.ev("part: file given before")
                return
            if old:
                # the same part under another description is refused
                self.do("epart %s B %s" % (n, enc(f)), "-"); self.ev("refused: another part of the same name")
                return
            self.do("epart %s B %s" % (n, enc(f)), n)
            self.uid[n] = uid
            self.byfile[uid] = f
            S["parts"][uid] = {"geom": q["geom"], "part": q["part"], "class": 0 if q["elec"] else 1, "out": {"owner": 0, "th": q["hq"], "single": 1, "com": ["part"], "loops": [("?", q["segsq"])]}}
            self.ev("part: from a file")
            if rd.random() < .3:
                self.do("epart %s B %s" % (self.new("p"), enc(f)), n); self.ev("part: file given again")
            if rd.random() < .2:
                f2 = f[:-4] + "-2.idf"
                open(f2, "wb").write(open(f, "rb").read())
                self.files.append(f2)
                self.do("epart %s B %s" % (self.new("p"), enc(f2)), n); self.ev("part: the same in another file")

    def libfile(self, f, q):
        """A component file of one part."""
        N = lambda x: "%.5f" % x
        L = ["# part", ".ELECTRICAL" if q["elec"] else ".MECHANICAL", '"%s" "%s" MM %s' % (q["geom"], q["part"], N(q["h"]))]
        s = q["chain"]
        A = Model.signed(s)
        k = 0 if A > 0 or abs(s[0][4]) == 360 else 1
        L.append("%d %s %s 0" % (k, N(s[0][0]), N(s[0][1])))
        for x in s: L.append("%d %s %s %s" % (k, N(x[2]), N(x[3]), N(x[4])))
        L += [".END_ELECTRICAL" if q["elec"] else ".END_MECHANICAL"]
        open(f, "wb").write(("\n".join(L) + "\n").encode("latin-1"))
        self.files.append(f)
        r = lambda x: float(N(x))
        q["hq"], q["segsq"] = r(q["h"]), [tuple(r(y) for y in x) for x in s]

    @staticmethod
    def signed(q):
        A = 0.0
        for x0, y0, x1, y1, a in q:
            A += (x0 * y1 - x1 * y0) / 2
            if a and abs(a) < 360:
                w = math.radians(a)
                r = math.hypot(x1 - x0, y1 - y0) / 2 / math.sin(w / 2)
                A += r * r * (w - math.sin(w)) / 2
        return A

    def op_pset(self):
        rd = self.rd
        if not self.uid: return
        n = rd.choice(sorted(self.uid))
        p = self.S["parts"][self.uid[n]]
        if rd.random() < .8:
            k = rd.choice([0, 1, 2])
            self.do("epset %s class %d" % (n, k), str(int(k < 2)))
            if k < 2: p["class"] = k
        else:
            self.do("epset %s default %s %s" % (n, enc(p["geom"]), enc(p["part"])), "1")
            p["class"], p["props"] = 0, []
            p["out"].update(th=5.0, com=[], loops=[("?", star())], owner=0)
            self.ev("part: default outline again")

    def op_comp(self):
        rd, S = self.rd, self.S
        n = self.new("c")
        self.do("ecomp %s B" % n, "ok")
        c = self.fcomp[n] = {"ref": "", "place": 4, "pos": None, "drills": [], "data": []}
        while not c["ref"]:
            r = rd.choice(["R%d" % self.n, "U %d" % self.n, "NOREFDESn%d" % self.n, "", "PANEL", "panel"] + sorted(S["comps"]))
            ok = r != "" and r.upper() != "PANEL"
            self.do("ecset %s ref %s" % (n, enc(r) or "%"), str(int(ok)))
            if ok: c["ref"] = r
        if rd.random() < .8: self.place(n, c)
        if rd.random() < .8: self.pos(n, c)
        self.ev("component")

    def place(self, n, c):
        k = self.rd.choice([0, 1, 1, 1, 2, 3, 4])
        ok = 0 <= k <= 3 and self.maycomp(c["place"])
        self.do("ecset %s place %d" % (n, k), str(int(ok)))
        if ok: c["place"] = k

    def pos(self, n, c):
        rd = self.rd
        q = (rd.uniform(-60, 60), rd.uniform(-60, 60), rd.choice([0.0, 90.0, 270.0, rd.uniform(-360, 360)]), rd.choice([0, 1, 0, 1, 2]))
        ok = q[3] < 2 and self.maycomp(c["place"]) and c["pos"] is None
        self.do("ecset %s pos %r %r %r %d" % ((n,) + q), str(int(ok)))
        if ok: c["pos"] = q

    def anycomp(self):
        """Name and state of some component; one which is on the board may have to be found first."""
        rd, S = self.rd, self.S
        L = sorted(self.fcomp) + sorted(S["comps"])
        if not L: return None
        k = rd.randrange(len(L))
        if k < len(self.fcomp): return L[k], self.fcomp[L[k]]
        r = L[k]
        have = [n for n, q in self.names.items() if q == r]
        if have and rd.random() < .8: return have[0], S["comps"][r]
        n = self.new("c")
        self.do("ecfind %s B %s" % (n, enc(r)), have[0] if have else "?")
        if not have: self.names[n] = r
        return (have[0] if have else n), S["comps"][r]

    def op_cset(self):
        rd = self.rd
        if rd.random() < .1: self.do("ecfind x B nosuch", "-"); return
        q = self.anycomp()
        if not q: return
        n, c = q
        k = rd.random()
        if k < .4: self.place(n, c)
        else: self.pos(n, c)
        if not self.maycomp(c["place"]): self.ev("refused: owner of the component")

    def op_data(self):
        rd, S = self.rd, self.S
        q = self.anycomp()
        if not q or not S["parts"]: return
        n, c = q
        if c["ref"] == "NOREFDES" or not self.uid: return
        k = rd.random()
        ok = self.maycomp(c["place"])
        if k < .6:
            m = rd.choice(sorted(self.uid))
            t = self.new("t")
            off = (rd.uniform(-5, 5), rd.uniform(-5, 5), rd.choice([0.0, rd.uniform(-2, 2)]), rd.choice([0.0, 90.0, -45.0])) if rd.random() < .5 else None
            self.do("edata %s %s %s%s" % (t, n, m, "" if off is None else " %r %r %r %r" % off), "ok")
            self.do("eadddata %s %s" % (n, t), "1")
            D = [self.uid[m]] + list(off or (0.0, 0.0, 0.0, 0.0))
            c["data"].append([t, D])
            self.ev("outline of a component" + (" with offsets" if off else ""))
        elif k < .7:
            t = rd.choice([x for x in c["data"] if x[0]] or [None])
            if not t: self.do("edeldatap %s -" % n, "0"); return
            self.do("edeldatap %s %s" % (n, t[0]), str(int(ok)))
            if ok: c["data"].remove(t); self.ev("outline of a component deleted")
        elif k < .8:
            j = rd.randrange(len(c["data"]) + 2)
            r = ok and j < len(c["data"])
            self.do("edeldatai %s %d" % (n, j), str(int(r)))
            if r: del c["data"][j]; self.ev("outline of a component deleted")
        else:
            t = rd.choice([x for x in c["data"] if x[0]] or [None])
            if not t or c["place"] == 4: return
            if rd.random() < .5:
                off = [rd.uniform(-5, 5), rd.uniform(-5, 5), rd.choice([0.0, rd.uniform(-2, 2)]), rd.choice([0.0, 90.0, -45.0])]
                self.do("etset %s off %r %r %r %r" % tuple([t[0]] + off), str(int(ok)))
                if ok: t[1][1:] = off
            else:
                m = rd.choice(sorted(self.uid))
                self.do("etset %s part %s" % (t[0], m), str(int(ok)))
                if ok: t[1][0] = self.uid[m]
            self.ev("outline of a component changed" if ok else "refused: owner of the component")

    def op_attach(self):
        rd, S = self.rd, self.S
        if rd.random() < .05: self.do("ecadd B -", "0"); return
        if not self.fcomp: return
        n = rd.choice(sorted(self.fcomp))
        c = self.fcomp[n]
        ok = c["ref"] not in S["comps"]
        self.do("ecadd B %s" % n, str(int(ok)))
        if ok: S["comps"][c["ref"]] = self.fcomp.pop(n); self.names[n] = c["ref"]; self.ev("component added")
        else: self.ev("refused: component of the same reference")

    def op_remove(self):
        rd, S = self.rd, self.S
        k = rd.random()
        if k < .4:
            L = sorted(S["comps"], key=lambda s: s.encode("latin-1"))
            j = rd.randrange(len(L) + 2)
            if j < len(L) and S["comps"][L[j]]["place"] == 4: return
            ok = j < len(L) and self.maycomp(S["comps"][L[j]]["place"])
            self.do("ecdeli B %d" % j, str(int(ok)))
            if ok: self.gone(L[j])
            elif j < len(L): self.ev("refused: owner of the component")
        elif k < .8:
            q = self.anycomp()
            if not q or q[1]["place"] == 4: return
            n, c = q
            ok = n not in self.fcomp and self.maycomp(c["place"])
            self.do("ecdelp B %s" % n, str(int(ok)))
            if ok: self.gone(c["ref"])
            else: self.ev("refused: not a component of the board" if n in self.fcomp else "refused: owner of the component")

    def gone(self, ref):
        del self.S["comps"][ref]
        for n in [n for n, r in self.names.items() if r == ref]: del self.names[n]
        self.ev("component deleted")

    def op_clear(self):
        if self.rd.random() < .7 or any(c["data"] for c in self.fcomp.values()): return
        self.do("eclear B", "ok")
        self.do("ebset B prec 4", "1")
        th = self.S["th"]
        self.S = {"name": "", "th": th, "ver": 0, "libver": 0, "scale": 1.0, "prec": 4, "src": "", "off": (0.0, 0.0), "out": {"owner": 0, "single": 0, "com": [], "loops": []}, "drills": [], "comps": {}, "parts": {}}
        self.names, self.uid, self.other, self.byfile = {}, {}, None, {}
        self.ev("board cleared")

    # ---- written
    def state(self):
        S = copy.deepcopy(self.S)
        S["out"]["th"] = S["th"]
        for o in [S["out"]] + [p["out"] for p in S["parts"].values()]: o["n"] = (len(o["loops"]), len(o["com"]))
        S["nout"], S["ncomp"] = len(S["out"]["loops"]), len(S["comps"])
        for c in S["comps"].values():
            c["n"] = len(c["data"])
            c["data"] = [tuple(x[1]) for x in c["data"]]
        for p in S["parts"].values(): p.pop("props", None)
        return S

    def dump(self): self.do("edump B", ("state", self.state()))

    def op_write(self, last=False):
        rd, S = self.rd, self.S
        for r in sorted(S["comps"]):
            c = S["comps"][r]
            if c["data"] and c["pos"] is None:
                have = [n for n, q in self.names.items() if q == r]
                if not have:
                    have = [self.new("c")]
                    self.do("ecfind %s B %s" % (have[0], enc(r)), "?")
                    self.names[have[0]] = r
                if self.maycomp(c["place"]): self.do("ecset %s pos 1.0 2.0 30.0 1" % have[0], "1"); c["pos"] = (1.0, 2.0, 30.0, 1)
                else: return        # such a component cannot be placed
        mm = rd.random() < .6
        f = os.path.join(self.d, "w%d-%d" % (self.case, len(self.files)))
        A, LA = self.doc()
        self.do("ewrite B %s %d" % (enc(f + ".emn"), mm), "1")
        self.files += [f + ".emn", f + ".emp"]
        if not S["src"]: S["src"] = "KiCad-IDF Framework"
        S["ver"] += 1; S["libver"] += 1
        self.writes.append((f, mm, A, LA, S["src"], {p["geom"] + "_" + p["part"]: list(p["out"]["com"]) for p in S["parts"].values()}))
        n = self.new("b")
        self.do("eboard %s %d" % (n, self.cad), "ok")
        self.do("eread %s %s" % (n, enc(f + ".emn")), "1")
        self.ev("written and read back")

    def doc(self):
        """What the files must contain."""
        S = self.S
        class X(object): pass
        A, LA = X(), X()
        A.kind, A.ver, A.version, A.name, A.notes, A.unit = "BOARD_FILE", 3, S["ver"], S["name"] or "BOARD WITH NO NAME", [], None
        LA.kind, LA.ver, LA.version = "LIBRARY_FILE", 3, S["libver"]
        def pts(q):
            P = [(q[0][0], q[0][1], 0.0)] + [(x[2], x[3], x[4]) for x in q]
            if abs(q[0][4]) != 360 and math.hypot(P[0][0] - P[-1][0], P[0][1] - P[-1][1]) < 1e-3: P[-1] = P[0][:2] + P[-1][2:]
            return P
        A.secs = [("BOARD_OUTLINE", OWN[S["out"]["owner"]], ("", S["th"]), [(k, pts(q)) for k, (n, q) in enumerate(S["out"]["loops"])], list(S["out"]["com"]))]
        nr = lambda r: "NOREFDES" if r.upper().startswith("NOREFDES") else r
        dr = lambda h: (h[0], h[1], h[2], ["PTH", "NPTH"][h[3]], nr(h[4]), h[5], OWN[h[6]])
        A.drills = [dr(h) for h in S["drills"]]
        A.slack = 1e-5          # slots: angles are taken with four decimals
        A.place = []
        A.used = set(x[1][0] for c in self.fcomp.values() for x in c["data"])       # parts which are used outside the board
        for c in S["comps"].values():
            A.drills += [dr(h) for h in c["drills"]]
            for t, (u, x, y, z, a) in c["data"]:
                if u == "-": continue           # not in the library which was read
                p = S["parts"][u]
                q = c["pos"]
                A.place.append((p["geom"], p["part"], nr(c["ref"]), q[0] + x, q[1] + y, z, q[2] + a, ["TOP", "BOTTOM"][q[3]], (STAT + ["PLACED"])[c["place"]]))
        LA.parts = [(p["geom"], p["part"], ["ELECTRICAL", "MECHANICAL"][p["class"]], p["out"]["th"], [(0, pts(q)) for n, q in p["out"]["loops"]],
                     sorted(p.get("props", [])) if p["class"] == 0 else [], []) for p in S["parts"].values()]
        if self.other:
            A.secs += self.other.secs
            A.notes = self.other.notes
        return A, LA

    # ---- from a file
    def load(self, D, LD, S):
        """The board was read: D, LD are its files, S is what the getters told."""
        self.S = S
        for c in S["comps"].values():
            c.pop("n")
            c["data"] = [[None, list(x)] for x in c["data"]]
        for o in [S["out"]] + [p["out"] for p in S["parts"].values()]: o.pop("n")
        S["out"].pop("th"); S.pop("nout"); S.pop("ncomp")
        class X(object): pass
        self.other = X()
        self.other.secs = [s for s in D.secs if s[0] != "BOARD_OUTLINE" and s[3]]
        self.other.notes = D.notes
        props = {p[0] + "_" + p[1]: p[5] for p in LD.parts} if LD else {}
        for u, p in S["parts"].items(): p["props"] = props.get(u, [])

    OPS = ["add"] * 4 + ["del"] * 2 + ["outline"] * 6 + ["head"] * 2 + ["drill"] * 6 + ["slot"] + ["part"] * 3 + ["pset"] + ["comp"] * 3 + ["cset"] * 2 + ["data"] * 5 + ["attach"] * 4 + ["remove"] + ["clear", "write"]

    def go(self, n):
        rd = self.rd
        self.b = None
        for k in range(n):
            getattr(self, "op_" + rd.choice(self.OPS))()
            if rd.random() < .5: self.dump()
        self.dump()
        self.op_write()
        self.dump()


def star():
    P = [((2.5 if i % 2 else 1.5) * math.cos(pi / 10 + i * pi / 5), (2.5 if i % 2 else 1.5) * math.sin(pi / 10 + i * pi / 5)) for i in range(10)]
    return [P[i] + P[(i + 1) % 10] + (0.0,) for i in range(10)]


# ---- segments in any order make up loops
def jumble(rd):
    L, tries = [], 0
    while len(L) < rd.choice([1, 2, 3, 4]) and tries < 20:
        tries += 1
        s = rd.choice([3.0, 10.0, 30.0])
        c = shapes.move(shapes.shape(rd, s), Rigid(rd.uniform(-pi, pi), (rd.uniform(-60, 60), rd.uniform(-60, 60))))
        # nothing is near to another
        if all(min(math.hypot(a.start[0] - b.start[0], a.start[1] - b.start[1]) for a in c for b in d) > .5 for d in L) and min(x.length for x in c) > .1: L.append(c)
    return L


def run(c):
    exe = build.build("san", ("vidf",))["vidf"]
    n = c.n(3000, 60000)

    def work(sub, lo, hi):
        d = sub.dir("r.d")
        rds = {i: sub.rnd(i) for i in range(lo, hi)}
        M, pre = {}, []
        for i in range(lo, hi):
            rd = rds[i]
            if i % 8 == 7: continue
            M[i] = Model(rd, i, d)
            M[i].do("eboard B %d" % M[i].cad, "ok")
            if i % 3 == 0:          # a board from a file
                b = idf.Board(rd, True)
                t = idf.Text(b, rd, ver=3)
                p = os.path.join(d, "b%d" % i)
                open(p + ".emn", "wb").write(t.emn())
                M[i].files += [p + ".emn"]
                if b.parts or rd.random() < .5: open(p + ".emp", "wb").write(t.emp()); M[i].files.append(p + ".emp")
                M[i].do("eread B %s" % enc(p + ".emn"), "1")
                M[i].p = p
                pre.append((str(i), [x for x, w in M[i].cmds] + ["edump B"]))
        got = drive.run_cases(exe, pre, d) if pre else {}
        cases, jum = [], {}
        for i in range(lo, hi):
            rd = rds[i]
            if i % 8 == 7:
                L = jumble(rd)
                q = [x for ch in L for x in segs(ch, rd)]
                rd.shuffle(q)
                q = [x if abs(x[4]) == 360 or rd.random() < .5 else x[2:4] + x[:2] + (-x[4],) for x in q]
                T, q = spell(q, rd, False)
                jum[i] = (L, q)
                cases.append((str(i), ["esort " + T]))
                continue
            m = M[i]
            if i % 3 == 0:
                r = got[str(i)]
                if not sub.crash(r, files=m.files, script=[x for x, w in m.cmds], exe=exe, what="reading"): continue
                if r.r(1) != "1":
                    sub.violation("reading", "case %d: a valid board is refused" % i, files=m.files, script=[x for x, w in m.cmds], exe=exe)
                    continue
                f = lambda s: open(m.p + s, "rb").read()
                m.load(Doc(f(".emn"), m.cad), Doc(f(".emp")) if m.p + ".emp" in m.files else None, p_dump(r.r(2)))
                m.dump()
            m.go(rd.choice([5, 15, 40]))
            cases.append((str(i), [x for x, w in m.cmds]))
        res = drive.run_leaks(exe, cases, d)
        for i in range(lo, hi):
            if str(i) not in res: continue
            sub.evals += 1
            r = res[str(i)]
            cmds = [x for k, y in cases if k == str(i) for x in y]
            if i in jum:
                if sub.crash(r, script=cmds, exe=exe, what="case %d" % i):
                    f = judge_jumble(jum[i], r.r(0))
                    if f: sub.violation("loops", "case %d: %s" % (i, f), script=cmds, exe=exe)
                    else: sub.event("sets of segments sorted into loops"); sub.event("loops found", len(jum[i][0])); sub.distinct.add(("sort", len(jum[i][0]), len(jum[i][1])))
                continue
            m = M[i]
            fs = [f for f in dict.fromkeys(m.files) if os.path.exists(f)]
            if sub.crash(r, files=fs, script=cmds, exe=exe, what="case %d" % i):
                f = judge(m, r)
                if f: sub.violation(f[0], "case %d (%s): %s" % (i, "MCAD" if m.cad else "ECAD", f[1]), files=fs, script=cmds, exe=exe)
                else:
                    for e in m.events: sub.event(e)
                    sub.event("states compared", sum(isinstance(w, tuple) for x, w in m.cmds))
                    sub.distinct.add(tuple(sorted(set(m.events))))
                    if i % 50 == 0: sub.sample("%d commands, %s" % (len(m.cmds), sorted(set(m.events))[:12]))
            for f in fs: os.remove(f)
            if sub.enough(): break
    c.parallel(work, n, batch=40)
    c.rule = "A case is a sequence of API calls on one board, empty or read from a file; distinct by the set of effects (accepted and refused edits); or a set of segments to sort, by loops and segments"
    c.assume = ["references of components and names of parts are set before the object is given to the board",
                "the user destroys what the board did not take, components before the boards whose parts they use",
                "outlines given are closed; a component with an outline has a position before the board is written"]


def judge_jumble(j, out):
    L, q = j
    try: got = [p_ring(x) for x in (out or "").split(" ")]
    except ValueError as e: return "a loop is no loop: %s: %s" % (e, out[:300])
    n = sum(len(x) for x in got)
    if n != len(q): return "%d segments of %d" % (n, len(q))
    for g in got:
        if len(g) == 1 and abs(g[0][4]) == 360: continue
        for k, s in enumerate(g):
            e = g[(k + 1) % len(g)]
            if math.hypot(s[2] - e[0], s[3] - e[1]) > 1e-3: return "the loop is open between %r and %r" % (s, e)
    # each set of segments is one of the loops; those further left come first
    pend = list(L)
    for g in got:
        x = min(idf.box(ch)[0] for ch in pend)
        hit = None
        for ch in pend:
            if len(ch) != len(g): continue
            S = segs(ch, __import__("random").Random(0))
            if len(ch) == 1 and ch[0].full: ok = abs(g[0][4]) == 360 and math.hypot(g[0][0] - S[0][0], g[0][1] - S[0][1]) < 1e-3
            else: ok = all(any(same_seg(s, t) for t in S) for s in g)
            if ok: hit = ch
        if hit is None: return "a loop which was not given: %r" % (g[:3],)
        if idf.box(hit)[0] > x + 1e-6: return "a loop further left comes later: %r before %r" % (idf.box(hit)[0], x)
        pend.remove(hit)
    return None


def same_seg(s, t):
    for u in (t, t[2:4] + t[:2] + (-t[4],)):
        if max(abs(a - b) for a, b in zip(s[:4], u[:4])) < 1e-3 and abs(s[4] - u[4]) < 1e-6: return True
    return False


def judge(m, r):
    for k, (x, w) in enumerate(m.cmds):
        g = r.r(k)
        if w is None: continue
        cmd = x.split()[0]
        if isinstance(w, str):
            if g != w: return cmd + ("-accepted" if g == "1" else "-refused" if g == "0" else "-answer"), "call %d, %s: the answer is %s instead of %s" % (k, x[:200], g, w)
            continue
        try: S = {"state": p_dump, "outline": p_outline, "drill": p_drill}[w[0]](g)
        except (KeyError, ValueError, IndexError) as e: return cmd + "-unreadable", "call %d, %s: %s %r" % (k, x, e, g[:300])
        W = w[1]
        if w[0] == "outline":
            W = dict(W, n=(len(W["loops"]), len(W["com"])))
            if "th" not in W: S.pop("th")
        if not close(W, S): return cmd + "-" + "".join(ch for ch in (where(W, S).strip().split() or ["x"])[0] if ch.isalpha()), "after call %d, %s: %s\ncalls: %s" % (k, x[:200], where(W, S)[:600], " / ".join(y[:70] for y, z in m.cmds[max(0, k - 6):k + 1]))
    for f, mm, A, LA, src, com in m.writes:
        try: B, LB = Doc(open(f + ".emn", "rb").read()), Doc(open(f + ".emp", "rb").read())
        except Bad as e: return "malformed", "%s: %s" % (f, e)
        try: e = compare(A, B, LA, LB, "MM" if mm else "THOU")
        except Bad as x: return "malformed", "%s: %s" % (f, x)
        if e: return "written " + " ".join(w for w in e.split()[:3] if w.isalpha()), "%s: %s" % (f, e)
        if B.source != "Created by " + src or LB.source != B.source: return "written source", "the source is %r, %r instead of %r" % (B.source, LB.source, src)
        for p in LB.parts:
            u = p[0] + "_" + p[1]
            if u in com and sorted(p[6]) != sorted(com[u]): return "written comments", "the comments of part %s are %r instead of %r" % (u, p[6], com[u])
    return None
