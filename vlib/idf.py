"""Random boards and component libraries, and their text in the formats of IDF 2.0 and 3.0."""
import math
from math import pi, sin, cos
from . import g2, shapes
from .g2 import Arc, Circle, Line, Amb, Rigid, polar

UNIT = {"MM": 1.0, "THOU": 0.0254, "TNM": 1e-5}
FMT = {"MM": "%.6f", "THOU": "%.5f", "TNM": "%.0f"}


def quant(x, u):
    """The value which the text of x in the unit stands for."""
    return float(FMT[u] % (x / UNIT[u])) * UNIT[u]


def box(chain):
    b = [s.bounds() for s in chain]
    return min(x[0][0] for x in b), min(x[0][1] for x in b), max(x[1][0] for x in b), max(x[1][1] for x in b)


def apart(A, B, m):
    """The boundaries are everywhere more than m from each other."""
    for s in A:
        for x in B:
            for k in range(9):
                if s.near(x.at(x.length * k / 8)) < m or x.near(s.at(s.length * k / 8)) < m: return False
            rep, fl, P, kind = g2.meet(s, x)
            if P or "TANGENT" in fl: return False
    return True


def relation(A, B, m):
    """How the closed chain B lies to A: cross, in, around, off, or None if that is not clear or not supported."""
    try:
        out, res = shapes.op(A, B, True)
        if out == "ok":
            if not shapes.simple(res) or min(x.length for x in res) < 2.5 * m: return None
            out, res = shapes.op(A, B, False)
            if out != "ok" or not shapes.simple(res) or min(x.length for x in res) < 2.5 * m: return None
            return "cross"
        if out == "error" or not apart(A, B, m): return None
        if shapes.inside(A, B[0].start): return "in"
        if shapes.inside(B, A[0].start): return "around"
        return "off"
    except Amb: return None


class Hole(object):
    def __init__(self, kind, chain):
        self.kind, self.chain = kind, chain         # cutout or drill
        self.plate, self.ref, self.type, self.owner = "PTH", "BOARD", "MTG", "UNOWNED"


class Solid(object):
    """A prism: inside outer, outside of the holes, from z0 to z1."""
    def __init__(self, outer, holes, z0, z1):
        self.outer, self.holes, self.z0, self.z1 = outer, holes, z0, z1

    def inside(self, P): return shapes.inside(self.outer, P) and not any(shapes.inside(h, P) for h in self.holes)

    def clear(self, P): return min([g2.clearance(self.outer, P)] + [g2.clearance(h, P) for h in self.holes])


OWN = ["UNOWNED", "ECAD", "MCAD"]
WORDS = ["R", "C0805", "my part", "A-1", "x", "DIP 14", "100n", "conn/2x5", "Q#3", "SOT23", "b.c", "U_1", "(A)", "%d", "1/4W"]


class Board(object):
    def __init__(self, rd, simple=False):
        self.rd = rd
        L = self.L = rd.choice([8.0, 30.0, 60.0, 60.0, 150.0])
        self.m = 0.004 * L
        R = Rigid(rd.choice([0.0, rd.uniform(-pi, pi)]), rd.choice([(0.0, 0.0), (rd.uniform(-2, 2) * L, rd.uniform(-2, 2) * L)]))
        self.outer = shapes.move(shapes.shape(rd, L), R)
        self.th = rd.choice([0.8, 1.6, 1.6, rd.uniform(.05, 5)])
        self.holes = []
        for k in range(rd.choice([0, 1, 2, 4, 8, 8, 14]) if not simple else rd.randrange(3)): self.hole()
        self.parts = []
        for k in range(rd.choice([0, 1, 2, 4])): self.part(k)
        self.comps = []
        for k in range(rd.choice([0, 1, 2, 5, 9])): self.comp(k)
        self.others = []
        for k in range(rd.choice([0, 0, 1, 2, 3])): self.other(k)
        # a hole of a component
        for h in self.holes:
            if h.kind == "drill":
                h.plate, h.owner = rd.choice(["PTH", "NPTH"]), rd.choice(OWN)
                h.type = rd.choice(["PIN", "VIA", "MTG", "TOOL", "other", "my type"])
                h.ref = rd.choice(["BOARD", "BOARD", "PANEL", "NOREFDES", "noparts"] + [c["ref"] for c in self.comps if c["ref"].upper() != "NOREFDES"])

    def near(self, k):
        """A place on the boundary of something, or anywhere."""
        rd = self.rd
        if k < .6:
            c = rd.choice([self.outer] + [h.chain for h in self.holes])
            s = rd.choice(c)
            return s.at(rd.random() * s.length)
        x0, y0, x1, y1 = box(self.outer)
        d = .15 * self.L
        return rd.uniform(x0 - d, x1 + d), rd.uniform(y0 - d, y1 + d)

    def hole(self):
        rd, L = self.rd, self.L
        kind = rd.choice(["drill", "drill", "cutout"])
        P = self.near(rd.random())
        if kind == "drill":
            r = max(0.15, L * rd.choice([.01, .03, .05, .1, .2]) * rd.uniform(.7, 1.3))
            B = [Circle(P, r)]
        else:
            B = shapes.move(shapes.shape(rd, L * rd.choice([.05, .1, .2, .3])), Rigid(rd.uniform(-pi, pi), P))
        if min(s.length for s in B) < 2.5 * self.m: return
        o = relation(self.outer, B, self.m)
        if o in (None, "around"): return
        n = o == "cross"
        for h in self.holes:
            q = relation(h.chain, B, self.m)
            if q is None: return
            n += q == "cross"
        # one crossing at most: then nothing is cut into pieces and no ring of holes arises
        if n > 1: return
        self.holes.append(Hole(kind, B))

    def loops(self, n, L):
        """An outline and n cutouts well within it."""
        rd = self.rd
        A = shapes.shape(rd, L)
        H = []
        for k in range(n):
            x0, y0, x1, y1 = box(A)
            B = shapes.move(shapes.shape(rd, L * rd.choice([.05, .15])), Rigid(rd.uniform(-pi, pi), (rd.uniform(x0, x1), rd.uniform(y0, y1))))
            if relation(A, B, .004 * L) == "in" and all(relation(h, B, .004 * L) == "off" for h in H): H.append(B)
        return A, H

    def part(self, k):
        rd = self.rd
        p = {"geom": rd.choice(WORDS) + str(k), "part": rd.choice(WORDS), "elec": rd.random() < .7, "props": []}
        p["h"] = rd.choice([1.0, 2.54, rd.uniform(.01, 20), 1e-4]) if rd.random() < .95 else 0.0
        p["unit"] = rd.choice(["MM", "THOU"])
        s = rd.choice([1.0, 3.0, 12.0])
        p["loop"] = None if rd.random() < .06 else shapes.move(shapes.shape(rd, s), Rigid(rd.uniform(-pi, pi), (rd.uniform(-1, 1) * s, rd.uniform(-1, 1) * s)))
        if rd.random() < .4: p["props"] = [(n, rd.choice(["100", "1.5e-3", "text here"])) for n in rd.sample(["CAPACITANCE", "POWER_OPR", "my prop"], rd.choice([1, 2]))]
        p["uid"] = p["geom"] + "_" + p["part"]
        self.parts.append(p)

    def comp(self, k):
        rd = self.rd
        x0, y0, x1, y1 = box(self.outer)
        c = {"ref": rd.choice(["R%d", "U%d", "longreference%d", "C %d", "NOREFDES"])}
        if "%d" in c["ref"]: c["ref"] %= k + 1
        c["part"] = rd.choice(self.parts) if self.parts and rd.random() < .93 else None
        c["x"], c["y"] = rd.uniform(x0, x1), rd.uniform(y0, y1)
        c["z"] = rd.choice([0.0, 0.0, rd.uniform(-5, 5)])
        c["a"] = rd.choice([0.0, 90.0, 180.0, 270.0, -90.0, 45.0, rd.uniform(-360, 360)])
        c["side"] = rd.choice(["TOP", "TOP", "BOTTOM"])
        c["status"] = rd.choice(["PLACED"] * 4 + ["UNPLACED", "MCAD", "ECAD"])
        old = [x for x in self.comps if x["ref"].upper() != "NOREFDES"]
        if old and rd.random() < .1:        # another outline of the same component
            o = rd.choice(old)
            for f in ("ref", "side", "status"): c[f] = o[f]
        self.comps.append(c)

    def other(self, k):
        rd = self.rd
        s = rd.choice([2.0, 10.0, 40.0])
        A, H = self.loops(rd.choice([0, 0, 1, 2]), s)
        R = Rigid(rd.uniform(-pi, pi), (rd.uniform(-1, 1) * self.L, rd.uniform(-1, 1) * self.L))
        self.others.append({"id": rd.choice(WORDS) + "o%d" % k, "th": rd.choice([1.0, rd.uniform(.05, 10)]), "side": rd.choice(["TOP", "BOTTOM"]),
                            "outer": shapes.move(A, R), "cuts": [shapes.move(h, R) for h in H]})


class Text(object):
    """One way to write a board down."""
    def __init__(self, board, rd, ver=None, unit=None):
        self.b, self.rd = board, rd
        self.ver = ver or rd.choice([3, 3, 3, 2])
        self.unit = unit or rd.choice(["MM", "THOU"] + (["TNM"] if self.ver == 2 else []))
        self.eol = rd.choice(["\n", "\n", "\n", "\r\n"])
        self.sep = rd.choice([" ", " ", "  ", "\t", " \t "])
        self.low = rd.random() < .1         # keywords in lower case
        self.clean = rd.random() < .5       # no comments and blank lines
        self.adec = rd.choice([3, 6, 6])
        self.notes = []

    def kw(self, s): return s.lower() if self.low else s

    def name(self, s):
        q = not s or any(x in s for x in ' \t#"') or s[0] == "." or self.rd.random() < .3
        return '"%s"' % s if q else s

    def num(self, x, u=None):
        u = u or self.unit
        s = FMT[u] % (x / UNIT[u])
        if "." in s and self.rd.random() < .5: s = s.rstrip("0").rstrip(".") or "0"
        if s in ("-0",): s = "0"
        r = self.rd.random()
        if r < .05 and not s.startswith("-"): s = "+" + s
        elif r < .1 and "." in s: s = "%.10e" % float(s)
        return s

    def line(self, *f): return self.sep.join(f)

    def loop(self, idx, chain, u=None, rev=False):
        rd = self.rd
        c = list(chain)
        if idx and idx != "C": rev = not rev        # cutouts clockwise
        if idx == "C":                              # of a component: either way
            rev = rd.random() < .5
            idx = rd.choice([0, 1])
        if rev: c = shapes.revchain(c)
        out = []
        if len(c) == 1 and c[0].full:
            s = c[0]
            sg = rd.choice([1, -1]) if idx else 1
            P = polar(s.c, s.r, rd.uniform(-pi, pi))
            out = [(s.c, 0), (P, 360 * sg)]
        else:
            k = rd.randrange(len(c))
            c = c[k:] + c[:k]
            out = [(c[0].start, 0)]
            for s in c: out.append((s.end, 0 if s.kind == "line" else math.degrees(s.sw)))
            out[-1] = (out[0][0], out[-1][1])
        res, memo = [], {}
        for (x, y), a in out:
            if a == 0: t = "0" if rd.random() < .6 else "0.0"
            elif abs(a) == 360: t = rd.choice(["%d", "%.3f"]) % a
            else: t = "%.*f" % (self.adec, a)
            if (x, y) not in memo: memo[(x, y)] = (self.num(x, u), self.num(y, u))
            res.append(self.line(str(idx), memo[(x, y)][0], memo[(x, y)][1], t))
        return res

    def loops(self, outer, cuts, u=None, only=False):
        """only: the last loop may run the wrong way."""
        r = []
        last = self.rd.random() < .15 and only
        for k, c in enumerate([outer] + cuts): r += self.loop(k, c, u, last and k == len(cuts) and not (len(c) == 1 and k == 0))
        return r

    def sect(self, name, own, recs):
        h = self.kw("." + name)
        if own is not None: h = self.line(h, self.kw(own))
        return [h] + recs + [self.kw(".END_" + name.split()[0])]

    def junk(self):
        r = []
        if self.clean: return r
        while self.rd.random() < .3: r.append(self.rd.choice(["", "# a remark", "#", "   ", "# .PLACEMENT", "\t"]))
        return r

    def header(self, kind, extra):
        v = self.rd.choice(["%d.0", "%d", "%d."]) % self.ver
        return [self.kw(".HEADER"), self.line(kind, v, '"Some CAD 1.0"', "2015/06/4.20:42:21", "1")] + extra + [self.kw(".END_HEADER")]

    def small(self, s=3.0):
        return self.b.loops(0, s)[0]

    def emn(self):
        b, rd = self.b, self.rd
        o3 = self.ver == 3
        own = lambda: rd.choice(OWN) if o3 else None
        S = [self.header("BOARD_FILE", [self.line(self.name("my board"), self.kw(self.unit))])]
        S.append(self.sect("BOARD_OUTLINE", own(), [self.num(b.th)] + self.loops(b.outer, [h.chain for h in b.holes if h.kind == "cutout"], None, True)))
        rest = []
        dr = [h for h in b.holes if h.kind == "drill"]
        rd.shuffle(dr)
        k = rd.randrange(len(dr) + 1) if rd.random() < .2 else 0
        for part in (dr[:k], dr[k:]):
            R = []
            for h in part:
                s = h.chain[0]
                f = [self.num(2 * s.r), self.num(s.c[0]), self.num(s.c[1])]
                if o3: f += [self.kw(h.plate), self.name(h.ref), self.name(h.type), self.kw(h.owner)]
                else: f += [self.name(h.type), self.name(h.ref)]
                R.append(self.line(*f))
            if R or rd.random() < .2: rest.append(self.sect("DRILLED_HOLES", None, R))
        for o in b.others if o3 else []:
            rest.append(self.sect("OTHER_OUTLINE", own(), [self.line(self.name(o["id"]), self.num(o["th"]), self.kw(o["side"]))] + self.loops(o["outer"], o["cuts"], None, True)))
        sm = lambda: self.loops(self.small(), [])
        if rd.random() < .4:
            side = lambda: self.kw(rd.choice(["TOP", "BOTTOM", "BOTH"]))
            for k in range(rd.choice([1, 3])):
                n = rd.choice(["ROUTE_OUTLINE", "PLACE_OUTLINE", "ROUTE_KEEPOUT", "VIA_KEEPOUT", "PLACE_KEEPOUT", "PLACE_REGION", "NOTES"])
                if n == "NOTES":
                    if o3: rest.append(self.sect(n, None, [self.line(self.num(1), self.num(2), self.num(2.54), self.num(20), '"some text"') for j in range(rd.randrange(3))]))
                elif n == "VIA_KEEPOUT": rest.append(self.sect(n, own(), sm()))
                elif n == "PLACE_REGION": rest.append(self.sect(n, own(), [self.line(side(), self.name("group %d" % k))] + sm()))
                elif n == "ROUTE_OUTLINE": rest.append(self.sect(n, own(), ([self.kw(rd.choice(["TOP", "BOTTOM", "BOTH", "INNER", "ALL"]))] if o3 else []) + sm()))
                elif n == "ROUTE_KEEPOUT": rest.append(self.sect(n, own(), [self.kw(rd.choice(["TOP", "BOTTOM", "BOTH"] + (["INNER", "ALL"] if o3 else [])))] + sm()))
                elif n == "PLACE_OUTLINE": rest.append(self.sect(n, own(), ([self.line(side(), *([self.num(5)] if rd.random() < .7 else []))] if o3 else []) + sm()))
                elif n == "PLACE_KEEPOUT": rest.append(self.sect(n, own(), [self.line(side(), self.num(5))] + sm()))
        rd.shuffle(rest)
        S += rest
        R = []
        # records of one component stay in their order: the first one sets its position
        for c in b.comps:
            g, p = (c["part"]["geom"], c["part"]["part"]) if c["part"] else ("no such", "part")
            st = c["status"]
            if not o3 and st in ("MCAD", "ECAD"): st = "FIXED"
            a = "%.*f" % (6, c["a"])
            R.append([self.line(self.name(g), self.name(p), self.name(c["ref"])),
                      self.line(*([self.num(c["x"]), self.num(c["y"])] + ([self.num(c["z"])] if o3 else []) + [a, self.kw(c["side"]), self.kw(st)]))])
        if rd.random() < .6: rd.shuffle(R)
        if R or rd.random() < .5: S.append(self.sect("PLACEMENT", None, sum(R, [])))
        return self.join(S)

    def join(self, S):
        out = list(S[0])
        for s in S[1:]: out += self.junk() + s
        return (self.eol.join(out) + self.eol).encode("latin-1")

    def emp(self):
        b, rd = self.b, self.rd
        S = [self.header("LIBRARY_FILE", [])]
        parts = list(b.parts)
        if rd.random() < .6: rd.shuffle(parts)
        if parts and rd.random() < .15: parts.append(rd.choice(parts))
        done = {}
        for p in parts:
            u = rd.choice(["MM", "THOU"] + (["TNM"] if self.ver == 2 else []))
            if id(p) not in done:
                R = [self.line(self.name(p["geom"]), self.name(p["part"]), self.kw(u), self.num(p["h"], u))]
                if p["loop"]: R += self.loop("C", p["loop"], u)
                if p["elec"] and self.ver == 3: R += [self.line("PROP", self.name(n), self.name(v)) for n, v in p["props"]]
                done[id(p)] = self.sect("ELECTRICAL" if p["elec"] else "MECHANICAL", None, R)
            S.append(done[id(p)])
        return self.join(S)
