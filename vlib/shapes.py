"""Random simple closed outlines of lines, arcs and circles, and their union and difference
under the library's documented limit of two crossing points."""
import math
from math import pi
from . import g2
from .g2 import Line, Arc, Circle, Amb, TAU, polar, dist


def chord_arc(p, q, sag):
    """Arc from p to q whose middle is off the chord by sag to the right of the direction of travel
    (outwards when the chain runs counterclockwise)."""
    d = dist(p, q)
    ux, uy = (q[0] - p[0]) / d, (q[1] - p[1]) / d
    h = abs(sag)
    r = (d * d / 4 + h * h) / (2 * h)
    mx, my = (p[0] + q[0]) / 2, (p[1] + q[1]) / 2
    k = (r - h) * (1 if sag > 0 else -1)        # the centre is on the other side of the chord
    c = (mx - uy * k, my + ux * k)
    a0 = math.atan2(p[1] - c[1], p[0] - c[0])
    half = 2 * math.atan2(h, d / 2) * 2
    sw = half if sag > 0 else -half
    return Arc(c, r, a0, sw, p, q)


def simple(segs):
    """Whether the chain is closed and meets itself only where consecutive segments join."""
    n = len(segs)
    if n == 1: return segs[0].full if segs[0].kind != "line" else False
    for i in range(n):
        if dist(segs[i].end, segs[(i + 1) % n].start) > 1e-9 or segs[i].length < 0.02: return False
    for i in range(n):
        for j in range(i + 1, n):
            try: ok, fl, pts, kind = g2.meet(segs[i], segs[j])
            except Amb: return False
            if any(x in ("EDGE", "MULTIEDGE", "IDENT") for x in fl): return False
            if fl[0] == "TANGENT" and not ok: return False
            for P in pts:
                if j == i + 1 and dist(P, segs[i].end) < 1e-6: continue
                if (j + 1) % n == i and dist(P, segs[j].end) < 1e-6: continue
                return False
            if not pts and (j == i + 1 or (j + 1) % n == i) and "ENDPOINT" not in fl and fl[0] != "TANGENT":
                if n != 2 and "NONE" in fl and kind.startswith(("one inside", "circles apart")): return False
    return True


def revchain(segs): return [s.rev() for s in reversed(segs)]


def shape(rd, L):
    """A closed chain, counterclockwise, about the origin with a size of about L; a single circle is possible."""
    while True:
        k = rd.randrange(10)
        if k == 0: return [Circle((rd.uniform(-.2, .2) * L, rd.uniform(-.2, .2) * L), rd.uniform(0.3, 1) * L)]
        if k == 1:                          # rectangle, axis parallel
            w, h = rd.uniform(.4, 1) * L, rd.uniform(.4, 1) * L
            P = [(-w, -h), (w, -h), (w, h), (-w, h)]
            s = [Line(P[i], P[(i + 1) % 4]) for i in range(4)]
        elif k == 2:                        # rounded rectangle or slot
            w, h = rd.uniform(.5, 1) * L, rd.uniform(.4, 1) * L
            r = rd.choice([h, 0.3 * h, 0.5 * min(w, h)])
            if r >= w: continue
            s = []
            for (cx, cy, a) in ((w - r, h - r, 0), (-w + r, h - r, pi / 2), (-w + r, -h + r, pi), (w - r, -h + r, -pi / 2)):
                s.append(Arc((cx, cy), r, a, pi / 2))
            o = []
            for i, a in enumerate(s):
                o.append(a)
                b = s[(i + 1) % 4]
                if dist(a.end, b.start) > 1e-6: o.append(Line(a.end, b.start))
                else: b.ps = a.pe
            s = o
        elif k == 3:                        # two segments: lens, crescent, D
            a = rd.uniform(-pi, pi)
            r = rd.uniform(.3, 1) * L
            p, q = polar((0, 0), r, a), polar((0, 0), r, a + pi)
            s1 = rd.choice([0.2, 0.6, 1.0, 1.7]) * r * rd.uniform(0.7, 1)
            if rd.random() < .4: s = [Line(p, q), chord_arc(q, p, s1)]
            else: s = [chord_arc(p, q, rd.choice([-1, 1, 1]) * rd.uniform(.1, .6) * s1), chord_arc(q, p, s1)]
        else:                               # star-shaped polygon with some edges bent
            n = rd.choice([3, 3, 4, 4, 5, 6, 8])
            if rd.random() < .3:            # with vertices at the same heights
                A = [TAU * i / n + pi / 2 * rd.randrange(4) for i in range(n)]
            else:
                A = sorted(rd.uniform(-pi, pi) for i in range(n))
            if max((A[(i + 1) % n] - A[i]) % TAU for i in range(n)) > 2.9: continue
            P = [polar((0, 0), rd.uniform(.35, 1) * L if k < 7 else L, a) for a in A]
            if rd.random() < .2: P = [(round(x * 4 / L) * L / 4, round(y * 4 / L) * L / 4) for x, y in P]
            s = []
            for i in range(n):
                p, q = P[i], P[(i + 1) % n]
                d = dist(p, q)
                if d < 0.05 * L: s = None; break
                if rd.random() < .35: s.append(chord_arc(p, q, rd.choice([1, 1, -1]) * d * rd.choice([.5, rd.uniform(.05, .45), rd.uniform(.5, .9)])))
                else: s.append(Line(p, q))
            if not s: continue
        if g2.area(s) < 0: s = revchain(s)
        if not simple(s) or g2.area(s) < 0.01 * L * L: continue
        if len(s) > 1:
            k = rd.randrange(len(s))
            s = s[k:] + s[:k]
        return s


def move(segs, R):
    out = [s.move(R) for s in segs]
    if len(out) > 1:
        # the ends must stay joined exactly
        for i, s in enumerate(out):
            nx = out[(i + 1) % len(out)]
            if nx.kind == "line":
                out[(i + 1) % len(out)] = Line(s.end, nx.q)
            else: nx.ps = s.end
    return out


def inside(segs, P): return g2.wind(segs, P) != 0


BAD = ("EDGE", "MULTIEDGE", "INSIDE", "OUTSIDE", "IDENT")


def op(A, B, subtract):
    """(outcome, chain): outcome 'none' (no meeting), 'error', 'either' (no change; error or not is open), 'ok' with the result."""
    pts, bad, either = [], False, False
    for a in A:
        for b in B:
            rep, fl, P, kind = g2.meet(a, b)
            # must be clear about ends, too
            circ = a.kind == b.kind == "circle"
            if circ and any(x in ("INSIDE", "ENCIRCLES") for x in fl): either = True
            elif any(x in BAD for x in fl) or (fl[0] == "TANGENT" and not rep): bad = True
            for Q in P:
                d = [dist(Q, x) for x in pts]
                if d and min(d) < 1e-3:
                    if min(d) > 5e-7: raise Amb(min(d))
                else: pts.append(Q)
    if either: return "either", None
    if bad: return "error", None
    if not pts: return "none", None
    if len(pts) != 2: return "error", None
    ca, cb = cut2(A, pts), cut2(B, pts)
    if ca is None or cb is None: raise Amb("cut")
    ia = [chain_in(c, B) for c in ca]
    ib = [chain_in(c, A) for c in cb]
    if ia[0] == ia[1] or ib[0] == ib[1]: return "error", None      # touching only
    ka = ca[ia.index(False)]
    kb = cb[ib.index(subtract)]
    if subtract: kb = revchain(kb)
    if dist(ka[-1].end, kb[0].start) > 1e-5 or dist(kb[-1].end, ka[0].start) > 1e-5: raise Amb("join")
    return "ok", ka + kb


def piece(s, u, v):
    """The part of s between arc lengths u < v."""
    if s.kind == "line": return Line(s.at(u), s.at(v))
    k = 1 if s.sw >= 0 else -1
    return Arc(s.c, s.r, s.a0 + k * u / s.r, k * (v - u) / s.r)


def along(s, P):
    """Arc length of P on s, or None."""
    if s.near(P) > 1e-5: return None
    if s.kind == "line":
        return g2.dot(g2.sub(P, s.p), g2.sub(s.q, s.p)) / s.length
    a = math.atan2(P[1] - s.c[1], P[0] - s.c[0])
    k = 1 if s.sw >= 0 else -1
    t = ((a - s.a0) * k) % TAU
    if t > abs(s.sw) + (TAU - abs(s.sw)) / 2: t -= TAU
    return t * s.r


def cut2(C, pts):
    """The two chains of C from the first to the second point and back."""
    ev = []
    off = 0.0
    total = sum(s.length for s in C)
    cuts = []
    for i, s in enumerate(C):
        for k, P in enumerate(pts):
            t = along(s, P)
            if t is not None and -1e-5 < t < s.length + 1e-5: cuts.append((k, off + min(max(t, 0.0), s.length)))
        off += s.length
    pos = []
    for k in (0, 1):
        c = [x for (j, x) in cuts if j == k]
        if not c: return None
        pos.append(c[0])
    res = []
    for u, v in ((pos[0], pos[1]), (pos[1], pos[0])):
        if v <= u: v += total
        out, off = [], 0.0
        for rep in (0, 1):
            for s in C:
                lo, hi = max(u, off), min(v, off + s.length)
                if hi - lo > 1e-5:
                    out.append(s if hi - lo > s.length - 1e-9 and not (s.kind == "circle") else piece(s, lo - off, hi - off))
                off += s.length
        # a circle cut at two points: join the parts which meet at its seam
        if len(C) == 1 and len(out) == 2:
            out = [Arc(C[0].c, C[0].r, out[0].a0, out[0].sw + out[1].sw)]
        if not out: return None
        res.append(out)
    return res


def chain_in(c, B):
    """Whether the chain c, whose ends are on B, is inside B otherwise."""
    v = set()
    for s in c:
        for k in (.5, .25, .75):
            P = s.at(s.length * k)
            cl = g2.clearance(B, P)
            if cl < 2e-4: continue
            v.add(inside(B, P))
            break
    if len(v) != 1: raise Amb("side")
    return v.pop()
