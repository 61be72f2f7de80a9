"""Plane geometry of lines, arcs and circles, written independently of the library.

Decisions are three-valued: figures are made so that every coincidence is either
exact (to rounding, EPS) or clearly absent (FAR); anything in between raises Amb
and the figure is not used."""
import math
from math import pi, sqrt, cos, sin, atan2, hypot

EPS = 2e-7
FAR = 5e-3
TAU = 2 * pi


class Amb(Exception):
    pass


def zero(x, eps=EPS, far=FAR):
    """True if x is zero, False if clearly not."""
    x = abs(x)
    if x <= eps: return True
    if x >= far: return False
    raise Amb(x)


def pos(x):
    """Sign of x, 0 if zero."""
    return 0 if zero(x) else 1 if x > 0 else -1


def sub(a, b): return (a[0] - b[0], a[1] - b[1])
def add(a, b): return (a[0] + b[0], a[1] + b[1])
def mul(a, k): return (a[0] * k, a[1] * k)
def dot(a, b): return a[0] * b[0] + a[1] * b[1]
def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def dist(a, b): return hypot(a[0] - b[0], a[1] - b[1])
def polar(c, r, a): return (c[0] + r * cos(a), c[1] + r * sin(a))
def mod(a): return a % TAU


class Rigid(object):
    def __init__(self, th, t):
        k = th / (pi / 2)
        if abs(k - round(k)) < 1e-15:
            self.c, self.s = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][int(round(k)) % 4]
        else: self.c, self.s = cos(th), sin(th)
        self.th, self.t = th, t

    def __call__(self, p):
        return (self.c * p[0] - self.s * p[1] + self.t[0], self.s * p[0] + self.c * p[1] + self.t[1])


class Line(object):
    kind = "line"

    def __init__(self, p, q):
        self.p, self.q = tuple(p), tuple(q)

    @property
    def start(self): return self.p
    @property
    def end(self): return self.q
    @property
    def length(self): return dist(self.p, self.q)
    def rev(self): return Line(self.q, self.p)
    def move(self, R): return Line(R(self.p), R(self.q))
    def at(self, s):
        t = s / self.length
        return (self.p[0] + t * (self.q[0] - self.p[0]), self.p[1] + t * (self.q[1] - self.p[1]))

    def where(self, P):
        """'in', 'end' or 'out'; may raise Amb."""
        u = mul(sub(self.q, self.p), 1 / self.length)
        d = sub(P, self.p)
        if dist(P, self.p) <= EPS or dist(P, self.q) <= EPS: return "end"
        h, s = cross(u, d), dot(u, d)
        if abs(h) >= FAR: return "out"
        a, b = pos(s), pos(self.length - s)
        if a < 0 or b < 0: return "out"
        if zero(h): return "end" if a == 0 or b == 0 else "in"
        raise Amb(h)

    def offset(self, P):
        """Distance along the segment of a point on it."""
        return dot(mul(sub(self.q, self.p), 1 / self.length), sub(P, self.p))

    def bounds(self):
        return (min(self.p[0], self.q[0]), min(self.p[1], self.q[1])), (max(self.p[0], self.q[0]), max(self.p[1], self.q[1]))

    def near(self, P):
        """Distance of P from the segment."""
        u = sub(self.q, self.p)
        t = max(0.0, min(1.0, dot(sub(P, self.p), u) / dot(u, u)))
        return dist(P, add(self.p, mul(u, t)))

    def __repr__(self): return "line %r-%r" % (self.p, self.q)


class Arc(object):
    """sw > 0 counterclockwise, < 0 clockwise; ps, pe: the end points as given, if exact ones matter."""

    def __init__(self, c, r, a0, sw, ps=None, pe=None):
        self.c, self.r, self.a0, self.sw = tuple(c), r, a0, sw
        self.ps = tuple(ps) if ps else polar(c, r, a0)
        self.pe = tuple(pe) if pe else polar(c, r, a0 + sw)
        self.full = abs(abs(sw) - TAU) < 1e-12

    @staticmethod
    def by(c, ps, pe, cw):
        r = dist(c, ps)
        a0, a1 = atan2(ps[1] - c[1], ps[0] - c[0]), atan2(pe[1] - c[1], pe[0] - c[0])
        return Arc(c, r, a0, -mod(a0 - a1) if cw else mod(a1 - a0), ps, pe)

    @property
    def kind(self): return "circle" if self.full else "arc"
    @property
    def start(self): return self.ps
    @property
    def end(self): return self.pe
    @property
    def cw(self): return self.sw < 0
    @property
    def length(self): return abs(self.sw) * self.r
    def lo(self): return self.a0 if self.sw >= 0 else self.a0 + self.sw
    def rev(self): return Arc(self.c, self.r, self.a0 + self.sw, -self.sw, self.pe, self.ps)
    def move(self, R):
        return Arc(R(self.c), self.r, self.a0 + R.th, self.sw, R(self.ps), R(self.pe))
    def at(self, s): return polar(self.c, self.r, self.a0 + s / self.r * (1 if self.sw >= 0 else -1))

    def where(self, P):
        if not self.full and (dist(P, self.ps) <= EPS or dist(P, self.pe) <= EPS): return "end"
        d = dist(P, self.c)
        if abs(d - self.r) >= FAR: return "out"
        if not self.full:
            t = mod(atan2(P[1] - self.c[1], P[0] - self.c[0]) - self.lo())
            s, L = t * self.r, self.length
            if s > L + FAR and TAU * self.r - s > FAR: return "out"
            for x in (s, TAU * self.r - s, s - L):
                if EPS < abs(x) < FAR: raise Amb(x)
        if zero(d - self.r): return "in" if self.full or EPS < s < L - EPS else "end"
        raise Amb(d - self.r)

    def offset(self, P):
        t = atan2(P[1] - self.c[1], P[0] - self.c[0]) - self.a0
        t = mod(t if self.sw >= 0 else -t)
        return (t if t < TAU - 1e-7 else t - TAU) * self.r

    def covers(self, a):
        """angle within the arc, no tolerance"""
        return self.full or mod(a - self.lo()) <= abs(self.sw)

    def bounds(self):
        P = [] if self.full else [self.ps, self.pe]
        P += [polar(self.c, self.r, k * pi / 2) for k in range(4) if self.covers(k * pi / 2)]
        return (min(p[0] for p in P), min(p[1] for p in P)), (max(p[0] for p in P), max(p[1] for p in P))

    def near(self, P):
        d = sub(P, self.c)
        if self.covers(atan2(d[1], d[0])): return abs(hypot(*d) - self.r)
        return min(dist(P, self.ps), dist(P, self.pe))

    def __repr__(self): return "%s c=%r r=%r a=%r sw=%r" % (self.kind, self.c, self.r, self.a0, self.sw)


def Circle(c, r): return Arc(c, r, 0.0, TAU)


def meet(A, B):
    """(reported, allowed flags, points, kind of meeting); raises Amb where it is not clear-cut."""
    if A.kind == "line" and B.kind == "line": return _ll(A, B)
    if A.kind == "line": return _la(A, B)
    if B.kind == "line": return _la(B, A)
    return _aa(A, B)


def _both(A, B, P):
    """None if P is not on both, else whether it is an end of one of them."""
    w = []
    amb = None
    for s in (A, B):
        try: w.append(s.where(P))
        except Amb as e: amb = e
    if "out" in w: return None
    if amb: raise amb
    return "end" in w


def _ll(A, B):
    LA, LB = A.length, B.length
    u, v = mul(sub(A.q, A.p), 1 / LA), mul(sub(B.q, B.p), 1 / LB)
    k = cross(u, v)
    if zero(k, 1e-9, 5e-3):
        if not zero(cross(u, sub(B.p, A.p))) or not zero(cross(u, sub(B.q, A.p))): return (False, ("NONE",), [], "parallel")
        s, e = sorted((dot(u, sub(B.p, A.p)), dot(u, sub(B.q, A.p))))
        lo, hi = max(0.0, s), min(LA, e)
        n = pos(hi - lo)
        # which of the ends coincide must be clear as well
        zero(s); zero(e - LA); zero(s - LA); zero(e)
        if n < 0: return (False, ("NONE",), [], "collinear apart")
        if n == 0: return (True, ("ENDPOINT",), [A.at(lo)], "collinear touching")
        return (True, ("EDGE",), [A.at(lo), A.at(hi)], "collinear overlap")
    t = cross(sub(B.p, A.p), v) / k
    P = add(A.p, mul(u, t))
    e = _both(A, B, P)
    if e is None: return (False, ("NONE",), [], "lines apart")
    return (True, ("ENDPOINT" if e else "NONE",), [P], "lines meet at an end" if e else "lines cross")


def _la(L, A):
    u = mul(sub(L.q, L.p), 1 / L.length)
    d = sub(A.c, L.p)
    h, s = cross(u, d), dot(u, d)
    F = add(L.p, mul(u, s))
    z = pos(A.r - abs(h))
    if z < 0: return (False, ("NONE",), [], "line clear of circle")
    if z == 0:
        e = _both(L, A, F)
        if e is None: return (False, ("NONE",), [], "tangent point not on both")
        return (True, ("TANGENT", "ENDPOINT") if e else ("TANGENT",), [F], "tangent at an end" if e else "tangent line")
    w = sqrt(A.r * A.r - h * h)
    r = []
    for t in (s - w, s + w):
        P = add(L.p, mul(u, t))
        e = _both(L, A, P)
        if e is not None: r.append((P, e))
    if not r: return (False, ("NONE",), [], "line and arc apart")
    e = any(x[1] for x in r)
    return (True, ("ENDPOINT" if e else "NONE",), [x[0] for x in r], "line and %s at %d%s" % (A.kind, len(r), " (end)" if e else ""))


def _aa(A, B):
    d = dist(A.c, B.c)
    if zero(d) and zero(A.r - B.r): return _same(A, B)
    if d + abs(A.r - B.r) < FAR: raise Amb(d)
    cc = A.full and B.full
    x, i = pos(A.r + B.r - d), pos(d - abs(A.r - B.r))
    if x < 0: return (False, ("NONE",), [], "circles apart")
    inside = () if not cc else ("ENCIRCLES",) if A.r > B.r else ("INSIDE",)
    if i < 0: return (False, inside or ("NONE",), [], "one inside" if d > EPS else "concentric")
    u = mul(sub(B.c, A.c), 1 / d)
    if x == 0 or i == 0:
        P = add(A.c, mul(u, A.r if x == 0 or A.r > B.r else -A.r))
        k = "tangent outside" if x == 0 else "tangent inside"
        e = _both(A, B, P)
        if e is None: return (False, ("NONE",), [], "tangent circles, not on both arcs")
        return (False, ("TANGENT",) + (inside if i == 0 else ()), [], k)
    t = (d * d + A.r * A.r - B.r * B.r) / (2 * d)
    w = sqrt(A.r * A.r - t * t)
    r = []
    for k in (w, -w):
        P = add(add(A.c, mul(u, t)), (-u[1] * k, u[0] * k))
        e = _both(A, B, P)
        if e is not None: r.append((P, e))
    if not r: return (False, ("NONE",), [], "arcs apart")
    e = any(x[1] for x in r)
    if len(r) == 2 and not A.full and not B.full and all(A.where(x[0]) == "end" and B.where(x[0]) == "end" for x in r):
        # as the comments in the code have it: compared by radius and by where the middle of A lies
        m = A.at(A.length / 2)
        inner = B.r > A.r and dist(m, B.c) < B.r
        return (True, ("INSIDE",) if inner else ("OUTSIDE",), [x[0] for x in r], "arcs share both ends")
    return (True, ("ENDPOINT", "NONE") if e else ("NONE",), [x[0] for x in r], "%s and %s at %d%s" % (A.kind, B.kind, len(r), " (end)" if e else ""))


def _same(A, B):
    """Arcs or circles on one circle."""
    if A.full and B.full: return (False, ("IDENT",), [], "identical circles")
    if A.full: return (True, ("EDGE",), [B.start, B.end], "arc on circle")
    if B.full: return (True, ("EDGE",), [A.start, A.end], "arc on circle")
    r, sa, sb = A.r, abs(A.sw), abs(B.sw)
    dl = mod(B.lo() - A.lo())
    if dl > TAU - 1e-6: dl -= TAU
    iv, touch = [], []
    for o in (dl, dl - TAU):
        lo, hi = max(0.0, o), min(sa, o + sb)
        n = pos((hi - lo) * r)
        for x in (o, o - sa, o + sb, o + sb - sa): zero(x * r)
        if n > 0: iv.append((lo, hi))
        elif n == 0: touch.append(lo)
    P = lambda t: polar(A.c, r, A.lo() + t)
    if len(iv) == 2: return (True, ("MULTIEDGE",), [P(x) for q in iv for x in q], "arcs overlap twice")
    if iv and touch: return (True, ("EDGE", "MULTIEDGE"), [P(iv[0][0]), P(iv[0][1]), P(touch[0])], "arcs overlap and touch")
    if iv: return (True, ("EDGE",), [P(iv[0][0]), P(iv[0][1])], "arcs overlap")
    t = sorted(touch)
    if t: return (True, ("ENDPOINT",), [P(x) for x in t], "arcs touch at %d" % len(t))
    return (False, ("NONE",), [], "arcs of one circle apart")


# ---- regions bounded by closed chains of segments

def seg_area(s):
    """Contribution to the signed area (counterclockwise positive)."""
    if s.kind == "line": return 0.5 * cross(s.p, s.q)
    a, b = s.a0, s.a0 + s.sw
    return 0.5 * (s.r * s.r * s.sw + s.r * (s.c[0] * (sin(b) - sin(a)) - s.c[1] * (cos(b) - cos(a))))


def area(segs): return sum(seg_area(s) for s in segs)


def wind(segs, P):
    """Winding number of a closed chain about P (P not on it)."""
    t = 0.0
    for s in segs:
        if s.kind == "line":
            a, b = sub(s.p, P), sub(s.q, P)
            t += atan2(cross(a, b), dot(a, b))
            continue
        n = max(1, int(math.ceil(abs(s.sw) / 1.5)))
        d = sub(P, s.c)
        for i in range(n):
            a0, a1 = s.a0 + s.sw * i / n, s.a0 + s.sw * (i + 1) / n
            p, q = polar(s.c, s.r, a0), polar(s.c, s.r, a1)
            a, b = sub(p, P), sub(q, P)
            k = atan2(cross(a, b), dot(a, b))
            # P between chord and arc: the chord passes on the other side
            if hypot(*d) < s.r:
                # a point inside the circle sees the arc turn the way it runs
                if s.sw > 0 and k < 0: k += TAU
                if s.sw < 0 and k > 0: k -= TAU
            t += k
    return int(round(t / TAU))


def clearance(segs, P): return min(s.near(P) for s in segs)
