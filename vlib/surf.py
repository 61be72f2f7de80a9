"""Evaluation of curves, surfaces and trimmed faces of a parsed IGES file, independent of the library."""
import math
from math import pi, sqrt, cos, sin, atan2
from .igeslib import Ref


class Bad(Exception):
    pass


def sub(a, b): return (a[0] - b[0], a[1] - b[1], a[2] - b[2]) if len(a) == 3 else tuple(x - y for x, y in zip(a, b))
def add(a, b): return (a[0] + b[0], a[1] + b[1], a[2] + b[2])
def mul(a, k): return (a[0] * k, a[1] * k, a[2] * k)
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] if len(a) == 3 else sum(x * y for x, y in zip(a, b))
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def norm(a): return sqrt(dot(a, a))
def dist(a, b): return norm(sub(a, b))


ID = ((1.0, 0.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0), (0.0, 0.0, 1.0, 0.0))


def apply(M, p): return tuple(M[i][0] * p[0] + M[i][1] * p[1] + M[i][2] * p[2] + M[i][3] for i in range(3))


def compose(A, B):
    """A after B."""
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(3)) + (A[i][3] if j == 3 else 0.0) for j in range(4)) for i in range(3))


def basis(T, deg, t, n):
    """(first index, values) of the B-splines which do not vanish at t; n control points."""
    s = deg
    while s < n - 1 and t >= T[s + 1]: s += 1
    while s > deg and T[s] == T[s + 1]: s -= 1
    B = [1.0]
    for d in range(1, deg + 1):
        N = [0.0] * (d + 1)
        for j in range(d):
            lo, hi = T[s - d + 1 + j], T[s + 1 + j]
            w = B[j] / (hi - lo) if hi != lo else 0.0
            N[j] += (hi - t) * w
            N[j + 1] += (t - lo) * w
        B = N
    return s - deg, B


class Seg(object):
    """A straight piece."""
    def __init__(self, p, q): self.p, self.q = p, q
    def at(self, s): return add(self.p, mul(sub(self.q, self.p), s))

    def near(self, P):
        u = sub(self.q, self.p)
        d = dot(u, u)
        t = max(0.0, min(1.0, dot(sub(P, self.p), u) / d)) if d else 0.0
        return dist(P, self.at(t))


class Circ(object):
    """A circular piece: centre, radius, start angle, sweep, in the plane of unit vectors u, v."""
    def __init__(self, c, r, a0, sw, u=(1.0, 0.0, 0.0), v=(0.0, 1.0, 0.0)):
        self.c, self.r, self.a0, self.sw, self.u, self.v = c, r, a0, sw, u, v

    def at(self, s):
        a = self.a0 + s * self.sw
        return add(self.c, add(mul(self.u, self.r * cos(a)), mul(self.v, self.r * sin(a))))

    def near(self, P):
        d = sub(P, self.c)
        x, y = dot(d, self.u), dot(d, self.v)
        z = sqrt(max(0.0, dot(d, d) - x * x - y * y))
        a = (atan2(y, x) - self.a0) % (2 * pi)
        if a > self.sw:
            return min(dist(P, self.at(0)), dist(P, self.at(1)))
        return math.hypot(math.hypot(x, y) - self.r, z)


class Nurbs(object):
    def __init__(self, T, deg, W, P, v0, v1):
        self.T, self.deg, self.W, self.P, self.v0, self.v1 = T, deg, W, P, v0, v1

    def ev(self, t):
        i, B = basis(self.T, self.deg, t, len(self.P))
        w = 0.0
        r = [0.0, 0.0, 0.0]
        for k, b in enumerate(B):
            b *= self.W[i + k]
            w += b
            for j in range(3): r[j] += b * self.P[i + k][j]
        return (r[0] / w, r[1] / w, r[2] / w)

    def at(self, s): return self.ev(self.v0 + s * (self.v1 - self.v0))

    def near(self, P, n=64):
        best = None
        for k in range(n + 1):
            d = dist(self.at(k / n), P)
            if best is None or d < best[0]: best = (d, k)
        lo, hi = max(0.0, (best[1] - 1) / n), min(1.0, (best[1] + 1) / n)
        for it in range(60):
            a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
            if dist(self.at(a), P) < dist(self.at(b), P): hi = b
            else: lo = a
        return dist(self.at((lo + hi) / 2), P)


class Geo(object):
    def __init__(self, P):
        self.P = P

    def ent(self, r):
        i = r.i if isinstance(r, Ref) else r
        if i is None or not 0 <= i < len(self.P.ents): raise Bad("pointer %r" % (r,))
        return self.P.ents[i]

    def vals(self, i): return [v for k, v in self.ent(i).params]

    def matrix(self, e, depth=0):
        if not isinstance(e.transform, Ref) or e.transform.i is None: return ID
        if depth > 50: raise Bad("transforms in a circle")
        t = self.ent(e.transform)
        v = [float(x[1]) for x in t.params[:12]]
        return compose(self.matrix(t, depth + 1), (tuple(v[0:4]), tuple(v[4:8]), tuple(v[8:12])))

    def pieces(self, i, par=False):
        """Simple pieces of a curve in order; par: a curve of a parameter space."""
        e = self.ent(i)
        M = self.matrix(e)
        v = [x[1] for x in e.params]
        if e.type == 102:
            r = []
            for x in v[1:1 + v[0]]:
                for y in self.pieces(x, par): r.append(self.moved(y, M))
            return r
        if e.type == 110: return [Seg(apply(M, tuple(map(float, v[0:3]))), apply(M, tuple(map(float, v[3:6]))))]
        if e.type == 100:
            z, cx, cy, sx, sy, ex, ey = map(float, v[:7])
            r0, r1 = math.hypot(sx - cx, sy - cy), math.hypot(ex - cx, ey - cy)
            if abs(r0 - r1) > 1e-5 * max(1, r0): raise Bad("arc with radii %r and %r" % (r0, r1))
            a0 = atan2(sy - cy, sx - cx)
            sw = (atan2(ey - cy, ex - cx) - a0) % (2 * pi)
            if sw < 1e-9 or math.hypot(sx - ex, sy - ey) < 1e-9: sw = 2 * pi
            return [self.moved(Circ((cx, cy, z), r0, a0, sw), M)]
        if e.type == 126:
            K, deg = v[0], v[1]
            n = K + 1
            T = list(map(float, v[6:6 + n + deg + 1]))
            o = 6 + n + deg + 1
            W = list(map(float, v[o:o + n]))
            o += n
            C = [tuple(map(float, v[o + 3 * k:o + 3 * k + 3])) for k in range(n)]
            o += 3 * n
            v0, v1 = float(v[o]), float(v[o + 1])
            if any(T[k] > T[k + 1] for k in range(len(T) - 1)): raise Bad("knots decrease")
            if min(W) <= 0: raise Bad("weights")
            if v0 >= v1 or v0 < T[deg] - 1e-9 or v1 > T[n] + 1e-9: raise Bad("range %r..%r of knots %r" % (v0, v1, T))
            return [Nurbs(T, deg, W, [apply(M, p) for p in C], v0, v1)]
        raise Bad("curve of type %d" % e.type)

    def moved(self, c, M):
        if M is ID: return c
        if isinstance(c, Seg): return Seg(apply(M, c.p), apply(M, c.q))
        if isinstance(c, Circ):
            o = apply(M, (0.0, 0.0, 0.0))
            return Circ(apply(M, c.c), c.r, c.a0, c.sw, sub(apply(M, c.u), o), sub(apply(M, c.v), o))
        return Nurbs(c.T, c.deg, c.W, [apply(M, p) for p in c.P], c.v0, c.v1)

    def surface(self, i):
        """(function of (u, v), (u0, u1, v0, v1))"""
        e = self.ent(i)
        M = self.matrix(e)
        v = [x[1] for x in e.params]
        if e.type == 128:
            K1, K2, M1, M2 = v[0:4]
            n1, n2 = K1 + 1, K2 + 1
            o = 9
            S = list(map(float, v[o:o + n1 + M1 + 1])); o += n1 + M1 + 1
            T = list(map(float, v[o:o + n2 + M2 + 1])); o += n2 + M2 + 1
            W = list(map(float, v[o:o + n1 * n2])); o += n1 * n2
            C = [tuple(map(float, v[o + 3 * k:o + 3 * k + 3])) for k in range(n1 * n2)]; o += 3 * n1 * n2
            lim = tuple(map(float, v[o:o + 4]))

            def f(a, b):
                i1, B1 = basis(S, M1, a, n1)
                i2, B2 = basis(T, M2, b, n2)
                w, r = 0.0, [0.0, 0.0, 0.0]
                for q, y in enumerate(B2):
                    for p, x in enumerate(B1):
                        k = (i1 + p) + (i2 + q) * n1
                        z = x * y * W[k]
                        w += z
                        for j in range(3): r[j] += z * C[k][j]
                return apply(M, (r[0] / w, r[1] / w, r[2] / w))
            return f, lim
        if e.type == 120:
            L = self.pieces(v[0])[0]
            G = self.pieces(v[1])
            ge = self.ent(v[1])
            if not isinstance(L, Seg) or len(G) != 1: raise Bad("surface of revolution of %s" % type(G[0]).__name__)
            if ge.type == 110: g, lo, hi = G[0].at, 0.0, 1.0
            elif ge.type == 126: g, lo, hi = G[0].ev, G[0].v0, G[0].v1
            else: raise Bad("generatrix of type %d" % ge.type)
            ax = sub(L.q, L.p)
            ax = mul(ax, 1 / norm(ax))

            def f(t, a):
                d = sub(g(t), L.p)
                h = dot(d, ax)
                x = sub(d, mul(ax, h))
                y = cross(ax, x)
                return apply(M, add(L.p, add(mul(ax, h), add(mul(x, cos(a)), mul(y, sin(a))))))
            return f, (lo, hi, float(v[2]), float(v[3]))
        raise Bad("surface of type %d" % e.type)


class Loop(object):
    """A boundary of a face: pieces in parameter space and in model space."""
    def __init__(self, geo, i):
        e = geo.ent(i)
        if e.type != 142: raise Bad("boundary of type %d" % e.type)
        v = [x[1] for x in e.params]
        self.sptr = v[1].i
        self.uv = geo.pieces(v[2], True)
        self.xyz = geo.pieces(v[3])
        self.pref = v[4]


class Face(object):
    def __init__(self, geo, i):
        e = geo.ent(i)
        if e.type != 144: raise Bad("face of type %d" % e.type)
        v = [x[1] for x in e.params]
        self.i = i
        self.S, self.lim = geo.surface(v[0])
        self.sptr = v[0].i
        self.stype = geo.ent(v[0]).type
        self.n1, self.n2 = v[1], v[2]
        self.M = geo.matrix(e)
        self.loops = [Loop(geo, r) for r in v[3:4 + self.n2] if isinstance(r, Ref) and r.i is not None]

    def look(self):
        """A point of the surface within the outer boundary's box of parameters, and the normal there."""
        uv = [x.at(s) for x in self.loops[0].uv for s in (0, .5)]
        a, b = ((min(p[k] for p in uv) + max(p[k] for p in uv)) / 2 for k in (0, 1))
        h = 1e-4
        n = cross(sub(self.S(a + h, b), self.S(a - h, b)), sub(self.S(a, b + h), self.S(a, b - h)))
        if not norm(n): raise Bad("the surface has no normal at %r" % ((a, b),))
        return self.S(a, b), mul(n, 1 / norm(n))

    def faults(self, tol):
        """Faults of this face by itself; tol: tolerance in model space."""
        if self.n1 != 1 or len(self.loops) != 1 + self.n2: return "face D%d: N1 %r with %d of %d boundaries" % (2 * self.i + 1, self.n1, len(self.loops), 1 + self.n2)
        u0, u1, v0, v1 = self.lim
        et = 1e-6 * max(1.0, abs(u1 - u0), abs(v1 - v0))
        for k, L in enumerate(self.loops):
            w = "face D%d, boundary %d: " % (2 * self.i + 1, k)
            if L.sptr != self.sptr: return w + "belongs to another surface"
            for name, c, t in (("parameter", L.uv, et), ("model", L.xyz, tol)):
                for j, x in enumerate(c):
                    y = c[(j + 1) % len(c)]
                    a, b = x.at(1.0), y.at(0.0)
                    if c is L.uv: a, b = a[:2], b[:2]       # the third coordinate has no meaning there
                    if norm(sub(a, b)) > t:
                        return w + "%s space curve %d ends at %r, the next one starts at %r" % (name, j, x.at(1.0), y.at(0.0))
            for j, x in enumerate(L.uv):
                for s in (0.0, .13, .5, .77, 1.0):
                    p = x.at(s)
                    if not (u0 - et <= p[0] <= u1 + et and v0 - et <= p[1] <= v1 + et):
                        return w + "parameter space curve %d leaves the surface at %r of %r" % (j, p, self.lim)
                    q = self.S(min(max(p[0], u0), u1), min(max(p[1], v0), v1))
                    # most often it is the curve at the same place in the chain
                    d = L.xyz[j].near(q) if len(L.xyz) == len(L.uv) else tol + 1
                    if d > tol: d = min(y.near(q) for y in L.xyz)
                    if d > tol: return w + "parameter space curve %d maps to %r, which is %r off the model space curves" % (j, q, d)
            # the other way: the images of the parameter space curves cover the model space curves
            img = []
            n = 24
            for x in L.uv:
                for s in range(n): img.append(Seg(self.S(*x.at(s / n)[:2]), self.S(*x.at((s + 1) / n)[:2])))
            for j, y in enumerate(L.xyz):
                for s in (0.0, .31, .5, .83):
                    p = y.at(s)
                    x0, y0, z0 = p
                    best = []
                    for i in range(len(L.uv)):
                        m = min(range(i * n, i * n + n), key=lambda k: (img[k].p[0] - x0) ** 2 + (img[k].p[1] - y0) ** 2 + (img[k].p[2] - z0) ** 2)
                        for k in (m, m - 1 if m % n else m, m + 1 if m % n < n - 1 else m): best.append((img[k].near(p), k))
                    best = [k for q, k in sorted(set(best))[:4]]
                    d = min(img[k].near(p) for k in best)
                    for k in best:
                        if d > tol: d = min(d, closest(lambda t: self.S(*L.uv[k // n].at(t)[:2]), p, k % n / n, (k % n + 1) / n))
                    if d > tol: return w + "model space curve %d: %r is %r off the image of the parameter space curves" % (j, p, d)
            # both run the same way
            a = winding_like(img)
            b = winding_like([Seg(y.at(s / 16), y.at((s + 1) / 16)) for y in L.xyz for s in range(16)])
            if dot(a, b) <= 0: return w + "the parameter space and model space curves run in opposite directions"
        return None


def closest(f, p, lo, hi):
    for it in range(34):
        a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if dist(f(a), p) < dist(f(b), p): hi = b
        else: lo = a
    return dist(f((lo + hi) / 2), p)


def winding_like(segs):
    """Twice the vector area of a closed chain."""
    o = segs[0].p
    r = (0.0, 0.0, 0.0)
    for s in segs: r = add(r, cross(sub(s.p, o), sub(s.q, o)))
    return r


def shell_faults(faces, tol):
    """Whether every point of every edge belongs to exactly two of the boundary curves, which run in opposite directions."""
    edges = []
    for f in faces:
        for L in f.loops:
            for c in L.xyz:
                P = [c.at(s) for s in (0.0, .25, .5, .75, 1.0)]
                lo = tuple(min(p[k] for p in P) for k in range(3))
                hi = tuple(max(p[k] for p in P) for k in range(3))
                # the box of an arc reaches beyond the box of its points by less than this
                m = dist(P[0], P[2]) + tol
                edges.append((c, f, tuple(x - m for x in lo), tuple(x + m for x in hi)))
    n = 0
    opp = True
    for c, f, lo, hi in edges:
        for s in (.21, .52, .87):
            p = c.at(s)
            if min(dist(p, c.at(0)), dist(p, c.at(1))) < 4 * tol: continue      # too near to the neighbours
            hit = []
            for c2, f2, l2, h2 in edges:
                if all(l2[k] <= p[k] <= h2[k] for k in range(3)) and c2.near(p) < tol: hit.append((c2, f2))
            n += 1
            if len(hit) != 2:
                return "the point %r of an edge of face D%d is on %d edges (faces %s)" % (p, 2 * f.i + 1, len(hit), ", ".join("D%d" % (2 * x[1].i + 1) for x in hit)), n
            o = [x for x in hit if x[0] is not c]
            if len(o) != 1: return "edge of face D%d is missing from its own search" % (2 * f.i + 1), n
    return None, n
