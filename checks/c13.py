"""C13: boards converted by idf2igs, the assembly evaluated from the written file."""
import math, os
from math import pi, sin, cos
from vlib import build, drive, fw, g2, shapes, surf, igeslib, idf
from vlib.igeslib import Ref
from checks.c10 import to2d


def prop_name(P, e):
    """The name in the attached property."""
    for r in (e.extras[1] if e.extras else []):
        x = P.ents[r.i]
        if x.type == 406 and x.form == 15: return x.params[1][1]
    return None


def face_region(face, z, tol):
    """The loops of a flat face in 2D."""
    out = []
    for lp in face.loops:
        s = [to2d(c, z, tol) for c in lp.xyz]
        if None in s: raise surf.Bad("a boundary of a face is not at height %r" % z)
        out.append(s)
    return out


def judge_body(c, geo, members, S, tol, L):
    """None or how the faces differ from the solid S."""
    P = geo.P
    faces = []
    for r in members:
        e = P.ents[r.i]
        if e.type != 144: return "member of type %d" % e.type
        faces.append(surf.Face(geo, r.i))
    if len(set(f.i for f in faces)) != len(faces): return "a face appears twice"
    ft = 2e-5 * max(1.0, L / 10)
    for f in faces:
        d = f.faults(ft)
        if d: return d
    c.event("faces", len(faces))
    regs = {}
    for z, name in ((S.z1, "top"), (S.z0, "bottom")):
        flat = []
        for f in faces:
            zs = [y.at(s)[2] for lp in f.loops for y in lp.xyz for s in (0, .5, 1)]
            if max(abs(w - z) for w in zs) < min(1e-4, (S.z1 - S.z0) / 4): flat.append(f)
        if len(flat) != 1: return "%d faces at the height of the %s, %r" % (len(flat), name, z)
        R = regs[name] = face_region(flat[0], z, 1e-4)
        # just beside every boundary of the solid, and around
        n = 0
        d = max(4 * tol, 1e-3)
        for ch in [S.outer] + S.holes:
            for s in ch:
                for k in (.06, .31, .5, .77, .94):
                    t = k * s.length
                    p, q = s.at(t), s.at(min(t + 1e-4 * s.length, s.length))
                    u = g2.sub(q, p)
                    l = math.hypot(*u)
                    if not l: continue
                    for sg in (d / l, -d / l):
                        P0 = (p[0] - sg * u[1], p[1] + sg * u[0])
                        if S.clear(P0) < d / 3: continue
                        n += 1
                        have = shapes.inside(R[0], P0) and not any(shapes.inside(h, P0) for h in R[1:])
                        if have != S.inside(P0): return "%s: %r belongs to the face: %r, to the solid: %r" % (name, P0, have, not have)
        c.event("points of regions", n)
        # nothing else: every boundary of the face is one of the solid
        for lp in R:
            for s in lp:
                for k in (.11, .5, .83):
                    p = s.at(k * s.length)
                    if S.clear(p) > tol: return "%s: the boundary of the face at %r is %r off those of the solid" % (name, p, S.clear(p))
    for f in faces:
        p, nrm = f.look()
        if abs(nrm[2]) > .9: good = (nrm[2] > 0) == (abs(p[2] - S.z1) < abs(p[2] - S.z0))
        else:
            e = max(4 * tol, 1e-3)
            a, b = [S.inside(q) for q in ((p[0] + e * nrm[0], p[1] + e * nrm[1]), (p[0] - e * nrm[0], p[1] - e * nrm[1]))]
            if a == b: continue
            good = b
        if not good: return "the face at %r looks into the solid" % (p,)
    st = min(ft, (S.z1 - S.z0) / 10)
    # the cut of an arc at its quadrants can leave a wall which is narrower than the tolerance
    wide = []
    for f in faces:
        p = [y.at(s) for lp in f.loops for y in lp.xyz for s in (0, .5)]
        if max(max(q[k] for q in p) - min(q[k] for q in p) for k in (0, 1)) > .8 * st: wide.append(f)
    d, n = surf.shell_faults(wide, st)
    c.event("points of edges", n)
    return d


def want(b, o3):
    """Solids and instances which the board asks for: ({name: [Solid]}, [(name, label, matrix)])."""
    h = b.th / 2
    bodies, inst = [], []
    I = ((1.0, 0.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0), (0.0, 0.0, 1.0, 0.0))
    bodies.append((None, idf.Solid(b.outer, [x.chain for x in b.holes], -h, h)))
    inst.append((None, None, I))
    for p in b.parts:
        if p["loop"] and p["h"] >= 1.001e-3: bodies.append((p["uid"], idf.Solid(p["loop"], [], 0.0, p["h"])))
    for c in b.comps:
        p = c["part"]
        if not p or not p["loop"] or p["h"] < 1.001e-3 or c["status"] == "UNPLACED": continue
        a = math.radians(c["a"])
        z = c["z"] if o3 else 0.0
        if c["side"] == "TOP": M = ((cos(a), -sin(a), 0.0, c["x"]), (sin(a), cos(a), 0.0, c["y"]), (0.0, 0.0, 1.0, z + h))
        # turned over about the Y axis, then by the angle as seen from below
        else: M = surf.compose(((cos(a), sin(a), 0.0, c["x"]), (-sin(a), cos(a), 0.0, c["y"]), (0.0, 0.0, 1.0, -(z + h))), ((-1.0, 0.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0), (0.0, 0.0, -1.0, 0.0)))
        inst.append((p["uid"], None if c["ref"].upper() == "NOREFDES" else c["ref"], M))
    for o in b.others if o3 else []:
        z = (h, h + o["th"]) if o["side"] == "TOP" else (-(h + o["th"]), -h)
        bodies.append((o["id"], idf.Solid(o["outer"], o["cuts"], z[0], z[1])))
        inst.append((o["id"], o["id"], I))
    return bodies, inst


def judge(c, b, t, path, base):
    data = open(path, "rb").read()
    P = igeslib.parse(data)
    if P.errs: return "the file is invalid: " + P.errs[0]
    if P.g.get("unitsFlag", 2) != 2: return "units %r" % P.g.get("unitsFlag")
    geo = surf.Geo(P)
    L = b.L
    tol = 1e-4 + (1e-4 if t.adec == 3 else 1e-5) * L / 8
    bodies, inst = want(b, t.ver == 3)
    # rounding of the coordinates and angles, magnified by arcs which are nearly circles
    for n, S in bodies:
        for ch in [S.outer] + S.holes:
            for s in ch:
                if s.kind != "line" and not s.full:
                    m = math.tan(abs(s.sw) / 4)
                    tol = max(tol, 1e-4 + 4e-5 * m + (2e-5 if t.adec == 3 else 2e-8) * s.r * m)
    defs = {}
    used = set()
    for i, e in enumerate(P.ents):
        if e.type == 308:
            n = prop_name(P, e)
            defs.setdefault(n, []).append(i)
            # 308: depth, name, n, members
            for k, r in e.params[3:]:
                if k == "P":
                    if r.i in used: return "face D%d belongs to two bodies" % (2 * r.i + 1)
                    used.add(r.i)
    stray = [i for i, e in enumerate(P.ents) if e.type == 144 and i not in used]
    if stray: return "face D%d belongs to no body" % (2 * stray[0] + 1)
    names = sorted(base if n is None else n for n, s in bodies)
    have = sorted(str(n) for n in defs for k in defs[n])
    if names != have: return "bodies %s instead of %s" % (have, names)
    where = {}
    for n, S in bodies:
        n = base if n is None else n
        fault = None
        for i in defs[n]:
            e = P.ents[i]
            try: fault = judge_body(c, geo, [r for k, r in e.params[3:] if k == "P"], S, tol, max(L, 12.0))
            except surf.Bad as x: fault = "Bad: %s" % x
            if not fault: where[i] = n; break
        if fault: return "body %s: %s" % ("of the board" if n == base and S.z0 < 0 < S.z1 else "", fault)
        c.event("bodies")
    todo = [((base if n is None else n), lb, M) for n, lb, M in inst]
    for i, e in enumerate(P.ents):
        if e.type != 408: continue
        v = [x[1] for x in e.params]
        n = prop_name(P, P.ents[v[0].i])
        M = surf.compose(geo.matrix(e), ((float(v[4]) if len(v) > 4 else 1.0, 0.0, 0.0, float(v[1])), (0.0, float(v[4]) if len(v) > 4 else 1.0, 0.0, float(v[2])), (0.0, 0.0, float(v[4]) if len(v) > 4 else 1.0, float(v[3]))))
        for k, (n2, lb, W) in enumerate(todo):
            if n2 == n and max(abs(M[p][q] - W[p][q]) for p in range(3) for q in range(4)) < 2e-4 and (lb is None or e.label.strip() == lb[:8].strip()): break
        else: return "an instance of %s at %s which the board has not" % (n, [[round(x, 5) for x in r] for r in M])
        del todo[k]
        c.event("instances")
    if todo: return "no instance of %s, %s at %s" % (todo[0][0], todo[0][1], [[round(x, 5) for x in r] for r in todo[0][2]])
    return None


def run(c):
    exe = build.build("san", ("vidf",))["vidf"]
    n = c.n(640, 30000)

    def work(sub, lo, hi):
        d = sub.dir("r")
        cases, sts = [], {}
        for i in range(lo, hi):
            rd = sub.rnd(i)
            b = idf.Board(rd)
            cmds, ts = [], []
            for k in range(2):
                t = idf.Text(b, rd)
                base = "b%d%s" % (i, "xy"[k])
                p = os.path.join(d, base)
                open(p + ".emn", "wb").write(t.emn())
                if b.parts or rd.random() < .5: open(p + ".emp", "wb").write(t.emp())
                cmds.append("conv %s.emn" % drive.enc(p))
                ts.append((t, p, base))
            sts[i] = (b, ts, cmds)
            cases.append((str(i), cmds))
        res = drive.run_cases(exe, cases, d)
        for i, (b, ts, cmds) in sts.items():
            sub.evals += 1
            r = res[str(i)]
            files = [p + x for t, p, base in ts for x in (".emn", ".emp", ".igs") if os.path.exists(p + x)]
            if sub.crash(r, files=files, script=cmds, exe=exe, what="case %d" % i):
                for k, (t, p, base) in enumerate(ts):
                    f = None
                    if r.r(k) != "0": f = "the converter's status is %s" % r.r(k)
                    elif not os.path.exists(p + ".igs"): f = "no output"
                    else:
                        try: f = judge(sub, b, t, p + ".igs", base)
                        except surf.Bad as e: f = "Bad: %s" % e
                    if f:
                        sub.violation(" ".join(w for w in f.split()[:8] if w.isalpha()), "case %d, file %s (IDF %d, %s): %s\nouter %s\nholes %s" % (i, base, t.ver, t.unit, f, b.outer, [(h.kind, h.chain) for h in b.holes]), files=files, script=cmds, exe=exe)
                        break
                    sub.distinct.add((len(b.outer), tuple(sorted(h.kind + str(len(h.chain)) for h in b.holes)), len(b.comps), len(b.others), t.ver, t.unit))
                else:
                    if i % 50 == 0: sub.sample("board of %d segments, %d holes and cutouts, %d components of %d parts, %d other outlines; %s" % (len(b.outer), len(b.holes), len(b.comps), len(b.parts), len(b.others), ["IDF %d %s" % (t.ver, t.unit) for t, p, x in ts]))
            for f in files: os.remove(f)
            if sub.enough(): break
    c.parallel(work, n, batch=40)
    c.rule = "segments of the board, kinds of its holes and cutouts, number of components and other outlines, version and unit of the files"
    c.assume = ["boundaries cross at most at two points, are otherwise apart by at least 0.4% of the size, and nothing cuts the board into pieces"]
