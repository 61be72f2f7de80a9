"""C06: the reference graph under random histories of the public API, checked online after every operation."""
import os
from vlib import build, drive, gen, corpus, apigen, fw, igeslib as I
from vlib.drive import dec

CURVES = (100, 102, 104, 110, 126)
SURF = (108, 120, 122, 128)
SLOTS = {   # (parent type, slot) -> (kind, suitable children)
    ("*", "transform"): ("one", (124,)), ("*", "color"): ("one", (314,)),
    ("*", "structure"): ("one", ()), ("*", "linefont"): ("one", ()), ("*", "level"): ("one", (406,)),
    ("*", "view"): ("one", ()), ("*", "labelassoc"): ("one", ()), ("*", "opt"): ("list", (406,)), ("*", "-opt"): ("list", (406,)),
    (102, "seg"): ("list", CURVES), (120, "L"): ("one", (110,)), (120, "C"): ("one", CURVES), (120, "axis"): ("one", (110,)),
    (120, "gen"): ("one", CURVES), (122, "DE"): ("one", CURVES), (142, "SPTR"): ("one", SURF), (142, "BPTR"): ("one", CURVES),
    (142, "CPTR"): ("one", CURVES), (144, "PTS"): ("one", SURF), (144, "PTO"): ("one", (142,)), (144, "PTI"): ("list", (142,)),
    (144, "-PTI"): ("list", (142,)), (164, "curve"): ("one", CURVES), (180, "arg"): ("list", (154, 164, 180)),
    (308, "DE"): ("list", (100, 110, 144, 408, 126, 102)), (308, "-DE"): ("list", (100, 110, 144, 408, 126, 102)), (408, "DE"): ("one", (308,)),
    (510, "loop"): ("list", (508,)), (510, "surf"): ("one", SURF)}
ALIAS = {(120, "axis"): "L", (120, "gen"): "C"}
ATTRSLOT = {"color": "color", "linefont": "linefont", "level": "level"}
LIMIT = {"color": 9, "linefont": 6, "level": 9, "weight": 20, "visible": 1, "depends": 4, "use": 7, "hier": 3}
_V = ("linefont", "view", "transform", "color")
UNUSED = {314: ("linefont", "level", "view", "transform", "labelassoc", "color"), 124: ("linefont", "level", "view", "labelassoc", "color"),
          406: _V + ("labelassoc",), 502: _V, 504: _V, 510: _V, 514: _V, 508: ("view",), 108: ("linefont",)}
STRUCT = {"ecurv", "evert", "edge", "pcurve", "arg", "seg"}     # a lost child may take its record with it
TYPES = [406, 100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 308, 314, 408, 502, 504, 508, 510]


class N(object):
    __slots__ = ("model", "type", "form", "nrefs", "d1", "d2", "links")


def parse(line):
    dead, _, rest = line.partition(" ")
    g = {}
    for x in rest.split("#"):
        if not x: continue
        f = x.split("|")
        n = N()
        n.model = f[1]
        t, n.form = f[2].split(":")
        n.type, n.nrefs, n.d1, n.d2 = int(t), int(f[3]), f[4], f[5]
        n.links = {}
        q = dec(f[6])
        if q and f[6] != "%":
            for y in q.split(" "):
                k, v = y.split("=")
                n.links[k] = v.split(",")
        g[f[0]] = n
    return [x for x in dead.split(",") if x], g


def history(r, m, nops, d, i, how):
    """Commands and, for every operation, what it is."""
    cmds = ["new m", "new q"]
    ops = [None, None]
    ent = {}

    def op(c, o):
        cmds.append(c); ops.append(o)
        cmds.append("gdump"); ops.append("dump")
    files = []
    if how == "api":
        b = apigen.build(m)
        cmds += b; ops += [None] * len(b)
        for k in range(len(m.ents)): ent["e%d" % k] = m.ents[k].type
    elif how == "file":
        p = os.path.join(d, "i%d.igs" % i)
        files.append(p)
        open(p, "wb").write(I.write(m, gen.random_style(r)))
        cmds += ["read q " + p, "export q m s0"]; ops += [None, None]
        ent["s0"] = 308
        # the entities below it get the names x1, x2.. when they are first seen
        for k in range(1, 2 * len(m.ents)): ent["x%d" % k] = r.choice([100, 110, 142, 144, 126, 102, 408, 308, 504, 508, 510, 514, 502, 186])
    cmds.append("gdump"); ops.append("dump")
    fresh = [0]

    def pick(types=()):
        l = [n for n, t in ent.items() if t in types] if types else list(ent)
        return r.choice(l) if l else None

    def new(t=None):
        t = t or r.choice(TYPES)
        n = "n%d" % fresh[0]
        fresh[0] += 1
        if r.random() < 0.85:
            mo = r.choice("mmmq")
            op("nent %s %d %s" % (mo, t, n), ("new", mo, n))
        else:
            w = r.random() < 0.3
            if w: cmds.append("mkent %d %s m" % (t, n)); ops.append(None)
            else: op("mkent %d %s" % (t, n), ("new", None, n))
            if w: op("addent m " + n, ("new", "m", n))
        ent[n] = t
        if t == 502:
            for _ in range(3): op("vert502 %s %r %r %r" % (n, r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-5, 5)), ("data", n))
        elif t == 110:
            for f in ("X1", "Y1", "Z1", "X2"): cmds.append("set %s %s %d" % (n, f, r.randint(-9, 9))); ops.append(None)
            cmds.append("gdump"); ops.append("dump")
        return n
    while len(ent) < 4: new()
    for _ in range(nops):
        x = r.random()
        if x < 0.12 or not ent:
            new()
        elif x < 0.62:
            sl = r.choice([k for k in SLOTS if k[0] == "*" or k[0] in ent.values()])
            if sl[0] == "*" and r.random() < 0.5: sl = r.choice([("*", "transform"), ("*", "color"), ("*", "opt"), ("*", "-opt")])
            kind, ok = SLOTS[sl]
            p = pick((sl[0],) if sl[0] != "*" else ())
            if p is None: continue
            c = pick(ok if ok and r.random() < 0.85 else ())
            if c is None: c = new(r.choice(ok) if ok else None)
            if r.random() < 0.08 and kind == "one": c = "null"
            op("link %s %s %s" % (p, sl[1], c), ("link", p, sl[1], c))
        elif x < 0.67:
            t = r.choice([504, 508, 180, 510])
            p = pick((t,))
            if p is None: p = new(t)
            if t == 504:
                c, a, b = pick(CURVES), pick((502,)), pick((502,))
                a = a or new(502); b = b or a; c = c or new(110)
                op("edge504 %s %s %s %d %s %d" % (p, c, a, r.randint(1, 3), b, r.randint(1, 3)), ("edge504", p, c, a, b))
            elif t == 508:
                c = pick((504, 504, 502)) or new(504)
                pc = [pick(CURVES) or new(110) for _ in range(r.choice([0, 1, 1, 2]))]
                op("edge508 %s %s %d %d %d %s" % (p, c, ent[c] == 502, r.randint(1, 2), r.randint(0, 1), " ".join("%s %d" % (y, r.randint(0, 1)) for y in pc)),
                   ("edge508", p, c, pc))
            elif t == 180:
                if r.random() < 0.3: op("clear180 " + p, ("clear180", p))
                else: op("op180 %s %d" % (p, r.randint(1, 3)), ("data", p))
            else:
                op("outer510 %s %d" % (p, r.randint(0, 1)), ("data", p))
        elif x < 0.72:
            p = pick()
            k = r.choice(["color", "linefont", "level", "weight", "label", "visible", "depends", "use", "hier"])
            v = "LBL%d" % r.randint(0, 99) if k == "label" else r.randint(0, LIMIT[k])
            op("setattr %s %s %s" % (p, k, v), ("attr", p, k))
        elif x < 0.84:
            p = pick()
            mo = r.choice("mmmq")
            op("delent %s %s" % (mo, p), ("del", p))
            if r.random() < 0.9: ent.pop(p, None)
        elif x < 0.87:
            p = pick(); mo = r.choice("mmq")
            op("unlinkent %s %s" % (mo, p), ("unlinkent", mo, p))
        elif x < 0.91:
            p = pick(); mo = r.choice("mqq")
            op("addent %s %s" % (mo, p), ("addent", mo, p))
        elif x < 0.915:
            op("cull %s %d" % (r.choice("mq"), r.random() < 0.2), ("cull",))
        elif x < 0.92:
            op("compact " + r.choice("mq"), ("compact",))
        elif x < 0.935:
            a, b = r.choice([("m", "q"), ("q", "m"), ("q", "m")])
            n = "p%d" % fresh[0]
            fresh[0] += 1
            op("export %s %s %s" % (a, b, n), ("export", a, b, n))
            ent[n] = 308
        elif x < 0.955:
            mo = r.choice("mq")
            p = os.path.join(d, "o%d.igs" % i)
            if p not in files: files.append(p)
            op("write %s %s 1" % (mo, p), ("write", mo))
        elif x < 0.962:
            op("%s %s %s" % (r.choice([("conv", "m", 1), ("scale", "m", 2), ("conv", "q", 3)])), ("scale",))
        elif x < 0.966:
            op("clear " + r.choice("mq"), ("clear",))
        elif x < 0.969:
            mo = r.choice("mq")
            op("del " + mo, ("delmodel", mo))
            op("new " + mo, ("newmodel", mo))
        elif x < 0.985:
            op("free " + (pick() or "none"), ("free",))
        elif x < 0.991:         # several children in a row
            sl = r.choice([(102, "seg"), (144, "PTI"), (180, "arg"), (308, "DE"), (308, "DE"), ("*", "opt")])
            p = pick((sl[0],) if sl[0] != "*" else ()) or new(sl[0])
            l = []
            for _ in range(r.randint(3, 7)):
                c = new(r.choice(SLOTS[sl][1]))
                l.append(c)
                op("link %s %s %s" % (p, sl[1], c), ("link", p, sl[1], c))
            if sl == (308, "DE") and r.random() < .5:
                c = r.choice(l)
                op("link %s -DE %s" % (p, c), ("link", p, "-DE", c))
        else:
            p = pick()
            op("touch " + p, ("touch",))
    for mo in r.sample("mq", 2): op("del " + mo, ("delmodel", mo))
    return cmds, ops, files, how


NEED = {102: ("seg",), 120: ("L", "C"), 122: ("DE",), 142: ("SPTR",), 144: ("PTS",), 164: ("curve",), 180: ("arg",), 308: ("DE",), 408: ("DE",),
        504: ("ecurv",), 508: ("edge",), 510: ("loop", "surf"), 514: ("face",)}


def complete(e):
    """Does the entity have the children without which it has no meaning (and is culled)?"""
    return all(e.links.get(s) for s in NEED.get(e.type, ())) and e.type != 502 and (e.type != 142 or "BPTR" in e.links or "CPTR" in e.links)


def single(p, slot): return ALIAS.get((p, slot), slot)


def judge(c, r, exe, cmds, ops, files, known=True):
    prev = None
    cur = None
    last = None
    nops = 0
    hadop = set()

    def bad(k, key, text):
        c.violation(key, "operation %d: %s -> %s\n%s" % (k, cmds[k], r.r(k), text), files, cmds, exe)
    for k, o in enumerate(ops):
        if o is None: continue
        if o != "dump":
            last = k
            continue
        dead, g = parse(r.r(k))
        # the state itself: references are symmetric and only to what is alive
        cnt = {}
        for n, e in g.items():
            for s, l in e.links.items():
                for t in l:
                    if t == "null": continue
                    if t not in g: return bad(k, "dangling-%s" % s, "%s.%s refers to %s which is not alive" % (n, s, t))
                    cnt.setdefault(t, set()).add(n)
        for n, e in g.items():
            w = len(cnt.get(n, ()))
            if e.nrefs < w or known and e.nrefs != w:
                return bad(last or k, "refs-%s-%s" % (e.type, ops[last][0] if last is not None and ops[last] else "build"),
                           "%s (type %d) has %d parents registered, but is referred to by %s" % (n, e.type, e.nrefs, sorted(cnt.get(n, ()))))
            if e.model == "?": return bad(last or k, "owner", "%s belongs to a model which does not exist" % n)
        if prev is not None and last is not None:
            x = step(c, prev, g, dead, cmds[last], ops[last], r.r(last))
            q = cmds[last].split()
            if q[0] == "op180" and q[1] in prev:        # an operator needs two items before it
                na = len(prev[q[1]].links.get("arg", []))
                if r.r(last).startswith("1"):
                    if na < 2 and q[1] not in hadop: return bad(last, "operator-too-early", "an operator was accepted after %d operands" % na)
                    hadop.add(q[1])
                elif na > 1: return bad(last, "operator-refused", "a valid operator was refused after %d operands" % na)
            if x: return bad(last, x[0], x[1])
            nops += 1
            c.event("op %s%s %s" % (ops[last][0], "." + ops[last][2] if ops[last][0] in ("link", "attr") else "",
                                    "ok" if r.r(last).startswith("1") else "refused"))
        prev = g
        last = None
    c.event("operations checked", nops)
    return nops


def adopt(models, a, b, p, ch):
    """An entity which is newly referred to by one of a model belongs to that model then."""
    mine = lambda g: p in g and any(ch in l for l in g[p].links.values())
    if mine(b) and not mine(a): models[ch] = {a[p].model if a[p].model != "-" else a[ch].model}
    else: models[ch] = {a[ch].model, a[p].model}


PARTS = {(102, "seg"), (120, "L"), (120, "C"), (120, "axis"), (120, "gen"), (122, "DE"), (142, "SPTR"), (142, "BPTR"), (142, "CPTR"), (144, "PTS"), (144, "PTO"),
         (144, "PTI"), (164, "curve"), (308, "DE"), (510, "loop")}


def dependent(a, b, p, ch, slot):
    """A geometric entity which has just become part of another one is physically dependent."""
    mine = lambda g: any(ch in l for l in g[p].links.values())
    if (a[p].type, slot) in PARTS and a[ch].type in CURVES + SURF + (142, 144, 408, 508) and mine(b) and not mine(a) and b[ch].d2[-1] != "1":
        return ("part-not-dependent-%d.%s" % (a[p].type, slot), "%s (type %d) is part of %s now, but not marked as physically dependent" % (ch, a[ch].type, p))


def step(c, a, b, dead, cmd, o, res):
    """None, or what is wrong about the step from state a to state b."""
    dead = set(dead)
    for n in dead:
        if n in b: return ("zombie", n + " is dead and alive")
    for n in a:
        if n not in b and n not in dead: return ("lost", n + " vanished")
    ok = res.startswith("1")
    kind = o[0]
    mayd = set()          # may die
    must = set()          # must die
    chg = set()           # parents whose links may change otherwise, checked below
    attr = set()          # whose data may change
    stat = set(a)         # whose status flags may change
    models = {}
    exp = {n: {s: list(l) for s, l in e.links.items()} for n, e in a.items()}
    fail = not ok and kind not in ("touch", "free")
    if fail:
        stat = set()
    if kind == "link" and ok:
        _, p, slot, ch = o
        if p not in a: return ("no-entity", "link of a dead entity succeeded")
        s = single(a[p].type, slot)
        L = exp[p]
        attr.add(p)
        if s.startswith("-"):
            s = s[1:]
            if ch in L.get(s, []):
                L[s].remove(ch)
        elif s in ("opt", "seg", "PTI", "arg", "loop") or s == "DE" and a[p].type == 308:
            if ch != "null":
                if b[p].links.get(s, []) != L.get(s, []) or ch not in L.get(s, []):      # a repeated addition may be accepted without effect
                    L.setdefault(s, []).append(ch)
        elif not ((s == "structure" or s in UNUSED.get(a[p].type, ())) and not L.get(s) and not b[p].links.get(s)):    # an item which the type does not use
            L[s] = [] if ch == "null" else [ch]
        if ch in a and p in a:
            adopt(models, a, b, p, ch)
            w = dependent(a, b, p, ch, slot)
            if w: return w
    elif kind == "attr" and ok:
        _, p, k = o
        attr.add(p)
        if k in ATTRSLOT: exp[p][ATTRSLOT[k]] = []
    elif kind == "edge504" and ok:
        _, p, ch, x, y = o
        attr.add(p)
        for z in (ch, x, y): adopt(models, a, b, p, z)
        exp[p].setdefault("ecurv", []).append(ch)
        exp[p].setdefault("evert", []).extend([x, y])
    elif kind == "edge508" and ok:
        _, p, ch, pc = o
        attr.add(p)
        for z in [ch] + pc: adopt(models, a, b, p, z)
        exp[p].setdefault("edge", []).append(ch)
        exp[p].setdefault("pcurve", []).extend(pc)
    elif kind == "clear180" and ok:
        exp[o[1]]["arg"] = []
        attr.add(o[1])
    elif kind == "data" and ok: attr.add(o[1])
    elif kind == "del" and ok:
        must.add(o[1])
    elif kind == "free":
        if ok: must.add(cmd.split()[1])
    elif kind == "unlinkent" and ok:
        models[o[2]] = {"-"}
    elif kind == "addent" and ok:
        models[o[2]] = {o[1]}
    elif kind in ("cull", "write"):
        # what is removed had no parents, or only such as were removed as well
        if kind == "write": attr |= set()
        mayd = set(a)
        if not ok: stat = set(a)
        fail = False
    elif kind == "export":
        _, x, y, n = o
        if ok and "null" not in res:
            for e in a:
                if a[e].model == x: models[e] = {y}
            if n not in b or b[n].model != y: return ("export-result", "no definition in the target")
            if b[n].type != 308: return ("export-result", "not a definition")
            for z in b[n].links.get("DE", []):
                if z in a and a[z].model != x: return ("export-foreign", "%s was not in the source" % z)
        attr |= {e for e in a if a[e].model == x}     # units, line weights
        fail = False
    elif kind == "scale":
        attr |= set(a); fail = False
    elif kind in ("clear", "delmodel") and ok:
        mo = cmd.split()[1]
        must = {e for e in a if a[e].model == mo}
    elif kind == "new":
        pass
    if kind == "compact": fail = False
    # deaths
    for n in must:
        if n in a and n not in dead: return ("not-deleted", "%s should be gone" % n)
    for n in dead - must:
        if n not in mayd:
            return ("died-%s" % kind, "%s (type %d, model %s) was destroyed" % (n, a[n].type, a[n].model))
    if kind in ("cull", "write"):
        for n in dead:
            if not complete(a[n]) or a[n].type == 186 and n[0] in "en" or any(x in dead for l in a[n].links.values() for x in l): continue
            for q in b:
                if q not in a: continue
                for sl, l in a[q].links.items():
                    # the loss of another child may have taken the whole list with it
                    if n in l and not (sl in STRUCT and any(x in dead and x != n for y in a[q].links.values() for x in y)):
                        return ("culled-in-use", "%s (type %d) was removed although %s refers to it" % (n, a[n].type, q))
    for n in b:
        if n not in a and kind not in ("new", "export"): return ("appeared", "%s (type %d)" % (n, b[n].type))
    lostp = set()
    for n in b:
        if n not in a: continue
        E, G = exp[n], b[n].links
        if b[n].type != a[n].type: return ("type-changed", n)
        if n in models:
            if b[n].model not in models[n]: return ("owner-%s" % kind, "%s belongs to %s, expected %s" % (n, b[n].model, sorted(models[n])))
        elif b[n].model != a[n].model:
            if not (kind == "delmodel" and b[n].model == "-"):
                return ("owner-changed-%s" % kind, "%s belonged to %s, now %s" % (n, a[n].model, b[n].model))
        hit = False
        for s in set(E) | set(G):
            w = [x for x in E.get(s, [])]
            v = G.get(s, [])
            if any(x in dead for x in w):
                hit = True
                w = [x for x in w if x not in dead]
            if v == w: continue
            if s in STRUCT and (hit or any(x in dead for l in E.values() for x in l)) and subseq([x for x in v if x != "null"], w):
                hit = True
                continue
            if s == "DE" and n == o[-1] and kind == "export": continue
            return ("links-%s-%s.%s%s" % (kind, a[n].type, s, "-refused" if fail else ""),
                    "%s (type %d) slot %s was %s, should be %s, is %s" % (n, a[n].type, s, a[n].links.get(s, []), w, v))
        if b[n].d1 != a[n].d1 and n not in attr and not hit:
            return ("data-%s-%d%s" % (kind, a[n].type, "-refused" if fail else ""), "the data of %s (type %d) changed" % (n, a[n].type))
        if b[n].d2 != a[n].d2 and n not in stat:
            return ("status-%s-%d-refused" % (kind, a[n].type), "the status of %s (type %d) changed although the operation was refused" % (n, a[n].type))
        if b[n].form != a[n].form and n not in attr and not hit:
            return ("form-%s-%d" % (kind, a[n].type), "the form of %s changed" % n)
    return None


def subseq(v, w):
    w = list(w)
    for x in v:
        if x not in w: return False
        w.remove(x)
    return True


def work(c, lo, hi, exe):
    d = c.dir("f")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd("h", i)
        how = r.choice(["api", "api", "file", "file", "empty"])
        m = corpus.model(r, what=apigen.TOPS if how != "file" else ["brep", "brep", "trimmed", "inst"] + gen.Gen.TOP, ntop=r.choice([1, 1, 2]))
        while len(m.ents) > 40: m = corpus.model(r, what=["trimmed", "line", "inst"], ntop=1)
        cmds, ops, files, how_ = history(r, m, r.choice([12, 30, 60]), d, i, how)
        cases.append((str(i), cmds))
        info[str(i)] = (cmds, ops, files, how)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (cmds, ops, files, how) in info.items():
        c.evals += 1
        r = res[k]
        if c.crash(r, files, cmds, exe, "history of operations"):
            n = judge(c, r, exe, cmds, ops, files, how != "file")
            c.event("histories from " + how)
            if n and n > 5: c.distinct.add(hash(tuple(x for x in cmds)))
            c.sample(dict(start=how, operations=[x for x in cmds if x != "gdump"][-8:]))
        for p in files:
            if os.path.exists(p): os.unlink(p)


def run(c):
    c.rule = "a history of more than 5 operations, each followed by a comparison of the whole observable state"
    c.assume = ["AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer see every bad access and leak on the executed paths"]
    exe = build.build("san", ("vh",))["vh"]
    c.parallel(lambda s, lo, hi: work(s, lo, hi, exe), c.n(6000, 120000))
