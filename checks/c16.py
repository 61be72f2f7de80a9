"""C16: the DLL_* wrapper classes against the classes they wrap, and the life of the wrappers themselves."""
import os
import re
from vlib import build, drive, gen, corpus, apigen, fw, igeslib as I, shapes
from vlib.drive import enc
from vlib.g2 import Rigid
from checks import c06, c08, c09, c10

WT = [100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 308, 314, 406, 408]     # types with a wrapper
NOW = [108, 154, 164, 180, 186, 502, 504, 508, 510, 514]
SL = {102: ["seg"], 120: ["axis", "gen"], 122: ["DE"], 142: ["SPTR", "BPTR", "CPTR"], 144: ["PTS", "PTO", "PTI"], 308: ["DE"], 408: ["DE"]}
FL = {100: "ZT X1 Y1 X2 Y2 X3 Y3", 104: "A B C D E F ZT X1 Y1 X2 Y2", 110: "X1 Y1 Z1 X2 Y2 Z2", 120: "SA TA", 122: "LX LY LZ",
      124: "R00 R01 R02 TX R10 R11 R12 TY R20 R21 R22 TZ", 142: "CRTN PREF", 314: "red green blue", 408: "X Y Z S"}
GEN = ["structure", "linefont", "level", "view", "transform", "labelassoc", "color", "opt"]


def queries(r, ents, full=False):
    """Everything the wrappers can tell about these entities."""
    out = []
    for n, t in ents:
        q = ["type " + n, "attrs " + n, "parent " + n, "comments " + n]
        q += ["get %s %s" % (n, f) for f in FL.get(t, "").split()]
        q += ["links %s %s" % (n, s) for s in SL.get(t, []) + (GEN if full or r.random() < 0.3 else r.sample(GEN, 2))]
        if t in (308, 314, 406): q.append("gets " + n)
        if t in (308, 408): q.append("depth " + n)
        if t == 126: q += ["gnurbs " + n, "planar " + n]
        if t == 128: q.append("gnurbss " + n)
        if t == 124: q.append("gtransform " + n)
        if t in (100, 102, 104, 110, 126): q += ["curve " + n, "subcurves " + n]
        out += q
    return out


def num(r): return repr(r.choice([0.0, 1.0, -1.0, r.uniform(-100, 100), r.uniform(-1, 1) * 10.0 ** r.randint(-9, 6), round(r.uniform(-50, 50), 3)]))


def change(r, n, t, ents):
    """Some change to an entity: all the setters of the wrappers, with all kinds of values."""
    x = r.random()
    if x < 0.3 and t in FL:
        f = r.choice(FL[t].split())
        if t == 142: return "set %s %s %d" % (n, f, r.randint(0, 3))
        if t == 314: return "set %s %s %r" % (n, f, r.choice([0.0, 100.0, r.uniform(0, 100)]))
        return "set %s %s %s" % (n, f, num(r))
    if x < 0.4 and t in (308, 314, 406):
        return "sets %s %s" % (n, enc(r.choice(["", "A", "some name", "x" * r.randint(1, 90), "%;,'"])))
    if x < 0.55:
        s = r.choice(SL.get(t, []) + ["transform", "color", "opt", "-opt", "level", "structure", "view", "labelassoc", "linefont"]
                     + (["-PTI"] if t == 144 else []) + (["-DE"] if t == 308 else []))
        ok = c06.SLOTS.get((t, {"axis": "L", "gen": "C"}.get(s, s)), c06.SLOTS.get(("*", s), (0, ())))[1]
        l = [m for m, u in ents if u in ok and m != n] if r.random() < 0.8 else [m for m, u in ents if m != n]
        return "link %s %s %s" % (n, s, r.choice(l) if l and r.random() < 0.93 else "null")
    if x < 0.6 and t == 126:
        return "nurbs %s 2 2 %d 0 1 0 0 1 1 %s" % (n, r.random() < 0.5, " ".join(num(r) for _ in range(3)) + " 1.5 1 2 3 4 5")
    if x < 0.63 and t == 128:
        return "nurbss %s 2 2 2 2 0 %d %d 0 1 0 1 0 0 1 1 0 0 1 1 %s" % (n, r.randint(0, 1), r.randint(0, 1), " ".join(num(r) for _ in range(12)))
    if x < 0.72:
        return r.choice(["comment %s %s" % (n, enc(r.choice(["a comment", "y" * r.randint(1, 200), " "]))), "delcomment %s %d" % (n, r.randint(-1, 2)), "clrcomment " + n])
    if x < 0.75: return "form %s %d" % (n, r.randint(0, 16))
    k = r.choice(["color", "linefont", "level", "weight", "label", "visible", "depends", "use", "hier", "subscript"])
    v = enc(r.choice(["", "L", "LABEL", "LABEL678", "TOO LONG A LABEL"])) if k == "label" else r.choice([0, 1, r.randint(0, c06.LIMIT.get(k, 9)), r.randint(-2, 50)])
    if k in ("visible", "depends", "use", "hier", "color", "linefont"): v = r.randint(0, c06.LIMIT[k])
    return "setattr %s %s %s" % (n, k, v)


TIME = re.compile(r"(?:creation|modification)Date=\S+")
GS = ["productIDSS", "productIDRS", "nativeSystemID", "author", "organization", "applicationNote"]


def globs(r, m):
    out = []
    for _ in range(r.randint(0, 5)):
        x = r.random()
        if x < 0.6: out.append("gset %s %s %s" % (m, r.choice(GS), enc(r.choice(["", "a", "some text, with; delimiters", "z" * 120]))))
        elif x < 0.7: out.append("gset %s draftStandard %d" % (m, r.randint(0, 7)))
        elif x < 0.8: out.append("gset %s maxLinewidthGrad %d" % (m, r.choice([-1, 0, 1, 7, 100])))
        elif x < 0.9: out.append("gset %s maxLinewidth %r" % (m, r.choice([0.0, -1.0, 0.35, 12.5])))
        else: out.append("gset %s minResolution %r" % (m, r.choice([0.0, 1e-10, 1e-9, 1e-6, 1e-4])))
    for _ in range(r.randint(0, 3)): out.append("hdr %s %s" % (m, enc(r.choice(["", "a line", "h" * 72, "h" * 73, "i" * 200]))))
    return out + ["gget " + m, "hdrs " + m, "unitname " + m]


def same_script(r, i, d):
    """A script whose results must not depend on whether the wrappers are used; @@ is the place of its files."""
    m = corpus.model(r, what=["line", "arc", "conic", "nurbs", "composite", "revolution", "tabcyl", "nurbs_surf", "curve_on_surface", "trimmed", "inst"],
                     ntop=r.choice([1, 1, 2, 3]))
    while len(m.ents) > 60: m = corpus.model(r, what=["trimmed", "line", "inst"], ntop=1)
    cmds = ["new m", "new q"] + apigen.build(m) + ["gdump"]
    ents = [("e%d" % k, m.ents[k].type) for k in range(len(m.ents))]
    cmds += globs(r, "m")
    for k in range(r.choice([0, 2, 4])):
        t = r.choice(WT)
        n = "k%d" % k
        cmds.append("mkent %d %s" % (t, n) if r.random() < 0.6 else "nent %s %d %s" % (r.choice("mq"), t, n))
        ents.append((n, t))
        mo = r.choice("mq")
        if r.random() < 0.3: cmds += (["setparent %s %s" % (n, mo)] if cmds[-1].startswith("mkent") and r.random() < 0.5 else []) + ["addent %s %s" % (mo, n)]
        cmds.append("gdump")
    cmds += queries(r, ents)
    for _ in range(r.choice([5, 15, 40])):
        n, t = r.choice(ents)
        cmds.append(change(r, n, t, ents))
        if r.random() < 0.5: cmds += queries(r, [(n, t)], True)
    cmds += queries(r, ents, True) if r.random() < 0.5 else []
    x = r.random()
    nm = len(cmds)
    if x < 0.5:
        cmds += ["write m @@a.igs 1", "gdump", "write m @@a.igs 0", "gget m"]
        cmds += ["new z", "read z @@a.igs", "gget z", "hdrs z", "conv z %d" % r.choice([1, 2, 3, 5, 10]), "scale z 2", "write z @@b.igs 1", "partname z", "assyname z"]
        files = ["a.igs", "b.igs"]
    else:
        files = ["c.igs"]
        cmds += ["partname m", "assyname m", "export m q pp", "sets pp NAME", "gdump"] + queries(r, [("pp", 308)], True) + ["partname q", "assyname q", "write q @@c.igs 1", "gdump"]
    for _ in range(r.randint(0, 6)):
        n, t = r.choice(ents)
        cmds.append("%s %s %s" % (r.choice(["addent", "unlinkent", "delent"]), r.choice("mq"), n))
        cmds.append("gdump")
        if r.random() < 0.5: cmds += queries(r, ents[:5])
    if r.random() < 0.3: cmds.append("cull m %d" % r.randint(0, 1))
    if r.random() < 0.2: cmds.append("compact m")
    cmds.append("gdump")
    if r.random() < 0.3: cmds += [r.choice(["clear m", "clear q"]), "gdump"]
    cmds += r.choice([["del m"], ["del q"], ["del m", "del q"], []]) + ["gdump"]
    return cmds, files


def body(p):
    """What a file holds apart from the global section (it has the time)."""
    try: t = open(p, "rb").read().split(b"\n")
    except OSError: return None
    return [l for l in t if l[72:73] not in (b"G", b"T")]


def same(c, lo, hi, exe):
    d = c.dir("s")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd("s", i)
        cmds, files = same_script(r, i, d)
        for k in "dw": os.makedirs(os.path.join(d, k), exist_ok=True)
        a, b = [[x.replace("@@", os.path.join(d, k, "%d" % i)) for x in cmds] for k in "dw"]
        w = ["wmode 1 %d" % r.randint(0, 99)] + b + ["wused"]
        cases += [("d%d" % i, a), ("w%d" % i, w)]
        info[i] = (a, w, files)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for i, (a, w, files) in info.items():
        c.evals += 1
        pd, pw = [[os.path.join(d, x, "%d%s" % (i, f)) for f in files] for x in "dw"]
        x, y = res["d%d" % i], res["w%d" % i]
        if c.crash(x, [], a, exe, "direct calls") and c.crash(y, [], w, exe, "calls through wrappers"):
            used = y.r(len(w) - 1).split()
            for k in range(len(a)):
                if a[k].split()[0] in ("partname", "assyname"): continue        # a counter of the process and the time
                if TIME.sub("", x.r(k)) != TIME.sub("", y.r(k + 1)):
                    op = a[k].split()
                    key = "%s%s" % (op[0], "-" + op[2] if op[0] in ("link", "links", "set", "get", "setattr", "gset") and len(op) > 2 else "")
                    c.violation("differs-" + key, "command %d: %s\ndirect:  %s\nwrapper: %s" % (k, a[k], x.r(k)[:1500], y.r(k + 1)[:1500]), [], w, exe)
                    break
            else:
                for p, q in zip(pd, pw):
                    if body(p) != body(q):
                        c.violation("file-differs", "the files written by %s and through the wrappers differ" % os.path.basename(p), [p, q], w, exe)
                        break
                    if body(p): c.event("files compared")
                c.event("commands through wrappers", int(used[0]))
                c.event("scripts run both ways")
                if int(used[0]) > 20: c.distinct.add(hash(tuple(a)))
                c.sample(dict(kind="differential", commands=len(a), through_wrappers=int(used[0]), last=a[-12:]))
        for p in pd + pw:
            if os.path.exists(p): os.unlink(p)


def mixed(c, lo, hi, exe):
    """The histories of C06 with any of the operations through wrappers, under the same judge."""
    d = c.dir("m")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd("m", i)
        how = r.choice(["api", "api", "file", "empty"])
        m = corpus.model(r, what=apigen.TOPS if how != "file" else ["brep", "trimmed", "inst"] + gen.Gen.TOP, ntop=r.choice([1, 1, 2]))
        while len(m.ents) > 40: m = corpus.model(r, what=["trimmed", "line", "inst"], ntop=1)
        cm, ops, files, _ = c06.history(r, m, r.choice([12, 30, 60]), d, i, how)
        cmds, o2 = [], []
        mode = r.random() < 0.7
        cmds.append("wmode %d %d" % (mode, r.randint(0, 99))); o2.append(None)
        for x, o in zip(cm, ops):
            if r.random() < 0.1:
                mode = not mode
                cmds.append("wmode %d" % mode); o2.append(None)
            cmds.append(x); o2.append(o)
        cmds.append("wused"); o2.append(None)
        cases.append((str(i), cmds))
        info[str(i)] = (cmds, o2, files, how)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (cmds, ops, files, how) in info.items():
        c.evals += 1
        r = res[k]
        if c.crash(r, files, cmds, exe, "history of operations, some through wrappers"):
            n = c06.judge(c, r, exe, cmds, ops, files, how != "file")
            c.event("histories with wrappers")
            c.event("operations of histories through wrappers", int(r.r(len(cmds) - 1).split()[0]))
            if n and n > 5: c.distinct.add(hash(tuple(cmds)))
        for p in files:
            if os.path.exists(p): os.unlink(p)


def lives(r, i, d):
    """A history of wrappers that live on, mixed with every way in which their entities may die."""
    cmds, ops = [], []

    def op(x, o):
        cmds.append(x); ops.append(o)
        cmds.append("gdump"); ops.append("dump")
        cmds.append("wstat"); ops.append("stat")
    for mo in "mq":
        cmds.append("wmode %d %d" % (r.random() < 0.7, r.randint(0, 99))); ops.append(None)
        cmds.append("new " + mo); ops.append(("model", mo))
    ent = {}
    ws = {}
    k = [0]

    def name(p):
        k[0] += 1
        return "%s%d" % (p, k[0])

    def pick(t=None):
        l = [n for n, u in ent.items() if t is None or u == t]
        return r.choice(l) if l else None
    for _ in range(r.choice([15, 40, 80])):
        x = r.random()
        cmds.append("wmode %d" % (r.random() < 0.5)); ops.append(None)
        if x < 0.12 or len(ent) < 3:
            t = r.choice(WT + [502, 164] if r.random() < 0.9 else NOW)
            n = name("n")
            mo = r.choice("mmq")
            if r.random() < 0.8: op("nent %s %d %s" % (mo, t, n), ("plain",))
            else: op("mkent %d %s" % (t, n), ("plain",))
            ent[n] = t
        elif x < 0.24:
            w = name("W")
            t = r.choice(WT)
            mo = r.choice("mq-")
            cr = r.random() < 0.6
            n = name("n")
            op("wnew %s %d %s %d %s %s" % (w, t, mo, cr, r.choice(["dll", "raw"]), n), ("wnew", w, t, mo, cr, n))
            ws[w] = t
            if cr: ent[n] = t
        elif x < 0.30:
            t = r.choice(WT) if r.random() < 0.85 else r.choice(NOW)
            w = r.choice(sorted(ws)) if ws and r.random() < 0.4 else name("W")
            n = name("n")
            mo = r.choice("mq")
            op("wapi %s %d %s %s" % (w, t, mo, n), ("wapi", w, t, mo, n))
            if t in WT: ws[w] = t; ent[n] = t
            else: ws.pop(w, None)
        elif x < 0.48 and ws:
            w = r.choice(sorted(ws))
            n = pick(ws[w] if r.random() < 0.8 else None) or pick()
            op("wattach %s %s" % (w, n), ("wattach", w, n))
        elif x < 0.52 and ws: w = r.choice(sorted(ws)); op("wdetach " + w, ("wdetach", w))
        elif x < 0.55 and ws: w = r.choice(sorted(ws)); op("wdelent " + w, ("wdelent", w))
        elif x < 0.60 and ws:
            w = r.choice(sorted(ws)); n = name("n")
            op("wnewent %s %s" % (w, n), ("wnewent", w, n)); ent[n] = ws[w]
        elif x < 0.64 and ws: w = r.choice(sorted(ws)); op("wdel " + w, ("wdel", w)); ws.pop(w)
        elif x < 0.68 and ws:
            w = r.choice(sorted(ws)); mo = r.choice("mq-")
            op("wparent %s %s %s" % (w, mo, r.choice(["dll", "raw"])), ("wparent", w, mo))
        elif x < 0.80:
            a = pick()
            l = SL.get(ent[a], []) + ["transform", "color"]
            s = r.choice(l)
            ok = c06.SLOTS.get((ent[a], {"axis": "L", "gen": "C"}.get(s, s)), c06.SLOTS.get(("*", s)))[1]
            q = [n for n, t in ent.items() if t in ok and n != a]
            if q: op("link %s %s %s" % (a, s, r.choice(q)), ("plain",))
        elif x < 0.85: op("delent %s %s" % (r.choice("mq"), pick()), ("plain",))
        elif x < 0.88: op("%s %s %s" % (r.choice(["unlinkent", "addent"]), r.choice("mq"), pick()), ("plain",))
        elif x < 0.91: op("cull %s %d" % (r.choice("mq"), r.randint(0, 1)), ("plain",))
        elif x < 0.93: op("export %s %s" % (r.choice(["m q", "q m"]), name("p")), ("plain",))
        elif x < 0.95: op("free %s" % pick(), ("plain",))
        elif x < 0.97: op("clear " + r.choice("mq"), ("plain",))
        elif x < 0.975:
            p = os.path.join(d, "l%d.igs" % i)
            op("write %s %s 1" % (r.choice("mq"), p), ("plain",))
        elif x < 0.98: op("wnull %s %s" % (r.choice("mq"), pick()), ("is", ("1", "nodll")))
        else:
            mo = r.choice("mq")
            op("del " + mo, ("delmodel", mo))
            op("wdead", ("is", ("1", "none")))
            cmds.append("wmode %d" % (r.random() < 0.6)); ops.append(None)
            cmds.append("new " + mo); ops.append(("model", mo))
    return cmds, ops


def judge(c, r, exe, cmds, ops):
    """Every wrapper is valid exactly as long as its entity lives, and stands for that entity and no other."""
    att, typ, par = {}, {}, {}      # wrapper -> entity, type, model in which it creates
    g, gen_ = {}, {}                # alive entities; generation of the models
    alive = {"-": None}
    n = 0

    def bad(k, key, text):
        c.violation(key, "command %d: %s -> %s\n%s" % (k, cmds[k], r.r(k)[:300], text), [], cmds, exe)
    last = 0
    for k, o in enumerate(ops):
        if o is None: continue
        v = r.r(k)
        if "WRAP" in v: return bad(k, "inconsistent-" + cmds[k].split()[0], v)
        if o == "dump":
            dead, g = c06.parse(v)
            for w, e in list(att.items()):
                if e is not None and e not in g:
                    att[w] = None
                    c.event("wrappers whose entity died")
                    if cmds[last].split()[0] == "cull": c.event("wrappers whose entity was culled")
            continue
        if o == "stat":
            n += 1
            s = dict(x.split("=", 1) for x in v.split())
            if set(s) != set(att): return bad(k, "harness", "%s %s" % (sorted(s), sorted(att)))
            for w in att:
                if s[w] == "INCONSISTENT": return bad(k, "isvalid-getrawptr", w)
                if s[w].startswith("WORKS"): return bad(k, "works-without-entity", "%s (type %d) %s" % (w, typ[w], s[w]))
                if att[w] is None and s[w] != "-": return bad(last, "valid-after-death-%s" % cmds[last].split()[0], "%s is attached to %s" % (w, s[w]))
                if att[w] is not None and s[w] == "-": return bad(last, "invalid-%s" % cmds[last].split()[0], "%s is invalid, %s is alive" % (w, att[w]))
                if att[w] is not None and s[w] != att[w]: return bad(last, "other-entity-%s" % cmds[last].split()[0], "%s is attached to %s, should be %s" % (w, s[w], att[w]))
                c.event("wrapper states checked")
            continue
        last = k
        if o[0] == "model": alive[o[1]] = k; continue
        if o[0] == "delmodel": alive.pop(o[1], None)
        elif o[0] == "is":
            if v not in o[1]: return bad(k, "null-or-dead", v)
            if v == "1": c.event("calls with NULL or on a deleted model")
        elif o[0] == "wnew":
            _, w, t, mo, cr, nm = o
            if v != "1": return bad(k, "create", "the wrapper could not create an entity of type %d" % t)
            att[w], typ[w], par[w] = (nm if cr else None), t, (mo, alive.get(mo)) if mo != "-" else None
            if cr: pend = (nm, t, mo)
        elif o[0] == "wapi":
            _, w, t, mo, nm = o
            if v == "nodll": 
                # nothing was done; the wrapper is as before
                if w not in att: continue
                continue
            if t in WT:
                if v != "1 e t": return bad(k, "newapientity", "type %d" % t)
                att[w], typ[w], par[w] = nm, t, (mo, alive.get(mo))
            else:
                if v[0] != "0": return bad(k, "newapientity", "type %d is not supported by the wrappers" % t)
                att.pop(w, None)
        elif o[0] == "wattach":
            _, w, nm = o
            if v == "nowrapper": continue
            want = nm in g and g[nm].type == typ[w]
            if v != "01"[want]: return bad(k, "attach", "%s of type %d, %s" % (nm, g[nm].type if nm in g else 0, "wrapper of type %d" % typ[w]))
            if want: att[w] = nm
        elif v == "nowrapper": continue
        elif o[0] == "wdetach":
            if v != (att[o[1]] or "null"): return bad(k, "detach", "should give %s" % att[o[1]])
            att[o[1]] = None
        elif o[0] == "wdelent":
            e = att[o[1]]
            att[o[1]] = None
            if e is not None:
                d2, g2 = c06.parse(r.r(k + 1))
                if e in g2: return bad(k, "delentity", "%s is still there" % e)
        elif o[0] == "wnewent":
            if v != "1 e": return bad(k, "newentity", "")
            att[o[1]] = o[2]
            d2, g2 = c06.parse(r.r(k + 1))
            p = par[o[1]]
            want = p[0] if p and alive.get(p[0]) == p[1] else "-"
            if o[2] not in g2 or g2[o[2]].type != typ[o[1]]: return bad(k, "newentity-type", "")
            if g2[o[2]].model != want: return bad(k, "newentity-parent", "belongs to %s, should belong to %s" % (g2[o[2]].model, want))
            c.event("entities made by wrappers")
        elif o[0] == "wdel": att.pop(o[1]); typ.pop(o[1]); par.pop(o[1])
        elif o[0] == "wparent":
            if v != "1": return bad(k, "setapiparent", "")
            par[o[1]] = (o[2], alive.get(o[2])) if o[2] != "-" else None
    return n


def life(c, lo, hi, exe):
    d = c.dir("l")
    cases, info = [], {}
    for i in range(lo, hi):
        r = c.rnd("l", i)
        cmds, ops = lives(r, i, d)
        cases.append((str(i), cmds))
        info[str(i)] = (cmds, ops)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (cmds, ops) in info.items():
        c.evals += 1
        r = res[k]
        if c.crash(r, [], cmds, exe, "life of wrappers"):
            n = judge(c, r, exe, cmds, ops)
            c.event("histories of wrappers")
            if n and n > 5: c.distinct.add(hash(tuple(cmds)))
            c.sample(dict(kind="wrapper life", operations=[x for x in cmds if x not in ("gdump", "wstat") and not x.startswith("wmode")][-8:]))
        p = os.path.join(d, "l%s.igs" % k)
        if os.path.exists(p): os.unlink(p)


def gscript(c, r, d):
    """Commands on segments and outlines."""
    if r.random() < 0.5:
        st = c09.Story(c, r)
        st.run()
    else:
        st = c10.Story(r, "@@s.igs")
        st.solid()
    cmds, segs = [], {}
    L = r.choice([1.0, 10.0, 50.0])
    names = ["o%d" % k for k in range(1, 6)]
    lo, hi = [r.uniform(-3, 0) * L for _ in "xy"], [r.uniform(1, 3) * L for _ in "xy"]

    def q():
        x = r.random()
        n = r.choice(names)
        if x < 0.12: return "oerr " + n
        if x < 0.2: return "odump " + n
        if x < 0.25: return "ocontig " + n
        if x < 0.28: return "oinside %s %s" % (n, " ".join(repr(r.uniform(-L, L)) for _ in range(6)))
        if x < 0.30: return "odel " + n
        if x < 0.36 and isinstance(st, c10.Story):
            return "pieces o1 %r %r %r %r %r %d" % (r.uniform(-5, 5), lo[0], hi[0], lo[1], hi[1], r.random() < 0.5)
        if x < 0.55 or len(segs) < 2:
            k = r.choice(["x%d" % j for j in range(6)])
            if r.random() < 0.1: segs.pop(k, None); return "snew " + k
            segs[k] = c08.anyseg(r, L)
            return c08.spec(k, segs[k])
        k = r.choice(sorted(segs))
        if x < 0.60: return "sget " + k
        if x < 0.67: return "smeas " + k
        if x < 0.82: return "isect %s %s" % (k, r.choice(sorted(segs)))
        if x < 0.93:
            t = sorted(r.random() for _ in range(r.choice([1, 1, 2, 3])))
            if r.random() < 0.2: r.shuffle(t)
            P = [segs[k].at(u * segs[k].length) for u in t]
            if r.random() < 0.15: P[0] = (P[0][0] + r.choice([1e-4, 0.3]), P[0][1])
            return "split %s %sp %s" % (k, k, " ".join("%r %r" % p for p in P))
        if x < 0.96: segs.pop(k); return "sdel " + k
        return "%s %s %s%s" % (r.choice(["oseg", "oaddc", "osubc"]), n, k, "") if r.random() < 0.7 else "ocutc %s %s %d" % (n, k, r.random() < 0.5)
    many = r.random() < 0.5
    for x in st.cmds:
        if x.startswith("pcb") or x == "": continue
        cmds.append(x)
        while r.random() < (0.4 if many else 0.05): cmds.append(q())
    for _ in range(r.choice([3, 10])): cmds.append(q())
    return cmds


def gsame(c, lo, hi, exe):
    d = c.dir("g")
    cases, info = [], {}
    for k in "dw": os.makedirs(os.path.join(d, k), exist_ok=True)
    for i in range(lo, hi):
        r = c.rnd("g", i)
        cmds = gscript(c, r, d)
        a, b = [[x.replace("@@", os.path.join(d, k, "%d" % i)) for x in cmds] for k in "dw"]
        w = ["wmode 1 %d" % r.randint(0, 99)] + b + ["wused"]
        cases += [("d%d" % i, a), ("w%d" % i, w)]
        info[i] = (a, w)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for i, (a, w) in info.items():
        c.evals += 1
        x, y = res["d%d" % i], res["w%d" % i]
        pd, pw = [os.path.join(d, k, "%ds.igs" % i) for k in "dw"]
        if c.crash(x, [], a, exe, "direct calls") and c.crash(y, [], w, exe, "calls through wrappers"):
            used = int(y.r(len(w) - 1))
            for k in range(len(a)):
                if x.r(k) != y.r(k + 1):
                    c.violation("differs-%s" % a[k].split()[0], "command %d: %s\ndirect:  %s\nwrapper: %s" % (k, a[k], x.r(k)[:1500], y.r(k + 1)[:1500]), [], w, exe)
                    break
            else:
                if body(pd) != body(pw): c.violation("file-differs-pcb", "the files of the faces differ", [pd, pw], w, exe)
                elif body(pd): c.event("files of faces compared")
                c.event("commands on outlines through wrappers", used)
                for k in range(len(a)):
                    if a[k].startswith("pieces") and x.r(k) != "gone": c.event("segments whose curves and walls were compared", x.r(k).count(","))
                    if a[k].startswith(("isect", "split", "odump")) and x.r(k) != "gone": c.event("%s through wrappers" % a[k].split()[0])
                if used > 10: c.distinct.add(hash(tuple(a)))
                c.sample(dict(kind="outlines", commands=len(a), through_wrappers=used, last=a[-6:]))
        for p in (pd, pw):
            if os.path.exists(p): os.unlink(p)


def glives(r):
    """A history of wrappers of segments and outlines which live on."""
    cmds, ops = [], []
    n = [0]

    def name(p):
        n[0] += 1
        return "%s%d" % (p, n[0])

    def op(x, o=None):
        if r.random() < 0.3: cmds.append("wmode %d %d" % (r.random() < 0.5, r.randint(0, 99))); ops.append(None)
        cmds.append(x); ops.append(o)
        cmds.append("hstat"); ops.append("stat")
    outs, segs, ws, wo = [], [], [], []

    def outline(pcb):
        o = name("o")
        op("onew %s%s" % (o, " pcb" if pcb else ""))
        B = shapes.move(shapes.shape(r, r.choice([1.0, 3.0, 20.0])), Rigid(r.uniform(-3, 3), (r.uniform(-5, 5), r.uniform(-5, 5))))
        for s in B:
            k = name("s")
            cmds.append(c08.spec(k, s)); ops.append(None)
            if r.random() < 0.15 and ws:
                w = r.choice(ws)
                op("hattach %s %s" % (w, k), ("attach", w))
            op("oseg %s %s" % (o, k))
        outs.append(o)
        return o
    for _ in range(r.choice([15, 30, 60])):
        x = r.random()
        if x < 0.10 or len(ws) < 2:
            w, k = name("W"), name("s")
            cr = r.random() < 0.5
            op("hs %s %d %s" % (w, cr, k), ("make", w, cr, None))
            ws.append(w)
            if cr: segs.append(k)
        elif x < 0.20 or len(wo) < 1:
            w, o = name("V"), name("o")
            cr, t = r.random() < 0.5, r.choice(["base", "pcb"])
            op("ho %s %d %s %s" % (w, cr, o, t), ("make", w, cr, t))
            wo.append(w)
            if cr: outs.append(o)
        elif x < 0.30: outline(r.random() < 0.5)
        elif x < 0.50:
            if r.random() < 0.5 and (segs or outs):
                w = r.choice(ws)
                op("hattach %s %s" % (w, r.choice(segs) if segs and r.random() < 0.3 or not outs else "%s.%s%d" % (r.choice(outs), r.choice("sssh"), r.randint(0, 5))), ("attach", w))
            elif outs:
                w = r.choice(wo)
                op("hattach %s %s%s" % (w, r.choice(outs), r.choice(["", "", ".c%d" % r.randint(0, 2)])), ("attach", w))
        elif x < 0.58: w = r.choice(ws + wo); op("hdetach " + w, ("detach", w))
        elif x < 0.64:
            w = r.choice(ws + wo)
            k = name("s" if w in ws else "o")
            op("hnew %s %s" % (w, k), ("new", w))
            (segs if w in ws else outs).append(k)
        elif x < 0.68:
            w = r.choice(ws)
            k = name("s")
            op("hset %s %s %s" % (w, k, " ".join(repr(r.uniform(-9, 9)) for _ in range(4))), ("set", w))
            segs.append(k)
        elif x < 0.73: w = r.choice(ws + wo); op("hdelobj " + w, ("delobj", w))
        elif x < 0.77 and len(ws) > 2 and len(wo) > 2:
            w = r.choice(ws + wo)
            op("hdel " + w, ("del", w))
            # not removed from the lists: it remains when it is attached to a part of an outline
        elif x < 0.80 and segs: op("sdel " + r.choice(segs))
        elif x < 0.84 and outs: op("odel " + r.choice(outs))
        elif x < 0.88:
            k = name("s")
            s = c08.anyseg(r, 10.0)
            op(c08.spec(k, s))
            segs.append(k)
            if r.random() < 0.5: w = r.choice(ws); op("hattach %s %s" % (w, k), ("attach", w))
        elif x < 0.97 and len(outs) > 1:
            a, b = r.choice(outs), r.choice(outs)
            if r.random() < 0.6: b = outline(False)
            if a != b: op("%s %s %s%s" % (("o" + r.choice(["add", "sub", "sub"]), a, b, "") if r.random() < 0.5 else ("ocut", a, b, " %d" % (r.random() < 0.7))))
        elif outs and segs:
            op("ocutc %s %s %d" % (r.choice(outs), r.choice(segs), r.random() < 0.7) if r.random() < 0.5 else "osubc %s %s" % (r.choice(outs), r.choice(segs)))
    return cmds, ops


def gjudge(c, r, exe, cmds, ops):
    att, kind, g, types = {}, {}, set(), {}
    n, last = 0, 0

    def bad(k, key, text): c.violation("outline-" + key, "command %d: %s -> %s\n%s" % (k, cmds[k], r.r(k)[:300], text), [], cmds, exe)
    for k, o in enumerate(ops):
        v = r.r(k)
        if "WRAP" in v: return bad(k, "inconsistent-" + cmds[k].split()[0], v)
        if o is None:
            if not cmds[k].startswith(("wmode", "sline", "sarc")): last = k
            continue
        if o == "stat":
            n += 1
            w, _, live = v.partition("live")
            s = dict(x.split("=", 1) for x in w.split())
            live = set(live.split())
            if set(s) != set(att): return bad(k, "harness", "%s %s" % (sorted(s), sorted(att)))
            for w in att:
                if att[w] is not None and att[w] not in live:
                    att[w] = None
                    c.event("wrappers whose segment or outline died")
                if s[w] in ("INCONSISTENT", "WORKS"): return bad(last, s[w].lower(), w)
                if s[w] != (att[w] or "-"): return bad(last, "state-%s" % cmds[last].split()[0], "%s is attached to %s, should be %s" % (w, s[w], att[w]))
                c.event("states of outline wrappers checked")
            continue
        last = k
        f = v.split()
        if v in ("gone", "owned"): continue
        w = o[1]
        if o[0] == "make":
            if f[0] != "01"[bool(o[2])]: return bad(k, "create", "")
            att[w], kind[w] = (f[1] if o[2] else None), o[3]
        elif o[0] == "attach":
            want = att[w] is None and f[0] == "e" and not (kind[w] == "pcb" and f[3] != "pcb")
            if f[1] != "01"[want]: return bad(k, "attach", "the wrapper has %s" % att[w])
            if want: att[w] = f[2]
        elif o[0] == "detach": att[w] = None
        elif o[0] == "new":
            if f[0] == "1":
                if f[1] == att[w]: return bad(k, "new", "the same object")
                if att[w]: c.event("objects detached by New")
                old, att[w] = att[w], f[1]
                # what was there is only detached
                if old and old not in set(r.r(k + 1).partition("live")[2].split()): return bad(k, "new-destroyed", "%s was destroyed" % old)
            else: return bad(k, "new", "")
        elif o[0] == "set":
            if att[w] is None: att[w] = f[1]
        elif o[0] in ("delobj", "del"):
            if att[w] and att[w] in set(r.r(k + 1).partition("live")[2].split()): return bad(k, "delete", "%s still exists" % att[w])
            att[w] = None
            if o[0] == "del": att.pop(w)
    return n


def glife(c, lo, hi, exe):
    cases, info = [], {}
    for i in range(lo, hi):
        cmds, ops = glives(c.rnd("gl", i))
        cases.append((str(i), cmds))
        info[str(i)] = (cmds, ops)
    res = drive.run_chunk(exe, cases, c.dir("run"))
    for k, (cmds, ops) in info.items():
        c.evals += 1
        r = res[k]
        if c.crash(r, [], cmds, exe, "life of outline wrappers"):
            n = gjudge(c, r, exe, cmds, ops)
            c.event("histories of outline wrappers")
            if n and n > 5: c.distinct.add(hash(tuple(cmds)))


def run(c):
    c.rule = "a script with more than 20 commands through wrappers, or a history of more than 5 operations on wrappers, each compared with the expected state"
    c.assume = ["AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer see every bad access and leak on the executed paths",
                "wrapper objects are not copied (their implicit copy constructors do not register the copy)",
                "handing an invalid wrapper over as an argument is the same as handing over NULL"]
    e = build.build("san", ("vw", "vwg"))
    exe, gexe = e["vw"], e["vwg"]
    c.parallel(lambda s, lo, hi: same(s, lo, hi, exe), c.n(1500, 40000))
    c.parallel(lambda s, lo, hi: mixed(s, lo, hi, exe), c.n(1500, 40000))
    c.parallel(lambda s, lo, hi: life(s, lo, hi, exe), c.n(1500, 40000))
    c.parallel(lambda s, lo, hi: gsame(s, lo, hi, gexe), c.n(1500, 40000))
    c.parallel(lambda s, lo, hi: glife(s, lo, hi, gexe), c.n(1500, 40000))
