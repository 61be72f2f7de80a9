"""Makes one record of a valid IDF file invalid, so that its text has no meaning."""
import re

LOOP = "INNN"
# section -> kinds of the fields of its first records, then of all others; N number, I loop index, Q text, keywords by name
KEYS = {"S": ["TOP", "BOTTOM"], "B": ["TOP", "BOTTOM", "BOTH"], "L": ["TOP", "BOTTOM", "BOTH", "INNER", "ALL"], "W": ["MCAD", "ECAD", "UNOWNED"],
        "P": ["PTH", "NPTH"], "U": ["MM", "THOU", "TNM"], "T": ["PLACED", "UNPLACED", "MCAD", "ECAD", "FIXED"]}


def spec(ver, sec, k):
    """Kinds of the fields of record k of a section."""
    s = sec
    if s in ("BOARD_OUTLINE", "PANEL_OUTLINE"): return "N" if k == 0 else LOOP
    if s == "OTHER_OUTLINE": return ("QNS" if ver == 3 else "QN") if k == 0 else LOOP
    if s == "ROUTE_OUTLINE": return "L" if k == 0 and ver == 3 else LOOP
    if s == "ROUTE_KEEPOUT": return ("L" if ver == 3 else "B") if k == 0 else LOOP
    if s == "PLACE_OUTLINE": return "Bn" if k == 0 and ver == 3 else LOOP
    if s == "PLACE_KEEPOUT": return "BN" if k == 0 else LOOP
    if s == "VIA_KEEPOUT": return LOOP
    if s == "PLACE_REGION": return "BQ" if k == 0 else LOOP
    if s == "DRILLED_HOLES": return "NNNPQQW" if ver == 3 else "NNNQQ"
    if s == "NOTES": return "NNNNQ"
    if s == "PLACEMENT": return "QQQ" if k % 2 == 0 else "NNNNST" if ver == 3 else "NNNST"
    if s in ("ELECTRICAL", "MECHANICAL"): return "QQUN" if k == 0 else LOOP
    return None


def toks(l): return [m.span() for m in re.finditer(r'"[^"]*"|\S+', l)]


def records(text):
    """(line number, section, index in the section) of every record; version"""
    out, sec, k, ver = [], None, 0, 3
    for i, l in enumerate(text):
        s = l.strip()
        if not s or s.startswith("#"): continue
        if s.startswith("."):
            w = s.split()[0][1:].upper()
            sec, k = (None, 0) if w.startswith("END_") else (w, 0)
            continue
        if sec == "HEADER" and k == 0: ver = int(float(s.split()[1]))
        if sec: out.append((i, sec, k)); k += 1
    return out, ver


def spoil(data, rd, lib=False):
    """(text with one invalid record, description) or None"""
    eol = "\r\n" if b"\r\n" in data else "\n"
    L = data.decode("latin-1").split(eol)
    R, ver = records(L)
    kind = rd.choice(["num", "num", "num", "key", "key", "short", "short", "unit", "end", "neg", "open", "skip", "refdes", "lost", "comment", "twice", "nohead", "arc1", "closed", "quoted"])
    if kind == "nohead":
        a = next(j for j, l in enumerate(L) if l.strip().upper() == ".HEADER"); b = next(j for j, l in enumerate(L) if l.strip().upper() == ".END_HEADER")
        if rd.random() < .5: del L[a:b + 1]; w = "removed"
        else: L += [".HEADER"] + L[a + 1:b] + [".END_HEADER", ""]; w = "repeated"
        return (eol.join(L).encode("latin-1"), "header %s" % w)
    rd.shuffle(R)
    prop = lambda l: l.split()[0].upper() == "PROP"
    for i, sec, k in R:
        l = L[i]
        T = toks(l)
        sp = spec(ver, sec, k)
        if sec in ("ELECTRICAL", "MECHANICAL") and prop(l): continue

        def put(j, new):
            L[i] = l[:T[j][0]] + new + l[T[j][1]:]
            return (eol.join(L).encode("latin-1"), "%s, %s record %d: %r became %r" % (kind, sec, k, l, L[i]))
        if kind == "unit" and sec == "HEADER":
            if k == 1: return put(1, rd.choice(["INCH", "M", "MMM", "millimetres"]))
            if k == 0: return put(rd.choice([0, 1]), rd.choice(["FOO", "x.y"]))
        if not sp: continue
        js = [j for j in range(min(len(sp), len(T)))]
        if kind == "num":
            js = [j for j in js if sp[j] in "NI"]
            if js:
                j = rd.choice(js)
                o = l[T[j][0]:T[j][1]]
                return put(j, rd.choice(["abc", "x" + o, "--" + o, "NONE", "-", "+", ".", "e5", "$", "?"]))
        elif kind == "key":
            js = [j for j in js if sp[j] in KEYS]
            if js: return put(rd.choice(js), rd.choice(["XYZ", "T", "BOTTOMS", "12", "PLACEDX"]))
        elif kind == "short":
            # a mandatory field is missing: the record ends early
            n = len(sp.rstrip("n"))
            if n > 1 and len(T) >= n:
                c = rd.randrange(1, n)
                L[i] = l[:T[c - 1][1]]
                return (eol.join(L).encode("latin-1"), "%s, %s record %d: %r became %r" % (kind, sec, k, l, L[i]))
        elif kind == "end":
            e = min(j for j in range(i, len(L)) if L[j].strip().upper().startswith(".END_"))
            o = L[e]
            if rd.random() < .5: del L[e]; w = "removed"
            else: L[e] = w = rd.choice([".END_FOO", ".END", "END_" + sec])
            return (eol.join(L).encode("latin-1"), "end of %s: %s" % (sec, w))
        elif kind == "refdes" and sec == "PLACEMENT" and k % 2 == 0:
            return put(2, rd.choice(["BOARD", "PANEL", '""', "board", '"Panel"']))
        elif kind in ("lost", "comment", "twice"):
            e = min(j for j in range(i, len(L)) if L[j].strip().upper().startswith(".END_"))
            b = max(j for j in range(i) if L[j].strip().startswith("."))
            if kind == "lost" and (lib or sec == "PLACEMENT"): L.insert(e + 1, l); return (eol.join(L).encode("latin-1"), "lost: %r of %s behind its section" % (l, sec))
            if kind == "comment": L.insert(rd.randrange(b + 1, e + 1), "# a comment"); return (eol.join(L).encode("latin-1"), "comment inside %s" % sec)
            if sec in ("BOARD_OUTLINE", "PLACEMENT"): L[e + 1:e + 1] = L[b:e + 1]; return (eol.join(L).encode("latin-1"), "twice, %s" % sec)
        elif kind == "quoted" and sp == LOOP:
            js = [j for j in js if sp[j] in "NI"]
            if js: j = rd.choice(js); return put(j, '"%s"' % l[T[j][0]:T[j][1]])
        elif kind in ("arc1", "closed") and sp == LOOP:
            f, o, n = l.split(), L[i - 1].split(), L[i + 1].split()
            first = spec(ver, sec, k - 1) != LOOP or o[0] != f[0] or k == 0
            if kind == "arc1" and first: return put(3, rd.choice(["90", "-45.5", "180.0", "360", "0.5"]))
            if kind == "closed" and n[0] != f[0] and not first:
                L.insert(i + 1, "%s %.3f %.3f 0" % (f[0], rd.uniform(5000, 9000), rd.uniform(5000, 9000)))
                return (eol.join(L).encode("latin-1"), "closed, %s: %r behind %r" % (sec, L[i + 1], l))
        elif kind == "neg":
            if sec == "DRILLED_HOLES": return put(0, "-" + l[T[0][0]:T[0][1]].strip("+"))
        elif kind in ("open", "skip") and sp == LOOP and i + 1 < len(L):
            f, n = l.split(), L[i + 1].strip()
            last = n.startswith(".") or n.split()[:1] != f[:1]
            # the last point of a loop is its first; a circle has two points and 360 degrees
            if kind == "open" and last and abs(float(f[3])) != 360: return put(rd.choice([1, 2]), "%.3f" % rd.uniform(5000, 9000))
            if kind == "skip" and f[0] == "1" and sec not in ("ELECTRICAL", "MECHANICAL"): return put(0, "3")
    return None
