"""Mutations of IDF files at line, token, section and byte level."""
import re

NUMS = ["0", "-0", "0.0", "1", "-1", "1e-3", "1e-30", "1e-308", "4.9e-324", "1e308", "-1e308", "1e309", "1e999", "nan", "-nan", "inf", "-inf", "INFINITY", "0x1p4",
        "360", "-360", "359.999999", "360.0000001", "180", "-180", "720", "1e9", "1e15", "1e17", "2147483647", "2147483648", "-2147483649", "99999999999999999999",
        "1.", ".5", "+.5", "1e", "1e+", "1.2.3", "--1", "1,5", "1 e5", "0.0254", "1e-7", "1e-9", "25.4", "-5", "1000000"]
WORDS = ["", '""', '"', '"a', 'a"', '"a b"', '"a"b', "'", "#", "#x", "BOARD", "PANEL", "NOREFDES", "NOPARTS", "TOP", "BOTTOM", "BOTH", "INNER", "ALL", "PTH", "NPTH", "PIN", "VIA",
         "MTG", "TOOL", "ECAD", "MCAD", "UNOWNED", "PLACED", "UNPLACED", "FIXED", "MM", "THOU", "TNM", "PROP", "CAPACITANCE", "POWER_OPR", "BOARD_FILE", "LIBRARY_FILE", "PANEL_FILE",
         "\xff", "\x80\x81", "%s%n", "x" * 300, "\t", "\\", "/", "../x", "."]
KEYS = [".HEADER", ".END_HEADER", ".BOARD_OUTLINE", ".END_BOARD_OUTLINE", ".PANEL_OUTLINE", ".END_PANEL_OUTLINE", ".OTHER_OUTLINE", ".END_OTHER_OUTLINE", ".ROUTE_OUTLINE",
        ".END_ROUTE_OUTLINE", ".PLACE_OUTLINE", ".END_PLACE_OUTLINE", ".ROUTE_KEEPOUT", ".END_ROUTE_KEEPOUT", ".VIA_KEEPOUT", ".END_VIA_KEEPOUT", ".PLACE_KEEPOUT",
        ".END_PLACE_KEEPOUT", ".PLACE_REGION", ".END_PLACE_REGION", ".DRILLED_HOLES", ".END_DRILLED_HOLES", ".NOTES", ".END_NOTES", ".PLACEMENT", ".END_PLACEMENT",
        ".ELECTRICAL", ".END_ELECTRICAL", ".MECHANICAL", ".END_MECHANICAL", ".", ".X", ".END_"]
TOK = re.compile(rb'"[^"]*"|[^ \t]+')


def split(data):
    l = re.split(b"\r\n|\n", data)
    if l and not l[-1]: l.pop()
    return l, (b"\r\n" if b"\r\n" in data else b"\n")


def sections(L):
    """[(first line, last line + 1)]"""
    out, st = [], None
    for i, l in enumerate(L):
        w = l.strip().upper()
        if w.startswith(b".END_"):
            if st is not None: out.append((st, i + 1))
            st = None
        elif w.startswith(b".") and st is None: st = i
    return out


def tokens(line): return [(m.start(), m.end()) for m in TOK.finditer(line)]


def isnum(b):
    try: float(b); return True
    except ValueError: return False


def scaled(r, b):
    v = float(b)
    k = r.randrange(9)
    if k == 0: v = -v
    elif k == 1: v *= 10 ** r.choice([-12, -6, -3, 3, 6, 12])
    elif k == 2: v += r.choice([-1, 1]) * 10 ** r.uniform(-9, -2)
    elif k == 3: v = v + r.uniform(-2, 2) * (abs(v) or 1)
    elif k == 4: v = float("%.0f" % v)
    elif k == 5: v = v / 2
    elif k == 6: v = 360 - v
    elif k == 7: v = r.uniform(-400, 400)
    else: return r.choice(NUMS).encode()
    return (r.choice(["%.5f", "%.15g", "%r", "%e"]) % v).encode()


def line_edit(r, L, S):
    k = r.randrange(6)
    i = r.randrange(len(L))
    if k == 0: del L[i]; return "line del"
    if k == 1: L.insert(i, L[i]); return "line dup"
    if k == 2:
        j = r.randrange(len(L)); L[i], L[j] = L[j], L[i]; return "line swap"
    if k == 3: L.insert(r.randrange(len(L) + 1), L[i]); return "line copy"
    if k == 4: L.insert(i, r.choice([b"", b"# x", b"   ", b"#", r.choice(KEYS).encode(), b"0 0 0 0", b"1 1 1 360", b"\x00", b"PROP a b", b"x" * r.choice([10, 1000, 70000])])); return "line new"
    j = min(len(L), i + r.choice([2, 3, 10])); del L[i:j]; return "lines del"


def token_edit(r, L, S):
    for t in range(20):
        i = r.randrange(len(L))
        T = tokens(L[i])
        if T: break
    else: return "none"
    a, b = r.choice(T)
    w = L[i][a:b]
    k = r.randrange(8)
    if k < 4 and isnum(w): n, name = scaled(r, w), "number"
    elif k == 4: n, name = r.choice(NUMS).encode(), "number any"
    elif k == 5: n, name = b"", "token del"
    elif k == 6: n, name = w + b" " + r.choice(WORDS + NUMS).encode("latin-1"), "token new"
    elif w.startswith(b"."): n, name = r.choice(KEYS).encode(), "keyword"
    else: n, name = r.choice(WORDS).encode("latin-1"), "token word"
    L[i] = L[i][:a] + n + L[i][b:]
    return name


def loop_edit(r, L, S):
    """Edits of the geometry of a loop which keep its records."""
    S = [s for s in S if any(len(tokens(L[i])) == 4 and all(isnum(L[i][a:b]) for a, b in tokens(L[i])) for i in range(*s))]
    if not S: return "none"
    a, b = r.choice(S)
    rows = [i for i in range(a, b) if len(tokens(L[i])) == 4 and all(isnum(L[i][p:q]) for p, q in tokens(L[i]))]
    v = lambda i: [float(L[i][p:q]) for p, q in tokens(L[i])]
    def put(i, x): L[i] = (" ".join(["%d" % x[0] if abs(x[0]) < 1e9 else "0"] + [repr(y) for y in x[1:]])).encode()
    k = r.randrange(9)
    i = r.choice(rows)
    x = v(i)
    if k == 0: x[3] = r.choice([0, 360, -360, 180, -180, 90, 359.99, 1e-5, -270, 1e-9, 400]); put(i, x); return "loop angle"
    if k == 1: x[0] = r.choice([0, 1, 2, 3, -1, 7, x[0] + 1]); put(i, x); return "loop index"
    if k == 2:
        y = v(r.choice(rows)); x[1:3] = y[1:3]; put(i, x); return "loop touch"
    if k == 3: x[1] += r.choice([-1, 1]) * 10 ** r.uniform(-8, 1); put(i, x); return "loop point"
    if k == 4:
        f = [L[j] for j in rows]; f.reverse()
        for j, t in zip(rows, f): L[j] = t
        return "loop reversed"
    if k == 5:
        for j in rows:
            y = v(j); y[3] = -y[3]; put(j, y)
        return "loop bent"
    if k == 6:
        s = 10 ** r.uniform(-8, 8)
        for j in rows:
            y = v(j); y[1] *= s; y[2] *= s; put(j, y)
        return "loop scale"
    if k == 7:
        s = r.choice([0, 0, 1e-12])
        for j in rows:
            y = v(j); y[2] *= s; put(j, y)
        return "loop flat"
    # a second copy of the loop, moved
    dx, dy = r.choice([(0, 0), (r.uniform(-5, 5), 0), (r.uniform(-5, 5), r.uniform(-5, 5)), (1e-4, 0)])
    new = []
    for j in rows:
        y = v(j)
        new.append(("%d %r %r %r" % (min(y[0] + 1, 99) if abs(y[0]) < 1e9 else 1, y[1] + dx, y[2] + dy, y[3])).encode())
    L[rows[-1] + 1:rows[-1] + 1] = new
    return "loop copy"


def section_edit(r, L, S):
    if not S: return "none"
    a, b = r.choice(S)
    k = r.randrange(6)
    if k == 0: del L[a:b]; return "section del"
    if k == 1: L[a:a] = L[a:b]; return "section dup"
    if k == 2: L[b:b] = L[a:b] * r.choice([1, 3, 20]); return "section repeat"
    if k == 3:
        x = L[a:b]; del L[a:b]
        i = r.randrange(len(L) + 1); L[i:i] = x; return "section move"
    if k == 4: del L[b - 1]; return "section unended"
    L[a + 1:b - 1] = []; return "section empty"


def byte_edit(r, data):
    b = bytearray(data)
    if not b: return bytes(b), "none"
    k = r.randrange(7)
    i = r.randrange(len(b))
    if k == 0: b[i] = r.randrange(256); n = "byte set"
    elif k == 1: del b[i:i + r.choice([1, 1, 2, 30])]; n = "byte del"
    elif k == 2: b[i:i] = bytes(r.choice([b'"', b"#", b".", b" ", b"\n", b"\r", b"\t", b"\x00", b"\x1a", b"\xff", b"-", b"e", b"9"])) * r.choice([1, 1, 2, 40]); n = "byte ins"
    elif k == 3: del b[i:]; n = "truncated"
    elif k == 4: b = b.rstrip(b"\r\n"); n = "no line end"
    elif k == 5: b = b.replace(b"\r\n", b"\n").replace(b"\n", r.choice([b"\r", b"\r\n", b"\n\n", b"\n\r", b"\n \n"])); n = "line ends"
    else: b = b[:i] + b[r.randrange(len(b)):]; n = "splice"
    return bytes(b), n


def mutate(data, r):
    log = []
    for i in range(r.choice([1, 1, 1, 2, 2, 3, 6])):
        if r.random() < .15:
            data, n = byte_edit(r, data)
        else:
            L, e = split(data)
            if not L: break
            f = r.choice([line_edit, token_edit, token_edit, token_edit, loop_edit, loop_edit, section_edit])
            n = f(r, L, sections(L))
            data = e.join(L) + e
        log.append(n)
    return data, log
