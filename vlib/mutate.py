"""Mutations of IGES files at token, field, record, pointer and byte level."""
import re

INTS = ["0", "1", "-1", "2", "3", "4", "5", "6", "7", "-2", "10", "99", "100", "255", "256", "999", "1000", "65535", "65536", "99999",
        "100000", "1000000", "16777216", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9999999999", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "00", "01", "+1", "+0", "-0"]
REALS = ["0.", "0.0", "1.0", "-1.", ".5", "-.5", "1.0D0", "1.D+0", "1.E400", "-1.E400", "1.D308", "-1.7976931348623157D308", "4.9D-324", "1.E-400",
         "1.0D", "1.E", "1.E+", "1.E--5", "1..0", "1.0.0", "..", ".", "-", "+", "+.", "-.E5", "1e5", "1d5", "nan", "NAN", "inf", "-INF", "0x10",
         "0X1.8P3", "1.0E2147483648", "1.0D-99999999999", "3.141592653589793", "6.283185307179586", "1.E15", "1.E16", "123456789012345678901234567890.", "1.000000000000000000000000000000001"]
JUNK = ["", " ", "1H", "0H", "-1H", "1H,", "1H;", "3Habc", "5Hab", "99999999H", "2147483648H", "4294967296Habc", "1HA", "H", "Habc", "h", "A", "T", "TRUE",
        "1 2", "1 .0", "%s%n", "\x7f", "\xff", "\x00", "\t", "''", "\"", "*"]
TYPES = [100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 123, 124, 126, 128, 130, 140, 142, 143, 144, 150, 154, 156, 160, 164, 168, 180, 182,
         186, 190, 192, 202, 212, 302, 308, 310, 314, 316, 320, 402, 404, 406, 408, 410, 412, 430, 502, 504, 508, 510, 514, 600, 5001, 0, -1]


class Raw(object):
    def __init__(self, data):
        S, G, D, P = [], "", [], {}
        lines = re.split("\r\n|\n", data.decode("latin-1"))
        for l in lines:
            c = l[72:73]
            if c == "S": S.append(l[:72])
            elif c == "G": G += l[:72]
            elif c == "D": D.append(l[:72])
            elif c == "P":
                try:
                    k = int(l[64:72])
                except ValueError:
                    continue
                P.setdefault(k, []).append(l[:64])
        self.S, self.G = S, G
        self.D = []
        self.P = []
        for i in range(0, len(D) - 1, 2):
            f = [D[i][j:j + 8] for j in range(0, 72, 8)] + [D[i + 1][j:j + 8] for j in range(0, 72, 8)]
            self.D.append(f)
            self.P.append("".join(P.get(i + 1, [])))
        self.lock = set()           # (entity, field) pairs not recomputed
        m = re.match(r"\s*1H(.)\s*(.)\s*1H(.)", G)
        self.pd, self.rd = (m.group(1), m.group(3)) if m else (",", ";")
        if not m:
            m = re.match(r"\s*,\s*1H(.)", G)
            if m: self.rd = m.group(1)

    def tokens(self, s):
        """[tokens] before the record delimiter, and what follows it."""
        out, i, n = [], 0, len(s)
        cur = ""
        while i < n:
            m = re.match(r"\s*(\d{1,6})H", s[i:]) if not cur.strip() else None
            if m:
                k = int(m.group(1))
                cur += s[i:i + m.end() + k]
                i += m.end() + k
                continue
            c = s[i]
            if c == self.pd:
                out.append(cur); cur = ""
            elif c == self.rd:
                out.append(cur)
                return out, s[i + 1:]
            else:
                cur += c
            i += 1
        out.append(cur)
        return out, None

    def untok(self, t, rest):
        return self.pd.join(t) + (self.rd + rest if rest is not None else "")

    def join(self, r, pack=True):
        L = []
        n = {}

        def put(c, body):
            n[c] = n.get(c, 0) + 1
            L.append("%s%s%7d" % (body[:72].ljust(72), c, n[c]))
        for s in self.S: put("S", s)
        G = self.G or " "
        for i in range(0, len(G), 72): put("G", G[i:i + 72])
        pn = 1
        pls = []
        for k, f in enumerate(self.D):
            p = self.P[k] or " "
            ls = [p[i:i + 64] for i in range(0, len(p), 64)]
            pls.append(ls)
            if (k, 1) not in self.lock: f[1] = "%8d" % pn
            if (k, 12) not in self.lock: f[12] = "%8d" % len(ls)
            pn += len(ls)
            put("D", "".join(x[:8].rjust(8) for x in f[:9]))
            put("D", "".join(x[:8].rjust(8) for x in f[9:]))
        for k, ls in enumerate(pls):
            for l in ls:
                put("P", "%s%8d" % (l[:64].ljust(64), 2 * k + 1))
        put("T", "S%7dG%7dD%7dP%7d" % (n.get("S", 0), n.get("G", 0), n.get("D", 0), n.get("P", 0)))
        return ("\n".join(L) + "\n").encode("latin-1", "replace")


def value(r, n):
    x = r.random()
    if x < 0.45: return r.choice(INTS)
    if x < 0.7: return r.choice(REALS)
    if x < 0.8: return r.choice(JUNK)
    if n and x < 0.97:
        v = 2 * r.randrange(n) + 1 + r.choice([0, 0, 0, 0, 1, -1])
        return str(v if r.random() < 0.85 else -v)
    return str(r.randint(-(1 << r.randint(1, 40)), 1 << r.randint(1, 40)))


def structural(raw, r, log):
    n = len(raw.D)
    k = r.randrange(n) if n else None
    op = r.choice(["tok", "tok", "tok", "ptr", "ptr", "ptr", "ptr", "count", "deltok", "instok", "duptok", "swaptok", "trunc", "extra", "de", "de", "deptr",
                   "type", "form", "dele", "dupe", "swape", "g", "g", "gdel", "gtrunc", "lock", "copypd", "self", "multi"])
    log.append("%s@%s" % (op, k))
    if k is None and op not in ("g", "gdel", "gtrunc"):
        return
    if op in ("g", "gdel", "gtrunc"):
        t, rest = raw.tokens(raw.G)
        j = r.randrange(len(t))
        if op == "g": t[j] = value(r, n)
        elif op == "gdel": del t[j]
        else: t = t[:j + 1]
        raw.G = raw.untok(t, rest)
        return
    f = raw.D[k]
    t, rest = raw.tokens(raw.P[k])
    if op == "tok":
        t[r.randrange(len(t))] = value(r, n)
    elif op == "ptr":
        c = [i for i in range(1, len(t)) if re.match(r"\s*-?\d+\s*$", t[i]) and 0 < abs(int(t[i])) <= 2 * n and int(t[i]) % 2]
        if c:
            j = r.choice(c)
            x = r.random()
            if x < 0.7: t[j] = str(2 * r.randrange(n) + 1)
            elif x < 0.8: t[j] = str(2 * k + 1)
            elif x < 0.9: t[j] = r.choice(["0", "-1", "2", str(2 * n + 1), str(2 * n + 1), str(2 * n + 3), str(2 * n - 1), "", "9999999"])
            else: t[j] = t[r.choice(c)]
    elif op == "count":
        c = [i for i in range(1, min(len(t), 8)) if re.match(r"\s*\d+\s*$", t[i])]
        if c:
            j = r.choice(c)
            t[j] = str(max(-2, int(t[j]) + r.choice([-2, -1, 1, 2, 3, 10, 1000, 10 ** 6, 10 ** 9])))
    elif op == "deltok": del t[r.randrange(len(t))]
    elif op == "instok": t.insert(r.randrange(len(t) + 1), value(r, n))
    elif op == "duptok":
        j = r.randrange(len(t)); t[j:j] = [t[j]] * r.choice([1, 1, 2, 50])
    elif op == "swaptok":
        i, j = r.randrange(len(t)), r.randrange(len(t)); t[i], t[j] = t[j], t[i]
    elif op == "trunc":
        t = t[:r.randrange(len(t)) + 1]
        if r.random() < 0.3: rest = None
    elif op == "extra":
        a = [str(2 * r.randrange(n) + 1) for _ in range(r.randint(0, 3))]
        b = [str(2 * r.randrange(n) + 1) for _ in range(r.randint(0, 3))]
        t += [r.choice([str(len(a))] * 4 + [value(r, n)])] + a + [r.choice([str(len(b))] * 4 + [value(r, n)])] + b
    elif op == "de":
        j = r.choice([2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 16, 17, 0, 9, 14, 15])
        f[j] = r.choice([value(r, n)[:8], str(r.choice([0, 1, 2, 3, 5, 8, 9, 10, 63, 99])), "        ", "%08d" % r.randint(0, 99999999), "-9999999", "99999999"])
    elif op == "deptr":
        j = r.choice([2, 3, 4, 5, 6, 7, 11])
        v = 2 * r.randrange(n) + 1 if r.random() < 0.75 else r.choice([2 * n + 1, 2 * n + 1, 2 * n + 3, 2 * n, 2 * n - 1, 2])
        f[j] = str(r.choice([1, -1, -1]) * v if j in (2, 3, 4, 11) else v)
    elif op == "type":
        v = "%8d" % r.choice(TYPES)
        f[0] = v
        if r.random() < 0.8: f[9] = v
        if r.random() < 0.8: t[0] = v.strip()
    elif op == "form":
        f[14] = "%8d" % r.choice([0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 15, 99, -1, 106])
    elif op == "dele":
        del raw.D[k]; del raw.P[k]; raw.lock = set()
        return
    elif op == "dupe":
        raw.D.append(list(f)); raw.P.append(raw.P[k])
        return
    elif op == "swape":
        j = r.randrange(n)
        raw.D[k], raw.D[j] = raw.D[j], raw.D[k]; raw.P[k], raw.P[j] = raw.P[j], raw.P[k]
        return
    elif op == "lock":
        j = r.choice([1, 12])
        f[j] = r.choice(["0", "1", "2", "-1", "99999999", "        ", str(r.randint(0, 3 * n)), "x"])
        raw.lock.add((k, j))
    elif op == "copypd":
        raw.P[k] = raw.P[r.randrange(n)]
        return
    elif op == "self":
        c = [i for i in range(1, len(t)) if re.match(r"\s*-?\d+\s*$", t[i])]
        if c: t[r.choice(c)] = str(2 * k + 1)
    elif op == "multi":
        for _ in range(r.randint(2, 6)):
            t[r.randrange(len(t))] = value(r, n)
    raw.P[k] = raw.untok(t, rest)


def lines(b, r, log):
    L = b.split(b"\n")
    if len(L) < 3: return b
    op = r.choice(["del", "dup", "swap", "sec", "seq", "short", "long", "cr", "blank", "insert"])
    k = r.randrange(len(L) - 1)
    log.append("line-%s@%d" % (op, k))
    l = L[k]
    if op == "del": del L[k]
    elif op == "dup": L.insert(k, l)
    elif op == "swap":
        j = r.randrange(len(L) - 1); L[k], L[j] = L[j], L[k]
    elif op == "sec": L[k] = l[:72] + r.choice([b"S", b"G", b"D", b"P", b"T", b"F", b"C", b"B", b" ", b"\x00"]) + l[73:]
    elif op == "seq": L[k] = l[:73] + ("%7s" % value(r, 5)[:7]).encode("latin-1")
    elif op == "short": L[k] = l[:r.randrange(len(l) + 1)]
    elif op == "long": L[k] = l + b"X" * r.choice([1, 2, 10, 1000, 100000])
    elif op == "cr": return r.choice([b"\r\n", b"\r", b"\n\r", b"", b"\n\n"]).join(L)
    elif op == "blank": L[k] = b" " * 80
    elif op == "insert": L.insert(k, bytes(r.randrange(256) for _ in range(r.choice([5, 80, 300]))))
    return b"\n".join(L)


def bytelevel(b, r, log):
    if not b: return b
    a = bytearray(b)
    op = r.choice(["flip", "set", "ins", "del", "trunc", "rep", "null", "zero"])
    k = r.randrange(len(a))
    log.append("byte-%s@%d" % (op, k))
    if op == "flip": a[k] ^= 1 << r.randrange(8)
    elif op == "set": a[k] = r.choice(b"0123456789,;H.-+ED \x00\xff\n\r\t")
    elif op == "ins": a[k:k] = bytes(r.choice(b"0123456789,;H. \n\r") for _ in range(r.choice([1, 1, 2, 80])))
    elif op == "del": del a[k:k + r.choice([1, 1, 2, 8, 80, 81, 162])]
    elif op == "trunc": del a[k:]
    elif op == "rep": a[k:k + 8] = r.choice([b"99999999", b"-1234567", b"        ", b"00000000", b"\xff" * 8])
    elif op == "null": a[k:k + 3] = b"\x00" * len(a[k:k + 3])
    elif op == "zero": a = bytearray(len(a))[:r.choice([0, 1, 80, 81, 1000])] if r.random() < 0.05 else a
    return bytes(a)


def mutate(b, r):
    """(bytes, description)"""
    log = []
    x = r.random()
    if x < 0.80:
        raw = Raw(b)
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            structural(raw, r, log)
        b = raw.join(r)
        if r.random() < 0.1: b = lines(b, r, log)
        if r.random() < 0.1: b = bytelevel(b, r, log)
    elif x < 0.90:
        for _ in range(r.choice([1, 1, 2])): b = lines(b, r, log)
    else:
        for _ in range(r.choice([1, 1, 2, 4, 8])): b = bytelevel(b, r, log)
    return b, log


def sweep(b, limit=2):
    """Every single edit from a small set at every field of the first entities of each type: pointers and counts at their
    boundaries, missing tokens and truncated records. Yields (description, function returning the bytes)."""
    raw = Raw(b)
    n = len(raw.D)
    seen = {}
    ptr = ["0", "-1", "1", "2", str(2 * n - 1), str(2 * n), str(2 * n + 1), str(2 * n + 3), "-" + str(2 * n + 1), "-" + str(2 * n - 1)]

    def edit(k, j, v, de):
        def f():
            w = Raw(b)
            if de: w.D[k][j] = v
            else:
                t, rest = w.tokens(w.P[k])
                if v is None: del t[j]
                elif v == "TRUNC": t = t[:j + 1]
                else: t[j] = v
                w.P[k] = w.untok(t, rest)
            return w.join(None)
        return f
    for k in range(n):
        typ = raw.D[k][0].strip()
        seen[typ] = seen.get(typ, 0) + 1
        if seen[typ] > limit: continue
        for j in (2, 3, 4, 5, 6, 7, 11):
            for v in ptr + [str(2 * k + 1), "-" + str(2 * k + 1)]:
                yield "sweep-de%d@%s" % (j, typ), edit(k, j, v, True)
        for j in (8, 10, 13, 14):
            for v in ("0", "-1", "1", "99999999", "9", "        ", "2147483648"[:8]):
                yield "sweep-de%d@%s" % (j, typ), edit(k, j, v, True)
        t, _ = raw.tokens(raw.P[k])
        for j in range(len(t)):
            if 14 < j < len(t) - 6: continue
            vals = [None, "TRUNC", "", "0", "-1", "1.E400", "1H"]
            if re.match(r"\s*-?\d+\s*$", t[j]):
                x = int(t[j])
                vals += ptr + [str(2 * k + 1), str(x + 1), str(x - 1), str(x + 2), str(-x), "2147483647", "1000000"]
            for v in dict.fromkeys(vals):
                yield "sweep-pd@%s" % typ, edit(k, j, v, False)
