"""Independent model of IGES files: strict parser/validator, writer with
random (equivalent) spellings, parameter schemas, graph comparison.

Nothing here is derived from the library's own reader or writer; the layout
rules are those of the IGES 5.3 specification for fixed ASCII files.
"""
import math, re

CURVES = {100, 102, 104, 106, 110, 112, 116, 126, 130, 132}
SURFS = {108, 114, 118, 120, 122, 128, 140, 143, 144, 190, 192, 194, 196, 198}
SUPPORTED = {100, 102, 104, 110, 120, 122, 124, 126, 128, 142, 144, 154, 164, 180, 186, 308, 314, 406, 408,
             502, 504, 508, 510, 514}


class Ref(object):
    """A pointer to entity number i (0-based) or None; neg: stored negative."""
    __slots__ = ("i", "neg")

    def __init__(self, i, neg=False):
        self.i, self.neg = i, neg

    def __repr__(self):
        return "Ref(%s%s)" % ("-" if self.neg else "", self.i)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.i == self.i and o.neg == self.neg

    def __hash__(self):
        return hash((self.i, self.neg))


class Ent(object):
    def __init__(self, type, form=0, params=(), **kw):
        self.type, self.form = type, form
        self.params = list(params)      # [(kind, value)]
        self.structure = kw.pop("structure", 0)     # 0 or Ref(neg)
        self.linefont = kw.pop("linefont", 0)
        self.level = kw.pop("level", 0)
        self.view = kw.pop("view", 0)
        self.transform = kw.pop("transform", 0)
        self.labelassoc = kw.pop("labelassoc", 0)
        self.blank = kw.pop("blank", 0)
        self.subord = kw.pop("subord", 0)
        self.use = kw.pop("use", 0)
        self.hier = kw.pop("hier", 0)
        self.weight = kw.pop("weight", 0)
        self.color = kw.pop("color", 0)
        self.label = kw.pop("label", "")
        self.subscript = kw.pop("subscript", 0)
        self.extras = kw.pop("extras", None)        # None or ([Ref],[Ref])
        self.comments = kw.pop("comments", [])
        assert not kw, kw

    def refs(self):
        """(role, Ref) for every pointer."""
        for f in ("structure", "linefont", "level", "view", "transform", "labelassoc", "color"):
            v = getattr(self, f)
            if isinstance(v, Ref):
                yield f, v
        for k, (kind, v) in enumerate(self.params):
            if kind == "P" and isinstance(v, Ref) and v.i is not None:
                yield "p%d" % k, v
        if self.extras:
            for g, l in enumerate(self.extras):
                for v in l:
                    yield "x%d" % g, v

    def copy(self):
        e = Ent(self.type, self.form, list(self.params))
        e.__dict__.update(self.__dict__)
        e.params = list(self.params)
        e.comments = list(self.comments)
        e.extras = None if self.extras is None else (list(self.extras[0]), list(self.extras[1]))
        return e


GLOBAL_KEYS = ["pd", "rd", "productIDSS", "fileName", "nativeSystemID", "preprocessorVersion", "nIntegerBits",
               "floatMaxExp", "floatMaxSig", "doubleMaxExp", "doubleMaxSig", "productIDRS", "modelScale", "unitsFlag",
               "unitsName", "maxLinewidthGrad", "maxLinewidth", "creationDate", "minResolution", "maxCoordinateValue",
               "author", "organization", "igesVersion", "draftStandard", "modificationDate", "applicationNote"]
GLOBAL_KIND = dict(zip(GLOBAL_KEYS, "SSSSSSIIIIISRISIRSRRSSIISS"))
UNITS = {1: ("IN", 25.4), 2: ("MM", 1.0), 4: ("FT", 304.8), 5: ("MI", 1609344.0), 6: ("M", 1000.0), 7: ("KM", 1e6),
         8: ("MIL", 0.0254), 9: ("UM", 0.001), 10: ("CM", 10.0), 11: ("UIN", 25.4e-6)}
UNIT_NAMES = {1: {"IN", "INCH"}, 2: {"MM"}, 4: {"FT"}, 5: {"MI"}, 6: {"M"}, 7: {"KM"}, 8: {"MIL"}, 9: {"UM"}, 10: {"CM"}, 11: {"UIN"}}


def default_globals():
    return dict(pd=",", rd=";", productIDSS="prod", fileName="a.igs", nativeSystemID="sys", preprocessorVersion="pre 1",
                nIntegerBits=32, floatMaxExp=38, floatMaxSig=6, doubleMaxExp=308, doubleMaxSig=15, productIDRS="prod",
                modelScale=1.0, unitsFlag=2, unitsName="MM", maxLinewidthGrad=1, maxLinewidth=1.0,
                creationDate="20150101.120000", minResolution=1e-8, maxCoordinateValue=0.0, author="me",
                organization="org", igesVersion=11, draftStandard=0, modificationDate="20150101.120000",
                applicationNote="")


class Model(object):
    def __init__(self):
        self.start = ["test file"]
        self.g = default_globals()
        self.ents = []

    def add(self, e):
        self.ents.append(e)
        return len(self.ents) - 1

    def copy(self):
        m = Model()
        m.start = list(self.start)
        m.g = dict(self.g)
        m.ents = [e.copy() for e in self.ents]
        return m


# --------------------------------------------------------------------------
# schemas: token kinds of an entity's parameters
#   L length, R dimensionless real, A angle, I integer, B logical, P pointer,
#   S string, N negative-or-positive pointer/operation (180)
class SchemaError(Exception):
    pass


def kinds(etype, form, vals, ctx=None):
    """Kinds for the main parameters given the raw token values (list of
    python values, None for defaulted). Raises SchemaError."""
    def need(n):
        if len(vals) < n:
            raise SchemaError("%d parameters expected, %d found" % (n, len(vals)))

    def cnt(i):
        need(i + 1)
        v = vals[i]
        if not isinstance(v, int) or v < 0:
            raise SchemaError("bad count %r" % (v,))
        return v
    t = etype
    if t == 100: k = "LLLLLLL"
    elif t == 102: k = "I" + "P" * cnt(0)
    elif t == 104: k = "RRRRRRLLLLL"          # see scaled()
    elif t == 108: k = "RRRLPLLLL"
    elif t == 110: k = "LLLLLL"
    elif t == 120: k = "PPAA"
    elif t == 122: k = "PLLL"
    elif t == 124: k = "RRRLRRRLRRRL"
    elif t == 126:
        K, M = cnt(0), cnt(1)
        k = "IIBBBB" + "R" * (2 + K + M) + "R" * (1 + K) + "L" * (3 * (1 + K)) + "RR"
        if len(vals) > len(k) and not _extras_ok(vals[len(k):]) or len(vals) >= len(k) + 3:
            k += "RRR"
    elif t == 128:
        K1, K2, M1, M2 = cnt(0), cnt(1), cnt(2), cnt(3)
        n = (1 + K1) * (1 + K2)
        k = "IIIIBBBBB" + "R" * (2 + K1 + M1) + "R" * (2 + K2 + M2) + "R" * n + "L" * (3 * n) + "RRRR"
    elif t == 142: k = "IPPPI"
    elif t == 144:
        need(3)
        k = "PIIP" + "P" * cnt(2)
    elif t == 154: k = "LLLLLRRR"
    elif t == 164: k = "PLRRR"
    elif t == 180: k = "I" + "N" * cnt(0)
    elif t == 186: k = "PBI" + "PB" * cnt(2)
    elif t == 308: k = "ISI" + "P" * cnt(2)
    elif t == 314: k = "RRRS"
    elif t == 406: k = "I" + ("S" * cnt(0) if form == 15 else "?" * cnt(0))
    elif t == 408: k = "PLLLR"
    elif t == 502: k = "I" + "LLL" * cnt(0)
    elif t == 504: k = "I" + "PPIPI" * cnt(0)
    elif t == 508:
        n = cnt(0)
        k, i = "I", 1
        for _ in range(n):
            need(i + 5)
            m = cnt(i + 4)
            k += "BPIBI" + "BP" * m
            i += 5 + 2 * m
    elif t == 510: k = "PIB" + "P" * cnt(1)
    elif t == 514: k = "I" + "PB" * cnt(0)
    elif t == 0: k = "?" * len(vals)
    else:
        raise SchemaError("no schema for type %d" % t)
    return k


# defaults of trailing / omitted parameters: type -> {index: value}
DEFAULTS = {
    154: {2: 0.0, 3: 0.0, 4: 0.0, 5: 0.0, 6: 0.0, 7: 1.0},
    164: {2: 0.0, 3: 0.0, 4: 1.0},
    408: {4: 1.0},
    314: {3: ""},
    108: {4: 0, 5: 0.0, 6: 0.0, 7: 0.0, 8: 0.0},
}


def _extras_ok(v):
    """Could the values be the two counted pointer groups?"""
    if not v:
        return True
    if not isinstance(v[0], int) or v[0] < 0 or len(v) < 1 + v[0]:
        return False
    r = v[1 + v[0]:]
    if not all(isinstance(x, int) for x in v[1:1 + v[0]]):
        return False
    if not r:
        return True
    return isinstance(r[0], int) and r[0] >= 0 and len(r) == 1 + r[0] and all(isinstance(x, int) for x in r[1:])


# permitted pointer targets: (type, role index) -> set or None (any)
def ptr_ok(etype, idx, target, vals):
    if etype == 102: return target in CURVES - {102} or target == 102
    if etype == 108: return target in CURVES
    if etype == 120: return target == 110 if idx == 0 else target in CURVES
    if etype == 122: return target in CURVES
    if etype == 142: return target in SURFS if idx == 1 else target in CURVES
    if etype == 144: return (target in SURFS) if idx == 0 else target == 142
    if etype == 164: return target in CURVES
    if etype == 180: return target in {150, 152, 154, 156, 158, 160, 162, 164, 168, 180, 186, 430}
    if etype == 186: return target == 514
    if etype == 308: return True
    if etype == 408: return target == 308
    if etype == 504: return (target in CURVES) if (idx - 1) % 5 == 0 else target == 502
    if etype == 508: return True        # checked by kind order in validate
    if etype == 510: return (target in SURFS) if idx == 0 else target == 508
    if etype == 514: return target == 510
    return True


# --------------------------------------------------------------------------
# lexical layer
_int = re.compile(r"^[+-]?\d+$")
_real = re.compile(r"^[+-]?(\d+\.\d*|\.\d+|\d+)([EeDd][+-]?\d+)?$")


def lex_params(text, pd, rd, breaks=(), errs=None, what=""):
    """Tokens of a free-format record. text: the concatenated data columns.
    Returns (tokens, index after the record delimiter or None).
    A token is ('I',v)|('R',v)|('S',s)|('D',None)|('X',raw)."""
    toks, i, n = [], 0, len(text)
    breaks = set(breaks)
    while True:
        while i < n and text[i] == " ":
            i += 1
        if i >= n:
            if errs is not None:
                errs.append(what + "record delimiter missing")
            return toks, None
        m = re.compile(r"(\d+)H").match(text, i)
        if m:
            l = int(m.group(1))
            s = text[m.end():m.end() + l]
            if errs is not None:
                for b in breaks:
                    if i < b < m.end():
                        errs.append(what + "string count split over lines")
                if len(s) < l:
                    errs.append(what + "string runs past the end of the record")
            toks.append(("S", s))
            i = m.end() + l
            while i < n and text[i] == " ":
                i += 1
            if i >= n:
                if errs is not None:
                    errs.append(what + "record delimiter missing after string")
                return toks, None
            if text[i] not in (pd, rd):
                if errs is not None:
                    errs.append(what + "no delimiter after string %r" % s[:20])
                return toks, None
        else:
            j = i
            while j < n and text[j] != pd and text[j] != rd:
                j += 1
            raw = text[i:j]
            if j >= n:
                if errs is not None:
                    errs.append(what + "record delimiter missing")
                return toks, None
            if errs is not None:
                for b in breaks:
                    if i < b <= j and raw.strip():
                        errs.append(what + "token %r split over lines" % raw)
            v = raw.strip()
            if v == "":
                toks.append(("D", None))
            elif _int.match(v):
                toks.append(("I", int(v)))
            elif _real.match(v):
                toks.append(("R", float(re.sub("[dD]", "e", v))))
            else:
                toks.append(("X", v))
                if errs is not None:
                    errs.append(what + "bad token %r" % v)
            i = j
        if text[i] == rd:
            return toks, i + 1
        i += 1


class Parsed(object):
    def __init__(self):
        self.errs, self.start, self.g, self.gtoks = [], [], {}, []
        self.ents, self.de = [], []
        self.lines = 0


def _seq(s):
    return int(s) if re.match(r"^ *\d+$", s) else None


def parse(data):
    """Strictly parses bytes; returns Parsed with .errs (list of strings)."""
    P = Parsed()
    E = P.errs
    try:
        txt = data.decode("latin-1")
    except Exception:
        E.append("undecodable")
        return P
    if not txt:
        E.append("empty file")
        return P
    if not txt.endswith("\n"):
        E.append("last line not terminated")
    lines = txt.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    sec = {"S": [], "G": [], "D": [], "P": [], "T": []}
    order = "SGDPT"
    last = 0
    for n, l in enumerate(lines):
        l = l.rstrip("\r")
        if len(l) != 80:
            E.append("line %d has %d columns" % (n + 1, len(l)))
            if len(l) < 73:
                return P
        c = l[72]
        if c not in order:
            E.append("line %d: section letter %r" % (n + 1, c))
            return P
        k = order.index(c)
        if k < last:
            E.append("line %d: section %s after %s" % (n + 1, c, order[last]))
        last = max(k, last)
        sec[c].append(l[:72])
        q = _seq(l[73:80])
        if q != len(sec[c]):
            E.append("line %d: sequence %s%s, expected %d" % (n + 1, c, l[73:80], len(sec[c])))
        if any(ord(x) < 32 or ord(x) > 126 for x in l):
            E.append("line %d: non-printing character" % (n + 1))
        if len(E) > 20:
            return P
    P.lines = len(lines)
    for c in "SGDPT":
        if not sec[c]:
            if c in "DP" and not sec["D"] and not sec["P"]:
                continue
            E.append("no %s section" % c)
    if E and (not sec["G"] or not sec["T"]):
        return P
    P.start = sec["S"]
    # --- global
    g = "".join(sec["G"])
    pd, rd = ",", ";"
    m = re.match(r" *1H(.)", g)
    pos = 0
    if m:
        pd = m.group(1)
        pos = m.end()
        if g[pos:pos + 1] != pd:
            E.append("G: no delimiter after parameter 1")
            return P
        pos += 1
    elif g[:1] == ",":
        pos = 1
    else:
        E.append("G: bad first parameter")
        return P
    m = re.compile(r" *1H(.)").match(g, pos)
    ended = False
    if m:
        rd = m.group(1)
        pos = m.end()
    else:
        while g[pos:pos + 1] == " ":
            pos += 1
    if g[pos:pos + 1] == rd:
        ended = True
        toks = []
    elif g[pos:pos + 1] == pd:
        pos += 1
        off = pos
        brk = [72 * i - off for i in range(1, len(sec["G"])) if 72 * i > off]
        toks, endp = lex_params(g[pos:], pd, rd, brk, E, "G: ")
        if endp is not None and g[pos + endp:].strip():
            E.append("G: text after the record delimiter")
    else:
        E.append("G: bad second parameter")
        return P
    P.gtoks = [("S", pd), ("S", rd)] + toks
    P.g = {"pd": pd, "rd": rd}
    for i, t in enumerate(P.gtoks):
        if i >= 26:
            E.append("G: more than 26 parameters")
            break
        k = GLOBAL_KEYS[i]
        kd = GLOBAL_KIND[k]
        if t[0] == "D":
            P.g[k] = None
            continue
        if kd == "S" and t[0] != "S" or kd == "I" and t[0] != "I" or kd == "R" and t[0] not in "IR":
            E.append("G: parameter %d (%s) has the wrong type: %r" % (i + 1, k, t))
        P.g[k] = t[1]
    # --- terminate
    if len(sec["T"]) != 1:
        E.append("T: %d lines" % len(sec["T"]))
    else:
        t = sec["T"][0]
        want = "S%7dG%7dD%7dP%7d" % tuple(len(sec[c]) for c in "SGDP")
        if t[:32] != want:
            if re.sub(r"\b0+(?=\d)", "", t[:32].replace(" ", "")) != want.replace(" ", ""):
                E.append("T: %r, expected %r" % (t[:32], want))
        if t[32:].strip():
            E.append("T: text after counts")
    # --- directory
    D = sec["D"]
    if len(D) % 2:
        E.append("D: odd number of lines")
        return P
    nents = len(D) // 2
    used = [None] * len(sec["P"])

    def dint(s, what):
        s2 = s.strip()
        if s2 == "":
            return 0
        if not _int.match(s2):
            E.append(what + ": not an integer: %r" % s)
            return 0
        if s != s.rstrip() or False:
            E.append(what + ": not right-justified: %r" % s)
        return int(s2)

    for k in range(nents):
        a, b = D[2 * k], D[2 * k + 1]
        w = "D%d" % (2 * k + 1)
        f = [a[8 * i:8 * i + 8] for i in range(9)]
        h = [b[8 * i:8 * i + 8] for i in range(9)]
        d = {}
        d["type"] = dint(f[0], w + " type")
        for i, nme in enumerate(["pd", "structure", "linefont", "level", "view", "transform", "labelassoc"]):
            d[nme] = dint(f[1 + i], w + " " + nme)
        st = f[8]
        if not re.match(r"^[ 0-9]{8}$", st):
            E.append(w + ": status %r" % st)
            st = "00000000"
        st = st.replace(" ", "0")
        d["blank"], d["subord"], d["use"], d["hier"] = [int(st[2 * i:2 * i + 2]) for i in range(4)]
        if d["blank"] > 1 or d["subord"] > 3 or d["use"] > 6 or d["hier"] > 2:
            E.append(w + ": status out of range %r" % st)
        t2 = dint(h[0], w + " type2")
        if t2 != d["type"]:
            E.append(w + ": entity types differ: %d %d" % (d["type"], t2))
        for i, nme in enumerate(["weight", "color", "pdcount", "form"]):
            d[nme] = dint(h[1 + i], w + " " + nme)
        if h[5].strip() or h[6].strip():
            E.append(w + ": reserved field not blank")
        d["label"] = h[7].strip()
        d["subscript"] = dint(h[8], w + " subscript")
        if d["subscript"] < 0:
            E.append(w + ": negative subscript")
        P.de.append(d)
        if d["type"] == 0 and d["pd"] == 0:
            continue
        if not (1 <= d["pd"] <= len(sec["P"])) or d["pdcount"] < 1 or d["pd"] + d["pdcount"] - 1 > len(sec["P"]):
            E.append(w + ": parameter lines %d+%d out of range" % (d["pd"], d["pdcount"]))
            continue
        for i in range(d["pd"] - 1, d["pd"] - 1 + d["pdcount"]):
            if used[i] is not None:
                E.append(w + ": parameter line %d shared with D%d" % (i + 1, used[i]))
            used[i] = 2 * k + 1
            l = sec["P"][i]
            if l[64] != " ":
                E.append("P%d: column 65 not blank" % (i + 1))
            if not re.match(r"^ *\d+$", l[64:72]):
                E.append("P%d: back pointer %r" % (i + 1, l[64:72]))
            elif int(l[64:72]) != 2 * k + 1:
                E.append("P%d: back pointer %s, expected %d" % (i + 1, l[64:72].strip(), 2 * k + 1))
        if len(E) > 20:
            return P
    for i, u in enumerate(used):
        if u is None:
            E.append("P%d: belongs to no directory entry" % (i + 1))
            break
    if E:
        return P
    # --- parameters
    for k, d in enumerate(P.de):
        w = "D%d(%d): " % (2 * k + 1, d["type"])
        e = Ent(d["type"], d["form"])
        for f in ("blank", "subord", "use", "hier", "weight", "label", "subscript"):
            setattr(e, f, d[f])
        P.ents.append(e)
        e.toks = []

        def de_ptr(f, v, neg, types):
            v2 = -v if neg else v
            if v2 % 2 == 0 or not (1 <= v2 <= 2 * nents):
                E.append(w + "%s: bad pointer %d" % (f, v))
                return 0
            t = P.de[(v2 - 1) // 2]["type"]
            if types is not None and t not in types:
                E.append(w + "%s: pointer to entity of type %d" % (f, t))
            return Ref((v2 - 1) // 2, neg)
        if d["structure"]:
            e.structure = de_ptr("structure", d["structure"], True, None) if d["structure"] < 0 else E.append(w + "positive structure") or 0
        e.linefont = de_ptr("linefont", d["linefont"], True, {304}) if d["linefont"] < 0 else d["linefont"]
        e.level = de_ptr("level", d["level"], True, {406}) if d["level"] < 0 else d["level"]
        e.view = de_ptr("view", d["view"], False, {410, 402}) if d["view"] else 0
        e.transform = de_ptr("transform", d["transform"], False, {124}) if d["transform"] else 0
        e.labelassoc = de_ptr("labelassoc", d["labelassoc"], False, {402}) if d["labelassoc"] else 0
        e.color = de_ptr("color", d["color"], True, {314}) if d["color"] < 0 else d["color"]
        if d["color"] > 8:
            E.append(w + "color %d" % d["color"])
        if e.weight < 0:
            E.append(w + "negative line weight")
        if d["pdcount"] < 1:
            continue
        L = [sec["P"][i][:64] for i in range(d["pd"] - 1, d["pd"] - 1 + d["pdcount"])]
        txt = "".join(L)
        toks, endp = lex_params(txt, pd, rd, [64 * i for i in range(1, len(L))], E, w)
        if endp is None or not toks:
            continue
        rest = txt[endp:]
        # free comment text: remainder of the last parameter line, then whole lines
        cut = (64 - endp % 64) % 64
        e.tail = rest[:cut].rstrip()
        e.comments = [rest[i:i + 64].rstrip() for i in range(cut, len(rest), 64)]
        if toks[0] != ("I", d["type"]):
            E.append(w + "parameter data start with %r" % (toks[0],))
            continue
        e.toks = toks[1:]
    if E:
        return P
    for k, e in enumerate(P.ents):
        interpret(P, k, e, nents)
    return P


def interpret(P, k, e, nents):
    E = P.errs
    w = "D%d(%d): " % (2 * k + 1, e.type)
    vals = [t[1] for t in e.toks]
    # a defaulted trailing part is filled in
    dfl = DEFAULTS.get(e.type, {})
    try:
        if e.type in dfl or dfl:
            full = max(dfl) + 1
            if len(vals) < full:
                vals2 = list(vals)
                while len(vals2) < full and len(vals2) in dfl:
                    vals2.append(dfl[len(vals2)])
                vals = vals2
        if e.type == 314 and len(vals) > 3 and isinstance(vals[3], int):
            vals = vals[:3] + [""] + vals[3:]
        ks = kinds(e.type, e.form, vals)
    except SchemaError as x:
        E.append(w + str(x))
        return
    if len(vals) < len(ks):
        E.append(w + "%d parameters, expected %d" % (len(vals), len(ks)))
        return
    e.params = []
    for i, kd in enumerate(ks):
        v = vals[i]
        if v is None:
            if i in dfl:
                v = dfl[i]
            elif kd in "LRA":
                v = 0.0
            elif kd in "IBP":
                v = 0
            elif kd == "S":
                v = ""
            else:
                v = 0
        if kd == "S":
            if not isinstance(v, str):
                E.append(w + "parameter %d: string expected, %r" % (i + 1, v))
                return
        elif isinstance(v, str):
            E.append(w + "parameter %d: number expected, %r" % (i + 1, v))
            return
        elif kd in "IBPN":
            if not isinstance(v, int):
                E.append(w + "parameter %d: integer expected, %r" % (i + 1, v))
                return
            if kd == "B" and v not in (0, 1):
                E.append(w + "parameter %d: logical expected, %r" % (i + 1, v))
            if kd == "N":
                if v > 0:
                    if v > 3:
                        E.append(w + "parameter %d: operation %d" % (i + 1, v))
                else:
                    kd = "P"
            if kd == "P":
                if v == 0:
                    v = Ref(None)
                else:
                    neg = v < 0
                    a = abs(v)
                    if neg and e.type != 180 or a % 2 == 0 or a > 2 * nents:
                        E.append(w + "parameter %d: bad pointer %d" % (i + 1, v))
                        return
                    t = P.ents[(a - 1) // 2].type
                    if t != 0 and not ptr_ok(e.type, i, t, vals):
                        E.append(w + "parameter %d: pointer to entity of type %d" % (i + 1, t))
                    v = Ref((a - 1) // 2, neg)
            if kd == "N":
                kd = "I"
        else:
            v = float(v)
        e.params.append((kd, v))
    rest = vals[len(ks):]
    if rest and all(x is None for x in rest):
        rest = []
    if rest:
        if not _extras_ok([0 if x is None else x for x in rest]):
            E.append(w + "superfluous parameters %r" % (rest[:6],))
            return
        rest = [0 if x is None else x for x in rest]
        n1 = rest[0]
        r2 = rest[1 + n1:]
        gs = (rest[1:1 + n1], r2[1:] if r2 else [])
        out = ([], [])
        for gi, l in enumerate(gs):
            for v in l:
                if v % 2 == 0 or not 1 <= v <= 2 * nents:
                    E.append(w + "bad additional pointer %d" % v)
                    return
                out[gi].append(Ref((v - 1) // 2))
        e.extras = out if out[0] or out[1] else None
    semantic(P, k, e, w)


def semantic(P, k, e, w):
    """Constraints within one entity that a reader may rely on."""
    E = P.errs
    v = [p[1] for p in e.params]
    if e.type == 126:
        K, M = v[0], v[1]
        kn = v[6:8 + K + M]
        if M < 1 or K < M:
            E.append(w + "degree %d with %d control points" % (M, K + 1))
        if any(kn[i] > kn[i + 1] + 1e-9 for i in range(len(kn) - 1)):
            E.append(w + "knots decrease")
    elif e.type == 142:
        if v[0] not in (0, 1, 2, 3) or v[4] not in (0, 1, 2, 3):
            E.append(w + "flags %d %d" % (v[0], v[4]))
    elif e.type == 144:
        if v[1] not in (0, 1):
            E.append(w + "N1 = %d" % v[1])
        if v[1] == 1 and v[3].i is None:
            E.append(w + "no outer boundary")
    elif e.type == 508:
        i, n = 1, v[0]
        for _ in range(n):
            tgt = v[i + 1]
            t = P.ents[tgt.i].type if tgt.i is not None else None
            if t not in (502, 504) or (t == 502) != (v[i] == 1):
                E.append(w + "edge type %r with entity %r" % (v[i], t))
            for j in range(v[i + 4]):
                c = v[i + 6 + 2 * j]
                if c.i is None or P.ents[c.i].type not in CURVES:
                    E.append(w + "parameter curve is not a curve")
            i += 5 + 2 * v[i + 4]
    elif e.type == 504:
        for i in range(v[0]):
            for vp, vi in ((v[2 + 5 * i], v[3 + 5 * i]), (v[4 + 5 * i], v[5 + 5 * i])):
                if vp.i is None:
                    E.append(w + "edge without vertex list")
                elif P.ents[vp.i].params and not 1 <= vi <= P.ents[vp.i].params[0][1]:
                    E.append(w + "vertex index %d out of range" % vi)
    elif e.type == 408 or e.type == 122 or e.type == 164:
        if v[0].i is None:
            E.append(w + "null pointer")


# --------------------------------------------------------------------------
# writer
class Style(object):
    """How to spell a file; rnd=None gives the plain spelling."""

    def __init__(self, rnd=None, pd=",", rd=";", spaces=False, breaks=False, expo=None, defaults=False, ints=False,
                 blank_de=False, crlf=False, tail=False, plus=False):
        self.rnd, self.pd, self.rd = rnd, pd, rd
        self.spaces, self.breaks, self.expo, self.defaults, self.ints = spaces, breaks, expo, defaults, ints
        self.blank_de, self.crlf, self.tail, self.plus = blank_de, crlf, tail, plus

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if k != "rnd" and v}


def hstr(s):
    return "%dH%s" % (len(s), s) if s else ""


def real_tok(v, st):
    r = repr(float(v))
    if "e" in r:
        m, x = r.split("e")
        if "." not in m:
            m += ".0"
        x = int(x)
    else:
        m, x = r, 0
    if st.expo and (x or st.rnd.random() < 0.7):
        c = st.expo if st.expo in "EeDd" else st.rnd.choice("ED")
        # shift the point: exact in decimal
        if x == 0 and st.rnd.random() < 0.5:
            neg = m.startswith("-")
            a, b = m.lstrip("-").split(".")
            sh = st.rnd.randint(1, 3)
            b = b.ljust(sh, "0") if len(b) < sh else b
            m = ("-" if neg else "") + a + b[:sh] + "." + b[sh:]
            x = -sh
        return m + c + st.rnd.choice(["%d", "%+d", "%+03d"]) % x
    if x:
        return m + "E%d" % x
    if st.plus and not m.startswith("-") and st.rnd.random() < 0.3:
        m = "+" + m
    if m.endswith(".0") and st.rnd is not None and st.ints is False and st.spaces and st.rnd.random() < 0.3:
        m = m[:-1]
    elif st.spaces and st.rnd.random() < 0.2:
        m += "0" * st.rnd.randint(1, 4)
    return m


def tok(kind, v, st):
    if v is None:
        return ""
    if kind == "T":     # as it is
        return v
    if kind == "S":
        return hstr(v)
    if kind == "P":
        if not isinstance(v, Ref):
            return str(v)
        if v.i is None:
            return "0"
        return str(-(2 * v.i + 1) if v.neg else 2 * v.i + 1)
    if kind in "IB":
        return str(int(v))
    return real_tok(v, st)


def layout(toks, width, st, final):
    """Distributes delimited tokens on lines of the given width. Strings may
    be split anywhere after their count."""
    pd, rd = st.pd, st.rd
    lines, cur = [], ""
    for i, t in enumerate(toks):
        s = t + (rd if i == len(toks) - 1 else pd)
        if st.spaces and st.rnd.random() < 0.3 and i:
            s = " " * st.rnd.randint(1, 3) + s
        m = re.match(r" *\d+H", s)
        if m and t:
            head = m.end()
            if len(cur) + head + 1 > width or (st.breaks and st.rnd.random() < 0.2 and cur):
                if len(s) <= width or len(cur) + head + 1 > width:
                    lines.append(cur.ljust(width)); cur = ""
            while len(cur) + len(s) > width:
                k = width - len(cur)
                lines.append(cur + s[:k]); s = s[k:]; cur = ""
            cur += s
            continue
        if len(cur) + len(s) > width or (st.breaks and cur and st.rnd.random() < 0.25):
            lines.append(cur.ljust(width)); cur = ""
        if len(s) > width:
            s = s.strip()
        cur += s
    if cur:
        lines.append(cur.ljust(width))
    return lines


def trim_defaults(e, toks, st):
    """Blank or drop parameters that equal their default."""
    dfl = DEFAULTS.get(e.type)
    if not dfl or not st.defaults:
        return toks
    n = len(e.params)
    toks = list(toks)
    for i, d in dfl.items():
        if i < n:
            v = e.params[i][1]
            if v == d or isinstance(v, Ref) and v.i is None:
                if st.rnd.random() < 0.6:
                    toks[1 + i] = ""
    if e.extras is None and len(toks) == n + 1 and st.rnd.random() < 0.5:
        while len(toks) - 2 in dfl and toks[-1] == "":
            toks.pop()
    return toks


def global_toks(g, st, omit=()):
    t = []
    for k in GLOBAL_KEYS:
        v = g[k]
        if k == "pd":
            t.append("1H" + st.pd if st.pd != "," else ("" if "pd" in omit else "1H,"))
        elif k == "rd":
            t.append("1H" + st.rd if st.rd != ";" else ("" if "rd" in omit else "1H;"))
        elif k in omit or v is None:
            t.append("")
        elif GLOBAL_KIND[k] == "S":
            t.append(hstr(v))
        elif GLOBAL_KIND[k] == "I":
            t.append(str(v))
        else:
            t.append(real_tok(v, st))
    return t


def write(m, st=None, omit=(), gtoks=None):
    st = st or Style()
    out = []

    def put(sec, body):
        out.append((body[:72].ljust(72), sec))
    for s in m.start:
        put("S", s)
    if gtoks is None:
        gtoks = global_toks(m.g, st, omit)
    for l in layout(gtoks, 72, st, True):
        put("G", l)
    # parameters first, to know line counts
    pds = []
    for k, e in enumerate(m.ents):
        toks = [str(e.type)] + [tok(kd, v, st) for kd, v in e.params]
        if e.extras is not None:
            a, b = e.extras
            toks += [str(len(a))] + [tok("P", r, st) for r in a]
            if b or not (st.defaults and st.rnd.random() < 0.5):
                toks += [str(len(b))] + [tok("P", r, st) for r in b]
        toks = trim_defaults(e, toks, st)
        L = layout(toks, 64, st, True)
        for c in e.comments:
            L.append(c[:64].ljust(64))
        pds.append(L)
    pn = 1
    for k, e in enumerate(m.ents):
        def dv(v):
            if isinstance(v, Ref):
                return -(2 * v.i + 1) if v.neg else 2 * v.i + 1
            return v

        def f8(v):
            if v == 0 and st.blank_de and st.rnd.random() < 0.5:
                return " " * 8
            return "%8d" % v
        a = "%8d%8d" % (e.type, pn) + "".join(f8(dv(getattr(e, f))) for f in
                                             ("structure", "linefont", "level", "view", "transform", "labelassoc"))
        stn = "%02d%02d%02d%02d" % (e.blank, e.subord, e.use, e.hier)
        a += stn
        b = "%8d" % e.type + f8(e.weight) + f8(dv(e.color)) + "%8d" % len(pds[k]) + f8(e.form) + " " * 16
        b += "%8s" % e.label[:8] + f8(e.subscript)
        put("D", a)
        put("D", b)
        pn += len(pds[k])
    for k, L in enumerate(pds):
        for l in L:
            put("P", l[:64] + "%8d" % (2 * k + 1))
    cnt = {c: sum(1 for o in out if o[1] == c) for c in "SGDP"}
    put("T", "S%7dG%7dD%7dP%7d" % (cnt["S"], cnt["G"], cnt["D"], cnt["P"]))
    n = {}
    nl = "\r\n" if st.crlf else "\n"
    res = []
    for body, c in out:
        n[c] = n.get(c, 0) + 1
        res.append("%s%s%7d" % (body, c, n[c]))
    return (nl.join(res) + nl).encode("latin-1")


# --------------------------------------------------------------------------
# comparison
DEF = ("type", "form", "blank", "subord", "use", "hier", "weight", "label", "subscript")
PTRF = ("structure", "linefont", "level", "view", "transform", "labelassoc", "color")


class Tol(object):
    """|a-b| allowed for reals: minres*1e-3 absolute, 1e-14 relative, and the
    writer's floor of 1e-8 below which a value may be written as zero."""

    def __init__(self, minres, rel=4e-15, extra=0.0, floor=1.02e-8):
        self.minres, self.rel, self.extra, self.floor = minres, rel, extra, floor

    def okr(self, a, b, t):
        """Numbers which are not lengths."""
        if a == b or abs(a - b) <= 1e-11 * max(abs(a), abs(b)) + 2e-15:
            return True
        return abs(a - b) <= (2e-5 if t == 314 else 2e-12) and t != 104

    def ok(self, a, b):
        if a == b:
            return True
        d = abs(a - b)
        t = self.minres * 1e-3 + self.rel * max(abs(a), abs(b)) + self.extra
        if min(abs(a), abs(b)) < min(self.floor, 1.01 * max(self.minres, 1e-8)):
            t += min(self.floor, 1.01 * max(self.minres, 1e-8))
        return d <= t


def compare_ents(A, B, pair, tol, fields=DEF, skip=()):
    """Compares the entities of A and B under the correspondence
    pair: index in A -> index in B. Returns list of differences."""
    diff = []

    def refeq(a, b):
        if isinstance(a, Ref) != isinstance(b, Ref):
            return False
        if not isinstance(a, Ref):
            return a == b
        if (a.i is None) != (b.i is None):
            return False
        return a.i is None or pair.get(a.i) == b.i and a.neg == b.neg
    for i, j in sorted(pair.items()):
        a, b = A[i], B[j]
        w = "entity %d (type %d)" % (i, a.type)
        for f in fields:
            if f in skip:
                continue
            if getattr(a, f) != getattr(b, f):
                diff.append("%s: %s %r became %r" % (w, f, getattr(a, f), getattr(b, f)))
        for f in PTRF:
            if f in skip:
                continue
            if not refeq(getattr(a, f), getattr(b, f)):
                diff.append("%s: %s %r became %r" % (w, f, getattr(a, f), getattr(b, f)))
        if a.type != b.type:
            continue
        pa, pb = a.params, b.params
        if len(pa) != len(pb):
            diff.append("%s: %d parameters became %d" % (w, len(pa), len(pb)))
            continue
        for n, ((ka, va), (kb, vb)) in enumerate(zip(pa, pb)):
            if ka in "LRA":
                if a.type == 126:
                    if n >= len(pa) - 3 and pa[2][1] == 0:
                        continue        # normal of a non-planar curve
                    if n >= 8 + pa[0][1] + pa[1][1] and n < 9 + 2 * pa[0][1] + pa[1][1] and abs(va - vb) <= 1e-9 * max(1.0, abs(va)):
                        continue        # weights
                if a.type == 128:
                    w0 = 9 + pa[0][1] + pa[1][1] + pa[2][1] + pa[3][1] + 4
                    if w0 <= n < w0 + (pa[0][1] + 1) * (pa[1][1] + 1) and abs(va - vb) <= 1e-9 * max(1.0, abs(va)):
                        continue        # weights
                if not (tol.ok(va, vb) if ka == "L" else tol.okr(va, vb, a.type)):
                    diff.append("%s: parameter %d %r became %r" % (w, n + 1, va, vb))
                    break
            elif ka == "P":
                if not refeq(va, vb):
                    diff.append("%s: parameter %d %r became %r" % (w, n + 1, va, vb))
                    break
            elif va != vb:
                diff.append("%s: parameter %d %r became %r" % (w, n + 1, va, vb))
                break
        if "extras" not in skip:
            xa = [] if a.extras is None else a.extras[0] + a.extras[1]
            xb = [] if b.extras is None else b.extras[0] + b.extras[1]
            if len(xa) != len(xb) or not all(refeq(p, q) for p, q in zip(xa, xb)):
                diff.append("%s: additional pointers %r became %r" % (w, a.extras, b.extras))
        if "comments" not in skip:
            if [c.rstrip() for c in a.comments] != [c.rstrip() for c in b.comments]:
                diff.append("%s: comments %r became %r" % (w, a.comments, b.comments))
    return diff


def match_by_subscript(A, B):
    """Correspondence by the unique entity subscripts of the generator."""
    ia = {e.subscript: i for i, e in enumerate(A)}
    ib = {}
    dup = []
    for j, e in enumerate(B):
        if e.subscript in ib:
            dup.append(e.subscript)
        ib[e.subscript] = j
    pair = {i: ib[s] for s, i in ia.items() if s in ib}
    missing = [i for s, i in ia.items() if s not in ib]
    extra = [j for s, j in ib.items() if s not in ia]
    return pair, missing, extra, dup


def scaled(e, f):
    """Entity e with every length multiplied by f."""
    c = e.copy()
    if e.type == 104:
        v = [p[1] for p in e.params]
        # consistent homogeneous scaling of A..F is decided up to a common factor
        v = [v[0], v[1], v[2], v[3] * f, v[4] * f, v[5] * f * f] + [x * f for x in v[6:]]
        c.params = [(k, x) for (k, _), x in zip(e.params, v)]
        return c
    c.params = [(k, v * f if k == "L" else v) for k, v in e.params]
    return c
