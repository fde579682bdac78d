"""C09: conversion of values to text and back, against a Python model."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import pbt, nvc
from vp.pbt import Fail, Skip

PID = "C09"
CASES = {"quick": 1500, "thorough": 40000}
RULE = ("one image, VALUE, TO_STRING family, WRITE or READ result, or one malformed text that must be rejected; non-trivial if the value "
        "is not a small non-negative integer or the text carries decoration (case, blanks, field width, unit, exponent, underscore); "
        "distinct by text")
TECHNIQUE = ("property-based testing: generated types and values, decorated and malformed text, formatted lines written and read back, "
             "against a Python model of IEEE 1076 images and STD.TEXTIO, on every engine, with shrinking")
NOTE = "VHDL-2019 composite images only round trip for arrays of scalars and records; physical values beyond 64 bits excluded; floating point compared to the 15 significant digits of the image; based literals and exponents in integer 'VALUE are not generated"
ASSUMPTIONS = ["images follow IEEE 1076-2008 sections 5.7 and 16.2; TEXTIO follows section 16.4"]

UNITS = {"fs": 1, "ps": 10**3, "ns": 10**6, "us": 10**9, "ms": 10**12, "sec": 10**15, "min": 60 * 10**15, "hr": 3600 * 10**15}
IDS = ["Foo", "BAR", "baz", "s0_A", "x", "LongIdentifierWithManyCharacters", "a1", "If_x", "true_ish", "E"]
EXT = ["\\Ext id\\", "\\foo\\", "\\A b C\\", "\\if\\", "\\x+y\\", "\\'q'\\"]
CHS = ["'a'", "'A'", "'0'", "' '", "'''", "'\"'", "'z'", "'('", "'1'", "'\\'"]
SL = "UX01ZWLH-"


def q(s):
    """VHDL string expression for text."""
    parts = re.split("(\t)", s)
    out = []
    for p in parts:
        if p == "\t":
            out.append("HT")
        elif p:
            out.append('"%s"' % p.replace('"', '""'))
    if not out:
        return '""'
    return " & ".join(out) if len(out) > 1 else out[0]


def timestr(v, unit):
    u = UNITS[unit]
    neg = v < 0
    v = abs(v)
    r = str(v // u)
    f = v % u
    if f:
        d = ""
        while f:
            f *= 10
            d += str(f // u)
            f %= u
            assert len(d) < 20
        r += "." + d
    return ("-" if neg else "") + r + " " + unit


def just(t, side, field):
    if len(t) >= field:
        return t
    return t.ljust(field) if side == "left" else t.rjust(field)


def hexs(bits, n, alpha, pad):
    """bits: string of characters."""
    k = -len(bits) % n
    b = pad * k + bits
    out = ""
    for i in range(0, len(b), n):
        g = b[i:i + n]
        if set(g) != {"Z"}:
            g = g.replace("L", "0").replace("H", "1")
        if set(g) <= set("01"):
            out += "0123456789ABCDEF"[int(g, 2)]
        elif set(g) == {"Z"}:
            out += "Z"
        else:
            out += "X"
    return out


class G:
    def __init__(self, s):
        self.s = s
        self.decl, self.var, self.body, self.exp = [], [], [], {}
        self.bad = []
        self.k = 0
        self.std = s.weighted([(3, "2008"), (1, "2019")])
        self.types()
        for _ in range(s.int(10, 24)):
            s.weighted([(3, self.enum), (3, self.integer), (3, self.phys), (3, self.real), (2, self.char), (4, self.vec), (8, self.line),
                        (4, self.badread), (2, self.justify)])()
        if self.std == "2019":
            for _ in range(2):
                self.composite()
        for _ in range(s.int(1, 3)):
            self.badvalue()

    def n(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def out(self, expr, want, key, pre=()):
        """Report expr and compare with want (text or a predicate description)."""
        k = self.n("k")
        self.body += ["    " + x for x in pre]
        self.body.append('    report "%s:[" & %s & "]";' % (k, expr))
        self.exp[k] = (want, key)

    def dyn(self, t, x):
        return "id(%s)" % x if self.s.bool(0.6) else x

    def idf(self, t):
        self.decl.append("  function id (x : %s) return %s is begin return x; end function;" % (t, t))

    def types(self):
        s = self.s
        for t in ("INTEGER", "REAL", "STRING", "TIME", "CHARACTER", "BOOLEAN", "BIT_VECTOR", "SEVERITY_LEVEL"):
            self.idf(t)
        self.decl.append("  function id (x : STD_LOGIC_VECTOR) return STD_LOGIC_VECTOR is begin return x; end function;")
        self.ens = [("BOOLEAN", ["false", "true"]), ("SEVERITY_LEVEL", ["note", "warning", "error", "failure"]), ("BIT", ["'0'", "'1'"])]
        self.idf("BIT")
        for i in range(s.int(1, 2)):
            lits = s.sample(IDS, s.int(0, 5)) + s.sample(EXT, s.int(0, 2)) + s.sample(CHS, s.int(0, 4))
            if s.bool(0.1):
                lits += ["v%d" % j for j in range(s.choice([120, 260]))]
            if not lits:
                lits = ["only"]
            lits = list(s.shuffle(lits))
            self.decl.append("  type EN%d is (%s);" % (i, ", ".join(lits)))
            self.idf("EN%d" % i)
            self.ens.append(("EN%d" % i, lits))
        self.ints = [("INTEGER", -2**31, 2**31 - 1) if self.std == "2008" else ("INTEGER", -2**63, 2**63 - 1)]
        for i in range(s.int(1, 2)):
            lo = s.choice([0, 1, -1, -128, -5, -2**31, -40000, 100, s.int(-10**6, 10**6)])
            hi = lo + s.choice([1, 10, 255, 256, 70000, s.int(1, 10**7)])
            hi = min(hi, 2**31 - 1)
            self.decl.append("  type IT%d is range %s to %d;" % (i, lo if lo > -2**31 else "-2147483647-1", hi))
            self.idf("IT%d" % i)
            self.ints.append(("IT%d" % i, lo, hi))
        self.decl.append("  subtype SUB is INTEGER range -7 to 99;")
        self.phs = [("TIME", list(UNITS.items()), -2**63, 2**63 - 1)]
        us = [("u0", 1)]
        for j in range(s.int(0, 4)):
            base = s.choice(us)
            us.append((s.choice(["Ku", "mega", "q", "TT", "u0x"]) + str(j), base[1] * s.choice([2, 7, 10, 100, 1000])))
        lim = s.choice([10**6, 2**31 - 1, 10**12, 10**15])
        txt = []
        for j, (nm, v) in enumerate(us):
            if j:
                base = s.choice([b for b in us[:j] if v % b[1] == 0])
                txt.append("%s = %d %s;" % (nm, v // base[1], base[0]))
        self.decl.append("  type PH is range -%d to %d units u0; %s end units;" % (lim, lim, " ".join(txt)))
        self.idf("PH")
        self.phs.append(("PH", us, -lim, lim))

    # -- scalars
    def case(self, t):
        s = self.s
        m = s.int(0, 3)
        return [t, t.lower(), t.upper(), t.swapcase()][m]

    def ws(self):
        return self.s.choice(["", "", " ", "  ", "\t", " \t "])

    def enum(self):
        s = self.s
        t, lits = s.choice(self.ens)
        l = s.choice(lits)
        im = l if l[0] in "'\\" else l.lower()
        m = s.int(0, 3)
        x = self.dyn(t, "%s'(%s)" % (t, l))
        if m == 0:
            self.out("%s'image(%s)" % (t, x), im, ("image", t, l))
        elif m == 1:
            self.out("to_string(%s)" % x, l[1] if l[0] == "'" else im, ("to_string", t, l))
        elif m == 2:
            self.out("boolean'image(%s'value(%s'image(%s)) = %s)" % (t, t, x, l), "true", ("rt", t, l))
        else:
            txt = self.ws() + (l if l[0] in "'\\" else self.case(l)) + self.ws()
            self.out("integer'image(%s'pos(%s'value(%s)))" % (t, t, self.dyn("STRING", q(txt))), str(lits.index(l)), ("value", t, txt))

    def ival(self, lo, hi):
        s = self.s
        return s.choice([lo, hi, s.int(lo, hi), min(hi, max(lo, 0)), min(hi, max(lo, s.int(-20, 20))), max(lo, hi - s.int(0, 9)), min(hi, lo + s.int(0, 9)),
                         min(hi, max(lo, s.choice([1, -1]) * 10 ** s.int(0, 18)))])

    def itxt(self, v):
        if v == -2**31:
            return "(-2147483647-1)"
        if v == -2**63:
            return "(-9223372036854775807-1)"
        return "(%d)" % v if v < 0 else str(v)

    def under(self, d):
        s = self.s
        if len(d) < 2 or not s.bool(0.4):
            return d
        i = s.int(1, len(d) - 1)
        return d[:i] + "_" + d[i:]

    def integer(self):
        s = self.s
        t, lo, hi = s.choice(self.ints)
        v = self.ival(lo, hi)
        x = self.dyn(t, "%s'(%s)" % (t, self.itxt(v)))
        m = s.int(0, 3)
        if m == 0:
            self.out("%s'image(%s)" % (t, x), str(v), ("image", t, v))
        elif m == 1:
            self.out("to_string(%s)" % x, str(v), ("to_string", t, v))
        elif m == 2:
            self.out("boolean'image(%s'value(%s'image(%s)) = %s)" % (t, t, x, self.itxt(v)), "true", ("rt", t, v))
        else:
            zeros = s.choice(["", "", "0", "000"])
            txt = self.ws() + ("-" if v < 0 else "") + self.under(zeros + str(abs(v))) + self.ws()
            self.out("%s'image(%s'value(%s))" % (t, t, self.dyn("STRING", q(txt))), str(v), ("value", t, txt))

    def phys(self):
        s = self.s
        t, us, lo, hi = s.choice(self.phs)
        v = self.ival(lo + (1 if t == "TIME" else 0), hi)
        x = self.dyn(t, "%s'(%s %s)" % (t, self.itxt(v)[1:-1] if v < 0 else v, us[0][0]))
        m = s.int(0, 4)
        im = "%d %s" % (v, us[0][0].lower())
        if m == 0:
            self.out("%s'image(%s)" % (t, x), im, ("image", t, v))
        elif m == 1 and t != "TIME":
            self.out("to_string(%s)" % x, im, ("to_string", t, v))
        elif m == 1:
            u = s.choice(["fs", "ps", "ns", "us", "ms", "sec"])
            v = s.choice([v, s.int(-10**7, 10**7), s.int(0, 999) * UNITS[u], s.int(-999, 999) * UNITS[u] // 10])
            # the format has 22 characters
            if len(timestr(v, u)) - len(u) - 1 <= 22:
                self.out("to_string(%s, %s)" % (self.dyn(t, "TIME'(%d fs)" % v), "1 " + u), timestr(v, u), ("to_string", t, v, u))
        elif m == 2:
            self.out("boolean'image(%s'value(%s'image(%s)) = %d %s)" % (t, t, x, v, us[0][0]), "true", ("rt", t, v))
        else:
            u, sc = s.choice(us)
            n = abs(self.ival(0, hi // sc))
            neg = s.bool(0.3)
            txt = self.ws() + ("-" if neg else "") + self.under(str(n)) + s.choice([" ", " ", "  ", "\t"]) + self.case(u) + self.ws()
            self.out("%s'image(%s'value(%s))" % (t, t, self.dyn("STRING", q(txt))), "%d %s" % (-n * sc if neg else n * sc, us[0][0].lower()),
                     ("value", t, txt))

    def rval(self):
        s = self.s
        m = s.int(0, 5)
        sg = s.choice(["", "-"])
        if m == 0:
            return sg + "%d.0" % s.int(0, 20)
        if m == 1:
            return sg + "%d.%d" % (s.int(0, 10**s.int(1, 9)), s.int(0, 999999))
        e = s.choice([s.int(-12, 12), s.int(-290, 290), s.int(-300, 300)])
        return sg + "%d.%0*d%s%s%d" % (s.int(1, 9), s.int(1, 14), s.int(0, 10**4), s.choice("eE"), s.choice(["", "+"]) if e >= 0 else "", e)

    def real(self):
        s = self.s
        lit = self.rval()
        v = float(lit)
        x = self.dyn("REAL", "(%s)" % lit)
        m = s.int(0, 5)
        if m == 0:
            self.out("real'image(%s)" % x, ("real", v, 1e-14), ("image", "REAL", lit))
        elif m == 1:
            d = s.choice([s.int(0, 9), s.int(0, 30)])
            if d:
                self.out("to_string(%s, %d)" % (x, d), "%.*f" % (d, v), ("digits", lit, d))
            else:
                self.out("to_string(%s)" % x, ("real", v, 1e-6), ("to_string", lit))
        elif m == 2:
            f = "%" + s.choice(["", "-", "0", "-"]) + s.choice(["", "3", "12", "20"]) + s.choice(["", ".0", ".3", ".9"]) + s.choice("efgEG")
            if True:
                self.out("to_string(%s, \"%s\")" % (x, f), f % v, ("format", lit, f))
        elif m == 3:
            self.out("to_string(real'value(real'image(%s)), \"%%.17g\")" % x, ("real", v, 1e-14), ("rt", "REAL", lit))
        else:
            txt = self.ws() + lit + self.ws()
            self.out("to_string(real'value(%s), \"%%.17g\")" % self.dyn("STRING", q(txt)), ("real", v, 4e-15), ("value", "REAL", txt))

    def char(self):
        s = self.s
        c = s.choice([s.int(32, 126), s.int(32, 126), s.int(161, 255), s.choice([39, 34, 92, 32])])
        m = s.int(0, 2)
        x = self.dyn("CHARACTER", "character'val(%d)" % c)
        if m == 0:
            self.out("character'image(%s)" % x, "'%s'" % chr(c), ("image", "CHARACTER", c))
        elif m == 1:
            self.out("integer'image(character'pos(character'value(\"'\" & %s & \"'\")))" % x, str(c), ("value", "CHARACTER", c))
        else:
            nm = s.choice(["nul", "SOH", "Esc", "del", "c128", "HT", "LF", "c159"])
            pos = {"nul": 0, "soh": 1, "esc": 27, "del": 127, "c128": 128, "ht": 9, "lf": 10, "c159": 159}[nm.lower()]
            self.out("integer'image(character'pos(character'value(%s)))" % q(self.ws() + nm + self.ws()), str(pos), ("value", "CHARACTER", nm))
            self.out("character'image(character'val(%d))" % pos, nm.lower(), ("image", "CHARACTER", nm))

    def bits(self, alpha="01", mx=20):
        s = self.s
        n = s.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, s.int(1, mx), s.int(1, mx)])
        if len(alpha) > 2 and s.bool(0.5):
            g = s.choice(["Z", "X", "0", "1", "U"])
            return "".join(g if s.bool(0.7) else s.choice(alpha) for _ in range(n))
        return "".join(s.choice(alpha) for _ in range(n))

    def vec(self):
        s = self.s
        t = s.choice(["BIT_VECTOR", "STD_LOGIC_VECTOR", "UNSIGNED", "SIGNED"])
        b = self.bits("01" if t == "BIT_VECTOR" or s.bool(0.4) else SL)
        f = s.choice(["to_string", "to_bstring", "to_ostring", "to_hstring", "to_hstring", "to_octal_string", "to_hex_string", "to_binary_string"])
        pad = "0"
        if t == "STD_LOGIC_VECTOR" and b[0] == "Z":
            pad = "Z"
        if t == "UNSIGNED" and b[0] == "Z":
            pad = "Z"
        if t == "SIGNED":
            pad = b[0]
        x = '%s\'("%s")' % (t, b)
        if t in ("BIT_VECTOR", "STD_LOGIC_VECTOR"):
            x = self.dyn(t, x)
        n = {"o": 3, "h": 4}.get(f[3], 1)
        self.out("%s(%s)" % (f, x), b if n == 1 else hexs(b, n, SL, pad), (f, t, b))

    def justify(self):
        s = self.s
        v = s.choice(["", "a", "hello", "two words", "x" * 30])
        side = s.choice(["left", "right"])
        fl = s.choice([0, 1, 5, 8, 31])
        self.out("justify(%s, %s, %d)" % (self.dyn("STRING", q(v)), side, fl), just(v, side, fl), ("justify", v, side, fl))

    # -- text I/O
    def item(self):
        """(type, write call text, written token, read decl type, expected value text, kind)"""
        s = self.s
        side = s.choice(["left", "right"])
        fl = s.choice([0, 0, 1, 4, 9, 16, 33])
        fmt = "" if fl == 0 and s.bool() else ", %s, %d" % (side, fl)
        if not fmt:
            fl = 0
        k = s.weighted([(3, "int"), (3, "real"), (4, "time"), (2, "bit"), (3, "bv"), (2, "bool"), (2, "char"), (2, "str"), (2, "sl"), (3, "slv"),
                        (2, "hbv"), (2, "obv"), (2, "hslv"), (2, "oslv"), (1, "sread"), (1, "uns")])
        if k == "int":
            v = self.ival(-2**31, 2**31 - 1)
            x, tok = self.dyn("INTEGER", self.itxt(v)), str(v)
            return k, "INTEGER", x, tok, side, fl, fmt, "integer'image(%s)", str(v)
        if k == "real":
            lit = self.rval()
            v = float(lit)
            d = s.choice([0, 0, 1, 3, 8, 15])
            if abs(v) > 1e12:
                d = 0
            tok = "%.*f" % (d, v) if d else "%e" % v
            if d:
                fmt = ", %s, %d, %d" % (side, fl, d)
            return k, "REAL", self.dyn("REAL", "(%s)" % lit), tok, side, fl, fmt, 'to_string(%s, "%%.17g")', ("real", float(tok), 1e-14)
        if k == "time":
            u = s.choice(["fs", "ps", "ns", "us", "ms", "sec"])
            v = s.choice([s.int(0, 10**7), s.int(0, 999) * UNITS[u], s.int(0, 999) * UNITS[u] // 10, s.int(0, 2**63 - 1)]) * s.choice([1, 1, -1])
            while len(timestr(v, u)) - len(u) - 1 > 22:
                v //= 10
            tok = timestr(v, u)
            if u != "ns" or s.bool():
                fmt = ", %s, %d, %s" % (side, fl, u)
            return k, "TIME", self.dyn("TIME", "TIME'(%d fs)" % v), tok, side, fl, fmt, "time'image(%s)", "%d fs" % v
        if k == "bit":
            b = s.choice("01")
            return k, "BIT", self.dyn("BIT", "BIT'('%s')" % b), b, side, fl, fmt, "bit'image(%s)", "'%s'" % b
        if k in ("bv", "hbv", "obv", "slv", "hslv", "oslv", "uns"):
            lg = "slv" in k or k == "uns"
            b = self.bits(SL if k == "slv" else "01", 40)
            t = "UNSIGNED" if k == "uns" else "STD_LOGIC_VECTOR" if lg else "BIT_VECTOR"
            tok = b if k[0] not in "ho" else hexs(b, 4 if k[0] == "h" else 3, SL, "0")
            x = "%s'(\"%s\")" % (t, b)
            return k, "%s(%s)" % (t, s.choice(["1 to %d" % len(b), "%d downto 0" % (len(b) - 1)])), x if k == "uns" else self.dyn(t, x), tok, side, fl, fmt, \
                "to_string(%s)", b
        if k == "bool":
            b = s.choice(["false", "true"])
            return k, "BOOLEAN", self.dyn("BOOLEAN", b), b, side, fl, fmt, "boolean'image(%s)", b
        if k == "char":
            c = s.choice("aZ09 ._-'\"\\")
            return k, "CHARACTER", "character'val(%d)" % ord(c), c, side, fl, fmt, "character'image(%s)", None
        if k == "sl":
            c = s.choice(SL)
            return k, "STD_ULOGIC", "STD_ULOGIC'('%s')" % c, c, side, fl, fmt, "std_ulogic'image(%s)", "'%s'" % c
        t = s.choice(["hello", "a", "foo_bar", "12x", "%%", '"q"']) if k == "sread" else s.choice(["", "a", "two words", " lead", "trail ", "x" * 20])
        return k, "STRING(1 to %d)" % (s.int(1, 30) if k == "sread" else len(t)), self.dyn("STRING", "STRING'(%s)" % q(t)), t, side, fl, fmt, None, t

    def line(self):
        s = self.s
        L = self.n("l")
        self.var.append("    variable %s : line;" % L)
        text, toks = "", []
        pre = []
        for _ in range(s.int(1, 5)):
            it = self.item()
            k, t, x, tok, side, fl, fmt = it[:7]
            w = {"h": "hwrite", "o": "owrite"}.get(k[0] if k in ("hbv", "obv", "hslv", "oslv") else "", "write")
            if text or s.bool(0.2):
                sep = s.choice([" ", " ", "  "])
                pre.append("write(%s, string'(%s));" % (L, q(sep)))
                text += sep
            pre.append("%s(%s, %s%s);" % (w, L, x, fmt))
            st = len(text)
            field = just(tok, side, fl)
            off = field.index(tok) if side == "right" else 0
            off = len(field) - len(tok) if side == "right" else 0
            text += field
            toks.append((it, st + off, st + off + len(tok)))
        self.out("%s.all" % L, text, ("write", tuple(pre)), pre)
        # a file round trip keeps the text
        pos = 0
        for it, b, e in toks:
            k, t, x, tok, side, fl, fmt, im, want = it
            v = self.n("r")
            self.var.append("    variable %s : %s;" % (v, t))
            g = s.bool(0.6)
            r = {"h": "hread", "o": "oread"}.get(k[0] if k in ("hbv", "obv", "hslv", "oslv") else "", "read")
            pre = []
            if k in ("char", "str"):
                ln = 1 if k == "char" else len(tok)
                # position explicitly: character and string reads do not skip blanks
                if b > pos:
                    sk = self.n("r")
                    self.var.append("    variable %s : string(1 to %d);" % (sk, b - pos))
                    pre.append("read(%s, %s);" % (L, sk))
                want = text[b:e]
                pos = e
                if k == "char":
                    want = "'%s'" % want
                ex = im % v if im else v
            elif k == "sread":
                if not tok:
                    continue
                cap = int(t.split()[-1][:-1])
                sl = self.n("r")
                self.var.append("    variable %s : natural;" % sl)
                n = min(cap, len(tok))
                self.out("integer'image(%s) & \"/\" & %s(1 to %d)" % (sl, v, n), "%d/%s" % (n, tok[:n]), ("sread", tok, cap),
                         ["sread(%s, %s, %s);" % (L, v, sl)])
                pos = b + n
                if n < len(tok):
                    v = self.n("r")
                    self.var.append("    variable %s : string(1 to %d);" % (v, e - pos))
                    self.out(v, text[pos:e], ("read", "str", tok), ["read(%s, %s);" % (L, v)])
                    pos = e
                continue
            else:
                pos = e
                ex = im % v
            if g:
                pre.append("%s(%s, %s, good);" % (r, L, v))
                pre.append("assert good report \"not good\" severity note;")
            else:
                pre.append("%s(%s, %s);" % (r, L, v))
            if k in ("bv", "slv", "hbv", "hslv", "obv", "oslv", "uns") and len(want) != len(want):
                pass
            self.out(ex, want, ("read", k, tok, text), pre)
        self.out("%s.all" % L, text[pos:], ("rest", text, pos))
        self.body.append("    deallocate(%s);" % L)

    BADR = {
        "INTEGER": ["abc", "-", "+", "_5", ".5", "", "   ", "- 5", "e5", "--5", "+-5", "#", "x1"],
        "REAL": ["abc", "-", ".5", "", "e5", "--5.0", "-+1.0", "1.5e", "1.5e-x", "2.x", "+", "x1.0", "-.5"],
        "TIME": ["5", "5 xs", "ns", "abc", "5.ns", ".5 ns", "5 n", "", "1.2.3 ns", "- 5 ns", "--5 ns", "5 h", "5 se", "1.5", "5.", "-"],
        "BIT": ["2", "x", "", "  ", "-", "'1'", "Z"],
        "BOOLEAN": ["tru", "yes", "0", "", "fals", "t rue", "xtrue", "'true'"],
        "STD_ULOGIC": ["2", "q", "", "  ", "'1'", "x" if False else "K"],
        "CHARACTER": [""],
    }

    def badread(self):
        s = self.s
        L = self.n("l")
        v = self.n("r")
        k = s.choice(["INTEGER", "REAL", "REAL", "TIME", "TIME", "BIT", "BOOLEAN", "STD_ULOGIC", "CHARACTER", "bv", "slv", "hbv", "obv", "hslv", "str"])
        r = "read"
        if k in self.BADR:
            t, tok = k, s.choice(self.BADR[k])
        elif k == "str":
            n = s.int(1, 9)
            t, tok = "STRING(1 to %d)" % n, "abcdefghij"[:s.int(0, n - 1)]
        else:
            n = s.int(2, 17)
            t = ("BIT_VECTOR" if "bv" in k else "STD_LOGIC_VECTOR") + "(%d downto 0)" % (n - 1)
            g = 4 if k[0] == "h" else 3 if k[0] == "o" else 1
            m = (n + g - 1) // g
            tok = "".join(s.choice("01") for _ in range(m))
            if k[0] in "ho":
                r = k[0] + "read"
            w = s.int(0, 3)
            if w == 0:
                tok = tok[:s.int(0, m - 1)]
            elif w == 1:
                i = s.int(0, m - 1)
                tok = tok[:i] + s.choice("gG.q/" if k[0] == "h" else "8q9." if k[0] == "o" else "2qK/") + tok[i + 1:]
            elif w == 2 and g > 1 and n % g:
                # a digit that does not fit
                tok = str(1 << (n % g)) + tok[1:]
            else:
                tok = "_" + tok
        lead = s.choice(["", "", " ", "  "]) if k not in ("CHARACTER", "str") else ""
        self.var += ["    variable %s : line;" % L, "    variable %s : %s;" % (v, t)]
        self.out("boolean'image(good)", "false", ("badread", t, tok), ["%s := new string'(%s);" % (L, q(lead + tok)), "%s(%s, %s, good);" % (r, L, v)])

    # -- VHDL-2019 composites
    def composite(self):
        s = self.s
        t = self.n("CT")
        k = s.choice(["ai", "ae", "rec"])
        if k == "ai":
            n = s.int(1, 5)
            vals = [self.ival(-2**31, 2**31 - 1) for _ in range(n)]
            self.decl.append("  type %s is array (0 to %d) of INTEGER;" % (t, n - 1))
            x = "(%s)" % ", ".join("%d => %s" % (i, self.itxt(v)) for i, v in enumerate(vals))
        elif k == "ae":
            e, lits = s.choice([z for z in self.ens if not all(l[0] == "'" for l in z[1])])
            n = s.int(1, 4)
            if any(l[0] == "'" for l in lits):
                return
            vals = [s.choice(lits) for _ in range(n)]
            self.decl.append("  type %s is array (1 to %d) of %s;" % (t, n, e))
            x = "(%s)" % ", ".join("%d => %s" % (i + 1, v) for i, v in enumerate(vals))
        elif k == "rec":
            self.decl.append("  type %s is record a : INTEGER; b : BOOLEAN; c : CHARACTER; d : TIME; end record;" % t)
            x = "(%s, %s, '%s', %d fs)" % (self.itxt(self.ival(-2**31, 2**31 - 1)), s.choice(["true", "false"]), s.choice("abAZ1_"),
                                           s.int(-10**9, 10**12))
        v = self.n("cv")
        self.var.append("    variable %s : %s := %s;" % (v, t, x))
        self.out("boolean'image(%s'value(%s'image(%s)) = %s)" % (t, t, v, v), "true", ("composite", k, x))

    # -- malformed 'VALUE (one per run)
    def badvalue(self):
        s = self.s
        k = s.choice(["enum", "int", "int", "phys", "real", "char", "sub"])
        if k == "enum":
            t, lits = s.choice(self.ens)
            l = s.choice(lits)
            alts = ["", " ", l + "x", "zz_" + l, l[:-1], l + " " + l, "'" + l, "\\" + l + "\\", l + ";"]
            if l[0] == "'" and l[1].isalpha():
                alts.append(l.swapcase())
            if l[0] == "\\":
                alts.append(l.swapcase())
            if len(l) > 2 and l[0] not in "'\\":
                alts.append(l[:2] + " " + l[2:])
            low = [x if x[0] in "'\\" else x.lower() for x in lits]
            txt = s.choice(alts)
            st = txt.strip()
            if (st if st[:1] in ("'", "\\") else st.lower()) in low:
                return
            txt = self.ws() + txt if txt.strip() else txt
        elif k == "int":
            t, lo, hi = s.choice(self.ints)
            txt = s.choice(["", " ", "x", "12x", "1 2", "--5", "- 5", "-", "1__0", "_1", "1_", "1.0", ".", "0x10", "1,2", str(hi + 1), str(lo - 1),
                            "12 u", "(1)", "1-"])
            if self.std == "2019" and abs(hi) > 2**62 and txt in (str(hi + 1), str(lo - 1)):
                return      # 64-bit arithmetic is not checked for overflow
        elif k == "phys":
            t, us, lo, hi = s.choice(self.phs)
            u = us[0][0]
            txt = s.choice(["", u, "5", "5 zz", "5 %sx" % u, "x %s" % u, "5 5 %s" % u, "5 %s 5" % u, "-" + u, "5 %s %s" % (u, u), "1__0 %s" % u, "5_ %s" % u])
            if t == "PH" and s.bool(0.3):
                txt = "%d %s" % (s.choice([hi + 1, lo - 1]), u)
        elif k == "real":
            t = "REAL"
            txt = s.choice(["", "x", "1.5x", "1.0e", "1.0e+", "1.0ex", "1.0e5x", "-", ".", "1 .0", "1. 0", "--1.0", "1.0.0", "1.0e1000", "- 1.0", "1.0 e5", "e5",
                            "1.0 2.0"])
        elif k == "char":
            t = "CHARACTER"
            txt = s.choice(["", "x", "'x", "x'", "'xy'", "''", "nulx", "' x'", "'x ' '", "nu l"])
        else:
            t = "SUB"
            txt = s.choice(["100", "-8", "x", "2147483648"])
            if self.std == "2019" and False:
                return
        sc = "SUB" if k == "sub" else t
        ref = {"REAL": "real'image(%s)"}.get(t, "%s'image(%%s)" % ("INTEGER" if t == "SUB" else t))
        self.bad.append((ref % ("%s'value(%s)" % (sc, "id(%s)" % q(txt) if s.bool(0.7) else q(txt))), ("badvalue", sc, txt)))

    def source(self):
        L = ["use std.textio.all;", "library ieee;", "use ieee.std_logic_1164.all;", "use ieee.numeric_std.all;",
             "entity tb is generic (k : natural := 0); end entity;", "architecture a of tb is"]
        L += self.decl
        L += ["begin", "  p : process"]
        L += self.var
        L += ["    variable good : boolean;", "  begin", "    if k = 0 then"]
        L += self.body
        L += ["    end if;"]
        for i, (e, _) in enumerate(self.bad):
            L += ["    if k = %d then report \"bad:[\" & %s & \"]\"; end if;" % (i + 1, e)]
        L += ["    wait;", "  end process;", "end architecture;"]
        return "\n".join(L) + "\n"


def gen(s, index):
    g = G(s)
    return {"src": g.source(), "exp": {k: list(v) for k, v in g.exp.items()}, "bad": g.bad, "std": g.std,
            "engine": s.choice(["interp", "jit", "mixed", "aot0", "aot2"])}


def close(text, want):
    _, v, tol = want
    if not re.fullmatch(r" *-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?", text):
        return False
    return abs(float(text) - v) <= tol * abs(v) + 5e-324


def check(case, env):
    d = env.dir()
    R = nvc.sim(env, d, case["src"], "tb", std=case["std"], engine=case["engine"], gopts=["--messages=compact"])
    text = R.out + R.err
    try:
        text = text.encode("latin-1").decode("utf-8")
    except (UnicodeDecodeError, UnicodeEncodeError):
        pass
    if R.crashed or R.timeout:
        raise Fail("nvc crashed or hung: " + text[-500:], sig="crash")
    got = {}
    for m in re.finditer(r"(?m)note: [^ ]+: (k[0-9]+):\[(.*)\]$", text):
        got[m.group(1)] = m.group(2)
    rest = [l for l in text.splitlines() if re.search(r"(error|fatal|failure|warning): ", l)]
    if rest and not got:
        raise Fail("unexpected message: " + rest[0], sig="msg", detail=text[:3000])
    for k, (want, key) in case["exp"].items():
        env.count(not (key[0] in ("image", "to_string") and str(key[-1]) in ("0", "1", "2", "3", "4", "5")))
        env.mark(repr(key))
        if k not in got:
            raise Fail("no result %s for %s: %s" % (k, key, rest[:1]), sig="noresult", detail=text[-2000:])
        ok = close(got[k], want) if isinstance(want, (list, tuple)) else got[k] == want
        if not ok:
            raise Fail("%s: got [%s] expected [%s]" % (key, got[k], want), sig=str(key[0]), detail=case["src"])
    if R.rc != 0 or rest:
        raise Fail("unexpected message or exit status %d: %s" % (R.rc, rest[:2]), sig="rc", detail=text[-2000:])
    for i, (e, key) in enumerate(case["bad"]):
        R = nvc.sim(env, d, case["src"], "tb", std=case["std"], engine="interp" if case["engine"].startswith("aot") else case["engine"], eopts=["-gk=%d" % (i + 1)],
                    gopts=["--messages=compact"])
        if R.crashed or R.timeout:
            raise Fail("nvc crashed on %s" % (key,), sig="crash", detail=R.out + R.err)
        env.count(True)
        env.mark(repr(key))
        if R.rc == 0 or "bad:[" in R.out + R.err:
            raise Fail("%s accepted: %s" % (key, (R.out + R.err)[:300]), sig="accepted", detail=e)


PINNED = []

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
