"""C01: scalar arithmetic against exact Python arithmetic."""
import math, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import pbt, nvc
from vp.pbt import Fail, Skip

PID = "C01"
CASES = {"quick": 4500, "thorough": 90000}
BUDGET = {"quick": 240, "thorough": 3 * 3600}
TECHNIQUE = "property-based testing: generated arithmetic programs against exact Python integer and IEEE double evaluation, on two engines per case"
NOTE = ("samples expressions; intermediate results stay inside the declared type; results beyond 64 bits (where existing "
        "tests expect wrap-around) and the listed known findings are excluded by construction")
RULE = ("a case is a generated VHDL program with up to 40 expressions over generated integer, physical and real "
        "types (operands as literals, constants, variables, signals, function results, generics) plus at most one "
        "expression that must be rejected, run on two engines; an expression is non-trivial when it applies at "
        "least one operator to operands that are not all in -4..12, or must be rejected")
ASSUMPTIONS = ["intermediate results outside the declared range of a type are not generated (implementation-defined base type)",
               "REAL results are compared bit-exactly except ** (2 ulp)"]

I64LO, I64HI = -(1 << 63), (1 << 63) - 1


def lit(v, ty):
    """Expression text denoting integer v of an integer type."""
    if v == I64LO:
        return "(-9223372036854775807-1)"
    return str(v) if v >= 0 else "(%d)" % v


def storage(lo, hi):
    for b in (8, 16, 32, 64):
        if lo >= 0 and hi < (1 << b) and b < 64:
            return (0, (1 << b) - 1)
        if lo >= -(1 << (b - 1)) and hi < (1 << (b - 1)):
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return (I64LO, I64HI)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class G:
    def __init__(self, src):
        self.s = src
        self.types = [("INTEGER", -(1 << 31), (1 << 31) - 1, None)]
        self.decl = []
        for k in range(src.int(1, 3)):
            b = src.choice([7, 8, 15, 16, 31, 32, 63, 4, 62, 33])
            form = src.int(0, 4)
            if form == 0:
                lo, hi = -(1 << b), (1 << b) - 1
            elif form == 1:
                lo, hi = 0, (1 << b) - 1
            elif form == 2:
                lo, hi = -(1 << b) + 1, (1 << b) - 1
            elif form == 3:
                lo = src.edge(-(1 << b), (1 << b) - 1)
                hi = src.edge(lo, (1 << b) - 1)
            else:
                lo = src.int(-20, 5)
                hi = lo + src.int(1, 300)
            n = "T%d" % k
            if src.bool(0.2):
                self.decl.append("  type %s is range %s downto %s;" % (n, lit(hi, 0), lit(lo, 0)))
            else:
                self.decl.append("  type %s is range %s to %s;" % (n, lit(lo, 0), lit(hi, 0)))
            self.types.append((n, lo, hi, None))
        # physical type
        k1, k2 = src.int(2, 1000), src.int(2, 1000)
        self.phys = ("PH", k1, k1 * k2)
        self.decl.append("  type PH is range %s to 9223372036854775807 units pu; pv = %d pu; pw = %d pv; end units;"
                         % (lit(I64LO, 0) if src.bool() else "-9223372036854775807", k1, k2))
        self.vars, self.sigs, self.consts, self.pre, self.gens = [], [], [], [], []
        for n, lo, hi, _ in self.types:
            self.decl.append("  function id_%s (x : %s) return %s is begin return x; end function;" % (n, n, n))
        self.decl.append("  function id_PH (x : PH) return PH is begin return x; end function;")
        self.decl.append("  function id_REAL (x : REAL) return REAL is begin return x; end function;")
        self.nontriv = []
        self.pool = {}

    def bounds(self, tn):
        for n, lo, hi, _ in self.types:
            if n == tn:
                return lo, hi
        return None

    def sub(self, tn, v):
        """A subtype indication of type tn that contains v."""
        b = self.bounds(tn)
        if b is None or v is None or not self.s.bool(0.5):
            return tn
        if tn == "INTEGER" and self.s.bool(0.4):
            return "POSITIVE" if v > 0 else "NATURAL" if v == 0 else tn
        if tn == "INTEGER" and v >= 0 and self.s.bool(0.3):
            return "NATURAL"
        lo = v if self.s.bool(0.15) else self.s.choice([b[0], max(b[0], min(v, self.s.int(0, 1))), self.s.edge(b[0], v)])
        hi = v if self.s.bool(0.15) else self.s.choice([b[1], min(b[1], max(v, self.s.int(-1, 0))), self.s.edge(v, b[1])])
        if self.s.bool(0.2):
            return "%s range %s downto %s" % (tn, lit(hi, 0), lit(lo, 0))
        return "%s range %s to %s" % (tn, lit(lo, 0), lit(hi, 0))

    def leaf(self, tn, text, val=None):
        """Wrap literal text of type tn in some storage form."""
        k = self.s.raw(7)
        stn = self.sub(tn, val)
        n = len(self.vars) + len(self.sigs) + len(self.consts) + len(self.gens)
        if k == 0:
            return "%s'(%s)" % (tn, text)
        if k == 1:
            self.consts.append("  constant c%d : %s := %s;" % (n, stn, text))
            return "c%d" % n
        if k == 2:
            self.vars.append("    variable v%d : %s := %s;" % (n, stn, text))
            return "v%d" % n
        if k == 3:
            self.sigs.append("  signal s%d : %s := %s;" % (n, stn, text))
            return "s%d" % n
        if k == 4:
            return "id_%s(%s)" % (tn, text)
        if k == 5:
            self.vars.append("    variable v%d : %s;" % (n, self.sub(tn, val)))
            self.sigs.append("  signal s%d : %s := %s;" % (n, stn, text))
            self.pre.append("    v%d := s%d;" % (n, n))
            return "v%d" % n
        self.vars.append("    variable v%d : %s := id_%s(%s);" % (n, stn, tn, text))
        return "v%d" % n

    def operand(self, tn, mk, text):
        """A fresh operand or, often, one already used."""
        pool = self.pool.setdefault(tn, [])
        if pool and self.s.bool(0.35):
            return pool[self.s.raw(len(pool))]
        v = mk()
        e = self.leaf(tn, text(v), v if isinstance(v, int) else None)
        if re.match(r"[vsc]\d+$", e):
            pool.append((e, v))
            del pool[:-4]
        return e, v

    def ival(self, lo, hi):
        return self.s.edge(lo, hi)

    def iexpr(self, t, depth):
        """-> (text, value or None when it must be rejected)."""
        tn, lo, hi, _ = t
        s = self.s
        if depth == 0 or s.bool(0.15):
            return self.operand(tn, lambda: self.ival(lo, hi), lambda v: lit(v, t))
        op = s.choice(["+", "-", "*", "/", "mod", "rem", "**", "neg", "abs", "min", "max", "conv", "plus"])
        a, av = self.iexpr(t, depth - 1)
        if av is None:
            return a, None
        slo, shi = storage(lo, hi)
        if op in ("neg", "abs", "plus"):
            r = -av if op == "neg" else abs(av) if op == "abs" else av
            if r > I64HI:
                return a, av
            if op == "abs" and av == slo and slo < 0:
                return a, av         # known finding K01-abs
            txt = {"neg": "(-%s)", "abs": "(abs %s)", "plus": "(+%s)"}[op] % a
            self.nt = True
            return txt, (r if lo <= r <= hi else None)
        if op == "**":
            e = s.weighted([(6, s.int(0, 5)), (2, s.int(0, 300)), (1, -1), (1, -s.int(1, 100))])
            et = self.leaf("INTEGER", lit(e, 0), e)
            self.nt = True
            if e < 0:
                return "(%s ** %s)" % (a, et), None
            r = av ** e if (abs(av) < 2 or e < 2 or e * abs(av).bit_length() < 2000) else 1 << 2000
            if not I64LO <= r <= I64HI:
                return a, av
            return "(%s ** %s)" % (a, et), (r if lo <= r <= hi else None)
        if op == "conv":
            t2 = s.choice(self.types)
            b, bv = self.iexpr(t2, 0)
            if bv is None:
                return b, None
            self.nt = True
            return "%s(%s)" % (tn, b), (bv if lo <= bv <= hi else None)
        b, bv = self.iexpr(t, s.int(0, depth - 1))
        if bv is None:
            return b, None
        if op in ("*",) and s.bool(0.7) and not lo <= av * bv <= hi and av:
            bv = tdiv(s.choice([lo, hi]), av) + s.int(-1, 1)
            bv = max(lo, min(hi, bv))
            b = self.leaf(tn, lit(bv, t), bv)
        if op == "+" and not lo <= av + bv <= hi and s.bool(0.7):
            bv = s.choice([lo, hi]) - av + s.int(-1, 1)
            bv = max(lo, min(hi, bv))
            b = self.leaf(tn, lit(bv, t), bv)
        if op == "-" and not lo <= av - bv <= hi and s.bool(0.7):
            bv = av - s.choice([lo, hi]) + s.int(-1, 1)
            bv = max(lo, min(hi, bv))
            b = self.leaf(tn, lit(bv, t), bv)
        self.nt = True
        if op in ("/", "mod", "rem"):
            if bv == 0 and s.bool(0.7):
                bv = 1 if lo <= 1 <= hi else hi
                b = self.leaf(tn, lit(bv, t), bv)
            if bv == 0:
                return "(%s %s %s)" % (a, op, b), None
            if bv == -1 and av == slo:
                return a, av         # known finding K01-div
            q = tdiv(av, bv)
            r = q if op == "/" else av - q * bv if op == "rem" else av - (av // bv) * bv
            return "(%s %s %s)" % (a, op, b), (r if lo <= r <= hi else None)
        if op in ("min", "max"):
            f = "minimum" if op == "min" else "maximum"
            return "%s(%s, %s)" % (f, a, b), (min(av, bv) if op == "min" else max(av, bv))
        r = {"+": av + bv, "-": av - bv, "*": av * bv}[op]
        if not I64LO <= r <= I64HI:
            return a, av            # 64-bit wrap-around is what test/regress/integer2 expects
        return "(%s %s %s)" % (a, op, b), (r if lo <= r <= hi else None)

    def plit(self, v):
        _, k1, k2 = self.phys
        # use larger units when they divide
        if v and v % k2 == 0 and self.s.bool():
            return ("%d pw" if v > 0 else "(%d pw)") % (v // k2)
        if v and v % k1 == 0 and self.s.bool():
            return ("%d pv" if v > 0 else "(%d pv)") % (v // k1)
        return "%d pu" % v if v >= 0 else "(%d pu)" % v

    def pexpr(self, depth):
        s = self.s
        lo, hi = -(1 << 62), (1 << 62)
        if depth == 0 or s.bool(0.15):
            return self.operand("PH", lambda: s.edge(lo, hi), self.plit)
        op = s.choice(["+", "-", "*i", "i*", "/i", "mod", "rem", "neg", "abs", "min", "max", "*r", "/r"])
        a, av = self.pexpr(depth - 1)
        self.nt = True
        if op == "neg":
            return "(-%s)" % a, -av
        if op == "abs":
            return "(abs %s)" % a, abs(av)
        if op in ("*i", "i*", "/i"):
            it = s.choice(["INTEGER"])
            k = s.edge(-(1 << 31), (1 << 31) - 1)
            if op != "/i" and not lo <= av * k <= hi:
                k = max(-(1 << 31), min((1 << 31) - 1, tdiv(hi, av) if av else 0))
            kt = self.leaf(it, lit(k, 0))
            if op == "/i":
                if k == 0:
                    k = 7
                    kt = self.leaf(it, "7")
                return "(%s / %s)" % (a, kt), tdiv(av, k)
            return ("(%s * %s)" % (a, kt) if op == "*i" else "(%s * %s)" % (kt, a)), av * k
        if op in ("*r", "/r"):
            # exact powers of two only, small magnitudes: result must be exact
            if abs(av) >= 1 << 40:
                return a, av
            e = s.int(-3, 3)
            f = 2.0 ** e
            r = av * f if op == "*r" else av / f
            if r != int(r):
                f, r = 4.0, (av * 4.0 if op == "*r" else av / 4.0)
                if r != int(r):
                    return a, av
            return "(%s %s %s)" % (a, op[0], self.leaf("REAL", repr(f))), int(r)
        b, bv = self.pexpr(s.int(0, depth - 1))
        if op == "+" and not lo <= av + bv <= hi or op == "-" and not lo <= av - bv <= hi:
            return a, av
        if op in ("mod", "rem"):
            if bv == 0:
                return a, av
            q = tdiv(av, bv)
            return "(%s %s %s)" % (a, op, b), (av - q * bv if op == "rem" else av - (av // bv) * bv)
        if op in ("min", "max"):
            f = "minimum" if op == "min" else "maximum"
            return "%s(%s, %s)" % (f, a, b), (min(av, bv) if op == "min" else max(av, bv))
        return "(%s %s %s)" % (a, op, b), (av + bv if op == "+" else av - bv)

    def rlit(self):
        s = self.s
        k = s.raw(6)
        if k == 0:
            v = float(s.int(-20, 20))
        elif k == 1:
            v = s.int(-1000, 1000) / 8.0
        elif k == 2:
            v = float(s.edge(-(1 << 53), 1 << 53))
        elif k == 3:
            v = s.edge(-(1 << 53), 1 << 53) * 10.0 ** s.int(-30, 30)
        elif k == 4:
            v = (s.edge(-(1 << 50), 1 << 50) + 0.5)
        else:
            v = s.int(-999999, 999999) / 10.0 ** s.int(0, 9)
        return v

    @staticmethod
    def rtext(v):
        t = repr(abs(v))
        if "e" in t:
            m, e = t.split("e")
            if "." not in m:
                m += ".0"
            t = "%se%d" % (m, int(e))
        return t if math.copysign(1, v) > 0 else "(-%s)" % t

    def rexpr(self, depth):
        s = self.s
        if depth == 0 or s.bool(0.1):
            return self.operand("REAL", self.rlit, self.rtext)
        op = s.choice(["+", "-", "*", "/", "neg", "abs", "min", "max", "conv", "**"])
        self.nt = True
        a, av = self.rexpr(depth - 1)
        if op == "neg":
            return "(-%s)" % a, -av
        if op == "abs":
            return "(abs %s)" % a, abs(av)
        if op == "conv":
            t = s.choice(self.types)
            b, bv = self.iexpr(t, 0)
            return "REAL(%s)" % b, float(bv)
        if op == "**":
            v = s.int(-12, 12) / 4.0
            e = s.int(-6, 10)
            if v == 0 and e < 0:
                e = -e
            # exact: small dyadic rationals
            try:
                r = v ** e
            except OverflowError:
                return a, av
            if e < 0 and (v == 0 or math.frexp(v)[0] not in (0.5, -0.5)):
                return a, av
            return "(%s ** %s)" % (self.leaf("REAL", self.rtext(v)), self.leaf("INTEGER", lit(e, 0))), r
        b, bv = self.rexpr(s.int(0, depth - 1))
        try:
            if op == "+":
                r = av + bv
            elif op == "-":
                r = av - bv
            elif op == "*":
                r = av * bv
            elif op == "/":
                if bv == 0:
                    return a, av
                r = av / bv
            elif op == "min":
                if av == 0 and bv == 0:
                    return a, av
                return "minimum(%s, %s)" % (a, b), min(av, bv)
            else:
                if av == 0 and bv == 0:
                    return a, av
                return "maximum(%s, %s)" % (a, b), max(av, bv)
        except OverflowError:
            return a, av
        if math.isinf(r) or math.isnan(r) or (r != 0 and abs(r) < 1e-300):
            return a, av
        return "(%s %s %s)" % (a, op, b), r


CMP = ["=", "/=", "<", "<=", ">", ">="]


def docmp(op, a, b):
    return {"=": a == b, "/=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def gen(src, index):
    g = G(src)
    solo = index % 3 != 0         # only one statement, which must be rejected
    n = 30 if solo else src.int(4, 40)
    items = []        # (stmt text, expected text)
    err = None
    kinds = []
    for i in range(n):
        if solo and err is not None:
            break
        kind = "int" if solo else src.weighted([(12, "int"), (3, "cmp"), (3, "phys"), (3, "real"), (1, "pdiv"), (2, "r2i"), (2, "i2i")])
        g.nt = False
        nv = (len(g.vars), len(g.sigs), len(g.consts), len(g.pre))
        depth = src.weighted([(5, 1), (3, 2), (1, 3)])
        if kind in ("int", "i2i"):
            t = src.choice(g.types)
            e, v = g.iexpr(t, depth)
            form = src.int(2, 4) if solo else src.raw(5)
            if form >= 3:
                # a destination of a subtype that may or may not contain the value
                lo, hi = t[1], t[2]
                m = v
                if v is None:
                    m = src.edge(lo, hi)
                elif solo or src.bool(0.4):
                    if v < 0 <= hi and src.bool():
                        m = lo = src.int(0, min(1, hi))
                    elif v > 0 >= lo and src.bool(0.3):
                        m = hi = -src.int(0, min(1, -lo))
                    elif src.bool() and v < hi:
                        m = src.edge(v + 1, hi)
                        lo = src.edge(v + 1, m)
                    elif v > lo:
                        m = src.edge(lo, v - 1)
                        hi = src.edge(m, v - 1)
                lo = src.choice([lo, src.edge(lo, m)])
                hi = src.choice([hi, src.edge(m, hi)])
                if v is not None and not lo <= v <= hi:
                    v = None
                g.vars.append("    variable d%d : %s range %s to %s;" % (i, t[0], lit(lo, 0), lit(hi, 0)))
                st = "    d%d := %s; write(output, %s'image(d%d) & LF);" % (i, e, t[0], i)
            elif form == 0 and v is not None:
                st = "    write(output, %s'image(%s) & LF);" % (t[0], e)
            elif form == 1:
                st = "    r_%s := %s; write(output, %s'image(r_%s) & LF);" % (t[0], e, t[0], t[0])
            else:
                st = "    r_%s := id_%s(%s); write(output, %s'image(r_%s) & LF);" % (t[0], t[0], e, t[0], t[0])
            if v is None:
                if err is None or src.bool(0.7 if form >= 3 else 0.3):
                    err = st
                    kinds.append("err")
                    g.nontriv.append(e)
                else:
                    # undo the declarations of a rejected expression that is not used
                    g.vars, g.sigs, g.consts, g.pre = (g.vars[:], g.sigs[:], g.consts[:], g.pre[:])
                continue
            exp = str(v)
        elif kind == "cmp":
            w = src.raw(3)
            if w == 0:
                t = src.choice(g.types)
                a, av = g.iexpr(t, src.int(0, 1))
                b, bv = g.iexpr(t, 0)
                if av is not None and src.bool(0.4):
                    bv = max(t[1], min(t[2], av + src.int(-1, 1)))
                    b = g.leaf(t[0], lit(bv, t))
            elif w == 1:
                a, av = g.pexpr(src.int(0, 1))
                b, bv = g.pexpr(0)
            else:
                a, av = g.rexpr(src.int(0, 1))
                b, bv = g.rexpr(0)
            if av is None or bv is None:
                continue
            op = src.choice(CMP)
            st = "    write(output, boolean'image(%s %s %s) & LF);" % (a, op, b)
            exp = "true" if docmp(op, av, bv) else "false"
            g.nt = True
        elif kind == "phys":
            e, v = g.pexpr(depth)
            st = "    r_PH := %s; write(output, PH'image(r_PH) & LF);" % e
            exp = "%d pu" % v
        elif kind == "pdiv":
            a, av = g.pexpr(1)
            b, bv = g.pexpr(0)
            if bv == 0 or not -(1 << 31) <= tdiv(av, bv) < (1 << 31):
                continue
            st = "    r_INTEGER := INTEGER(%s / %s); write(output, INTEGER'image(r_INTEGER) & LF);" % (a, b)
            exp = str(tdiv(av, bv))
            g.nt = True
        elif kind == "real":
            e, v = g.rexpr(depth)
            st = "    r_REAL := %s; write(output, to_string(r_REAL, \"%%.17g\") & LF);" % e
            exp = v.hex()
        else:
            # real to integer type, round to nearest
            t = src.choice(g.types)
            if src.bool():
                r = g.rlit()
            else:
                r = float(src.edge(t[1], t[2])) + src.choice([0.0, 0.25, -0.25, 0.4999, -0.4999, 0.75])
            fl = math.floor(r)
            d = r - fl
            if d == 0.5:
                r += 0.25 if r + 0.25 != r else 0
                fl = math.floor(r)
                d = r - fl
                if d == 0.5:
                    continue
            v = int(fl) + (1 if d > 0.5 else 0)
            if v == 1 << 63 or v == I64LO:
                continue
            if abs(v) >= 1 << 62 and not t[1] <= v <= t[2]:
                continue        # beyond the 64-bit intermediate
            st = "    r_%s := %s(%s); write(output, %s'image(r_%s) & LF);" % (
                t[0], t[0], g.leaf("REAL", g.rtext(r)), t[0], t[0])
            g.nt = True
            if not t[1] <= v <= t[2]:
                if err is None:
                    err = st
                    kinds.append("err")
                    g.nontriv.append(st)
                continue
            exp = str(v)
        if solo:
            continue
        items.append((st, exp))
        kinds.append(kind)
        if g.nt and re.search(r"\d\d|\.", st + exp):
            g.nontriv.append(st)
    if err is not None and not solo and src.bool(0.2):
        err = None
    lines = ["use std.textio.all;", "entity tb is end entity;", "architecture a of tb is"]
    lines += g.decl + g.consts + g.sigs
    lines += ["begin", "  process is"]
    for tn, lo, hi, _ in g.types:
        lines.append("    variable r_%s : %s;" % (tn, tn))
    lines += ["    variable r_PH : PH; variable r_REAL : REAL;"]
    lines += g.vars + ["  begin"] + g.pre
    for st, _ in items:
        lines.append(st)
    el = None
    if err is not None:
        lines.append(err)
        el = len(lines)
        lines.append("    write(output, \"NOT-REACHED\" & LF);")
    lines += ["    wait;", "  end process;", "end architecture;", ""]
    eng = src.sample(["interp", "jit", "aot0", "aot2", "mixed", "aot1", "aot3"], 2)
    if solo:
        eng = [src.choice(["interp", "jit"])]
    return {"src": "\n".join(lines), "expect": [e for _, e in items], "err_line": el, "engines": eng,
            "kinds": kinds, "nontrivial": g.nontriv}


def req(exp, got):
    if exp == got:
        return True
    if "0x" in exp:
        try:
            return float.fromhex(exp) == float(got)
        except ValueError:
            return False
    return False


def check(case, env):
    for k in case["kinds"]:
        env.label(k)
    for e in case["engines"]:
        env.label("engine-" + e)
        d = env.dir()
        r = nvc.sim(env, d, case["src"], engine=e, gopts=["--messages=compact"])
        env.count(len(case["expect"]) + (1 if case["err_line"] else 0))
        if r.timeout:
            raise Skip("time limit: " + repr(r)[:500])
        det = {"engine": e, "result": repr(r), "src": case["src"]}
        if r.crashed:
            raise Fail("nvc crashed on engine %s\n%s" % (e, r.err[:1500]), "crash", det)
        out = r.out.split("\n")[:-1]
        if case["err_line"] is not None:
            if "NOT-REACHED" in r.out or r.rc == 0:
                raise Fail("an expression without a legal value was not reported (engine %s): line %d: %s" % (
                    e, case["err_line"], case["src"].split("\n")[case["err_line"] - 1].strip()), "missed", det)
            # the error may be found at analysis; then nothing has run
            m = re.search(r"^\S*t\.vhd:(\d+).*?(?:error|fatal)", r.err, re.M | re.I)
            if not m:
                raise Fail("no error diagnostic (engine %s)" % e, "nodiag", det)
            sl = case["src"].split("\n")
            used = sl[case["err_line"] - 1]
            where = sl[int(m[1]) - 1]
            folded = re.match(r"\s*constant (\w+) ", where)
            if folded and re.search(r"\b%s\b" % folded[1], used) and not out:
                env.label("reported-at-constant")     # a folded constant carries the position of its declaration
            elif int(m[1]) != case["err_line"]:
                raise Fail("error reported at line %s, expected line %d (engine %s): %s" % (
                    m[1], case["err_line"], e, m[0]), "wrongline", det)
            if not out:
                env.label("rejected-before-run")
                continue
            env.label("rejected-at-run-time")
        elif r.rc != 0:
            raise Fail("exit status %d although every expression is legal (engine %s): %s" % (e and r.rc, e, r.err[:600]),
                       "false-alarm", det)
        if len(out) != len(case["expect"]):
            raise Fail("%d lines of output, expected %d (engine %s)" % (len(out), len(case["expect"]), e), "count", det)
        for i, (x, o) in enumerate(zip(case["expect"], out)):
            if not req(x, o):
                st = [l for l in case["src"].split("\n") if "write(output" in l][i]
                raise Fail("wrong value on engine %s: expected %s, got %s: %s" % (
                    e, float.fromhex(x) if "0x" in x else x, o, st.strip()), "value", det)
    for x in case["nontrivial"]:
        env.mark(x)


def pin(id, decl, stmts, expect, err_line=None, engines=("interp", "jit", "aot2")):
    src = ("use std.textio.all;\nentity tb is end entity;\narchitecture a of tb is\n"
           " type I64 is range -9223372036854775807-1 to 9223372036854775807;\nbegin\n process is\n%s\n begin\n%s\n wait;\n"
           " end process;\nend architecture;\n" % (decl, stmts))
    return {"id": id, "case": {"src": src, "expect": expect, "err_line": err_line, "engines": list(engines),
                               "kinds": ["pinned"], "nontrivial": []}}


NR = 'write(output, "NOT-REACHED" & LF);'
PINNED = [
    pin("K01-abs", "variable a : integer := integer'low;", "a := abs a;" + NR, [], 9),
    pin("K01-div", "variable a : integer := integer'low; variable b : integer := -1;", "a := a / b;" + NR, [], 9),
    pin("K01-div64", "variable a : I64 := I64'low; variable b : I64 := -1;", "a := a / b;" + NR, [], 9),
    pin("K01-mod64", "variable a : I64 := I64'low; variable b : I64 := -1;",
        "write(output, I64'image(a mod b) & LF);write(output, I64'image(a rem b) & LF);", ["0", "0"]),
    pin("F01-single", "type T is range 0 to 0; variable a : T := 0; variable b : INTEGER := 5;",
        "a := a ** b; write(output, T'image(a) & LF);", ["0"]),
    pin("F01-square", "variable a : INTEGER := 7; variable b : INTEGER := 65536;",
        "write(output, INTEGER'image(a * a) & INTEGER'image(a * 0) & INTEGER'image(0 - a) & LF);a := b ** 4;" + NR, ["490-7"], 9),
]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
