#!/usr/bin/env python3
"""C08: IEEE fixed, float and real-math packages."""
import cmath, math, os, re, struct, sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C08"
CASES = {"quick": 420, "thorough": 14000}
BUDGET = {"quick": 420, "thorough": 3 * 3600}
RULE = "a program with at least twenty package calls on operands which are not all zero and at least five calls whose exact result is not representable (rounding, saturation or wrapping is needed) or that is a math function; distinct by source"
TECHNIQUE = ("differential property testing against an exact reference: random fixed-point, floating-point and real-math calls over random formats, rounding and overflow styles "
             "and boundary-biased operands are compared bit for bit (value and result index range) with a Python model in rational arithmetic, and with the mathematical function "
             "within a tolerance for math_real and math_complex")
NOTE = "operands without metavalues; square root of float within one unit in the last place; UNIFORM is checked exactly"
ASSUMPTIONS = ["Python's math and cmath modules are correct to far below the tolerances used"]


def rnd(x, style):
    """Round a Fraction to an integer."""
    f = math.floor(x)
    if style == "trunc" or style == "neginf":
        return f
    if style == "zero":
        return f if x >= 0 else math.ceil(x)
    if style == "inf":
        return math.ceil(x)
    r = x - f
    if r > Fr(1, 2) or (r == Fr(1, 2) and f % 2):
        return f + 1
    return f


class Fx:
    def __init__(self, sg, hi, lo, n):
        self.sg, self.hi, self.lo, self.n = sg, hi, lo, n

    @property
    def v(self):
        return self.n * Fr(2) ** self.lo

    def bits(self):
        w = self.hi - self.lo + 1
        return format(self.n % 2 ** w, "0%db" % w)


def fit(sg, x, hi, lo, sat, style):
    n = rnd(x / Fr(2) ** lo, style)
    w = hi - lo + 1
    a, b = (-2 ** (w - 1), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
    if sat:
        n = min(max(n, a), b)
    else:
        n %= 2 ** w
        if sg and n > b:
            n -= 2 ** w
    return Fx(sg, hi, lo, n)


# ---------------------------------------------------------------- fixed
class G:
    def __init__(self, s):
        self.s = s
        self.decl, self.body, self.exp = [], [], []
        self.hard = 0
        self.errok = False
        self.k = 0
        self.labels = set()

    def name(self):
        self.k += 1
        return "v%d" % self.k

    def fx(self, sg=None, maxw=20, nz=False, lo=None):
        s = self.s
        sg = s.bool() if sg is None else sg
        w = s.int(2, s.choice([4, 8, maxw]))
        lo = s.int(-10, 4) if lo is None else lo
        hi = lo + w - 1
        n = s.weighted([(1, 0), (1, 2 ** w - 1), (1, 2 ** (w - 1)), (1, 2 ** (w - 1) - 1), (1, 1), (8, None)])
        if n is None:
            n = s.raw(2 ** w)
        if nz and n == 0:
            n = 1
        if sg and n >= 2 ** (w - 1):
            n -= 2 ** w
        x = Fx(sg, hi, lo, n)
        v = self.name()
        self.decl.append("    variable %s : %sfixed(%d downto %d) := \"%s\";" % (v, "s" if sg else "u", hi, lo, x.bits()))
        return v, x

    def out(self, e, want, label, hard=False):
        i = len(self.exp)
        self.body.append("    p(%d, %s);" % (i, e))
        self.exp.append([want, e, label])
        self.labels.add(label)
        if hard:
            self.hard += 1

    def want(self, r):
        return "%d:%d:%s" % (r.hi, r.lo, r.bits())

    def style(self):
        s = self.s
        return s.bool(), s.choice(["round", "trunc"])

    def stylearg(self, sat, st):
        return "fixed_saturate" if sat else "fixed_wrap", "fixed_round" if st == "round" else "fixed_truncate"

    def fixed(self):
        s = self.s
        op = s.weighted([(4, "resize"), (2, "add"), (2, "sub"), (3, "mul"), (4, "div"), (1, "recip"), (1, "neg"), (1, "abs"), (2, "cmp"), (1, "minmax"), (2, "toint"), (2, "touns"),
                         (3, "fromreal"), (2, "fromint"), (1, "toreal"), (1, "scalb"), (1, "shift"), (1, "conv"), (2, "rem"), (1, "logic"), (1, "fromslv"), (1, "resizelike")])
        sg = s.bool()
        lab = "fix-" + op
        t = "sfixed" if sg else "ufixed"
        if op in ("add", "sub", "mul", "div", "cmp", "minmax"):
            if op == "div":
                s2 = s.choice([20, 12])
            else:
                s2 = 20
            a, x = self.fx(sg, s2)
            b, y = self.fx(sg, s2, nz=op == "div")
        else:
            a, x = self.fx(sg)
        if op in ("add", "sub"):
            hi, lo = max(x.hi, y.hi) + 1, min(x.lo, y.lo)
            v = x.v + y.v if op == "add" else x.v - y.v
            r = fit(sg, v, hi, lo, False, "trunc")
            self.out("%s %s %s" % (a, "+" if op == "add" else "-", b), self.want(r), lab, v < 0 and not sg)
        elif op == "mul":
            r = fit(sg, x.v * y.v, x.hi + y.hi + 1, x.lo + y.lo, False, "trunc")
            self.out("%s * %s" % (a, b), self.want(r), lab)
        elif op in ("div", "recip"):
            if op == "recip":
                b, y = self.fx(sg, 20, nz=True)
                x = Fx(sg, 1 if sg else 0, 0, 1)
            st, g = "round", 3
            call = "%s / %s" % (a, b)
            if op == "recip":
                call = "reciprocal(%s)" % b
            elif s.bool():
                st, g = s.choice(["round", "trunc"]), s.int(0, 6)
                call = "divide(%s, %s, %s, %d)" % (a, b, "fixed_round" if st == "round" else "fixed_truncate", g)
            hi, lo = (x.hi - y.lo + 1, x.lo - y.hi) if sg else (x.hi - y.lo, x.lo - y.hi - 1)
            if op == "recip" and sg:
                # the numerator is the two bit value 01 resized
                hi, lo = -y.lo + 1, -y.hi
            q = x.v / y.v * Fr(2) ** (g - lo)
            q = rnd(q, "zero")
            r = fit(sg, q * Fr(2) ** (lo - g), hi, lo, False, st)
            self.out(call, self.want(r), lab, True)
        elif op == "neg":
            a, x = self.fx(True)
            self.out("-%s" % a, self.want(Fx(True, x.hi + 1, x.lo, -x.n)), lab)
        elif op == "abs":
            a, x = self.fx(True)
            self.out("abs %s" % a, self.want(Fx(True, x.hi + 1, x.lo, abs(x.n))), lab)
        elif op == "cmp":
            if s.bool(0.3):
                # nearly equal values in different formats
                w = s.int(0, 3)
                n = x.n * 2 ** w + s.int(-1, 1)
                hi, lo = x.hi + 1, x.lo - w
                y = fit(sg, n * Fr(2) ** lo, hi, lo, True, "trunc")
                b = self.name()
                self.decl.append("    variable %s : %s(%d downto %d) := \"%s\";" % (b, t, hi, lo, y.bits()))
            o = s.choice(["=", "/=", "<", "<=", ">", ">="])
            v = {"=": x.v == y.v, "/=": x.v != y.v, "<": x.v < y.v, "<=": x.v <= y.v, ">": x.v > y.v, ">=": x.v >= y.v}[o]
            if s.bool(0.3):
                self.out("%s ?%s %s" % (a, o, b), "1" if v else "0", lab)
            else:
                self.out("%s %s %s" % (a, o, b), str(v).lower(), lab)
        elif op == "minmax":
            m = s.choice(["maximum", "minimum"])
            hi, lo = max(x.hi, y.hi), min(x.lo, y.lo)
            v = max(x.v, y.v) if m == "maximum" else min(x.v, y.v)
            self.out("%s(%s, %s)" % (m, a, b), self.want(fit(sg, v, hi, lo, True, "trunc")), lab)
        elif op in ("resize", "resizelike"):
            sat, st = self.style()
            hi = x.hi + s.int(-6, 4)
            lo = x.lo + s.int(-4, 6)
            if hi < lo:
                hi, lo = lo, hi
            if s.bool(0.1):
                lo = x.hi + s.int(0, 3)
                hi = lo + s.int(0, 4)
            if s.bool(0.1):
                hi = x.lo - s.int(0, 3)
                lo = hi - s.int(0, 4)
            if sg and hi == lo:
                lo -= 1
            # the package returns the sign for results more than one place above the operand
            r = fit(sg, x.v, hi, lo, sat, "trunc" if lo > x.hi + 1 else st)
            self.labels.add("resize-%s-%s" % ("sat" if sat else "wrap", st))
            if op == "resizelike":
                b = self.name()
                self.decl.append("    variable %s : %s(%d downto %d);" % (b, t, hi, lo))
                self.out("resize(%s, %s, %s, %s)" % ((a, b) + self.stylearg(sat, st)), self.want(r), lab, r.v != x.v)
            elif sat and st == "round" and s.bool():
                self.out("resize(%s, %d, %d)" % (a, hi, lo), self.want(r), lab, r.v != x.v)
            else:
                self.out("resize(%s, %d, %d, %s, %s)" % ((a, hi, lo) + self.stylearg(sat, st)), self.want(r), lab, r.v != x.v)
        elif op == "toint":
            sat, st = self.style()
            if x.hi < 1 or x.hi > 28:
                return
            v = fit(sg, x.v, x.hi + 1 if not sg else x.hi + 1, 0, True, st).n
            self.out("to_integer(%s, %s, %s)" % ((a,) + self.stylearg(True, st)), str(v), lab, v != x.v)
        elif op == "touns":
            sat, st = self.style()
            w = s.int(2, 12)
            r = fit(sg, x.v, w - 1, 0, sat, "trunc" if x.hi < -1 else st)
            self.out("std_ulogic_vector(to_%s(%s, %d, %s, %s))" % (("signed" if sg else "unsigned", a, w) + self.stylearg(sat, st)), r.bits(), lab, r.v != x.v)
        elif op in ("fromreal", "fromint"):
            sat, st = self.style()
            w = s.int(2, 16)
            lo = s.int(-8, 2)
            hi = lo + w - 1
            if op == "fromreal":
                e = s.choice([0, 1, 3, 8])
                m = s.int(-2 ** (w + 2), 2 ** (w + 2)) if s.bool(0.8) else s.int(-2 ** (w + 8), 2 ** (w + 8))
                v = m * Fr(2) ** (lo - e)
                if not sg:
                    v = abs(v)
                n = self.name()
                self.decl.append("    variable %s : real := %s;" % (n, self.real(float(v))))
                g = 3
                # digits beyond the guard bits are ignored
                q = rnd(abs(v) * Fr(2) ** (g - lo), "zero") * Fr(2) ** (lo - g)
                q = q if v >= 0 else -q
                if sg and (q != v or st == "trunc"):
                    if v < 0:
                        return     # truncation of negative reals is not specified precisely
                r = fit(sg, q, hi, lo, sat, st)
                if not sat and (v >= 2 ** (hi + 1 - sg) or v < -2 ** hi):
                    return
            else:
                v = s.int(-2 ** (min(hi, 20) + 2) if hi > -2 else -3, 2 ** (min(hi, 20) + 2) if hi > -2 else 3)
                if hi < 1:
                    return
                if not sg:
                    v = abs(v)
                n = self.name()
                self.decl.append("    variable %s : integer := %d;" % (n, v))
                r = fit(sg, Fr(v), hi, lo, sat, st)
            self.out("to_%s(%s, %d, %d, %s, %s)" % ((t, n, hi, lo) + self.stylearg(sat, st)), self.want(r), lab, r.v != v)
        elif op == "toreal":
            self.out("to_real(%s)" % a, float(x.v), lab)
        elif op == "scalb":
            n = s.int(-6, 6)
            self.out("scalb(%s, %d)" % (a, n), self.want(Fx(sg, x.hi + n, x.lo + n, x.n)), lab)
        elif op == "shift":
            n = s.int(0, 8)
            w = x.hi - x.lo + 1
            o = s.choice(["sll", "srl", "shift_left", "shift_right", "rol", "ror"])
            u = x.n % 2 ** w
            if o in ("sll", "shift_left"):
                r = u << n
            elif o == "srl":
                r = u >> n
            elif o == "shift_right":
                r = x.n >> n
            else:
                k = n % w
                if o == "ror":
                    k = (w - k) % w
                r = (u << k) | (u >> (w - k))
            self.out(("%s %s %d" % (a, o, n)) if o in ("sll", "srl", "rol", "ror") else "%s(%s, %d)" % (o, a, n), "%d:%d:%s" % (x.hi, x.lo, format(r % 2 ** w, "0%db" % w)), lab)
        elif op == "conv":
            if not sg:
                self.out("to_sfixed(%s)" % a, self.want(Fx(True, x.hi + 1, x.lo, x.n)), lab)
        elif op == "rem":
            # both operands with the same number of fraction bits
            lo = s.int(-6, 0)
            a, x = self.fx(sg, 14, lo=lo)
            b, y = self.fx(sg, 14, nz=True, lo=lo)
            o = s.choice(["rem", "mod"])
            if x.hi < y.lo or (sg and (x.n == -2 ** (x.hi - x.lo) or y.n == -2 ** (y.hi - y.lo))):
                return
            q = x.n % y.n
            if o == "rem":
                q = abs(x.n) % abs(y.n)
                q = -q if x.n < 0 else q
            self.out("%s %s %s" % (a, o, b), "*" + str(q * Fr(2) ** lo), lab)
        elif op == "logic":
            w = x.hi - x.lo + 1
            y = self.name()
            n2 = s.raw(2 ** w)
            self.decl.append("    variable %s : %s(%d downto %d) := \"%s\";" % (y, t, x.hi, x.lo, format(n2, "0%db" % w)))
            u = x.n % 2 ** w
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            r = {"and": u & n2, "or": u | n2, "xor": u ^ n2, "nand": ~(u & n2), "nor": ~(u | n2), "xnor": ~(u ^ n2)}[o] % 2 ** w
            self.out("%s %s %s" % (a, o, y), "%d:%d:%s" % (x.hi, x.lo, format(r, "0%db" % w)), lab)
        elif op == "fromslv":
            w = x.hi - x.lo + 1
            self.out("to_%s(to_slv(%s), %d, %d)" % (t, a, x.hi, x.lo), self.want(x), lab)

    def real(self, f):
        r = repr(f)
        if "e" in r:
            m, e = r.split("e")
            if "." not in m:
                m += ".0"
            return "%se%d" % (m, int(e))
        return r

    # ---------------------------------------------------------------- float
    def fmt(self):
        return self.s.weighted([(4, (8, 23)), (3, (11, 52)), (2, (5, 10)), (1, (4, 3)), (1, (6, 9)), (1, (8, 7)), (1, (3, 4))])

    def fbits(self, e, m):
        """Random encoding -> (sign, exp, frac)"""
        s = self.s
        E = 2 ** e - 1
        k = s.weighted([(1, "zero"), (1, "inf"), (1, "nan"), (2, "denorm"), (1, "max"), (1, "minnorm"), (2, "one"), (8, "near"), (4, "any")])
        sg = s.int(0, 1)
        if k == "zero":
            return sg, 0, 0
        if k == "inf":
            return sg, E, 0
        if k == "nan":
            return sg, E, 1 + s.raw(2 ** m - 1)
        if k == "denorm":
            return sg, 0, s.weighted([(1, 1), (1, 2 ** m - 1), (3, 1 + s.raw(2 ** m - 1))])
        if k == "max":
            return sg, E - 1, 2 ** m - 1 - s.choice([0, 0, 1])
        if k == "minnorm":
            return sg, 1, s.choice([0, 0, 1])
        b = 2 ** (e - 1) - 1
        fr = s.weighted([(1, 0), (1, 2 ** m - 1), (1, 1), (1, 2 ** (m - 1)), (5, s.raw(2 ** m))])
        if k == "one":
            return sg, b, fr if s.bool() else 0
        if k == "near":
            return sg, min(max(b + s.int(-m - 2, m + 2), 1), E - 1) if s.bool(0.4) else min(max(b + s.int(-2, 2), 1), E - 1), fr
        return sg, s.int(0, E - 1), fr

    def fval(self, e, m, b):
        """'nan', +-inf as strings or (sign, Fraction)"""
        sg, x, f = b
        E = 2 ** e - 1
        bias = 2 ** (e - 1) - 1
        if x == E:
            return "nan" if f else ("-inf" if sg else "+inf")
        if x == 0:
            v = Fr(f) * Fr(2) ** (1 - bias - m)
        else:
            v = Fr(2 ** m + f) * Fr(2) ** (x - bias - m)
        return (sg, -v if sg else v)

    def fround(self, e, m, v, style="nearest", zsign=0):
        """Round the Fraction to the format: encoding bits."""
        E = 2 ** e - 1
        bias = 2 ** (e - 1) - 1
        sg = 1 if v < 0 else (zsign if v == 0 else 0)
        a = abs(v)
        st = style
        if style in ("inf", "neginf"):
            st = "inf" if (style == "inf") != (sg == 1) else "zero"
        if a == 0:
            return (sg, 0, 0)
        ex = math.floor(math.log2(a)) if False else a.numerator.bit_length() - a.denominator.bit_length()
        if Fr(2) ** ex > a:
            ex -= 1
        elif Fr(2) ** (ex + 1) <= a:
            ex += 1
        ex = max(ex, 1 - bias)
        n = rnd(a / Fr(2) ** (ex - m), "round" if st == "nearest" else st)
        if n >= 2 ** (m + 1):
            n >>= 1
            ex += 1
        if ex > bias:
            if st == "zero":
                return (sg, E - 1, 2 ** m - 1)
            return (sg, E, 0)
        if n < 2 ** m:
            return (sg, 0, n)
        return (sg, ex + bias, n - 2 ** m)

    def fstr(self, e, m, b):
        sg, x, f = b
        return "%d%s%s" % (sg, format(x, "0%db" % e), format(f, "0%db" % m))

    def fvar(self, e, m, b):
        v = self.name()
        self.decl.append("    variable %s : float(%d downto %d) := \"%s\";" % (v, e, -m, self.fstr(e, m, b)))
        return v

    def fwant(self, e, m, b):
        if b == "nan":
            return "%d:%d:nan%d" % (e, -m, e)
        return "%d:%d:%s" % (e, -m, self.fstr(e, m, b))

    def arith(self, op, e, m, x, y, style):
        inf = ("+inf", "-inf")
        if x == "nan" or y == "nan":
            return "nan"
        E = 2 ** e - 1
        sx = x[0] if not isinstance(x, str) else int(x == "-inf")
        sy = y[0] if not isinstance(y, str) else int(y == "-inf")
        if op == "sub":
            y = ("-inf" if y == "+inf" else "+inf") if isinstance(y, str) else (1 - y[0], -y[1])
            sy = 1 - sy
            op = "add"
        if op == "add":
            if x in inf and y in inf:
                return "nan" if x != y else (sx, E, 0)
            if x in inf:
                return (sx, E, 0)
            if y in inf:
                return (sy, E, 0)
            v = x[1] + y[1]
            zs = sx if sx == sy and x[1] == 0 else (1 if style == "neginf" else 0)
            return self.fround(e, m, v, style, zs)
        if op == "mul":
            if x in inf or y in inf:
                if (x not in inf and x[1] == 0) or (y not in inf and y[1] == 0):
                    return "nan"
                return (sx ^ sy, E, 0)
            return self.fround(e, m, x[1] * y[1], style, sx ^ sy)
        if x in inf:
            return "nan" if y in inf else (sx ^ sy, E, 0)
        if y in inf:
            return (sx ^ sy, 0, 0)
        if y[1] == 0:
            return "nan" if x[1] == 0 else (sx ^ sy, E, 0)
        return self.fround(e, m, x[1] / y[1], style, sx ^ sy)

    def float(self):
        s = self.s
        op = s.weighted([(4, "add"), (3, "sub"), (4, "mul"), (3, "div"), (3, "cmp"), (3, "resize"), (2, "fromreal"), (2, "toreal"), (2, "fromint"), (2, "toint"), (1, "minmax"),
                         (1, "neg"), (1, "class"), (1, "sqrt"), (2, "tofixed"), (2, "fromfixed"), (1, "scalb"), (1, "slv"), (1, "preds"), (1, "copysign")])
        e, m = self.fmt()
        lab = "flt-" + op
        bx, by = self.fbits(e, m), self.fbits(e, m)
        if s.bool(0.15) and op in ("add", "sub", "cmp"):
            # near cancellation
            by = (1 - bx[0] if s.bool() else bx[0], bx[1], max(0, bx[2] - s.int(0, 1)) if bx[1] != 2 ** e - 1 else bx[2])
        x, y = self.fval(e, m, bx), self.fval(e, m, by)
        self.labels.add("float%d_%d" % (e, m))
        ops = ("add", "sub", "mul", "div")
        if op in ops:
            a, b = self.fvar(e, m, bx), self.fvar(e, m, by)
            style = "nearest"
            if s.bool(0.35):
                style = s.choice(["nearest", "zero", "inf", "neginf"])
                f = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide"}[op]
                call = "%s(%s, %s, round_%s)" % (f, a, b, style)
            else:
                call = "%s %s %s" % (a, {"add": "+", "sub": "-", "mul": "*", "div": "/"}[op], b)
            r = self.arith(op, e, m, x, y, style)
            self.labels.add("round-" + style)
            if op == "div" and (style != "nearest" or (r != "nan" and r[1] == 0 and not isinstance(x, str) and x[1] != 0 and not isinstance(y, str))):
                return     # K08-divround, K08-divdenorm
            if style != "nearest" and r != "nan" and not 1 <= r[1] <= 2 ** e - 3:
                return     # overflow, underflow and signed zeros in the other modes follow the reference package
            if op == "div" and not isinstance(y, str) and y[1] == 0:
                self.errok = True
            self.out(call, self.fwant(e, m, r), lab, True)
        elif op == "cmp":
            a, b = self.fvar(e, m, bx), self.fvar(e, m, by)
            o = s.choice(["=", "/=", "<", "<=", ">", ">="])
            num = lambda z: Fr(10) ** 400 if z == "+inf" else -Fr(10) ** 400 if z == "-inf" else z[1]
            if x == "nan" or y == "nan":
                v = o == "/="
            else:
                p, q = num(x), num(y)
                v = {"=": p == q, "/=": p != q, "<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[o]
            self.out("%s %s %s" % (a, o, b), str(v).lower(), lab)
        elif op == "resize":
            e2, m2 = self.fmt()
            if bx[1] == 0:
                return     # K08-resizedenorm; the sign of zero is dropped on purpose
            a = self.fvar(e, m, bx)
            if not isinstance(x, str) and abs(x[1]) < Fr(2) ** (1 - (2 ** (e2 - 1) - 1) - m2 - 1):
                return     # K08-resizetiny
            if not isinstance(x, str) and abs(x[1]) >= Fr(2) ** (2 ** (e2 - 1)) and e2 < e:
                return     # K08-resizehuge
            style = s.choice(["nearest", "nearest", "zero", "inf", "neginf"])
            if x == "nan":
                r = "nan"
            elif isinstance(x, str):
                r = (int(x == "-inf"), 2 ** e2 - 1, 0)
            else:
                r = self.fround(e2, m2, x[1], style, x[0])
            if style != "nearest" and r != "nan" and not isinstance(x, str) and not 1 <= r[1] <= 2 ** e2 - 3:
                return
            if r != "nan" and r[1] == 0:
                return     # K08-resizetie
            self.out("resize(%s, %d, %d, round_%s)" % (a, e2, m2, style), self.fwant(e2, m2, r), lab, True)
        elif op == "fromreal":
            b2 = self.fbits(8, 23)
            z = self.fval(8, 23, b2) if s.bool() else self.fval(e, m, bx)
            if isinstance(z, str):
                return
            f = float(z[1])
            if s.bool(0.4):
                f *= s.choice([1.1, 0.3, 1 + 2 ** -30])
            if abs(f) < 1e-300 or abs(f) > 1e300 or 2 ** (2 ** (e - 1)) <= abs(Fr(f)):
                return     # K08-realoverflow
            n = self.name()
            self.decl.append("    variable %s : real := %s;" % (n, self.real(f)))
            r = self.fround(e, m, Fr(f))
            if r[1] == 0 and f:
                return     # denormal results are truncated like the directed division
            self.out("to_float(%s, %d, %d)" % (n, e, m), self.fwant(e, m, r), lab, True)
        elif op == "toreal":
            if isinstance(x, str) or abs(x[1]) and (abs(x[1]) < Fr(10) ** -300):
                return
            self.out("to_real(%s)" % self.fvar(e, m, bx), float(x[1]), lab)
        elif op == "fromint":
            v = s.weighted([(1, 2 ** 31 - 1), (1, -2 ** 31 + 1), (2, s.int(-20, 20)), (5, s.int(-2 ** s.int(1, 31), 2 ** s.int(1, 31)))])
            v = max(-2 ** 31 + 1, min(2 ** 31 - 1, v))
            n = self.name()
            self.decl.append("    variable %s : integer := %d;" % (n, v))
            if abs(v) > 2 ** (2 ** (e - 1)) - 1:
                return
            r = self.fround(e, m, Fr(v))
            self.out("to_float(%s, %d, %d)" % (n, e, m), self.fwant(e, m, r), lab, self.fval(e, m, r)[1] != v)
        elif op == "toint":
            if isinstance(x, str) or abs(x[1]) > 2 ** 30:
                return
            style = s.choice(["nearest", "zero"])
            v = rnd(x[1], "round" if style == "nearest" else "zero")
            self.out("to_integer(%s, round_%s)" % (self.fvar(e, m, bx), style), str(v), lab, v != x[1])
        elif op == "minmax":
            if x == "nan" or y == "nan":
                return
            num = lambda z: Fr(10) ** 400 if z == "+inf" else -Fr(10) ** 400 if z == "-inf" else z[1]
            if num(x) == num(y):
                return
            f = s.choice(["maximum", "minimum"])
            w = bx if (num(x) > num(y)) == (f == "maximum") else by
            self.out("%s(%s, %s)" % (f, self.fvar(e, m, bx), self.fvar(e, m, by)), self.fwant(e, m, w), lab)
        elif op == "neg":
            if x == "nan":
                return
            a = self.fvar(e, m, bx)
            if s.bool():
                self.out("-%s" % a, self.fwant(e, m, (1 - bx[0],) + bx[1:]), lab)
            else:
                self.out("abs %s" % a, self.fwant(e, m, (0,) + bx[1:]), lab)
        elif op == "class":
            k = "nan" if x == "nan" else "inf" if isinstance(x, str) else "zero" if x[1] == 0 else "denormal" if bx[1] == 0 else "normal"
            if k == "nan":
                w = "nan" if False else ("quiet_nan" if bx[2] >> (m - 1) else "nan")
                w = {"quiet_nan": "quiet_nan", "nan": "nan"}[w]
                return
            sg = "neg" if bx[0] else "pos"
            self.out("valid_fpstate'image(classfp(%s))" % self.fvar(e, m, bx), "%s_%s" % (sg, k), lab)
        elif op == "sqrt":
            if isinstance(x, str) or x[1] <= 0 or bx[1] == 0:
                return
            n = math.isqrt(int(x[1] * Fr(2) ** 2400))
            r = self.fround(e, m, Fr(n, 2 ** 1200))
            self.out("sqrt(%s)" % self.fvar(e, m, bx), "~%d:%d:%s" % (e, m, self.fstr(e, m, r)), lab, True)
        elif op == "tofixed":
            if isinstance(x, str):
                return
            sg = s.bool()
            if not sg and x[1] < 0:
                return
            lo = s.int(-8, 0)
            hi = s.int(max(lo + 1, 0), 10)
            q = rnd(abs(x[1]) * Fr(2) ** (3 - lo), "zero") * Fr(2) ** (lo - 3)
            r = fit(sg, q if x[1] >= 0 else -q, hi, lo, True, "round")
            if abs(x[1]) >= 2 ** hi or abs(x[1]) < Fr(2) ** (lo - 3):
                return
            self.out("to_%sfixed(%s, %d, %d)" % ("s" if sg else "u", self.fvar(e, m, bx), hi, lo), self.want(r), lab, r.v != x[1])
        elif op == "fromfixed":
            a, z = self.fx(None, 14)
            if z.v and (abs(z.v) >= 2 ** (2 ** (e - 1)) or abs(z.v) < Fr(2) ** (2 - 2 ** (e - 1))):
                return
            r = self.fround(e, m, z.v)
            self.out("to_float(%s, %d, %d)" % (a, e, m), self.fwant(e, m, r), lab, self.fval(e, m, r) != "nan" and not isinstance(self.fval(e, m, r), str) and self.fval(e, m, r)[1] != z.v)
        elif op == "scalb":
            if isinstance(x, str) or bx[1] == 0:
                return
            n = s.int(-3, 3)
            if not 1 <= bx[1] + n <= 2 ** e - 2:
                return
            self.out("scalb(%s, %d)" % (self.fvar(e, m, bx), n), self.fwant(e, m, (bx[0], bx[1] + n, bx[2])), lab)
        elif op == "slv":
            b = self.fstr(e, m, bx)
            a = self.fvar(e, m, bx)
            self.out("to_float(to_slv(%s), %d, %d)" % (a, e, m), self.fwant(e, m, bx) if x != "nan" else "%d:%d:%s" % (e, -m, b), lab)
        elif op == "preds":
            a, b = self.fvar(e, m, bx), self.fvar(e, m, by)
            f = s.choice(["isnan", "unordered", "is_negative"])
            v = {"isnan": x == "nan", "unordered": x == "nan" or y == "nan", "is_negative": bool(bx[0])}[f]
            self.out("boolean'image(%s(%s%s))" % (f, a, ", " + b if f == "unordered" else ""), str(v).lower(), lab)
        elif op == "copysign":
            self.out("copysign(%s, %s)" % (self.fvar(e, m, bx), self.fvar(e, m, by)), "@" + self.fstr(e, m, (by[0], bx[1], bx[2])), lab)

    # ---------------------------------------------------------------- math
    def rvar(self, f):
        n = self.name()
        self.decl.append("    variable %s : real := %s;" % (n, self.real(f)))
        return n

    def num(self, lo, hi):
        s = self.s
        k = s.int(0, 3)
        if k == 0:
            v = float(s.int(math.ceil(lo), math.floor(hi)))
        elif k == 1:
            v = s.int(int(lo * 2), int(hi * 2)) / 2
        else:
            v = lo + (hi - lo) * s.raw(10 ** 9) / 10 ** 9
        return min(max(v, lo), hi)

    def math(self):
        s = self.s
        f = s.choice(["sqrt", "cbrt", "exp", "log", "log2", "log10", "logb", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "sinh", "cosh", "tanh", "arcsinh", "arccosh",
                      "arctanh", "ceil", "floor", "round", "trunc", "mod", "realmax", "realmin", "sign", "powr", "powi", "uniform", "uniform"])
        lab = "math-" + f
        c = lambda n, a, v: self.out("%s(%s)" % (n, ", ".join(a)), v, lab, True)
        if f == "uniform":
            s1, s2 = s.int(1, 2147483562), s.int(1, 2147483398)
            n = s.int(1, 5)
            a, b, r = self.name(), self.name(), self.name()
            self.decl.append("    variable %s : integer := %d; variable %s : integer := %d; variable %s : real;" % (a, s1, b, s2, r))
            for _ in range(n):
                k = s1 // 53668
                s1 = 40014 * (s1 - k * 53668) - k * 12211
                if s1 < 0:
                    s1 += 2147483563
                k = s2 // 52774
                s2 = 40692 * (s2 - k * 52774) - k * 3791
                if s2 < 0:
                    s2 += 2147483399
                z = s1 - s2
                if z < 1:
                    z += 2147483562
                self.body.append("    uniform(%s, %s, %s);" % (a, b, r))
                self.out(r, z * 4.656613e-10, lab, True)
            self.out(a, str(s1), lab)
            self.out(b, str(s2), lab)
            return
        if f in ("sqrt", "log", "log2", "log10"):
            v = self.num(0.0, s.choice([1.0, 10.0, 1e6]))
            if f != "sqrt":
                v += 0.01
            c(f, [self.rvar(v)], {"sqrt": math.sqrt, "log": math.log, "log2": math.log2, "log10": math.log10}[f](v))
        elif f == "logb":
            v, b = self.num(0, 100) + 0.01, self.num(0, 20) + 1.5
            c("log", [self.rvar(v), self.rvar(b)], math.log(v) / math.log(b))
        elif f == "cbrt":
            v = self.num(-1000, 1000)
            c(f, [self.rvar(v)], math.copysign(abs(v) ** (1 / 3), v))
        elif f == "exp":
            v = self.num(-20, 20)
            c(f, [self.rvar(v)], math.exp(v))
        elif f in ("sin", "cos", "tan"):
            v = self.num(-s.choice([2, 7, 100]), s.choice([2, 7, 100]))
            if f == "tan" and abs(math.cos(v)) < 1e-3:
                return
            c(f, [self.rvar(v)], getattr(math, f)(v))
        elif f in ("arcsin", "arccos"):
            v = self.num(-1, 1)
            c(f, [self.rvar(v)], {"arcsin": math.asin, "arccos": math.acos}[f](v))
        elif f == "arctan":
            v = self.num(-10, 10)
            c(f, [self.rvar(v)], math.atan(v))
        elif f == "arctan2":
            y, x = self.num(-5, 5), self.num(-5, 5)
            if x == 0 and y == 0 or (y == 0 and x < 0):
                return
            c("arctan", [self.rvar(y), self.rvar(x)], math.atan2(y, x))
        elif f in ("sinh", "cosh", "tanh"):
            v = self.num(-8, 8)
            c(f, [self.rvar(v)], getattr(math, f)(v))
        elif f == "arcsinh":
            v = self.num(-20, 20)
            c(f, [self.rvar(v)], math.asinh(v))
        elif f == "arccosh":
            v = self.num(1, 20)
            c(f, [self.rvar(v)], math.acosh(v))
        elif f == "arctanh":
            v = self.num(-1, 1) * 0.99
            c(f, [self.rvar(v)], math.atanh(v))
        elif f in ("ceil", "floor", "round", "trunc"):
            v = self.num(-50, 50)
            r = {"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda q: math.floor(abs(q) + 0.5) * (1 if q >= 0 else -1)}[f](v)
            c(f, [self.rvar(v)], float(r))
        elif f == "mod":
            x, y = self.num(-50, 50), s.choice([0.5, 1.0, 2.5, -3.0, 7.0, -0.25])
            self.out('%s mod %s' % (self.rvar(x), self.rvar(y)), x - y * math.floor(x / y), lab, True)
        elif f in ("realmax", "realmin"):
            x, y = self.num(-5, 5), self.num(-5, 5)
            c(f, [self.rvar(x), self.rvar(y)], max(x, y) if f == "realmax" else min(x, y))
        elif f == "sign":
            x = self.num(-2, 2)
            c(f, [self.rvar(x)], float((x > 0) - (x < 0)))
        elif f == "powr":
            x, y = self.num(0, 10) + 0.01, self.num(-5, 5)
            self.out("%s ** %s" % (self.rvar(x), self.rvar(y)), x ** y, lab, True)
        elif f == "powi":
            x, y = s.int(1, 12), self.num(-4, 4)
            n = self.name()
            self.decl.append("    variable %s : integer := %d;" % (n, x))
            self.out("%s ** %s" % (n, self.rvar(y)), float(x) ** y, lab, True)

    def cplx(self):
        s = self.s
        f = s.choice(["add", "sub", "mul", "div", "abs", "arg", "sqrt", "exp", "log", "conj", "polar", "back", "neg", "sinh", "cosh", "sin", "cos"] if False else
                     ["add", "sub", "mul", "div", "abs", "arg", "sqrt", "exp", "log", "conj", "polar", "back", "neg", "sinh", "cosh"])
        lab = "cplx-" + f

        def cv():
            z = complex(self.num(-4, 4), self.num(-4, 4))
            if z == 0 or (z.imag == 0 and z.real < 0):
                z = complex(1.5, 0.5)
            n = self.name()
            self.decl.append("    variable %s : complex := cmplx(%s, %s);" % (n, self.real(z.real), self.real(z.imag)))
            return n, z
        a, x = cv()
        b, y = cv()

        def put(e, z):
            self.out("re(%s)" % e, z.real, lab, True)
            self.out("im(%s)" % e, z.imag, lab)
        if f in ("add", "sub", "mul", "div"):
            o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[f]
            z = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y}[f]()
            put("complex'(%s %s %s)" % (a, o, b), z)
        elif f == "abs":
            self.out("abs(%s)" % a, abs(x), lab, True)
        elif f == "arg":
            self.out("arg(%s)" % a, cmath.phase(x), lab, True)
        elif f in ("sqrt", "exp", "log", "sinh", "cosh"):
            z = getattr(cmath, f)(x)
            put("complex'(%s(%s))" % (f, a), z)
        elif f == "conj":
            put("complex'(conj(%s))" % a, x.conjugate())
        elif f == "neg":
            put("complex'(-%s)" % a, -x)
        elif f == "polar":
            self.out("mg(complex_to_polar(%s))" % a, abs(x), lab, True)
            self.out("ag(complex_to_polar(%s))" % a, cmath.phase(x), lab)
        else:
            put("complex'(polar_to_complex(complex_to_polar(%s)))" % a, x)


def program(kind, g):
    lines = ["library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;"]
    procs = []
    P = "  procedure p(n : integer; x : %s) is begin report integer'image(n) & \"#\" & %s; end procedure;"
    if kind in ("fixed", "float"):
        lines.append("use ieee.fixed_float_types.all; use ieee.fixed_pkg.all;")
        for t in ("ufixed", "sfixed"):
            procs.append(P % ("unresolved_" + t, "integer'image(x'high) & \":\" & integer'image(x'low) & \":\" & to_string(to_slv(x))"))
    if kind == "float":
        lines.append("use ieee.float_pkg.all;")
        procs.append(P % ("unresolved_float", "integer'image(x'high) & \":\" & integer'image(x'low) & \":\" & to_string(to_slv(x))"))
    if kind in ("math", "cplx"):
        lines.append("use ieee.math_real.all;")
    if kind == "cplx":
        lines.append("use ieee.math_complex.all;")
        procs.append("  function re(z : complex) return real is begin return z.re; end function;")
        procs.append("  function im(z : complex) return real is begin return z.im; end function;")
        procs.append("  function mg(z : complex_polar) return real is begin return z.mag; end function;")
        procs.append("  function ag(z : complex_polar) return real is begin return z.arg; end function;")
    procs += [P % ("boolean", "boolean'image(x)"), P % ("integer", "integer'image(x)"), P % ("real", "to_string(x, \"%.17e\")"),
              P % ("string", "x"), P % ("std_ulogic", "to_string(x)"), P % ("std_ulogic_vector", "to_string(x)")]
    src = "\n".join(lines + ["entity tb is end entity;", "architecture a of tb is"] + procs + ["begin", "  process"] + g.decl + ["  begin"] + g.body + ["    wait;", "  end process;", "end architecture;", ""])
    return src


def pin(name, decl, call, want, std="2008"):
    g = G(None)
    g.decl.append("    variable %s;" % decl if isinstance(decl, str) else "    variable " + "; variable ".join(decl) + ";")
    g.body.append("    p(0, %s);" % call)
    return {"id": name, "case": {"src": program("float", g), "exp": [[want, call, name]], "labels": ["pinned"], "hard": 0, "errok": False, "std": std, "engine": "jit"}}


PINNED = [
    pin("K08-finite", 'v1 : float(3 downto -4) := "01011111"', "finite(v1)", "true"),
    pin("K08-resizedenorm", 'v1 : float(8 downto -7) := "0000000000000001"', "resize(v1, 4, 3, round_nearest)", "4:-3:00000000"),
    pin("K08-resizetiny", 'v1 : float(8 downto -23) := "00001110000001011101000010100111"', "resize(v1, 3, 4, round_nearest)", "3:-4:00000000"),
    pin("K08-resizetie", 'v1 : float(4 downto -3) := "10011111"', "resize(v1, 3, 4, round_nearest)", "3:-4:10001000"),
    pin("K08-mac", ['v1 : float(8 downto -7) := "1011111111111111"', 'v2 : float(8 downto -7) := "1100000011111111"', 'v3 : float(8 downto -7) := "0011111110000000"'],
        "mac(v1, v2, v3)", "8:-7:0100000110000111"),
    pin("K08-divdenorm", ['v1 : float(11 downto -52) := "0000000000000100011111000001010100110110000011010110010001001101"',
                          'v2 : float(11 downto -52) := "1100000000000000000000000000000000000000000000000000000000000000"'],
        "v1 / v2", "11:-52:1000000000000010001111100000101010011011000001101011001000100110"),
    pin("K08-realoverflow", "v1 : real := 3.7431058130238175e38", "to_float(v1, 8, 23)", "8:-23:01111111100000000000000000000000"),
    pin("K08-resizehuge", 'v1 : float(6 downto -9) := "1110000000000001"', "resize(v1, 3, 4, round_nearest)", "3:-4:11110000"),
    pin("K08-divround", ['v1 : float(6 downto -9) := "1100001000000001"', 'v2 : float(6 downto -9) := "1100110000000000"'], "divide(v1, v2, round_inf)", "6:-9:0011010000000001"),
]


def gen(s, index):
    g = G(s)
    kind = s.weighted([(5, "fixed"), (5, "float"), (2, "math"), (1, "cplx")])
    n = s.int(20, 50) if kind != "float" else s.int(12, 30)
    tries = 0
    while len(g.exp) < n and tries < 200:
        tries += 1
        getattr(g, kind)()
    src = program(kind, g)
    return {"src": src, "exp": g.exp, "labels": sorted(g.labels) + [kind], "hard": g.hard, "errok": g.errok, "std": s.choice(["2008", "2008", "2019"]),
            "engine": s.weighted([(2, "interp"), (5, "jit"), (1, "mixed")] + ([(2, "aot2"), (1, "aot0")] if index % 4 == 0 else []))}


def check(case, env):
    env.label(*case["labels"])
    env.label("engine-" + case["engine"])
    if len(case["exp"]) >= 12 and case["hard"] >= 5:
        env.mark(case["src"])
    d = env.dir()
    r = nvc.sim(env, d, case["src"], std=case["std"], engine=case["engine"], cpu=120)
    env.count(len(case["exp"]))
    if r.timeout:
        raise pbt.Fail("timeout", "timeout")
    if r.crashed:
        raise pbt.Fail("nvc crashed rc=%d" % r.rc, "crash", r.err[-1500:])
    got = dict((int(a), b) for a, b in re.findall(r"Note: \d+\w+\+\d+: (\d+)#(.*)", r.out + r.err))
    for i, (want, e, lab) in enumerate(case["exp"]):
        if i not in got:
            raise pbt.Fail("%s call %s: no result (exit status %d)" % (lab, e, r.rc), lab + "-none", r.err[-1500:])
        g = got[i].strip()
        ok = True
        if isinstance(want, float):
            f = float(g)
            ok = abs(f - want) <= 1e-12 * max(abs(want), abs(f)) if lab in ("fix-toreal", "flt-toreal") else abs(f - want) <= (1e-6 if lab[:4] == "cplx" or "arc" in lab else 1e-8) * max(1.0, abs(want))
        elif want.startswith("~"):
            e_, m_, b = want[1:].split(":")
            h, l, gb = g.split(":")
            ok = h == e_ and l == str(-int(m_)) and len(gb) == len(b) and set(gb) <= {"0", "1"} and abs(int(gb, 2) - int(b, 2)) <= 1
        elif want.startswith("@"):
            ok = g.split(":")[-1] == want[1:]
        elif want.startswith("*"):
            h, l, gb = g.split(":")
            n = int(gb, 2)
            if lab == "fix-rem" and ("sfixed" in case["src"]) and gb[0] == "1" and want[1] == "-":
                n -= 2 ** len(gb)
            ok = n * Fr(2) ** int(l) == Fr(want[1:])
        elif ":nan" in want:
            w, ee = want.split(":nan")
            ee = int(ee)
            gb = g.split(":")[2] if g.count(":") == 2 else ""
            ok = g.startswith(w + ":") and gb[1:ee + 1] == "1" * ee and "1" in gb[ee + 1:] and len(gb) == 1 + ee - int(w.split(":")[1])
        else:
            ok = g == want
        if not ok:
            dl = [x for x in case["src"].splitlines() if re.match(r"    variable (%s) :" % "|".join(re.findall(r"v\d+", e)), x)] if re.search(r"v\d+", e) else []
            raise pbt.Fail("%s: %s gave %s, expected %s (%s)" % (lab, e, g, want, "; ".join(x.strip() for x in dl)), lab, r.err[-800:])
    if r.rc != 0 and not (case["errok"] and "divide by zero" in r.err):
        raise pbt.Fail("exit status %d" % r.rc, "rc", r.err[-1500:])


if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
