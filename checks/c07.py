"""C07: std_logic_1164 / numeric_std / numeric_bit / synopsys operations against Python integers and truth tables."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import pbt, nvc
from vp.pbt import Fail, Skip

PID = "C07"
CASES = {"quick": 900, "thorough": 40000}
RULE = ("one printed result of a package operation; non-trivial if its operands are evaluated at run time; distinct by "
        "operation and operand values")
TECHNIQUE = ("property-based testing: random operands (all nine values, widths 0-140, any direction and offset) for every "
             "operation of std_logic_1164, numeric_std, numeric_bit, numeric_std_unsigned and the synopsys packages against "
             "Python big integers and truth tables, with intrinsics on, scalar only and off, on every engine")
NOTE = "widths up to 140 bits; sampled operands; 1993, 2008 and 2019 versions of the packages"
ASSUMPTIONS = ["metavalue results follow the IEEE 1076-2008 package bodies (all-X result, FALSE for ordering relations)"]
LV = "UX01ZWLH-"
AND = ["UU0UUU0UU", "UX0XXX0XX", "000000000", "UX01XX01X", "UX0XXX0XX", "UX0XXX0XX", "000000000", "UX01XX01X", "UX0XXX0XX"]
OR = ["UUU1UUU1U", "UXX1XXX1X", "UX01XX01X", "111111111", "UXX1XXX1X", "UXX1XXX1X", "UX01XX01X", "111111111", "UXX1XXX1X"]
XOR = ["UUUUUUUUU", "UXXXXXXXX", "UX01XX01X", "UX10XX10X", "UXXXXXXXX", "UXXXXXXXX", "UX01XX01X", "UX10XX10X", "UXXXXXXXX"]
NOT = "UX10XX10X"
# matching equality of std_ulogic
MEQ = ["UUUUUUUU1", "UXXXXXXX1", "UX10XX101", "UX01XX011", "UXXXXXXX1", "UXXXXXXX1", "UX10XX101", "UX01XX011", "111111111"]


def tab(t, a, b):
    return t[LV.index(a)][LV.index(b)]


def lnot(a):
    return NOT[LV.index(a)]


def logic(op, a, b):
    if op in ("and", "nand"):
        r = tab(AND, a, b)
    elif op in ("or", "nor"):
        r = tab(OR, a, b)
    else:
        r = tab(XOR, a, b)
    return lnot(r) if op in ("nand", "nor", "xnor") else r


def isx(v):
    return any(c not in "01LH" for c in v)


def norm(v):
    return "".join({"L": "0", "H": "1"}.get(c, c) for c in v)


def ui(v):
    return int(norm(v), 2) if v else 0


def si(v):
    n = ui(v)
    return n - (1 << len(v)) if norm(v)[0] == "1" else n


def bits(n, w):
    return format(n & ((1 << w) - 1), "0%db" % w) if w else ""


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


def rel(op, a, b):
    return {"=": a == b, "/=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def sresize(v, n):
    """numeric_std RESIZE of SIGNED: keeps the sign bit on truncation."""
    if n == 0:
        return ""
    if not v:
        return "0" * n
    if n >= len(v):
        return v[0] * (n - len(v)) + v
    return v[0] + (v[len(v) - n + 1:] if n > 1 else "")


class G:
    def __init__(self, s):
        self.s = s
        self.decl, self.body, self.exp = [], [], []
        self.k = 0
        self.std = s.weighted([(4, "2008"), (2, "2019"), (2, "1993")])
        self.lib = s.weighted([(12, "std"), (3, "bit"), (2, "nsu"), (3, "syn"), (2, "1164")])
        if self.lib == "syn":
            self.std = "1993" if s.bool(0.3) else "2008"
        if self.lib == "nsu" and self.std == "1993":
            self.std = "2008"
        self.new = self.std != "1993"
        self.rt = False

    # ---- operands
    def width(self):
        s = self.s
        k = s.raw(20)
        if k < 9:
            return s.int(1, 9)
        if k < 14:
            return s.choice([15, 16, 17, 31, 32, 33, 34, 47, 48])
        if k < 17:
            return s.choice([63, 64, 65, 66, 96, 127, 128, 129])
        return s.int(1, 140)

    def value(self, n, alpha=None):
        s = self.s
        if alpha is None:
            alpha = s.weighted([(9, "01"), (2, "01LH"), (1, "01LHXUZW-"), (1, "01" * 20 + "LHXZUW-")])
        if self.lib == "bit":
            alpha = "01"
        k = s.raw(8)
        if k == 0:
            return alpha[0] * n
        if k == 1:
            return (alpha[1] * n)
        if k == 2 and n > 0:
            v = [alpha[0]] * n
            v[s.choice([0, n - 1, s.raw(n)])] = s.choice(alpha)
            return "".join(v)
        if k == 3 and n > 0:
            v = [alpha[1]] * n
            v[s.choice([0, n - 1, s.raw(n)])] = s.choice(alpha)
            return "".join(v)
        r = s.raw(1 << (8 * max(n, 1)))
        return "".join(alpha[(r >> (8 * i)) % 256 % len(alpha)] for i in range(n))

    def operand(self, ty, v):
        s = self.s
        n = len(v)
        if s.bool(0.12) and n > 0:
            return "%s'(\"%s\")" % (ty, v)
        self.rt = True
        self.k += 1
        off = s.choice([0, 0, 0, 1, 3, 100])
        if s.bool(0.75):
            r = "%d downto %d" % (off + n - 1, off) if n else "-1 downto 0" if ty.startswith("I") else "0 downto 1"
        else:
            r = "%d to %d" % (off, off + n - 1) if n else "1 to 0"
        nm = "v%d" % self.k
        self.decl.append("variable %s : %s(%s) := %s'(\"%s\");" % (nm, ty, r, ty, v))
        # hide the value from the optimiser
        if s.bool(0.5):
            self.body.append("if one = 0 then %s := (others => '0'); end if;" % nm)
        if n > 2 and s.bool(0.15):
            # a slice of something longer
            self.k += 1
            nw = "v%d" % self.k
            a, b = s.int(0, 5), s.int(0, 3)
            w = self.value(a, "01") + v + self.value(b, "01")
            self.decl.append("variable %s : %s(%d downto 0) := \"%s\";" % (nw, ty, len(w) - 1, w))
            return "%s(%d downto %d)" % (nw, b + n - 1, b)
        return nm

    def scalar(self, c):
        s = self.s
        ty = "BIT" if self.lib == "bit" else "STD_ULOGIC"
        if s.bool(0.2):
            return "%s'('%s')" % (ty, c)
        self.rt = True
        self.k += 1
        nm = "v%d" % self.k
        self.decl.append("variable %s : %s := '%s';" % (nm, "BIT" if self.lib == "bit" else s.choice(["STD_ULOGIC", "STD_LOGIC"]), c))
        return nm

    def integer(self, v, nat=False):
        s = self.s
        if s.bool(0.3):
            return str(v) if v >= 0 else "(-%d)" % -v if v > -2**31 else "INTEGER'(-2147483647-1)"
        self.rt = True
        self.k += 1
        nm = "v%d" % self.k
        self.decl.append("variable %s : %s := %s;" % (nm, "NATURAL" if nat else "INTEGER", str(v) if v > -2**31 else "INTEGER'(-2147483647-1)"))
        return nm

    def emit(self, op, expr, want, key):
        self.body.append("p(ts(%s));" % expr)
        self.exp.append([want, op, "%s %s" % (op, key), self.rt])
        self.rt = False

    # ---- operations
    def arith(self, ty, sg):
        s = self.s
        val = si if sg else ui
        syn = self.lib == "syn"
        alpha = "01" if syn else None
        a = self.value(self.width(), alpha)
        b = self.value(self.width() if s.bool(0.6) else len(a), alpha)
        rs = [(6, "+"), (5, "-"), (4, "*"), (6, "rel"), (4, "shift"), (3, "rot"), (4, "resize"), (3, "toint"), (3, "make")]
        if not syn:
            rs += [(3, "div"), (2, "divi"), (3, "logic"), (2, "to01"), (3, "+i"), (2, "*i"), (3, "reli"), (2, "not")]
            if sg:
                rs += [(2, "neg"), (2, "abs")]
            if self.new:
                rs += [(3, "match"), (2, "minmax"), (2, "find"), (2, "reduce"), (2, "scal"), (2, "shop"), (2, "carry")]
            if self.lib == "std":
                rs += [(1, "stdmatch")]
                if self.new:
                    rs += [(1, "isx"), (2, "x01")]
        else:
            rs = [(5, "+"), (4, "-"), (3, "*"), (4, "rel"), (2, "toint"), (2, "make"), (2, "resize")]
            if sg:
                rs += [(1, "neg"), (1, "abs")]
        if self.lib == "nsu":
            rs = [(6, "+"), (5, "-"), (4, "*"), (6, "rel"), (3, "div"), (2, "shift"), (2, "rot"), (2, "resize"), (2, "toint"), (2, "make"),
                  (3, "+i"), (3, "reli"), (2, "minmax"), (2, "carry"), (2, "find")]
        op = s.weighted(rs)
        A = lambda: self.operand(ty, a)
        B = lambda: self.operand(ty, b)
        W = max(len(a), len(b))
        x2 = isx(a) or isx(b)
        if op in ("+", "-"):
            w = "X" * W if x2 else bits(val(a) + val(b) if op == "+" else val(a) - val(b), W)
            self.emit(ty + op, "%s'(%s %s %s)" % (ty, A(), op, B()) if syn
                      else "%s %s %s" % (A(), op, B()), w, (a, b))
        elif op == "*":
            a = a[:70] or "1"
            b = b[:70] or "1"
            n = len(a) + len(b)
            w = "X" * n if isx(a) or isx(b) else bits(val(a) * val(b), n)
            e = "%s * %s" % (A(), B())
            self.emit(ty + op, "%s'(%s)" % (ty, e) if syn else e, w, (a, b))
        elif op == "div":
            o = s.choice(["/", "rem", "mod"])
            if sg and o != "/":
                a, b = norm(a), norm(b)      # the IEEE bodies of SIGNED mod/rem look at raw sign bits
            if isx(b) or val(b) == 0:
                b = "1" if not sg else "01"
            if isx(a):
                w = "X" * len(a if o == "/" else b)
            elif o == "/":
                w = bits(tdiv(val(a), val(b)), len(a))
            elif o == "rem":
                w = bits(trem(val(a), val(b)), len(b))
            else:
                w = bits(val(a) % val(b), len(b))
            self.emit(ty + o, "%s %s %s" % (A(), o, B()), w, (a, b))
        elif op == "divi":
            o = s.choice(["/", "rem", "mod"])
            n = s.choice([1, 2, 3, 5, 7, 10, 255, 256, 1000, 2**31 - 1, s.int(1, 2**31 - 1)])
            if sg and s.bool(0.5):
                n = -n
            if sg and len(a) < 2 or isx(a):
                return
            if sg and o != "/":
                a = norm(a)
            r = tdiv(val(a), n) if o == "/" else trem(val(a), n) if o == "rem" else val(a) % n
            full = bits(r, 200)
            # the operations are done wide enough and the result resized to the vector operand
            if o != "/" and (r >= 1 << (len(a) - 1) if sg else r >= 1 << len(a)) or sg and r < -(1 << (len(a) - 1)):
                return
            self.emit(ty + o + "i", "%s %s %s" % (A(), o, self.integer(n, not sg)), full[200 - len(a):], (a, n))
        elif op == "+i":
            o = s.choice(["+", "-"])
            n = s.edge(-2**31 if sg else 0, 2**31 - 1)
            if len(a) < 31 and s.bool(0.8):
                n = s.int(-(1 << (len(a) - 1)) if sg else 0, (1 << (len(a) - 1 if sg else len(a))) - 1)
            sw = s.bool(0.3)
            r = (n - val(a) if sw else val(a) - n) if not x2 and o == "-" and not isx(a) else None
            if isx(a):
                w = "X" * len(a)
            else:
                r = val(a) + n if o == "+" else (n - val(a) if sw else val(a) - n)
                # the integer is first truncated to the vector's length
                w = bits(r, len(a))
                if sg and not -(1 << (len(a) - 1)) <= n < 1 << (len(a) - 1):
                    return
            I = self.integer(n, not sg)
            self.emit(ty + o + "int", "%s %s %s" % ((I, o, A()) if sw else (A(), o, I)), w, (a, n, sw))
        elif op == "*i":
            n = s.edge(-2**31 if sg else 0, 2**31 - 1)
            if sg:
                if not -(1 << (len(a) - 1)) <= n < 1 << (len(a) - 1):
                    return
            elif n >= 1 << len(a):
                return
            w = "X" * (2 * len(a)) if isx(a) else bits(val(a) * n, 2 * len(a))
            sw = s.bool()
            I = self.integer(n, not sg)
            self.emit(ty + "*int", "%s * %s" % ((I, A()) if sw else (A(), I)), w, (a, n, sw))
        elif op == "rel":
            o = s.choice(["=", "/=", "<", "<=", ">", ">="])
            if s.bool(0.3):
                b = a if s.bool() or not a else a[:-1] + ("1" if a[-1] == "0" else "0")
                x2 = isx(a) or isx(b)
            w = (o == "/=") if x2 else rel(o, val(a), val(b))
            self.emit(ty + o, "%s %s %s" % (A(), o, B()), str(w).lower(), (a, b))
        elif op == "reli":
            o = s.choice(["=", "/=", "<", "<=", ">", ">="])
            n = val(a) if not isx(a) and s.bool(0.4) else s.edge(-2**31 if sg else 0, 2**31 - 1)
            if not (-2**31 if sg else 0) <= n < 2**31:
                n = 0
            w = (o == "/=") if isx(a) else rel(o, val(a), n)
            if s.bool(0.3):
                w = (o == "/=") if isx(a) else rel(o, n, val(a))
                e = "%s %s %s" % (self.integer(n, not sg), o, A())
            else:
                e = "%s %s %s" % (A(), o, self.integer(n, not sg))
            self.emit(ty + o + "int", e, str(w).lower(), (a, n))
        elif op in ("shift", "rot"):
            n = s.choice([0, 1, 2, 3, len(a) - 1, len(a), len(a) + 1, s.int(0, 2 * len(a) + 3), 200])
            n = max(n, 0)
            L = len(a)
            f = s.choice(["shift_left", "shift_right"] if op == "shift" else ["rotate_left", "rotate_right"])
            if f == "shift_left":
                w = (a[n:] + "0" * min(n, L)) if n < L else "0" * L
            elif f == "shift_right":
                fill = a[0] if sg else "0"
                w = (fill * n + a)[:L]
            elif f == "rotate_left":
                w = a[n % L:] + a[:n % L]
            else:
                w = a[L - n % L:] + a[:L - n % L]
            self.emit(ty + f, "%s(%s, %s)" % (f, A(), self.integer(n, True)), w, (a, n))
        elif op == "shop":
            n = s.int(-len(a) - 2, len(a) + 2)
            L = len(a)
            o = s.choice(["sll", "srl", "rol", "ror", "sla", "sra"])
            if o == "sla" or o == "sra":
                left = (o == "sla") == (n >= 0)
                m = abs(n)
                w = (a + "0" * m)[m:m + L] if left else ((a[0] if sg else "0") * m + a)[:L]
            elif o in ("sll", "srl"):
                left = (o == "sll") == (n >= 0)
                m = abs(n)
                w = (a + "0" * m)[m:m + L] if left else ("0" * m + a)[:L]
                if sg and o == "sll" and n < 0:
                    w = ("0" * m + a)[:L]
            else:
                m = (n if o == "rol" else -n) % L
                w = a[m:] + a[:m]
            self.emit(ty + o, "%s %s %s" % (A(), o, self.integer(n)), w, (a, n))
        elif op == "resize":
            n = s.choice([len(a), len(a) + 1, max(1, len(a) - 1), s.int(1, 150)])
            w = sresize(a, n) if sg else ("0" * n + a)[len(a):] if n >= len(a) else a[len(a) - n:]
            if syn:
                f = "conv_signed" if sg else "conv_unsigned"
                w = (a[0] * n + a)[-n:] if sg else ("0" * n + a)[-n:]
            else:
                f = "resize"
            self.emit(ty + "resize", "%s(%s, %s)" % (f, A(), self.integer(n, True)), w, (a, n))
        elif op == "toint":
            k = s.int(1, 32 if sg else 31)
            a = self.value(min(k, 31) if syn else k, alpha)
            w = 0 if isx(a) else val(a)
            self.emit(ty + "to_integer", "%s(%s)" % ("conv_integer" if syn else "to_integer", A()), str(w), a)
        elif op == "make":
            n = s.edge(-2**31 if sg else 0, 2**31 - 1)
            k = s.choice([len(a), 31, 32, 33, 8])
            if syn:
                f = "conv_signed" if sg else "conv_unsigned"
                if k < 32:
                    n &= (1 << (k - 1)) - 1
            else:
                f = {"std": "to_", "bit": "to_", "nsu": "to_stdlogicvector"}[self.lib]
                if self.lib != "nsu":
                    f += "signed" if sg else "unsigned"
            self.emit(f, "%s(%s, %s)" % (f, self.integer(n, not sg), self.integer(k, True)), bits(n, k), (n, k))
        elif op in ("logic",):
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            b = self.value(len(a))
            self.emit(ty + o, "%s %s %s" % (A(), o, B()), "".join(logic(o, x, y) for x, y in zip(a, b)), (a, b))
        elif op == "not":
            self.emit(ty + "not", "not " + A(), "".join(lnot(x) for x in a), a)
        elif op == "scal":
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            c = self.value(1)
            sw = s.bool()
            self.emit(ty + o + "s", "%s %s %s" % ((self.scalar(c), o, A()) if sw else (A(), o, self.scalar(c))),
                      "".join(logic(o, c, y) for y in a), (a, c))
        elif op == "reduce":
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            base = {"nand": "and", "nor": "or", "xnor": "xor"}.get(o, o)
            r = a[-1]
            for c in reversed(a[:-1]):
                r = logic(base, c, r)
            r = logic(base, r, "1" if base == "and" else "0")
            self.emit(ty + o + "r", "%s %s" % (o, A()), lnot(r) if o != base else r, a)
        elif op == "to01":
            if self.lib == "bit":
                return
            c = s.choice("01X")
            self.emit(ty + "to_01", "to_01(%s, '%s')" % (A(), c), c * len(a) if isx(a) else norm(a), (a, c))
        elif op == "neg":
            self.emit(ty + "neg", "%s(- %s)" % (ty + "'" if syn else "", A()), "X" * len(a) if isx(a) else bits(-si(a), len(a)), a)
        elif op == "abs":
            self.emit(ty + "abs", "%s(abs %s)" % (ty + "'" if syn else "", A()), "X" * len(a) if isx(a) else bits(abs(si(a)), len(a)), a)
        elif op == "match":
            o = s.choice(["?=", "?/=", "?<", "?<=", "?>", "?>="])
            if s.bool(0.3):
                b = a
            if o in ("?=", "?/="):
                if self.lib == "bit":
                    r = "1" if rel(o[1:], val(a), val(b)) else "0"
                else:
                    rz = (lambda v: sresize(v, W)) if sg else (lambda v: "0" * (W - len(v)) + v)
                    ms = [tab(MEQ, x, y) for x, y in zip(rz(a), rz(b))]
                    r = "1"
                    for m in reversed(ms):
                        if m == "U":
                            r = "U"
                            break
                        r = "X" if m == "X" or r == "X" else logic("and", r, m)
                    if o == "?/=":
                        r = lnot(r)
            else:
                a, b = a.replace("-", "Z"), b.replace("-", "Z")
                if isx(a) or isx(b):
                    r = "X"
                else:
                    r = "1" if rel(o[1:], val(a), val(b)) else "0"
            self.emit(ty + o, "%s %s %s" % (A(), o, B()), r, (a, b))
        elif op == "minmax":
            o = s.choice(["minimum", "maximum"])
            if isx(a) or isx(b):
                w = "X" * W
            else:
                w = bits(min(val(a), val(b)) if o == "minimum" else max(val(a), val(b)), W)
            self.emit(ty + o, "%s(%s, %s)" % (o, A(), B()), w, (a, b))
        elif op == "find":
            c = self.value(1, "01")
            o = s.choice(["find_leftmost", "find_rightmost"])
            hit = [i for i, x in enumerate(a) if norm(x) == c]
            # relative to the operand's own index range: use a known one
            self.k += 1
            nm = "v%d" % self.k
            lo = s.choice([0, 0, 4])
            down = s.bool(0.6)
            L = len(a)
            self.decl.append("variable %s : %s(%s) := \"%s\";" % (nm, ty, "%d downto %d" % (lo + L - 1, lo) if down else "%d to %d" % (lo, lo + L - 1), a))
            self.rt = True
            if not hit:
                w = -1
            else:
                i = hit[0] if o == "find_leftmost" else hit[-1]
                w = lo + L - 1 - i if down else lo + i
            if any(x not in "01LH" for x in a):
                return
            self.emit(ty + o, "%s(%s, %s)" % (o, nm, self.scalar(c)), str(w), (a, c))
        elif op == "carry":
            c = self.value(1)
            o = s.choice(["+", "-"])
            sw = s.bool(0.3)
            if isx(a) or isx(c):
                w = "X" * len(a)
            else:
                n = ui(c)
                w = bits(val(a) + n if o == "+" else (n - val(a) if sw else val(a) - n), len(a))
                if sg and sw:
                    return
            if sw and o == "-" and sg:
                return
            self.emit(ty + o + "c", "%s %s %s" % ((self.scalar(c), o, A()) if sw else (A(), o, self.scalar(c))), w, (a, c, sw))
        elif op == "stdmatch":
            if s.bool(0.5):
                b = "".join(s.choice([x, "-", x, x]) for x in a)
            else:
                b = self.value(len(a) if s.bool(0.9) else len(a) + 1)
            ok = len(a) == len(b) and len(a) > 0 and all(
                x == "-" or y == "-" or (norm(x) == norm(y) and norm(x) in "01") for x, y in zip(a, b))
            self.emit(ty + "std_match", "std_match(%s, %s)" % (A(), B()), str(ok).lower(), (a, b))
        elif op == "isx":
            self.emit(ty + "is_x", "is_x(%s)" % A(), str(isx(a)).lower(), a)
        elif op == "x01":
            self.conv(ty, a, A)

    def conv(self, ty, a, A):
        f = self.s.choice(["to_x01", "to_x01z", "to_ux01"])
        m = dict(zip(LV, {"to_x01": "XX01XX01X", "to_x01z": "XX01ZX01X", "to_ux01": "UX01XX01X"}[f]))
        self.emit(ty + f, "%s(%s)" % (f, A()), "".join(m[c] for c in a), a)

    def slv(self):
        s = self.s
        ty = "STD_LOGIC_VECTOR" if s.bool(0.6) else "STD_ULOGIC_VECTOR"
        alpha = s.choice([None, LV, "01", "01LH"])
        a = self.value(self.width(), alpha)
        b = self.value(len(a), alpha)
        A = lambda: self.operand(ty, a)
        B = lambda: self.operand(ty, b)
        rs = [(8, "logic"), (2, "not"), (4, "x01"), (3, "eq"), (2, "isx"), (3, "bv"), (2, "slogic"), (1, "resolved"), (1, "slv")]
        if self.new:
            rs += [(3, "reduce"), (3, "scal"), (3, "match"), (3, "shop"), (2, "str"), (2, "smatch")]
        op = s.weighted(rs)
        if op == "logic":
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            self.emit(ty + o, "%s %s %s" % (A(), o, B()), "".join(logic(o, x, y) for x, y in zip(a, b)), (a, b))
        elif op == "not":
            self.emit(ty + "not", "not " + A(), "".join(lnot(x) for x in a), a)
        elif op == "x01":
            self.conv(ty, a, A)
        elif op == "eq":
            if s.bool(0.5):
                b = a
                if s.bool(0.5) and len(a):
                    i = s.raw(len(a))
                    b = a[:i] + s.choice(LV) + a[i + 1:]
            o = s.choice(["=", "/="])
            self.emit(ty + o, "%s %s %s" % (A(), o, B()), str((a == b) == (o == "=")).lower(), (a, b))
        elif op == "isx":
            self.emit(ty + "is_x", "is_x(%s)" % A(), str(isx(a)).lower(), a)
        elif op == "bv":
            c = s.choice("01")
            self.emit(ty + "to_bitvector", "to_bitvector(%s, '%s')" % (A(), c), "".join(c if isx(x) else norm(x) for x in a), (a, c))
        elif op == "slogic":
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            x, y = s.choice(LV), s.choice(LV)
            self.emit("scalar" + o, "%s %s %s" % (self.scalar(x), o, self.scalar(y)), logic(o, x, y), (x, y))
        elif op == "resolved":
            v = self.value(s.int(1, 6), LV)
            from vp import simgen
            w = LV[simgen.res_logic([LV.index(c) for c in v])]
            a = v
            ty = "STD_ULOGIC_VECTOR"
            self.emit("resolved", "resolved(%s)" % A(), w, v)
        elif op == "slv":
            bv = self.value(len(a), "01")
            f = s.choice(["to_stdlogicvector", "to_stdulogicvector"])
            self.emit(f, "%s(BIT_VECTOR'(\"%s\"))" % (f, bv), bv, bv)
        elif op == "reduce":
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            base = {"nand": "and", "nor": "or", "xnor": "xor"}.get(o, o)
            r = "1" if base == "and" else "0"
            for c in reversed(a):
                r = logic(base, c, r)
            self.emit(ty + o + "r", "%s %s" % (o, A()), lnot(r) if o != base else r, a)
        elif op == "scal":
            o = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            c = s.choice(LV)
            sw = s.bool()
            self.emit(ty + o + "s", "%s %s %s" % ((self.scalar(c), o, A()) if sw else (A(), o, self.scalar(c))),
                      "".join(logic(o, c, y) for y in a), (a, c))
        elif op == "match":
            if s.bool(0.5):
                b = "".join(s.choice([x, x, "-"]) for x in a)
            r = "1"
            for x, y in zip(a, b):
                r = logic("and", r, tab(MEQ, x, y))
            o = s.choice(["?=", "?/="])
            self.emit(ty + o, "%s %s %s" % (A(), o, B()), lnot(r) if o == "?/=" else r, (a, b))
        elif op == "smatch":
            x, y = s.choice(LV[:8]), s.choice(LV[:8])
            o = s.choice(["?=", "?/=", "?<", "?<=", "?>", "?>="])
            if o[1] in "<>":
                # with metavalues the standard is not clear about the ordering operators
                x, y = s.choice("01LH"), s.choice("01LH")
            e = tab(MEQ, x, y)
            if o == "?=":
                r = e
            elif o == "?/=":
                r = lnot(e)
            else:
                lt = logic("and", lnot(x), y)
                gt = logic("and", lnot(y), x)
                if o == "?<":
                    r = lt
                elif o == "?<=":
                    r = logic("or", lt, e)
                elif o == "?>":
                    # x ?> y is x and not y
                    r = lnot(logic("or", lt, e))
                else:
                    r = lnot(lt)
            self.emit("scalar" + o, "%s %s %s" % (self.scalar(x), o, self.scalar(y)), r, (x, y))
        elif op == "shop":
            n = s.int(-len(a) - 2, len(a) + 2)
            L = len(a)
            o = s.choice(["sll", "srl", "rol", "ror"])
            if o in ("sll", "srl"):
                left = (o == "sll") == (n >= 0)
                m = abs(n)
                w = (a + "0" * m)[m:m + L] if left else ("0" * m + a)[:L]
            else:
                m = (n if o == "rol" else -n) % L
                w = a[m:] + a[:m]
            self.emit(ty + o, "%s %s %s" % (A(), o, self.integer(n)), w, (a, n))
        else:
            f = s.choice(["to_hstring", "to_ostring", "to_string"])
            if f == "to_string":
                w = a
            else:
                k = 4 if f == "to_hstring" else 3
                pad = (-len(a)) % k
                v = norm(("Z" if a[0] == "Z" else "X" if isx(a[0]) else "0") * pad + a)
                w = ""
                for i in range(0, len(v), k):
                    c = v[i:i + k]
                    w += "%X" % int(c, 2) if not isx(c) else "Z" if c == "Z" * k else "X"
            self.emit(ty + f, "%s(%s)" % (f, A()), w, a)

    def build(self):
        s = self.s
        for _ in range(s.int(12, 26)):
            self.rt = False
            if self.lib == "1164" or (self.lib == "std" and s.bool(0.2)):
                self.slv()
            elif self.lib == "nsu":
                self.arith("STD_LOGIC_VECTOR", False)
            elif self.lib == "syn" and s.bool(0.3):
                self.syn()
            else:
                sg = s.bool()
                self.arith("SIGNED" if sg else "UNSIGNED", sg)

    def syn(self):
        """std_logic_unsigned or std_logic_signed, in an extra process."""
        s = self.s
        sg = s.bool()
        a = self.value(self.width(), "01")
        b = self.value(self.width(), "01")
        o = s.choice(["+", "-", "*", "=", "<", ">="])
        pk = "signed" if sg else "unsigned"
        val = si if sg else ui
        W = max(len(a), len(b))
        if o == "*":
            a, b = a[:40], b[:40]
            w = bits(val(a) * val(b), len(a) + len(b))
        elif o in "+-":
            w = bits(val(a) + val(b) if o == "+" else val(a) - val(b), W)
        else:
            w = str(rel(o, val(a), val(b))).lower()
        A, B = self.operand("STD_LOGIC_VECTOR", a), self.operand("STD_LOGIC_VECTOR", b)
        self.emit(pk + o, "ieee.std_logic_%s.\"%s\"(%s, %s)" % (pk, o, A, B), w, (a, b))

    def text(self):
        use = {"std": "use ieee.std_logic_1164.all; use ieee.numeric_std.all;",
               "1164": "use ieee.std_logic_1164.all;",
               "bit": "use ieee.numeric_bit.all;",
               "nsu": "use ieee.std_logic_1164.all; use ieee.numeric_std_unsigned.all;",
               "syn": "use ieee.std_logic_1164.all; use ieee.std_logic_arith.all; use ieee.std_logic_unsigned; use ieee.std_logic_signed;"}[self.lib]
        el = "BIT" if self.lib == "bit" else "STD_ULOGIC"
        tys = {"std": ["UNSIGNED", "SIGNED", "STD_ULOGIC_VECTOR", "BIT_VECTOR"], "1164": ["STD_ULOGIC_VECTOR", "BIT_VECTOR"],
               "bit": ["UNSIGNED", "SIGNED"], "nsu": ["STD_ULOGIC_VECTOR", "BIT_VECTOR"], "syn": ["UNSIGNED", "SIGNED", "STD_LOGIC_VECTOR"]}[self.lib]
        if not self.new and self.lib in ("std", "1164"):
            tys.append("STD_LOGIC_VECTOR")
        o = ["library ieee; " + use, "use std.textio.all;", "entity tb is end entity;", "architecture a of tb is"]
        o += ["  function ts (x : %s) return STRING is variable r : STRING(1 to 3) := %s'image(x); begin return r(2 to 2); end;" % (el, el),
              "  function ts (x : BOOLEAN) return STRING is begin return BOOLEAN'image(x); end;",
              "  function ts (x : INTEGER) return STRING is begin return INTEGER'image(x); end;",
              "  function ts (x : STRING) return STRING is begin return x; end;"]
        for t in tys:
            e = "BIT" if t == "BIT_VECTOR" else el
            o += ["  function ts (x : %s) return STRING is" % t, "    alias y : %s(1 to x'length) is x;" % t,
                  "    variable r : STRING(1 to x'length); variable c : STRING(1 to 3);", "  begin",
                  "    for i in y'range loop c := %s'image(y(i)); r(i) := c(2); end loop;" % e, "    return r;", "  end;"]
        o += ["  procedure p (x : STRING) is begin write(output, \"#\" & x & LF); end;" if self.new else
              "  procedure p (x : STRING) is variable l : LINE; begin write(l, \"#\" & x); writeline(output, l); end;",
              "  signal sone : INTEGER := 1;", "begin", "  process is", "    variable one : INTEGER := sone;"]
        o += ["    " + d for d in self.decl] + ["  begin"] + ["    " + b for b in self.body] + ["    wait;", "  end process;", "end architecture;"]
        return "\n".join(o) + "\n"


INTR = [("1", "1"), ("0", "0"), ("1", "0")]


def gen(s, index):
    g = G(s)
    g.build()
    k = s.raw(3)
    cfgs = [["interp", k]]
    j = s.weighted([(2, "jit"), (2, "aot2"), (1, "aot0"), (3, "interp")])
    cfgs.append([j, (k + 1) % 3])
    return {"src": g.text(), "exp": g.exp, "cfgs": cfgs, "std": g.std, "lib": g.lib}


def check(case, env):
    env.label("lib-" + case["lib"], "std-" + case["std"])
    for e, k in case["cfgs"]:
        env.label("engine-" + e, "intrinsics-" + "".join(INTR[k]))
        r = nvc.sim(env, env.dir(), case["src"], std=case["std"], engine=e, gopts=["--messages=compact"],
                    aopts=["--relaxed"] if case["lib"] == "syn" else [],
                    xenv={"NVC_JIT_INTRINSICS": INTR[k][0], "NVC_VECTOR_INTRINSICS": INTR[k][1]})
        env.count(len(case["exp"]))
        det = {"engine": e, "intrinsics": INTR[k], "result": repr(r)}
        if r.timeout:
            raise Skip("time limit: " + repr(r)[:500])
        if r.crashed:
            raise Fail("nvc crashed on engine %s\n%s" % (e, r.err[:1500]), "crash", det)
        out = [l[1:] for l in r.out.split("\n") if l.startswith("#")]
        for i, (w, op, key, rt) in enumerate(case["exp"]):
            if i >= len(out):
                raise Fail("engine %s: output stops before %s: %s" % (e, key[:200], r.err[-700:]), "stop-" + op, det)
            if out[i] != w:
                raise Fail("engine %s intrinsics %s %s: got %s expected %s" % (e, INTR[k], key, out[i], w), "value-" + op, det)
        if r.rc != 0:
            raise Fail("error on engine %s: %s" % (e, r.err[:700]), "error", det)
    for w, op, key, rt in case["exp"]:
        env.label(op)
        if rt:
            env.mark(key)


PINNED = []

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
