"""C23: array, record and aggregate operations against a reference model."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import pbt, nvc
from vp.pbt import Fail, Skip

PID = "C23"
CASES = {"quick": 2200, "thorough": 60000}
RULE = ("one printed array/record/comparison result (bounds, direction, length and every element); non-trivial if the expression "
        "combines at least two array operations or operates on a run-time value; distinct by expression text")
TECHNIQUE = ("property-based testing: random array/record programs (aggregates, concatenation, slices, conversions, logical and shift "
             "operators, comparisons, overlapping assignments) against a Python reference model, on every engine, with shrinking")
NOTE = "arrays up to 8 elements, 1 and 2 dimensions, nested element types; index types integer, natural, user-defined and enumeration"
ASSUMPTIONS = ["bounds of concatenations, aggregates and slices follow IEEE 1076-2008 sections 9.2.5, 9.3.3.3 and 8.5"]
ENL = ["i%d" % i for i in range(10)]


class Idx:
    def __init__(self, name, lo, hi, lits=None):
        self.name, self.lo, self.hi, self.lits = name, lo, hi, lits

    def text(self, v):
        if self.lits:
            return self.lits[v]
        return str(v) if v >= 0 else "(%d)" % v

    def img(self, v):
        return self.lits[v] if self.lits else str(v)


# a model array: (left, downto, [elements]); elements: python values
def right(m):
    l, d, e = m
    return l - (len(e) - 1) if d else l + (len(e) - 1)


class T:
    pass


class G:
    def __init__(self, s):
        self.s = s
        self.k = 0
        self.decl, self.vars, self.init, self.body = [], [], [], []
        self.exp = []
        self.ops = 0
        self.dyn = 0
        self.stm = []
        self.idx = [Idx("INTEGER", -2**31, 2**31 - 1), Idx("NATURAL", 0, 2**31 - 1),
                    Idx("UI", s.choice([-3, 0, 1, -8]), s.choice([20, 40])), Idx("EI", 0, 9, ENL)]
        if s.bool(0.3):
            self.idx[2] = Idx("UI", s.choice([-30, 5, -2**31]), 60)
        ui = self.idx[2]
        self.decl.append("  type UI is range %d to %d;" % (ui.lo, ui.hi))
        self.decl.append("  type EI is (%s);" % ", ".join(ENL))
        self.decl.append("  type EE is (ea, eb, ec, ed, ee_f);")
        self.decl.append("  type RR is record a : INTEGER; b : BIT; end record;")
        self.decl.append("  type SB is range -100 to 100;")
        for t in ("INTEGER", "BIT", "CHARACTER", "EE", "SB", "BOOLEAN", "UI", "EI", "REAL", "RR"):
            self.decl.append("  function id (x : %s) return %s is begin return x; end function;" % (t, t))
        self.decl.append("  function img (x : RR) return string is begin return \"(\" & INTEGER'image(x.a) & \",\" & BIT'image(x.b) & \")\"; end function;")
        self.types = []
        self.objs = {}
        n = s.int(2, 4)
        for i in range(n):
            self.newtype()
        # a closely related type for conversions
        self.rel = {}
        for t in list(self.types):
            if s.bool(0.4):
                r = self.newtype(elem=t.elem)
                if (r.idx.name == "EI") != (t.idx.name == "EI"):
                    continue    # index types not closely related
                self.rel.setdefault(t.name, []).append(r)
                self.rel.setdefault(r.name, []).append(t)

    def n(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def newtype(self, elem=None):
        s = self.s
        t = T()
        t.name = self.n("T")
        t.idx = s.choice(self.idx)
        t.elem = elem or s.choice(["INTEGER", "BIT", "CHARACTER", "EE", "SB", "BOOLEAN", "RR", "REAL"])
        if elem is None and s.bool(0.15):
            t.name, t.idx, t.elem = s.choice([("BIT_VECTOR", self.idx[1], "BIT"), ("STRING", Idx("POSITIVE", 1, 2**31 - 1), "CHARACTER")])
            if any(x.name == t.name for x in self.types):
                t.name, t.idx = self.n("T"), self.idx[0]
        t.lo = t.idx.lo
        if t.name.startswith("T"):
            self.decl.append("  type %s is array (%s range <>) of %s;" % (t.name, t.idx.name, t.elem))
        t.bitlike = t.elem in ("BIT", "BOOLEAN")
        t.discrete = t.elem not in ("RR", "REAL")
        ei = "img(x(i))" if t.elem == "RR" else "%s'image(x(i))" % t.elem
        iname = t.idx.name
        self.decl.append("""  procedure show (k : INTEGER; x : %s) is variable l : line; begin
    write(l, INTEGER'image(k) & " " & %s'image(x'left));
    if x'ascending then write(l, string'(" to ")); else write(l, string'(" downto ")); end if;
    write(l, %s'image(x'right) & " " & INTEGER'image(x'length));
    for i in x'range loop write(l, " " & %s); end loop;
    writeline(output, l);
  end procedure;""" % (t.name, iname, iname, ei))
        self.decl.append("  function id (x : %s) return %s is begin return x; end function;" % (t.name, t.name)
                         if t.name.startswith("T") else "  function id (x : %s) return %s is begin return x; end function;" % (t.name, t.name))
        self.types.append(t)
        return t

    # -- elements
    def ev(self, t):
        s = self.s
        e = t.elem
        if e == "INTEGER":
            return s.choice([s.int(-9, 9), s.int(-2**31, 2**31 - 1)])
        if e == "SB":
            return s.int(-100, 100)
        if e == "BIT" or e == "BOOLEAN":
            return s.int(0, 1)
        if e == "CHARACTER":
            return s.choice([s.int(97, 102), s.int(32, 126), s.int(192, 255)])
        if e == "EE":
            return s.int(0, 4)
        if e == "REAL":
            return s.choice([0.0, 1.0, 2.5, -3.0, 0.5, 1024.0])
        return (s.int(-5, 5), s.int(0, 1))

    def etext(self, t, v, allow_dyn=True):
        s = self.s
        e = t.elem
        if e in ("INTEGER", "SB"):
            x = str(v) if v >= 0 else "(%d)" % v
            if v == -2**31:
                x = "INTEGER'low"
        elif e == "BIT":
            x = "'%d'" % v
        elif e == "BOOLEAN":
            x = ["FALSE", "TRUE"][v]
        elif e == "CHARACTER":
            x = "'%s'" % chr(v)
        elif e == "EE":
            x = ["ea", "eb", "ec", "ed", "ee_f"][v]
        elif e == "REAL":
            x = "%.1f" % v if v >= 0 else "(%.1f)" % v
        else:
            x = s.choice(["(%d, '%d')", "(a => %d, b => '%d')"]) % v
            if s.bool(0.2):
                x = "(b => '%d', a => %d)" % (v[1], v[0])
            if s.bool(0.3):
                return "RR'" + x if not allow_dyn else "id(RR'%s)" % x
            return "RR'" + x
        if allow_dyn and s.bool(0.35):
            self.dyn += 1
            return "id(%s'(%s))" % (e, x) if e != "REAL" else "id(%s)" % x
        return x

    def eimg(self, t, v):
        e = t.elem
        if e in ("INTEGER", "SB"):
            return str(v)
        if e == "BIT":
            return "'%d'" % v
        if e == "BOOLEAN":
            return ["false", "true"][v]
        if e == "CHARACTER":
            return "'%s'" % chr(v)
        if e == "EE":
            return ["ea", "eb", "ec", "ed", "ee_f"][v]
        if e == "REAL":
            return None
        return "(%d,'%d')" % v

    # -- bounds
    def bounds(self, t, ln):
        s = self.s
        d = s.bool(0.45)
        ix = t.idx
        lo_min = max(ix.lo, -20) if ix.lo > -2**31 or s.bool(0.9) else ix.lo
        lo_max = min(ix.hi - max(ln, 1) + 1, lo_min + 25)
        lo = s.choice([lo_min, s.int(lo_min, lo_max), min(lo_max, max(lo_min, 0)), min(lo_max, max(lo_min, 1))])
        if ln == 0:
            # null range l > r (ascending); bounds may be anything in the base type
            if lo == lo_max:
                lo -= 0
            a, b = lo, lo + 1
            if b > ix.hi:
                a, b = lo - 1, lo
            return (a, b, True) if d else (b, a, False)
        hi = lo + ln - 1
        return (hi, lo, True) if d else (lo, hi, False)

    def itext(self, t, v, dyn=None):
        s = self.s
        x = t.idx.text(v)
        if v == -2**31:
            x = "(-2147483647-1)"
        if dyn is None:
            dyn = s.bool(0.3)
        if dyn:
            self.dyn += 1
            b = {"NATURAL": "INTEGER", "POSITIVE": "INTEGER"}.get(t.idx.name, t.idx.name)
            return "id(%s'(%s))" % (b, x)
        return x

    def rng(self, t, l, r, d, dyn=None):
        return "%s %s %s" % (self.itext(t, l, dyn), "downto" if d else "to", self.itext(t, r, dyn))

    # -- objects: created on demand; the model holds the current value
    def obj(self, t, ln=None, writable=False):
        s = self.s
        c = [o for o in self.objs.values() if o["t"] is t and (ln is None or len(o["m"][2]) == ln) and (o["w"] or not writable)]
        if c and s.bool(0.7):
            return s.choice(c)
        if ln is None:
            ln = s.choice([0, 1, 2, 3, 4, 5, 6, 7])
        l, r, d = self.bounds(t, ln)
        es = [self.ev(t) for _ in range(ln)]
        nm = self.n("v")
        kind = "var" if writable else s.choice(["var", "var", "const", "sig", "gvar"])
        init = self.agg(t, l, d, es)
        if kind == "const":
            self.decl.append("  constant %s : %s(%s) := %s;" % (nm, t.name, self.rng(t, l, r, d), init))
        elif kind == "sig":
            self.decl.append("  signal %s : %s(%s) := %s;" % (nm, t.name, self.rng(t, l, r, d), init))
        elif kind == "gvar":
            self.vars.append("    variable %s : %s(%s) := %s;" % (nm, t.name, self.rng(t, l, r, d), init))
        else:
            self.vars.append("    variable %s : %s(%s);" % (nm, t.name, self.rng(t, l, r, d)))
            self.init.append("    %s := %s;" % (nm, init))
        o = {"name": nm, "t": t, "m": (l, d, es), "w": kind in ("var", "gvar"), "kind": kind}
        self.objs[nm] = o
        return o

    def agg(self, t, l, d, es):
        """An aggregate for a constrained context (bounds known from the subtype)."""
        s = self.s
        n = len(es)
        step = -1 if d else 1
        if n == 0:
            return "(others => %s)" % self.etext(t, self.ev(t))
        # string literals of types whose index range has a negative left bound: known finding K23-strneg
        strok = t.idx.name != "UI" and not getattr(t, "row", False)
        if strok and t.elem == "CHARACTER" and s.bool(0.3) and all(32 <= c < 127 for c in es):
            return '"%s"' % "".join(chr(c) if c != 34 else '""' for c in es)
        if strok and t.elem == "BIT" and s.bool(0.3):
            return '"%s"' % "".join(str(c) for c in es)
        form = s.choice(["pos", "named", "others", "range"])
        if form == "pos" and n > 1:
            if s.bool(0.3):
                # trailing others
                k = n
                while k > 1 and es[k - 1] == es[-1]:
                    k -= 1
                return "(%s, others => %s)" % (", ".join(self.etext(t, e) for e in es[:k]), self.etext(t, es[-1]))
            return "(%s)" % ", ".join(self.etext(t, e) for e in es)
        order = list(range(n))
        if s.bool():
            order = [order[i] for i in s.perm(n)] if hasattr(s, "perm") else order[::-1]
        if form == "others":
            v = s.choice(es)
            parts = []
            i = 0
            while i < n:
                if es[order[i]] != v or s.bool(0.3):
                    parts.append("%s => %s" % (t.idx.text(l + step * order[i]) if l + step * order[i] != -2**31 else self.itext(t, -2**31, False), self.etext(t, es[order[i]])))
                i += 1
            return "(%s)" % ", ".join(parts + ["others => %s" % self.etext(t, v)])
        # groups of equal values
        parts = []
        if form == "range":
            i = 0
            while i < n:
                j = i
                while j + 1 < n and es[j + 1] == es[i] and s.bool(0.8):
                    j += 1
                if j > i:
                    a, b = l + step * i, l + step * j
                    r = "%s %s %s" % (self.itext(t, a, False), "downto" if d else "to", self.itext(t, b, False))
                    if s.bool(0.4):
                        r = "%s %s %s" % (self.itext(t, b, False), "to" if d else "downto", self.itext(t, a, False))
                    parts.append("%s => %s" % (r, self.etext(t, es[i])))
                else:
                    parts.append("%s => %s" % (self.itext(t, l + step * i, False), self.etext(t, es[i])))
                i = j + 1
            if s.bool():
                parts.reverse()
            return "(%s)" % ", ".join(parts)
        groups = {}
        for i in order:
            groups.setdefault(repr(es[i]), []).append(i)
        for g in groups.values():
            if len(g) > 1 and s.bool(0.7):
                parts.append("%s => %s" % (" | ".join(self.itext(t, l + step * i, False) for i in g), self.etext(t, es[g[0]])))
            else:
                for i in g:
                    parts.append("%s => %s" % (self.itext(t, l + step * i, False), self.etext(t, es[i])))
        return "(%s)" % ", ".join(parts)

    # -- array expressions: returns (text, model, depth)
    def expr(self, t, depth, ln=None):
        s = self.s
        if depth <= 0:
            return self.prim(t, ln)
        opts = [(2, "prim"), (4, "concat"), (3, "slice"), (2, "fcall"), (2, "qual")]
        if self.rel.get(t.name):
            opts.append((2, "conv"))
        if t.bitlike:
            opts += [(4, "logic"), (3, "shift"), (1, "not")]
        k = s.weighted(opts)
        if k == "prim":
            return self.prim(t, ln)
        self.ops += 1
        if k == "concat":
            if ln is None:
                ln = s.int(1, 7)
            if ln == 0:
                return self.prim(t, 0)      # null & null: known finding K23-nullconcat
            c = s.choice(["aa", "ae", "ea", "ee"])
            if c == "ee" and ln != 2 or ln == 0:
                c = "aa"
            S = t.idx
            if c == "aa":
                k1 = s.int(0, ln)
                a, ma = self.expr(t, depth - 1, k1)
                b, mb = self.expr(t, depth - 1, ln - k1)
                es = ma[2] + mb[2]
                if not es:
                    return self.amb("%s & %s" % (self.par(a), self.par(b)), t), mb
            elif c == "ae":
                a, ma = self.expr(t, depth - 1, ln - 1)
                v = self.ev(t)
                b = self.etext(t, v)
                es = ma[2] + [v]
            elif c == "ea":
                b, mb = self.expr(t, depth - 1, ln - 1)
                v = self.ev(t)
                a = self.etext(t, v)
                es = [v] + mb[2]
            else:
                v1, v2 = self.ev(t), self.ev(t)
                a, b = self.etext(t, v1), self.etext(t, v2)
                es = [v1, v2]
            return self.amb("%s & %s" % (self.par(a), self.par(b)), t), (S.lo, False, es)
        if k == "slice":
            o = self.obj(t)
            l, d, es = o["m"]
            if ln is not None and len(es) < ln:
                o = self.obj(t, ln)
                l, d, es = o["m"]
            if ln is None:
                ln = s.int(0, len(es))
            i = s.int(0, len(es) - ln)
            step = -1 if d else 1
            if ln == 0:
                a = l + step * i
                b = a - step
                if not (t.idx.lo <= a <= t.idx.hi and t.idx.lo <= b <= t.idx.hi):
                    return self.prim(t, 0)
                return "%s(%s)" % (o["name"], self.rng(t, a, b, d)), (a, d, [])
            a, b = l + step * i, l + step * (i + ln - 1)
            return "%s(%s)" % (o["name"], self.rng(t, a, b, d)), (a, d, es[i:i + ln])
        if k == "fcall":
            a, m = self.expr(t, depth - 1, ln)
            return "id(%s)" % a, m
        if k == "qual":
            if ln is None:
                ln = s.int(1, 6)
            l, r, d = self.bounds(t, ln)
            st = self.n("S")
            self.decl.append("  subtype %s is %s(%s);" % (st, t.name, self.rng(t, l, r, d, False)))
            es = [self.ev(t) for _ in range(ln)]
            return "%s'%s" % (st, self.agg2(t, l, d, es)), (l, d, es)
        if k == "conv":
            t2 = s.choice(self.rel[t.name])
            if ln is None:
                ln = s.int(0, 6)
            # conversion to a constrained subtype keeps the operand's bounds (known finding
            # K23-convbounds, enshrined in the gold file of test ieee9): only unconstrained here
            if ln == 0:
                return self.prim(t, 0)
            a, m = self.expr(t2, depth - 1, ln)
            if not (t.idx.lo <= min(m[0], right(m)) and max(m[0], right(m)) <= t.idx.hi):
                return self.prim(t, ln)
            return "%s(%s)" % (t.name, a), m
        if k == "not":
            a, m = self.expr(t, depth - 1, ln)
            return self.amb("not %s" % self.par(a), t), (m[0], m[1], [1 - e for e in m[2]])
        if k == "logic":
            op = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            f = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
                 "nand": lambda a, b: 1 - (a & b), "nor": lambda a, b: 1 - (a | b), "xnor": lambda a, b: 1 - (a ^ b)}[op]
            a, ma = self.expr(t, depth - 1, ln)
            c = s.choice(["aa", "aa", "ae", "ea"])
            if c == "aa":
                b, mb = self.expr(t, depth - 1, len(ma[2]))
                es = [f(x, y) for x, y in zip(ma[2], mb[2])]
                return self.amb("%s %s %s" % (self.par(a), op, self.par(b)), t), (ma[0], ma[1], es)
            v = self.ev(t)
            e = self.etext(t, v)
            es = [f(x, v) for x in ma[2]]
            p = (self.par(a), e) if c == "ae" else (e, self.par(a))
            return self.amb("%s %s %s" % (p[0], op, p[1]), t), (ma[0], ma[1], es)
        if k == "shift":
            op = s.choice(["sll", "srl", "sla", "sra", "rol", "ror"])
            a, ma = self.expr(t, depth - 1, ln)
            n = s.choice([0, 1, 2, -1, -2, s.int(-12, 12), len(ma[2]), s.int(-3, 3) * len(ma[2]) + s.int(-1, 1), s.int(-70, 70)])
            nt = str(n) if n >= 0 else "(%d)" % n
            if s.bool(0.4):
                nt = "id(INTEGER'(%s))" % nt
            es = self.shift(op, n, ma[2])
            return self.amb("%s %s %s" % (self.par(a), op, nt), t), (ma[0], ma[1], es)

    @staticmethod
    def shift(op, n, es):
        es = list(es)
        if not es:
            return es
        inv = {"sll": "srl", "srl": "sll", "sla": "sra", "sra": "sla", "rol": "ror", "ror": "rol"}
        if n < 0:
            op, n = inv[op], -n
        for _ in range(n if op in ("rol", "ror") else min(n, len(es))):
            if op == "sll":
                es = es[1:] + [0]
            elif op == "srl":
                es = [0] + es[:-1]
            elif op == "sla":
                es = es[1:] + [es[-1]]
            elif op == "sra":
                es = [es[0]] + es[:-1]
            elif op == "rol":
                es = es[1:] + es[:1]
            else:
                es = es[-1:] + es[:-1]
        return es

    def agg2(self, t, l, d, es):
        x = self.agg(t, l, d, es)
        return x if x.startswith("(") else "(" + x + ")"

    def par(self, a):
        return a if re.fullmatch(r"[\w']+", a) else "(" + a + ")"

    def amb(self, a, t):
        """Qualify an expression whose type is otherwise ambiguous."""
        return "%s'(%s)" % (t.name, a)

    def prim(self, t, ln):
        s = self.s
        if s.bool(0.7):
            o = self.obj(t, ln)
            return o["name"], o["m"]
        if ln == 0:
            o = self.obj(t, 0)
            return o["name"], o["m"]
        n = ln if ln is not None else s.int(2, 6)
        es = [self.ev(t) for _ in range(n)]
        form = s.choice(["pos", "range", "named"])
        if n > 1 and form == "pos" and t.idx.hi - t.idx.lo >= n:
            return "%s'(%s)" % (t.name, ", ".join(self.etext(t, e) for e in es)), (t.idx.lo, False, es)
        l = max(t.idx.lo, 0 if t.idx.lo <= 0 else t.idx.lo) + s.int(0, 3)
        if form == "range" or n == 1:
            es = [es[0]] * n
            return "%s'(%s => %s)" % (t.name, self.rng(t, l, l + n - 1, False), self.etext(t, es[0])), (l, False, es)
        parts = ["%s => %s" % (self.itext(t, l + i, False), self.etext(t, e)) for i, e in enumerate(es)]
        if s.bool():
            parts.reverse()
        return "%s'(%s)" % (t.name, ", ".join(parts)), (l, False, es)

    # -- statements
    def show(self, t, text, m, lab):
        k = len(self.exp)
        self.stm.append("    show(%d, %s);" % (k, text))
        l, d, es = m
        r = right(m) if es else (l + 1 if d else l - 1)
        e = [self.eimg(t, v) for v in es]
        self.exp.append(("%d %s %s %s %d" % (k, t.idx.img(l) , "downto" if d else "to", t.idx.img(r) if 0 == len(t.idx.lits or []) or 0 <= r < 10 else "?", len(es)),
                         e if t.elem != "REAL" else ["F%r" % v for v in es], lab, text))

    def put(self, text, val, lab):
        k = len(self.exp)
        self.stm.append("    write(output, \"%d \" & %s & LF);" % (k, text))
        self.exp.append(("%d %s" % (k, val), None, lab, text))

    def null_right_ok(self, t, m):
        # the right bound of a null result is left -/+ 1 only when built so
        return True

    def step(self):
        s = self.s
        t = s.choice(self.types)
        k = s.weighted([(6, "show"), (4, "assign"), (3, "elem"), (3, "slice"), (3, "cmp"), (2, "attr"), (1, "minmax"), (2, "reduce"),
                        (2, "target"), (1, "twod"), (1, "record"), (1, "index"), (1, "alias")])
        d0, o0 = self.dyn, self.ops
        if k == "show":
            a, m = self.expr(t, s.int(1, 3))
            self.show(t, a, m, "show")
        elif k == "assign":
            o = self.obj(t, writable=True)
            l, d, es = o["m"]
            if s.bool(0.4):
                ne = [self.ev(t) for _ in es]
                a = self.agg(t, l, d, ne)
                if self.s.bool(0.3) and es and len(es) > 1:
                    # aggregate that reads the target itself (swap / rotate)
                    p = [s.int(0, len(es) - 1) for _ in es]
                    step = -1 if d else 1
                    a = "(%s)" % ", ".join("%s(%s)" % (o["name"], self.itext(t, l + step * i)) for i in p)
                    ne = [es[i] for i in p]
            else:
                a, m = self.expr(t, s.int(1, 2), len(es))
                ne = m[2]
            self.stm.append("    %s := %s;" % (o["name"], a))
            o["m"] = (l, d, ne)
            self.show(t, o["name"], o["m"], "assign: " + a)
        elif k == "elem":
            o = self.obj(t, writable=True)
            l, d, es = o["m"]
            if not es:
                return
            i = s.int(0, len(es) - 1)
            v = self.ev(t)
            st = -1 if d else 1
            if t.elem == "RR" and s.bool():
                self.stm.append("    %s(%s).a := %d;" % (o["name"], self.itext(t, l + st * i), v[0]))
                v = (v[0], es[i][1])
            elif s.bool(0.3):
                j = s.int(0, len(es) - 1)
                v = es[j]
                self.stm.append("    %s(%s) := %s(%s);" % (o["name"], self.itext(t, l + st * i), o["name"], self.itext(t, l + st * j)))
            else:
                self.stm.append("    %s(%s) := %s;" % (o["name"], self.itext(t, l + st * i), self.etext(t, v)))
            o["m"] = (l, d, es[:i] + [v] + es[i + 1:])
            self.show(t, o["name"], o["m"], "elem")
        elif k == "slice":
            o = self.obj(t, writable=True)
            l, d, es = o["m"]
            n = s.int(0, len(es))
            if n == 0:
                return
            i = s.int(0, len(es) - n)
            st = -1 if d else 1
            tx = "%s(%s)" % (o["name"], self.rng(t, l + st * i, l + st * (i + n - 1), d))
            if s.bool(0.6):
                j = s.int(0, len(es) - n)
                a = "%s(%s)" % (o["name"], self.rng(t, l + st * j, l + st * (j + n - 1), d))
                ne = es[j:j + n]
                self.ops += 1
                if s.bool(0.3):
                    # two overlapping copies concatenated
                    h = s.int(0, n)
                    x1, x2 = s.int(0, len(es) - h), s.int(0, len(es) - (n - h))
                    if 0 < h < n:
                        a = "%s(%s) & %s(%s)" % (o["name"], self.rng(t, l + st * x1, l + st * (x1 + h - 1), d),
                                                 o["name"], self.rng(t, l + st * x2, l + st * (x2 + n - h - 1), d))
                        ne = es[x1:x1 + h] + es[x2:x2 + n - h]
            else:
                a, m = self.expr(t, s.int(1, 2), n)
                ne = m[2]
            self.stm.append("    %s := %s;" % (tx, a))
            o["m"] = (l, d, es[:i] + ne + es[i + n:])
            self.show(t, o["name"], o["m"], "slice: %s := %s" % (tx, a))
        elif k == "cmp":
            a, ma = self.expr(t, s.int(0, 2))
            if s.bool(0.6):
                b, mb = self.expr(t, s.int(0, 2), len(ma[2]))
            else:
                b, mb = self.expr(t, s.int(0, 2))
            if s.bool(0.4) and len(ma[2]) > 0:
                # nearly equal arrays
                es = list(ma[2])
                if s.bool(0.7):
                    es[s.int(0, len(es) - 1)] = self.ev(t)
                l, r, d = self.bounds(t, len(es))
                st = self.n("S")
                self.decl.append("  subtype %s is %s(%s);" % (st, t.name, self.rng(t, l, r, d, False)))
                b, mb = "%s'%s" % (st, self.agg2(t, l, d, es)), (l, d, es)
            op = s.choice(["=", "/=", "<", "<=", ">", ">="] if t.discrete else ["=", "/="])
            x, y = ma[2], mb[2]
            r = {"=": x == y, "/=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            self.put("BOOLEAN'image(%s %s %s)" % (self.par(a), op, self.par(b)), str(r).lower(), "cmp")
        elif k == "attr":
            o = self.obj(t)
            l, d, es = o["m"]
            if not es:
                self.put("INTEGER'image(%s'length)" % o["name"], "0", "attr")
                return
            r = right(o["m"])
            at = s.choice(["left", "right", "low", "high", "length", "ascending"])
            v = {"left": l, "right": r, "low": min(l, r), "high": max(l, r), "length": len(es), "ascending": not d}[at]
            if at == "length":
                self.put("INTEGER'image(%s'length)" % o["name"], str(v), "attr")
            elif at == "ascending":
                self.put("BOOLEAN'image(%s'ascending)" % o["name"], str(v).lower(), "attr")
            else:
                self.put("%s'image(%s'%s)" % (t.idx.name, o["name"], at), t.idx.img(v), "attr")
        elif k == "minmax":
            if not t.discrete or t.elem in ("REAL",):
                return
            a, ma = self.expr(t, 1)
            if not ma[2]:
                return
            f = s.choice(["minimum", "maximum"])
            v = min(ma[2]) if f == "minimum" else max(ma[2])
            self.put("%s'image(%s(%s))" % (t.elem, f, a), self.eimg(t, v), "minmax")
        elif k == "reduce":
            if not t.bitlike:
                return
            a, ma = self.expr(t, s.int(1, 2))
            op = s.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            es = ma[2]
            v = {"and": int(all(es)), "or": int(any(es)), "xor": sum(es) & 1, "nand": 1 - int(all(es)), "nor": 1 - int(any(es)),
                 "xnor": 1 - (sum(es) & 1)}[op]
            self.put("%s'image(%s %s)" % (t.elem, op, self.par(a)), self.eimg(t, v), "reduce")
        elif k == "target":
            # aggregate as assignment target
            o = self.obj(t)
            es = o["m"][2]
            if len(es) < 2:
                return
            cut = s.int(1, len(es) - 1)
            w = self.obj(t, cut, writable=True)
            vs = []
            nms = []
            for i in range(len(es) - cut):
                nm = self.n("e")
                self.vars.append("    variable %s : %s;" % (nm, t.elem))
                nms.append(nm)
            first = s.bool()
            if w is o:
                return
            if cut == 1 or len(w["m"][2]) != cut:
                return
            tg = [w["name"]] + nms if first else nms + [w["name"]]
            src = es[:cut] if first else es[len(es) - cut:]
            rest = es[cut:] if first else es[:len(es) - cut]
            self.stm.append("    (%s) := %s;" % (", ".join(tg), o["name"]))
            w["m"] = (w["m"][0], w["m"][1], list(src))
            self.show(t, w["name"], w["m"], "target")
            for nm, v in zip(nms, rest):
                if t.elem not in ("REAL",):
                    self.put("img(%s)" % nm if t.elem == "RR" else "%s'image(%s)" % (t.elem, nm), self.eimg(t, v), "target")
        elif k == "twod":
            self.twod(t)
        elif k == "record":
            self.record(t)
        elif k == "index":
            a, m = self.expr(t, 2)
            if not m[2] or t.elem == "REAL":
                return
            # index the result of a function call
            i = s.int(0, len(m[2]) - 1)
            v = m[2][i]
            ix = m[0] - i if m[1] else m[0] + i
            x = "id(%s)(%s)" % (a, self.itext(t, ix))
            self.put("img(%s)" % x if t.elem == "RR" else "%s'image(%s)" % (t.elem, x), self.eimg(t, v), "index")
        elif k == "alias":
            o = self.obj(t)
            es = o["m"][2]
            if not es or o["kind"] in ("sig", "const"):
                return
            l, r, d = self.bounds(t, len(es))
            nm = self.n("al")
            self.vars.append("    alias %s : %s(%s) is %s;" % (nm, t.name, self.rng(t, l, r, d, False), o["name"]))
            self.show(t, nm, (l, d, es), "alias")
            if o["w"]:
                i = s.int(0, len(es) - 1)
                v = self.ev(t)
                self.stm.append("    %s(%s) := %s;" % (nm, self.itext(t, l - i if d else l + i), self.etext(t, v)))
                o["m"] = (o["m"][0], o["m"][1], es[:i] + [v] + es[i + 1:])
                self.show(t, o["name"], o["m"], "alias")
        if self.exp and (self.dyn > d0 or self.ops - o0 >= 2):
            self.exp[-1] = self.exp[-1] + (True,)

    def twod(self, t):
        """Two-dimensional array: aggregates, element access, equality, copies."""
        s = self.s
        if t.elem in ("REAL", "RR"):
            return
        ty, nm = self.n("M"), self.n("m")
        n1, n2 = s.int(1, 4), s.int(1, 4)
        i1, i2 = T(), T()
        i1.idx, i2.idx = self.idx[0], s.choice(self.idx)
        l1, r1, d1 = self.bounds(i1, n1)
        l2, r2, d2 = self.bounds(i2, n2)
        self.decl.append("  type %s is array (%s range <>, %s range <>) of %s;" % (ty, i1.idx.name, i2.idx.name, t.elem))
        m = [[self.ev(t) for _ in range(n2)] for _ in range(n1)]
        row = T()
        row.idx, row.elem, row.row = i2.idx, t.elem, True

        def rowagg(es):
            while True:
                a = self.agg(row, l2, d2, es)
                return a
        form = s.choice(["pos", "named", "others"])
        if form == "pos" and n1 > 1:
            a = "(%s)" % ", ".join(rowagg(r) for r in m)
        elif form == "others":
            m = [m[0] if i else m[-1] for i in range(n1)]
            a = "(%s => %s, others => %s)" % (self.itext(i1, l1, False), rowagg(m[0]), rowagg(m[-1])) if n1 > 1 else "(others => %s)" % rowagg(m[0])
        else:
            st = -1 if d1 else 1
            ps = ["%s => %s" % (self.itext(i1, l1 + st * i, False), rowagg(r)) for i, r in enumerate(m)]
            if s.bool():
                ps.reverse()
            a = "(%s)" % ", ".join(ps)
        bd = "%s, %s" % (self.rng(i1, l1, r1, d1), self.rng(i2, l2, r2, d2, False))    # dynamic: K23-twodothers
        self.vars.append("    variable %s : %s(%s);" % (nm, ty, bd))
        self.stm.append("    %s := %s;" % (nm, a))
        m = [list(r) for r in m]
        st1, st2 = (-1 if d1 else 1), (-1 if d2 else 1)
        for _ in range(s.int(0, 2)):
            i, j = s.int(0, n1 - 1), s.int(0, n2 - 1)
            v = self.ev(t)
            self.stm.append("    %s(%s, %s) := %s;" % (nm, self.itext(i1, l1 + st1 * i), self.itext(i2, l2 + st2 * j), self.etext(t, v)))
            m[i][j] = v
        k = len(self.exp)
        e = [self.eimg(t, v) for r in m for v in r]
        self.stm.append("    write(output, \"%d\");" % k)
        self.stm.append("    for i in %s'range(1) loop for j in %s'range(2) loop write(output, \" \" & %s'image(%s(i, j))); end loop; end loop;" % (nm, nm, t.elem, nm))
        self.stm.append("    write(output, \"\" & LF);")
        self.exp.append(("%d %s" % (k, " ".join(e)), None, "twod", a, True))
        self.put("INTEGER'image(%s'length(1)) & \" \" & INTEGER'image(%s'length(2)) & \" \" & %s'image(%s'left(2)) & \" \" & BOOLEAN'image(%s'ascending(1))"
                 % (nm, nm, i2.idx.name, nm, nm), "%d %d %s %s" % (n1, n2, i2.idx.img(l2), str(not d1).lower()), "twod")
        nm2 = self.n("m")
        self.vars.append("    variable %s : %s(%s);" % (nm2, ty, "%s, %s" % (self.rng(i1, l1, r1, d1), self.rng(i2, l2, r2, d2, False))))
        self.stm.append("    %s := %s;" % (nm2, nm))
        i, j = s.int(0, n1 - 1), s.int(0, n2 - 1)
        v = self.ev(t)
        self.stm.append("    %s(%s, %s) := %s;" % (nm2, self.itext(i1, l1 + st1 * i), self.itext(i2, l2 + st2 * j), self.etext(t, v)))
        self.put("BOOLEAN'image(%s = %s)" % (nm, nm2), str(m[i][j] == v).lower(), "twod")

    def record(self, t):
        s = self.s
        if t.elem in ("REAL",):
            return
        ty = self.n("R")
        n = s.int(1, 4)
        l, r, d = self.bounds(t, n)
        n2 = s.int(1, 3)
        l2, r2, d2 = self.bounds(t, n2)
        self.decl.append("  type %s is record p : INTEGER; q : %s(%s); r : INTEGER; w : %s(%s); end record;" % (
            ty, t.name, self.rng(t, l, r, d, False), t.name, self.rng(t, l2, r2, d2, False)))
        self.decl.append("  function id (x : %s) return %s is begin return x; end function;" % (ty, ty))
        nm, nm2 = self.n("r"), self.n("r")
        self.vars.append("    variable %s, %s : %s;" % (nm, nm2, ty))
        p, rr = s.int(-9, 9), s.int(-9, 9)
        q, w = [self.ev(t) for _ in range(n)], [self.ev(t) for _ in range(n2)]
        I = T()
        I.elem = "INTEGER"
        form = s.int(0, 3)
        pt, rt = self.etext(I, p), self.etext(I, rr)
        qt, wt = self.agg(t, l, d, q), self.agg(t, l2, d2, w)
        if form == 0:
            a = "(%s, %s, %s, %s)" % (pt, qt, rt, wt)
        elif form == 1:
            a = "(w => %s, r => %s, q => %s, p => %s)" % (wt, rt, qt, pt)
        elif form == 2:
            rr = p
            a = "(q => %s, w => %s, others => %s)" % (qt, wt, pt)
        else:
            rr = p
            a = "(q => %s, p | r => %s, w => %s)" % (qt, pt, wt)
        self.stm.append("    %s := %s;" % (nm, a))
        self.stm.append("    %s := id(%s);" % (nm2, nm))
        self.put("BOOLEAN'image(%s = %s)" % (nm, nm2), "true", "record")
        f = s.choice(["p", "r", "q", "w"])
        if f in "pr":
            v = s.int(-9, 9)
            old = p if f == "p" else rr
            self.stm.append("    %s.%s := %s;" % (nm2, f, self.etext(I, v)))
            same = v == old
        else:
            fl, fd, fe = (l, d, q) if f == "q" else (l2, d2, w)
            i = s.int(0, len(fe) - 1)
            v = self.ev(t)
            self.stm.append("    %s.%s(%s) := %s;" % (nm2, f, self.itext(t, fl - i if fd else fl + i), self.etext(t, v)))
            same = v == fe[i]
            ne = fe[:i] + [v] + fe[i + 1:]
            self.show(t, "%s.%s" % (nm2, f), (fl, fd, ne), "record")
        self.put("BOOLEAN'image(%s /= %s)" % (nm, nm2), str(not same).lower(), "record")
        self.show(t, nm + ".q", (l, d, q), "record: " + a)
        self.show(t, nm + ".w", (l2, d2, w), "record: " + a)
        self.put("INTEGER'image(%s.p) & INTEGER'image(%s.r)" % (nm, nm), "%d%d" % (p, rr), "record")


def gen(s, index):
    g = G(s)
    for i in range(s.int(1, 14)):
        g.step()
    wrap = s.choice(["proc", "proc", "func", "sub"])
    out = ["use std.textio.all;", "entity tb is end entity;", "architecture a of tb is"] + g.decl + ["begin"]
    if wrap == "proc" or any("sig" == o["kind"] for o in g.objs.values()):
        out += ["  process is"] + g.vars + ["  begin"] + g.init + g.stm + ["    wait;", "  end process;"]
    elif wrap == "sub":
        out.insert(len(out) - 1, "\n".join(["  procedure main is"] + g.vars + ["  begin"] + g.init + g.stm + ["  end procedure;"]))
        out += ["  process is begin", "    main;", "    wait;", "  end process;"]
    else:
        out.insert(len(out) - 1, "\n".join(["  impure function main return INTEGER is"] + g.vars + ["  begin"] + g.init + g.stm + ["    return 1;", "  end function;"]))
        out += ["  process is variable x : INTEGER; begin", "    x := main;", "    wait;", "  end process;"]
    out += ["end architecture;", ""]
    return {"src": "\n".join(out), "expect": [list(e) for e in g.exp],
            "engines": s.sample(["interp", "jit", "aot2", "aot0", "mixed"], 2) if s.bool(0.5) else [s.choice(["interp", "jit", "aot2"])]}


def check(case, env):
    src = case["src"]
    for e in case["engines"]:
        env.label("engine-" + e)
        r = nvc.sim(env, env.dir(), src, engine=e, gopts=["--messages=compact"])
        env.count(len(case["expect"]))
        det = {"engine": e, "result": repr(r)}
        if r.timeout:
            raise Skip("time limit: " + repr(r)[:500])
        if r.crashed:
            raise Fail("nvc crashed on engine %s\n%s" % (e, r.err[:1500]), "crash", det)
        if r.rc != 0:
            raise Fail("error on engine %s: %s" % (e, r.err[:700]), "error", det)
        out = r.out.split("\n")[:-1]
        for i, ex in enumerate(case["expect"]):
            head, es, lab, text = ex[:4]
            if i >= len(out):
                raise Fail("output missing (engine %s) from %s" % (e, text), "output", det)
            got = out[i]
            if es is None:
                if got != head:
                    raise Fail("engine %s: %s (%s): got %r expected %r" % (e, text, lab, got, head), "value", det)
                continue
            want = head
            n = int(head.split()[-1])
            if n and str(es[0]).startswith("F"):
                g = got.split(" ")
                ok = " ".join(g[:-n]) == head and [float(x) for x in g[-n:]] == [float(x[1:]) for x in es]
                want = head + " " + " ".join(map(str, es))
            elif n:
                want = head + "".join(" " + x for x in es)
                ok = got == want
            else:
                ok = re.fullmatch(re.escape(head).replace(r"\?", r"\S+"), got) is not None
            if not ok:
                raise Fail("engine %s: %s (%s): got %r expected %r" % (e, text, lab, got, want), "value", det)
        if len(out) != len(case["expect"]):
            raise Fail("extra output", "output", det)
    for ex in case["expect"]:
        env.label(ex[2].split(":")[0])
        if len(ex) > 4:
            env.mark(ex[3] + ex[2])




def pin(pid, decl, var, body, expect):
    src = ("use std.textio.all;\nentity tb is end entity;\narchitecture a of tb is\n  function id (x : INTEGER) return INTEGER is begin return x; end function;\n"
           "  type T is array (INTEGER range <>) of INTEGER; type S is array (INTEGER range <>) of INTEGER;\n"
           "  function img (x : T) return string is begin return INTEGER'image(x'left) & \" \" & INTEGER'image(x'right) & \" \" & BOOLEAN'image(x'ascending); end;\n"
           + decl + "\nbegin\n  process is\n" + var + "\n  begin\n" + body + "\n    wait;\n  end process;\nend architecture;\n")
    return {"id": pid, "case": {"src": src, "expect": [[e, None, "pin", pid] for e in expect], "engines": ["interp", "jit", "aot2"]}}


PINNED = [
    pin("K23-nullconcat", "", "variable a, b : T(1 to 0);", "write(output, img(a & b) & LF);", ["1 0 true"]),
    pin("K23-convbounds", "subtype D is T(5 to 6); ", "variable a : S(1 to 2);", "write(output, img(D(S'(3, id(4)))) & LF);", ["5 6 true"]),
    pin("K23-strneg", "type I is range -3 to 9; type B is array (I range <>) of BIT; function f (x : B) return INTEGER is begin return INTEGER(x'left) * 10 + x'length; end;",
        "variable a : INTEGER;", "a := f(\"10\"); write(output, INTEGER'image(a) & LF);", ["-28"]),
    pin("K23-twodothers", "type M is array (INTEGER range <>, INTEGER range <>) of INTEGER;", "variable a : M(0 to 1, id(2) to 2);",
        "a := (0 => (2 => 5), 1 => (others => 6)); write(output, INTEGER'image(a(0, 2)) & INTEGER'image(a(1, 2)) & LF);", ["56"]),
    pin("F23-sla", "", "variable v : BIT_VECTOR(7 downto 0) := \"10010110\"; variable w, x : BIT_VECTOR(7 downto 0);",
        "w := v sla id(2); x := v sra id(2); for i in 0 to 7 loop write(output, BIT'image(w(7 - i)) & BIT'image(x(7 - i)) & LF); end loop;",
        ["'%s''%s'" % x for x in zip("01011000", "11100101")]),
    pin("F23-nullcmp", "", "variable a, b : T(0 downto id(1));", "write(output, BOOLEAN'image(a < b) & BOOLEAN'image(a <= b) & LF);", ["falsetrue"]),
    pin("F23-aggdir", "", "variable a : T(1 downto -1);", "a := (1 => 10, 0 => 20, -1 => 30); write(output, INTEGER'image(a(1)) & INTEGER'image(a(-1)) & LF);", ["1030"]),
    pin("F23-nullconcat", "", "variable a, b : T(1 to 0); function len (x : T) return INTEGER is begin return x'length; end;", "write(output, INTEGER'image(len(a & b)) & LF);", ["0"]),
    pin("F23-convfold", "subtype S1 is BIT_VECTOR(1 to 1); type Q is array (INTEGER range <>) of BIT;", "variable v : S1;", "v := S1(Q'(id(2) to 2 => '1')); write(output, BIT'image(v(1)) & LF);", ["'1'"]),
]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
