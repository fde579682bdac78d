"""Random well-defined sequential VHDL programs with their reference semantics.

Programs are built as an AST; `P.emit()` gives VHDL and `P.execute()` the lines
the program must print.  Every integer expression carries an interval so that
no intermediate value can leave INTEGER; every array index is in range by
construction; subprogram arguments never alias.
"""
from .pbt import Skip

BIG = 1 << 30


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Exit(Exception):
    def __init__(self, label):
        self.label = label


class Next(Exception):
    def __init__(self, label):
        self.label = label


# ------------------------------------------------------------------ types
class T:
    pass


class TInt(T):
    """A (sub)type of INTEGER with declared bounds."""
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi
    kind = "int"

    def default(self):
        return self.lo

    def image(self, v):
        return str(v)


class TBool(T):
    kind, name = "bool", "BOOLEAN"

    def default(self):
        return False

    def image(self, v):
        return "true" if v else "false"


class TEnum(T):
    kind = "enum"

    def __init__(self, name, lits):
        self.name, self.lits = name, lits

    def default(self):
        return 0

    def image(self, v):
        return self.lits[v].lower()


class TArr(T):
    """Array of int/bool/enum/record with fixed bounds: value = list (by position from the left)."""
    kind = "arr"

    def __init__(self, name, elem, left, right, down):
        self.name, self.elem, self.left, self.right, self.down = name, elem, left, right, down
        self.n = abs(right - left) + 1

    def default(self):
        return [self.elem.default() for _ in range(self.n)]

    def pos(self, i):
        return self.left - i if self.down else i - self.left

    @property
    def lo(self):
        return min(self.left, self.right)

    @property
    def hi(self):
        return max(self.left, self.right)


class TRec(T):
    kind = "rec"

    def __init__(self, name, fields):
        self.name, self.fields = name, fields      # [(name, type)]

    def default(self):
        return {n: t.default() for n, t in self.fields}


class TUns(T):
    """Unconstrained integer vector (parameters and results)."""
    kind, name = "uns", "IVEC"


def copy(v):
    if isinstance(v, list):
        return [copy(x) for x in v]
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return v


BOOL = TBool()


class Var:
    def __init__(self, name, t, writable=True, cls="variable"):
        self.name, self.t, self.writable, self.cls = name, t, writable, cls


class Sub:
    """A subprogram."""
    def __init__(self, name, params, ret, waits, depth_param):
        self.name, self.params, self.ret = name, params, ret   # params: [(mode, Var)]
        self.waits = waits
        self.depth_param = depth_param
        self.decls, self.body, self.subs = [], [], []
        self.pure = True
        self.touches = set()


class Frame:
    __slots__ = ("vars", "parent")

    def __init__(self, parent):
        self.vars, self.parent = {}, parent

    def find(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f.vars
            f = f.parent
        raise KeyError(name)


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Gen:
    def __init__(self, src, waits=True, maxstmts=60, records=True, bits=32):
        self.bits = bits
        self.s = src
        self.nid = 0
        self.waits = waits
        self.types = []
        self.ints, self.enums, self.arrs, self.recs = [], [], [], []
        self.subs = []           # callable subprograms visible at top level
        self.budget = maxstmts
        self.features = set()
        self.records = records
        self.mk_types()

    def name(self, p):
        self.nid += 1
        return "%s%d" % (p, self.nid)

    # -------------------------------------------------------------- types
    def mk_types(self):
        s = self.s
        self.INT = TInt("INTEGER", -(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1)
        self.ints = [self.INT]
        for _ in range(s.int(0, 2)):
            lo = s.int(-50, 5)
            t = TInt(self.name("st"), lo, lo + s.choice([1, 7, 15, 100, 255, 1000, 70000]))
            self.ints.append(t)
        for _ in range(s.int(1, 2)):
            n = s.int(2, 6)
            nm = self.name("en")
            self.enums.append(TEnum(nm, ["%s_l%d" % (nm, i) for i in range(n)]))
        for _ in range(s.int(1, 3)):
            self.arrs.append(self.mk_arr())
        if self.records:
            for _ in range(s.int(0, 2)):
                fs = []
                for i in range(s.int(1, 4)):
                    k = s.raw(5)
                    t = s.choice(self.ints) if k < 2 else BOOL if k == 2 else s.choice(self.enums) if k == 3 else s.choice(self.arrs)
                    fs.append(("f%d" % i, t))
                r = TRec(self.name("rec"), fs)
                self.recs.append(r)
                self.types.append(r)
                if s.bool(0.4):
                    self.arrs.append(self.mk_arr(r))

    def mk_arr(self, elem=None):
        s = self.s
        if elem is None:
            k = s.raw(6)
            elem = s.choice(self.ints) if k < 4 else BOOL if k == 4 else s.choice(self.enums)
        n = s.int(1, 6)
        lo = s.int(-3, 4)
        down = s.bool(0.4)
        l, r = (lo + n - 1, lo) if down else (lo, lo + n - 1)
        t = TArr(self.name("ar"), elem, l, r, down)
        self.types.append(t)
        return t

    def type_decls(self):
        out = ["type IVEC is array (NATURAL range <>) of INTEGER;"]
        for t in self.ints[1:]:
            out.append("subtype %s is INTEGER range %d to %d;" % (t.name, t.lo, t.hi))
        for t in self.enums:
            out.append("type %s is (%s);" % (t.name, ", ".join(t.lits)))
        for t in self.types:
            if t.kind == "arr":
                out.append("type %s is array (%d %s %d) of %s;" % (t.name, t.left, "downto" if t.down else "to", t.right, t.elem.name))
            else:
                out.append("type %s is record %s end record;" % (t.name, " ".join("%s : %s;" % (n, f.name) for n, f in t.fields)))
        return out

    # -------------------------------------------------------------- expressions
    # expression nodes: ("lit", v) ("var", name) ("idx", base, e, TArr) ("fld", base, f)
    # ("bin", op, a, b) ("un", op, a) ("call", sub, args) ("cond"...) with emit/eval below
    def int_names(self, sc):
        """(node, interval) of readable integer objects."""
        out = []
        for v in sc.vars:
            self.paths(("var", v.name), v.t, out, "int")
        return out

    def paths(self, node, t, out, kind, depth=0):
        if t.kind == kind:
            out.append((node, t))
        if t.kind == "rec":
            for n, ft in t.fields:
                self.paths(("fld", node, n), ft, out, kind, depth + 1)
        elif t.kind == "arr" and depth < 3:
            self.paths(("idx", node, None, t), t.elem, out, kind, depth + 1)
        elif t.kind == "uns" and kind == "int":
            out.append((("uidx", node, None), TInt("INTEGER", -9999, 9999)))

    def fill(self, node, sc, depth):
        """Replace the open indexes of a path by index expressions."""
        if node[0] == "idx":
            base = self.fill(node[1], sc, depth)
            t = node[3]
            return ("idx", base, self.index(sc, t.lo, t.hi, depth), t)
        if node[0] == "uidx":
            base = self.fill(node[1], sc, depth)
            e, _ = self.iexpr(sc, max(0, depth - 1))
            return ("uidx", base, e)
        if node[0] == "fld":
            return ("fld", self.fill(node[1], sc, depth), node[2])
        return node

    def index(self, sc, lo, hi, depth):
        """Integer expression with value in lo..hi."""
        s = self.s
        if depth <= 0 or s.bool(0.5):
            # a loop variable or variable whose interval fits
            c = [v for v in sc.vars if v.t.kind == "int" and lo <= v.t.lo and v.t.hi <= hi]
            if c and s.bool(0.7):
                return ("var", s.choice(c).name)
            return ("lit", s.int(lo, hi))
        e, iv = self.iexpr(sc, depth - 1)
        return self.clamp(e, iv, lo, hi)

    def clamp(self, e, iv, lo, hi):
        if lo <= iv[0] and iv[1] <= hi:
            return e
        n = hi - lo + 1
        if lo == 0:
            return ("bin", "mod", e, ("lit", n))
        return ("bin", "+", ("bin", "mod", e, ("lit", n)), ("lit", lo))

    def iexpr(self, sc, depth):
        """-> (node, (lo, hi))"""
        s = self.s
        if depth <= 0:
            if s.bool(0.7):
                c = self.int_names(sc)
                if c:
                    n, t = s.choice(c)
                    return self.fill(n, sc, 0), (t.lo, t.hi)
            v = s.int(-9, 20)
            return ("lit", v), (v, v)
        k = s.weighted([(6, "bin"), (2, "un"), (3, "leaf"), (3, "call"), (1, "attr"), (1, "enumpos"), (1, "cond")])
        if k == "leaf":
            return self.iexpr(sc, 0)
        if k == "call" and sc.funcs:
            f = s.choice([f for f in sc.funcs])
            if f.ret.kind == "int":
                return self.call(f, sc, depth), (f.ret.lo, f.ret.hi)
            if f.ret.kind == "bool":
                return ("b2i", self.call(f, sc, depth)), (0, 1)
            if f.ret.kind == "uns":
                return ("ulen", self.call(f, sc, depth)), (0, 16)
        if k == "attr":
            c = [v for v in sc.vars if v.t.kind in ("arr", "uns")]
            if c:
                v = s.choice(c)
                at = s.choice(["left", "right", "low", "high", "length"]) if v.t.kind == "arr" else "length"
                return ("attr", v.name, at, v.t), (-40, 40)
        if k == "enumpos":
            t = s.choice(self.enums)
            return ("pos", self.eexpr(sc, t, depth - 1), t), (0, len(t.lits) - 1)
        if k == "un":
            op = s.choice(["-", "abs"])
            e, (lo, hi) = self.iexpr(sc, depth - 1)
            if lo < -BIG or hi > BIG:
                e, lo, hi = ("bin", "rem", e, ("lit", 10007)), -10006, 10006
            if op == "-":
                return ("un", "-", e), (-hi, -lo)
            m = max(abs(lo), abs(hi))
            return ("un", "abs", e), (0, m)
        a, ia = self.iexpr(sc, depth - 1)
        b, ib = self.iexpr(sc, s.int(0, depth - 1))
        op = s.choice(["+", "-", "*", "+", "-", "/", "mod", "rem"])
        if op in ("/", "mod", "rem"):
            if ib[0] <= 0 <= ib[1]:
                v = s.choice([2, 3, 7, -2, -5, 16, 1, 100])
                b, ib = ("lit", v), (v, v)
            if ia[0] <= -(1 << 31):
                a, ia = ("bin", "rem", a, ("lit", 10007)), (-10006, 10006)
            m = max(abs(ib[0]), abs(ib[1]))
            if op == "/":
                q = max(abs(ia[0]), abs(ia[1]))
                return ("bin", "/", a, b), (-q, q)
            return ("bin", op, a, b), (-m, m)
        lim = 40000 if op == "*" else BIG
        if ia[0] < -lim or ia[1] > lim:
            a, ia = ("bin", "rem", a, ("lit", 1009)), (-1008, 1008)
        if ib[0] < -lim or ib[1] > lim:
            b, ib = ("bin", "rem", b, ("lit", 997)), (-996, 996)
        if op == "+":
            iv = (ia[0] + ib[0], ia[1] + ib[1])
        elif op == "-":
            iv = (ia[0] - ib[1], ia[1] - ib[0])
        else:
            c = [x * y for x in ia for y in ib]
            iv = (min(c), max(c))
        return ("bin", op, a, b), iv

    def bexpr(self, sc, depth):
        s = self.s
        k = s.raw(8)
        if depth <= 0 or k == 0:
            c = []
            for v in sc.vars:
                self.paths(("var", v.name), v.t, c, "bool")
            if c and s.bool(0.7):
                return self.fill(s.choice(c)[0], sc, 0)
            if depth <= 0:
                a, _ = self.iexpr(sc, 0)
                return ("cmp", s.choice(["=", "<", ">=", "/="]), a, ("lit", s.int(-3, 12)))
        if k <= 3:
            a, _ = self.iexpr(sc, depth - 1)
            b, _ = self.iexpr(sc, 0)
            return ("cmp", s.choice(["=", "/=", "<", "<=", ">", ">="]), a, b)
        if k == 4:
            return ("not", self.bexpr(sc, depth - 1))
        if k == 5:
            t = s.choice(self.enums)
            return ("cmp", s.choice(["=", "/=", "<", "<=", ">", ">="]), self.eexpr(sc, t, depth - 1), self.eexpr(sc, t, 0))
        if k == 6:
            c = [v for v in sc.vars if v.t.kind in ("arr", "rec")]
            p = [(a, b) for a in c for b in c if a.t is b.t]
            if p:
                a, b = s.choice(p)
                return ("cmp", s.choice(["=", "/="]), ("var", a.name), ("var", b.name))
        f = [f for f in sc.funcs if f.ret.kind == "bool"]
        if f and k == 7 and s.bool(0.5):
            return self.call(s.choice(f), sc, depth)
        return ("log", s.choice(["and", "or", "xor", "nand", "nor", "xnor"]), self.bexpr(sc, depth - 1), self.bexpr(sc, depth - 1))

    def eexpr(self, sc, t, depth):
        s = self.s
        c = []
        for v in sc.vars:
            self.paths(("var", v.name), v.t, c, "enum")
        c = [x for x in c if x[1] is t]
        if c and s.bool(0.6):
            return self.fill(s.choice(c)[0], sc, 0)
        if depth > 0 and s.bool(0.4):
            e, iv = self.iexpr(sc, depth - 1)
            return ("val", self.clamp(e, iv, 0, len(t.lits) - 1), t)
        return ("elit", s.raw(len(t.lits)), t)

    def expr(self, sc, t, depth):
        s = self.s
        if t.kind == "int":
            e, iv = self.iexpr(sc, depth)
            return self.clamp(e, iv, max(t.lo, -BIG), min(t.hi, BIG)) if (t.lo, t.hi) != (self.INT.lo, self.INT.hi) else e
        if t.kind == "bool":
            return self.bexpr(sc, depth)
        if t.kind == "enum":
            return self.eexpr(sc, t, depth)
        if t.kind in ("arr", "rec"):
            c = []
            for v in sc.vars:
                self.tpaths(("var", v.name), v.t, c, t)
            f = [f for f in sc.funcs if f.ret is t]
            if f and s.bool(0.3) and depth > 0:
                return self.call(s.choice(f), sc, depth)
            if c and s.bool(0.5):
                return self.fill(s.choice(c), sc, 0)
            if t.kind == "arr":
                form = s.raw(3)
                if form == 0 or t.elem.kind in ("rec",):
                    return ("agg", t, [self.expr(sc, t.elem, 0) for _ in range(t.n)])
                if form == 1:
                    return ("aggo", t, self.expr(sc, t.elem, 0))
                n = s.int(0, min(2, t.n - 1))
                idx = s.sample(list(range(t.lo, t.hi + 1)), n)
                return ("aggn", t, [(i, self.expr(sc, t.elem, 0)) for i in idx], self.expr(sc, t.elem, 0))
            return ("ragg", t, [self.expr(sc, ft, 0) for _, ft in t.fields], s.bool())
        if t.kind == "uns":
            c = [v for v in sc.vars if v.t.kind == "uns"]
            f = [f for f in sc.funcs if f.ret.kind == "uns"]
            k = s.raw(4)
            if c and k == 0:
                return ("var", s.choice(c).name)
            if f and k == 1 and depth > 0:
                return self.call(s.choice(f), sc, depth)
            n = s.int(2, 5)
            return ("ulit", [self.clamp(*self.iexpr(sc, 0), -9999, 9999) for _ in range(n)], s.int(-2, 3), s.bool())
        raise AssertionError(t.kind)

    def tpaths(self, node, t, out, want, depth=0):
        if t is want:
            out.append(node)
            return
        if t.kind == "rec":
            for n, ft in t.fields:
                self.tpaths(("fld", node, n), ft, out, want, depth + 1)
        elif t.kind == "arr" and depth < 2:
            self.tpaths(("idx", node, None, t), t.elem, out, want, depth + 1)

    def call(self, f, sc, depth):
        self.features.add("call")
        args = []
        for i, (mode, p) in enumerate(f.params):
            if f.depth_param == i:
                args.append(sc.depth_arg(f, self.s))
            else:
                args.append(self.expr(sc, p.t, min(1, depth - 1)))
        return ("call", f, args, self.s.bool(0.2))

    # -------------------------------------------------------------- statements
    def lvalues(self, sc, pred):
        out = []
        for v in sc.vars:
            if v.writable:
                self.lpaths(("var", v.name), v.t, out, pred)
        return out

    def lpaths(self, node, t, out, pred, depth=0):
        if pred(t):
            out.append((node, t))
        if t.kind == "rec":
            for n, ft in t.fields:
                self.lpaths(("fld", node, n), ft, out, pred, depth + 1)
        elif t.kind == "arr" and depth < 3:
            self.lpaths(("idx", node, None, t), t.elem, out, pred, depth + 1)

    def stmts(self, sc, n, depth):
        return [self.stmt(sc, depth) for _ in range(n)]

    def stmt(self, sc, depth):
        s = self.s
        self.budget -= 1
        if self.budget <= 0:
            return ("null",)
        opts = [(10, "assign"), (3, "if"), (2, "case"), (3, "for"), (1, "while"), (1, "loop"), (2, "print"), (2, "slice"), (1, "casgn"), (1, "sasgn")]
        if sc.loops:
            opts += [(2, "exit"), (2, "next")]
        if sc.sub is not None:
            opts += [(1, "return")]
        if sc.procs:
            opts += [(4, "pcall")]
        if sc.can_wait:
            opts += [(1, "wait")]
        k = s.weighted(opts)
        if depth <= 0 and k in ("if", "case", "for", "while", "loop"):
            k = "assign"
        if k == "print" and not sc.can_print:
            k = "assign"
        self.features.add(k)
        if k == "assign":
            lv = self.lvalues(sc, lambda t: t.kind != "uns")
            if not lv:
                return ("null",)
            node, t = s.choice(lv)
            return ("assign", self.fill(node, sc, 1), self.expr(sc, t, s.int(0, 3)))
        if k == "casgn":
            lv = self.lvalues(sc, lambda t: t.kind in ("int", "bool", "enum"))
            if not lv:
                return ("null",)
            node, t = s.choice(lv)
            return ("casgn", self.fill(node, sc, 0), [(self.bexpr(sc, 1), self.expr(sc, t, 1)) for _ in range(s.int(1, 2))], self.expr(sc, t, 1))
        if k == "sasgn":
            lv = self.lvalues(sc, lambda t: t.kind in ("int", "bool", "enum"))
            if not lv:
                return ("null",)
            node, t = s.choice(lv)
            st = s.choice(self.enums)
            n = s.int(0, len(st.lits) - 1)
            ch = s.sample(list(range(len(st.lits))), n)
            return ("sasgn", self.fill(node, sc, 0), st, self.eexpr(sc, st, 1), [([c], self.expr(sc, t, 1)) for c in ch], self.expr(sc, t, 1))
        if k == "slice":
            lv = self.lvalues(sc, lambda t: t.kind == "arr" and t.n >= 2)
            if not lv:
                return ("null",)
            node, t = s.choice(lv)
            c = []
            for v in sc.vars:
                self.tpaths(("var", v.name), v.t, c, t)
            node = self.fill(node, sc, 0)
            src = self.fill(s.choice(c), sc, 0) if c else node
            n = s.int(1, t.n)
            return ("slice", node, s.int(0, t.n - n), src, s.int(0, t.n - n), n, t)
        if k == "if":
            br = [(self.bexpr(sc, 2), self.stmts(sc, s.int(1, 3), depth - 1)) for _ in range(s.int(1, 3))]
            return ("if", br, self.stmts(sc, s.int(1, 2), depth - 1) if s.bool() else None)
        if k == "case":
            if s.bool(0.4):
                t = s.choice(self.enums)
                e = self.eexpr(sc, t, 2)
                allc = list(range(len(t.lits)))
            else:
                t = None
                lo = s.int(-4, 3)
                hi = lo + s.int(1, 9)
                e, iv = self.iexpr(sc, 2)
                e = self.clamp(e, iv, lo, hi)
                if e[0] != "bin":
                    # the choices must lie in the subtype of a name or call: make it an expression
                    e = ("bin", "+", e, ("lit", 0))
                allc = list(range(lo, hi + 1))
            alts = []
            rest = list(allc)
            for _ in range(s.int(1, 4)):
                if not rest:
                    break
                if t is None and s.bool(0.4):
                    # a range of consecutive remaining values
                    i = s.raw(len(rest))
                    j = i
                    while j + 1 < len(rest) and rest[j + 1] == rest[j] + 1 and s.bool(0.7):
                        j += 1
                    ch = rest[i:j + 1]
                    alts.append((("range", ch[0], ch[-1]), self.stmts(sc, s.int(1, 2), depth - 1)))
                else:
                    ch = s.sample(rest, s.int(1, 3))
                    alts.append((("vals", ch), self.stmts(sc, s.int(1, 2), depth - 1)))
                rest = [r for r in rest if r not in ch]
            others = self.stmts(sc, s.int(1, 2), depth - 1) if (rest or t is None) else None
            return ("case", e, t, alts, others)
        if k == "for":
            v = self.name("i")
            lab = self.name("lp")
            form = s.raw(4)
            if form == 0:
                c = [x for x in sc.vars if x.t.kind in ("arr", "uns")]
                if c:
                    a = s.choice(c)
                    rev = s.bool(0.3)
                    lo, hi = (a.t.lo, a.t.hi) if a.t.kind == "arr" else (0, 16)
                    vt = TInt("INTEGER", lo, hi)
                    body = self.loop_body(sc, Var(v, vt, False, "loop"), lab, depth)
                    return ("forattr", lab, v, a.name, a.t, rev, body)
            if form == 1:
                t = s.choice(self.enums)
                body = self.loop_body(sc, Var(v, t, False, "loop"), lab, depth)
                return ("forenum", lab, v, t, body)
            lo = s.int(-3, 4)
            n = s.int(-1, 5)
            down = s.bool(0.3)
            vt = TInt("INTEGER", lo, lo + max(n - 1, 0))
            if s.bool(0.3):
                he, iv = self.iexpr(sc, 1)
                he = self.clamp(he, iv, lo - 1, lo + 4)
                vt = TInt("INTEGER", lo, lo + 4)
            else:
                he = ("lit", lo + n - 1)
            body = self.loop_body(sc, Var(v, vt, False, "loop"), lab, depth)
            return ("for", lab, v, ("lit", lo), he, down, body)
        if k in ("while", "loop"):
            v = self.name("w")
            lab = self.name("lp")
            n = s.int(0, 5)
            sc.decls.append(Var(v, self.INT))
            body = self.loop_body(sc, Var(v, TInt("INTEGER", 0, 64), False, "variable"), lab, depth)
            return (k, lab, v, n, self.bexpr(sc, 1) if s.bool(0.5) else None, body)
        if k == "print":
            return self.prt(sc)
        if k in ("exit", "next"):
            lab = s.choice(sc.loops) if s.bool(0.5) else sc.loops[-1]
            return (k, lab, lab != sc.loops[-1] or s.bool(0.3), self.bexpr(sc, 1) if s.bool(0.85) else None)
        if k == "return":
            c = self.bexpr(sc, 2)
            r = self.expr(sc, sc.sub.ret, 1) if sc.sub.ret is not None else None
            return ("if", [(c, [("return", r)])], None)
        if k == "wait":
            return ("wait", s.raw(3))
        if k == "pcall":
            return self.pcall(sc)
        raise AssertionError(k)

    def loop_body(self, sc, var, lab, depth):
        sc2 = sc.inner(var, lab)
        return self.stmts(sc2, self.s.int(1, 4), depth - 1)

    def prt(self, sc):
        s = self.s
        k = s.raw(4)
        if k <= 1:
            c = []
            for v in sc.vars:
                self.paths(("var", v.name), v.t, c, s.choice(["int", "int", "enum", "bool"]))
            if c:
                n, t = s.choice(c)
                return ("print", self.fill(n, sc, 1), t)
        if k == 2:
            return ("print", self.bexpr(sc, 2), BOOL)
        e, _ = self.iexpr(sc, 2)
        return ("print", e, self.INT)

    def pcall(self, sc):
        s = self.s
        p = s.choice(sc.procs)
        if p.waits and not sc.can_wait:
            return ("null",)
        args = []
        used = set(p.touches)
        for i, (mode, q) in enumerate(p.params):
            if p.depth_param == i:
                args.append(sc.depth_arg(p, s))
                continue
            if mode == "in":
                # no aliasing between by-reference in parameters and out parameters
                if q.t.kind in ("arr", "rec", "uns"):
                    sc2 = sc.without(used)
                    args.append(self.expr(sc2, q.t, 1))
                    used |= names_in(args[-1])
                else:
                    args.append(self.expr(sc, q.t, 1))
            else:
                c = [v for v in sc.vars if v.writable and v.name not in used]
                out = []
                for v in c:
                    self.lpaths(("var", v.name), v.t, out, lambda t: t is q.t or
                                (t.kind == "int" and q.t.kind == "int" and t.lo <= q.t.lo and q.t.hi <= t.hi
                                 and (mode == "out" or (t.lo, t.hi) == (q.t.lo, q.t.hi))))
                if not out:
                    return ("null",)
                node, _ = s.choice(out)
                node = self.fill(node, sc.without(used), 0)
                args.append(node)
                used |= names_in(node)
        # scalar in arguments are evaluated before; an out argument may not be used in another one's index
        return ("pcall", p, args, s.bool(0.3))

    # -------------------------------------------------------------- subprograms
    def mk_sub(self, sc, is_func, depth, level):
        s = self.s
        name = self.name("fn" if is_func else "pr")
        params = []
        depth_param = None
        for i in range(s.int(0, 4)):
            k = s.raw(8)
            t = (s.choice(self.ints) if k < 4 else BOOL if k == 4 else s.choice(self.arrs) if k == 5
                 else s.choice(self.recs) if k == 6 and self.recs else TUNS if k == 7 else s.choice(self.enums))
            mode = "in" if is_func or t.kind == "uns" else s.choice(["in", "in", "out", "inout"])
            params.append((mode, Var(self.name("p"), t, mode != "in", "param")))
        if s.bool(0.35):
            depth_param = len(params)
            params.append(("in", Var(self.name("dp"), TInt("INTEGER", -1, 6), False, "param")))
        ret = None
        if is_func:
            k = s.raw(8)
            ret = (s.choice(self.ints[1:] or [TInt("INTEGER", -9999, 9999)]) if k < 2 else TInt("INTEGER", -9999, 9999) if k < 4 else BOOL if k == 4
                   else s.choice(self.arrs) if k == 5 else s.choice(self.recs) if k == 6 and self.recs else TUNS)
        waits = (not is_func) and self.waits and sc.can_wait and s.bool(0.35)
        sub = Sub(name, params, ret, waits, depth_param)
        # until the body is known (recursive calls), it may touch anything outside
        sub.touches = {v.name for v in sc.vars}
        inner = sc.subscope(sub)
        for mode, v in params:
            inner.vars.append(v)
        for _ in range(s.int(0, 3)):
            t = s.choice(self.ints + [BOOL] + self.enums + self.arrs + self.recs)
            v = Var(self.name("l"), t)
            # out parameters have no value yet
            isc = inner.without({q.name for m, q in params if m == "out"})
            sub.decls.append((v, self.expr(isc, t, 1) if s.bool(0.7) else None))
            inner.vars.append(v)
        if level < 2 and s.bool(0.3):
            n = self.mk_sub(inner, s.bool(0.5), depth - 1, level + 1)
            sub.subs.append(n)
            (inner.funcs if n.ret is not None else inner.procs).append(n)
            self.features.add("nested-sub")
        if depth_param is not None:
            (inner.funcs if is_func else inner.procs).append(sub)
            self.features.add("recursion")
        # up-level writes: procedures declared inside may write the enclosing variables
        sub.body = self.stmts(inner, s.int(2, 5), depth)
        for v in inner.decls:
            sub.decls.append((v, None))
        if is_func:
            sub.body.append(("return", self.expr(inner, ret, 2)))
        written = set()
        reads = set()
        for st in sub.body:
            effects(st, written, reads)
        own = {v.name for _, v in params} | {v.name for v, _ in sub.decls}
        for n in sub.subs:
            written |= n.touches
        sub.touches = (written | reads) - own
        if is_func and (written - own):
            # functions must not write outer variables here (evaluation order of operands)
            sub.body = [("return", self.expr(inner, ret, 1))]
            sub.touches = set()
            r = set()
            effects(sub.body[0], set(), r)
            sub.touches = r - own
            sub.subs = []
            sub.body = [("return", self.expr(Scope(self, [p for _, p in params], [], [], sub, False, False), ret, 1))]
        return sub


TUNS = TUns()


def names_in(node):
    out = set()
    _names(node, out)
    return out


def _names(n, out):
    if isinstance(n, tuple):
        if n and n[0] == "var":
            out.add(n[1])
            return
        if n and n[0] == "attr":
            out.add(n[1])
            return
        if n and n[0] == "call":
            out |= n[1].touches
            for a in n[2]:
                _names(a, out)
            return
        for x in n:
            _names(x, out)
    elif isinstance(n, list):
        for x in n:
            _names(x, out)


def callees(f):
    out = set()

    def walk(n):
        if isinstance(n, Sub):
            out.add(n)
        elif isinstance(n, (tuple, list)):
            for x in n:
                walk(x)
    walk(f.body)
    walk([e for _, e in f.decls])
    return out


def base_name(lv):
    while lv[0] != "var":
        lv = lv[1]
    return lv[1]


def effects(st, written, reads):
    k = st[0]
    if k in ("assign", "casgn", "sasgn", "slice"):
        written.add(base_name(st[1]))
        _names(st[1:], reads)
    elif k == "if":
        for c, b in st[1]:
            _names(c, reads)
            for x in b:
                effects(x, written, reads)
        for x in st[2] or []:
            effects(x, written, reads)
    elif k == "case":
        _names(st[1], reads)
        for _, b in st[3]:
            for x in b:
                effects(x, written, reads)
        for x in st[4] or []:
            effects(x, written, reads)
    elif k in ("for", "forattr", "forenum", "while", "loop"):
        _names(st[3:-1], reads)
        if k == "forattr":
            reads.add(st[3])
        if k in ("while", "loop"):
            written.add(st[2])
        for x in st[-1]:
            effects(x, written, reads)
    elif k == "pcall":
        p = st[1]
        written |= p.touches
        for (mode, _), a in zip(p.params, st[2]):
            if mode == "in":
                _names(a, reads)
            else:
                written.add(base_name(a))
                _names(a, reads)
    else:
        _names(st[1:], reads)


class Scope:
    def __init__(self, g, vars, funcs, procs, sub, can_wait, can_print, loops=(), decls=None):
        self.g, self.vars, self.funcs, self.procs = g, list(vars), list(funcs), list(procs)
        self.sub, self.can_wait, self.can_print = sub, can_wait, can_print
        self.loops = list(loops)
        self.decls = decls if decls is not None else []

    def inner(self, var, lab):
        return Scope(self.g, self.vars + [var], self.funcs, self.procs, self.sub, self.can_wait, self.can_print,
                     self.loops + [lab], self.decls)

    def without(self, names):
        return Scope(self.g, [v for v in self.vars if v.name not in names],
                     [f for f in self.funcs if not (f.touches & names)], [], self.sub, False, False, self.loops, self.decls)

    def subscope(self, sub):
        fn = sub.ret is not None
        # loop variables are visible too, but keep it simple: they are constants in scope
        vs = [Var(v.name, v.t, v.writable and not fn, v.cls) for v in self.vars if v.cls != "loop"]
        return Scope(self.g, vs, self.funcs, [] if fn else self.procs, sub, sub.waits, self.can_print and not fn)

    def depth_arg(self, f, s):
        """Recursion depth argument: own depth - 1 inside the subprogram, small constant outside."""
        if self.sub is f:
            d = f.params[f.depth_param][1].name
            return ("dec", d)
        return ("lit", s.int(0, 3))


# ------------------------------------------------------------------ emission
def emit_e(e):
    k = e[0]
    if k == "lit":
        return str(e[1]) if e[1] >= 0 else "(%d)" % e[1]
    if k == "var":
        return e[1]
    if k == "idx":
        return "%s(%s)" % (emit_e(e[1]), emit_e(e[2]))
    if k == "uidx":
        b = emit_e(e[1])
        return "%s(%s'low + ((%s) mod %s'length))" % (b, b, emit_e(e[2]), b)
    if k == "fld":
        return "%s.%s" % (emit_e(e[1]), e[2])
    if k in ("bin", "cmp", "log"):
        return "(%s %s %s)" % (emit_e(e[2]), e[1], emit_e(e[3]))
    if k == "un":
        return "(%s %s)" % (e[1], emit_e(e[2]))
    if k == "not":
        return "(not %s)" % emit_e(e[1])
    if k == "b2i":
        return "BOOLEAN'pos(%s)" % emit_e(e[1])
    if k == "pos":
        return "%s'pos(%s)" % (e[2].name, emit_e(e[1]))
    if k == "val":
        return "%s'val(%s)" % (e[2].name, emit_e(e[1]))
    if k == "elit":
        return e[2].lits[e[1]]
    if k == "attr":
        return "%s'%s" % (e[1], e[2])
    if k == "ulen":
        return "vlen(%s)" % emit_e(e[1])
    if k == "agg":
        if len(e[2]) == 1:
            return "%s'(%d => %s)" % (e[1].name, e[1].left, emit_e(e[2][0]))
        return "%s'(%s)" % (e[1].name, ", ".join(emit_e(x) for x in e[2]))
    if k == "aggo":
        return "%s'(others => %s)" % (e[1].name, emit_e(e[2]))
    if k == "aggn":
        return "%s'(%sothers => %s)" % (e[1].name, "".join("%d => %s, " % (i, emit_e(x)) for i, x in e[2]), emit_e(e[3]))
    if k == "ragg":
        if e[3] and len(e[2]) > 1:
            return "%s'(%s)" % (e[1].name, ", ".join(emit_e(x) for x in e[2]))
        return "%s'(%s)" % (e[1].name, ", ".join("%s => %s" % (n, emit_e(x)) for (n, _), x in reversed(list(zip(e[1].fields, e[2])))))
    if k == "ulit":
        n, lo, down = len(e[1]), e[2], e[3]
        vals = ", ".join(emit_e(x) for x in e[1])
        return "IVEC'(%s)" % vals
    if k == "call":
        f = e[1]
        if not e[2]:
            return f.name
        if e[3]:
            order = list(range(len(e[2])))[::-1]
            return "%s(%s)" % (f.name, ", ".join("%s => %s" % (f.params[i][1].name, emit_e(e[2][i])) for i in order))
        return "%s(%s)" % (f.name, ", ".join(emit_e(x) for x in e[2]))
    if k == "dec":
        return "(%s - 1)" % e[1]
    raise AssertionError(k)


def emit_s(st, ind, out):
    k = st[0]
    p = "  " * ind

    def body(b):
        for x in b:
            emit_s(x, ind + 1, out)
    if k == "null":
        out.append(p + "null;")
    elif k == "assign":
        out.append("%s%s := %s;" % (p, emit_e(st[1]), emit_e(st[2])))
    elif k == "casgn":
        out.append("%s%s := %s else %s;" % (p, emit_e(st[1]), " else ".join("%s when %s" % (emit_e(v), emit_e(c)) for c, v in st[2]), emit_e(st[3])))
    elif k == "sasgn":
        t = st[2]
        alts = ["%s when %s" % (emit_e(v), " | ".join(t.lits[c] for c in cs)) for cs, v in st[4]] + ["%s when others" % emit_e(st[5])]
        out.append("%swith %s select %s := %s;" % (p, emit_e(st[3]), emit_e(st[1]), ", ".join(alts)))
    elif k == "slice":
        t = st[6]

        def sl(o):
            a = t.left - o if t.down else t.left + o
            b = a - st[5] + 1 if t.down else a + st[5] - 1
            return "%d %s %d" % (a, "downto" if t.down else "to", b)
        out.append("%s%s(%s) := %s(%s);" % (p, emit_e(st[1]), sl(st[2]), emit_e(st[3]), sl(st[4])))
    elif k == "if":
        for i, (c, b) in enumerate(st[1]):
            out.append("%s%s %s then" % (p, "if" if i == 0 else "elsif", emit_e(c)))
            body(b)
        if st[2] is not None:
            out.append(p + "else")
            body(st[2])
        out.append(p + "end if;")
    elif k == "case":
        out.append("%scase %s is" % (p, emit_e(st[1])))
        for ch, b in st[3]:
            if ch[0] == "range":
                c = "%d to %d" % (ch[1], ch[2])
            else:
                c = " | ".join(st[2].lits[x] if st[2] else str(x) for x in ch[1])
            out.append("%s  when %s =>" % (p, c))
            body(b)
        if st[4] is not None:
            out.append(p + "  when others =>")
            body(st[4])
        out.append(p + "end case;")
    elif k == "for":
        _, lab, v, lo, hi, down, b = st
        r = "%s downto %s" % (emit_e(hi), emit_e(lo)) if down else "%s to %s" % (emit_e(lo), emit_e(hi))
        out.append("%s%s : for %s in %s loop" % (p, lab, v, r))
        body(b)
        out.append("%send loop;" % p)
    elif k == "forattr":
        _, lab, v, a, t, rev, b = st
        out.append("%s%s : for %s in %s'%s loop" % (p, lab, v, a, "reverse_range" if rev else "range"))
        body(b)
        out.append("%send loop;" % p)
    elif k == "forenum":
        _, lab, v, t, b = st
        out.append("%s%s : for %s in %s loop" % (p, lab, v, t.name))
        body(b)
        out.append("%send loop;" % p)
    elif k in ("while", "loop"):
        _, lab, v, n, c, b = st
        out.append("%s%s := 0;" % (p, v))
        if k == "while":
            out.append("%s%s : while %s < %d%s loop" % (p, lab, v, n, " and " + emit_e(c) if c else ""))
            out.append("%s  %s := %s + 1;" % (p, v, v))
        else:
            out.append("%s%s : loop" % (p, lab))
            out.append("%s  exit when %s >= %d%s;" % (p, v, n, " or " + emit_e(c) if c else ""))
            out.append("%s  %s := %s + 1;" % (p, v, v))
        body(b)
        out.append("%send loop;" % p)
    elif k == "print":
        out.append("%sput(%s'image(%s));" % (p, st[2].name, emit_e(st[1])))
    elif k in ("exit", "next"):
        out.append("%s%s%s%s;" % (p, k, " " + st[1] if st[2] else "", " when " + emit_e(st[3]) if st[3] else ""))
    elif k == "return":
        out.append(p + ("return %s;" % emit_e(st[1]) if st[1] is not None else "return;"))
    elif k == "wait":
        out.append("%swait for %d ns;" % (p, st[1]))
    elif k == "pcall":
        f = st[1]
        call = f.name
        if st[2]:
            if st[3]:
                call += "(%s)" % ", ".join("%s => %s" % (q.name, emit_e(a)) for (_, q), a in zip(f.params, st[2]))
            else:
                call += "(%s)" % ", ".join(emit_e(a) for a in st[2])
        if f.depth_param is not None and st[2][f.depth_param][0] == "dec":
            d = st[2][f.depth_param][1]
            out.append("%sif %s > 0 then %s; end if;" % (p, d, call))
        else:
            out.append(p + call + ";")
    else:
        raise AssertionError(k)


def emit_sub(f, ind, out):
    p = "  " * ind
    ps = "; ".join("%s : %s %s" % (v.name, m, v.t.name) if m == "in" else "variable %s : %s %s" % (v.name, m, v.t.name) for m, v in f.params)
    ps = "(%s)" % ps if ps else ""
    if f.ret is not None:
        out.append("%simpure function %s%s return %s is" % (p, f.name, ps, f.ret.name))
    else:
        out.append("%sprocedure %s%s is" % (p, f.name, ps))
    emit_decls(f.decls, ind + 1, out)
    for n in f.subs:
        emit_sub(n, ind + 1, out)
    out.append(p + "begin")
    for m, v in f.params:
        if m == "out":
            # give out parameters a defined value
            out.append("%s  %s := %s;" % (p, v.name, emit_default(v.t)))
    if f.depth_param is not None and f.ret is not None:
        out.append("%s  if %s <= 0 then return %s; end if;" % (p, f.params[f.depth_param][1].name, emit_default(f.ret)))
    for st in f.body:
        emit_s(st, ind + 1, out)
    out.append("%send;" % p)


def emit_default(t):
    if t.kind == "int":
        return ("%d" if t.lo >= 0 else "(%d)") % t.lo if t.lo > -(1 << 31) else "INTEGER'left"
    if t.kind == "bool":
        return "false"
    if t.kind == "enum":
        return t.lits[0]
    if t.kind == "arr":
        return "%s'(others => %s)" % (t.name, emit_default(t.elem))
    if t.kind == "rec":
        return "%s'(%s)" % (t.name, ", ".join("%s => %s" % (n, emit_default(x)) for n, x in t.fields))
    return "IVEC'(0, 0)"


def defval(t):
    return [0, 0] if t.kind == "uns" else t.default()


def emit_decls(decls, ind, out):
    for v, e in decls:
        out.append("%svariable %s : %s%s;" % ("  " * ind, v.name, v.t.name, " := " + emit_e(e) if e is not None else ""))


# ------------------------------------------------------------------ execution
class Exec:
    def __init__(self, fuel=20000):
        self.out = []
        self.fuel = fuel
        self.time = 0

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Skip("program too long")

    def ev(self, e, f):
        k = e[0]
        if k == "lit" or k == "elit":
            return e[1]
        if k == "var":
            return f.find(e[1])[e[1]]
        if k == "idx":
            return self.ev(e[1], f)[e[3].pos(self.ev(e[2], f))]
        if k == "uidx":
            b = self.ev(e[1], f)
            n = len(b)
            i = self.ev(e[2], f) % n
            return b[i]          # IVEC values always ascend: low + i is position i
        if k == "fld":
            return self.ev(e[1], f)[e[2]]
        if k == "bin":
            a, b = self.ev(e[2], f), self.ev(e[3], f)
            op = e[1]
            if op == "+":
                r = a + b
            elif op == "-":
                r = a - b
            elif op == "*":
                r = a * b
            elif op == "/":
                r = trunc_div(a, b)
            elif op == "mod":
                r = a - (a // b) * b
            else:
                r = a - trunc_div(a, b) * b
            if not -(1 << 31) <= r < (1 << 31):
                raise AssertionError("interval arithmetic is wrong: %r = %d" % (e, r))
            return r
        if k == "cmp":
            a, b = self.ev(e[2], f), self.ev(e[3], f)
            op = e[1]
            return {"=": lambda: a == b, "/=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                    ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        if k == "log":
            a, b = self.ev(e[2], f), self.ev(e[3], f)
            return {"and": a and b, "or": a or b, "xor": a != b, "nand": not (a and b), "nor": not (a or b), "xnor": a == b}[e[1]]
        if k == "not":
            return not self.ev(e[1], f)
        if k == "un":
            a = self.ev(e[2], f)
            return -a if e[1] == "-" else abs(a)
        if k == "b2i":
            return 1 if self.ev(e[1], f) else 0
        if k in ("pos", "val"):
            return self.ev(e[1], f)
        if k == "attr":
            t = e[3]
            if t.kind == "uns":
                return {"length": len(self.ev(("var", e[1]), f))}[e[2]]
            return {"left": t.left, "right": t.right, "low": t.lo, "high": t.hi, "length": t.n}[e[2]]
        if k == "ulen":
            return len(self.ev(e[1], f))
        if k == "agg" or k == "ulit":
            return [copy(self.ev(x, f)) for x in (e[2] if k == "agg" else e[1])]
        if k == "aggo":
            v = self.ev(e[2], f)
            return [copy(v) for _ in range(e[1].n)]
        if k == "aggn":
            o = self.ev(e[3], f)
            r = [copy(o) for _ in range(e[1].n)]
            for i, x in e[2]:
                r[e[1].pos(i)] = copy(self.ev(x, f))
            return r
        if k == "ragg":
            return {n: copy(self.ev(x, f)) for (n, _), x in zip(e[1].fields, e[2])}
        if k == "call":
            return self.call(e[1], e[2], f)
        if k == "dec":
            return f.find(e[1])[e[1]] - 1
        raise AssertionError(k)

    def bind(self, sub, f):
        """Static parent frame of sub: the frame in which it was declared."""
        g = f
        while g is not None:
            if sub.name in g.vars:
                return g
            g = g.parent
        raise AssertionError("subprogram %s not visible" % sub.name)

    def call(self, sub, args, f):
        self.tick()
        fr = Frame(self.bind(sub, f))
        back = []
        for (mode, v), a in zip(sub.params, args):
            if mode == "in":
                fr.vars[v.name] = copy(self.ev(a, f))
            else:
                fr.vars[v.name] = copy(self.ev(a, f)) if mode == "inout" else v.t.default()
                back.append((v.name, self.lv(a, f)))
        res = None
        if sub.depth_param is not None and sub.ret is not None and fr.vars[sub.params[sub.depth_param][1].name] <= 0:
            return defval(sub.ret)
        for v, e in sub.decls:
            fr.vars[v.name] = copy(self.ev(e, fr)) if e is not None else v.t.default()
        for n in sub.subs:
            fr.vars[n.name] = n
        try:
            self.block(sub.body, fr)
        except Ret as r:
            res = r.v
        for n, (c, key) in back:
            c[key] = fr.vars[n]
        return res

    def lv(self, e, f):
        """-> (container, key)"""
        if e[0] == "var":
            return f.find(e[1]), e[1]
        c, k = self.lv(e[1], f)
        if e[0] == "fld":
            return c[k], e[2]
        return c[k], e[3].pos(self.ev(e[2], f))

    def block(self, b, f):
        for st in b:
            self.st(st, f)

    def st(self, st, f):
        self.tick()
        k = st[0]
        if k == "assign":
            v = copy(self.ev(st[2], f))
            c, key = self.lv(st[1], f)
            c[key] = v
        elif k == "casgn":
            for cnd, v in st[2]:
                if self.ev(cnd, f):
                    break
            else:
                v = st[3]
            v = self.ev(v, f)
            c, key = self.lv(st[1], f)
            c[key] = v
        elif k == "sasgn":
            x = self.ev(st[3], f)
            v = st[5]
            for cs, y in st[4]:
                if x in cs:
                    v = y
            v = self.ev(v, f)
            c, key = self.lv(st[1], f)
            c[key] = v
        elif k == "slice":
            src = self.ev(st[3], f)
            vals = [copy(x) for x in src[st[4]:st[4] + st[5]]]
            c, key = self.lv(st[1], f)
            c[key][st[2]:st[2] + st[5]] = vals
        elif k == "if":
            for cnd, b in st[1]:
                if self.ev(cnd, f):
                    self.block(b, f)
                    return
            if st[2] is not None:
                self.block(st[2], f)
        elif k == "case":
            x = self.ev(st[1], f)
            for ch, b in st[3]:
                if (ch[1] <= x <= ch[2]) if ch[0] == "range" else x in ch[1]:
                    self.block(b, f)
                    return
            if st[4] is not None:
                self.block(st[4], f)
        elif k == "for":
            lo, hi = self.ev(st[3], f), self.ev(st[4], f)
            r = range(hi, lo - 1, -1) if st[5] else range(lo, hi + 1)
            self.loop(st[1], st[2], r, st[6], f)
        elif k == "forattr":
            t = st[4]
            if t.kind == "uns":
                b = self.ev(("var", st[3]), f)
                r = list(range(len(b)))
            else:
                r = list(range(t.left, t.right - 1, -1)) if t.down else list(range(t.left, t.right + 1))
            if st[5]:
                r = r[::-1]
            self.loop(st[1], st[2], r, st[6], f)
        elif k == "forenum":
            self.loop(st[1], st[2], range(len(st[3].lits)), st[4], f)
        elif k in ("while", "loop"):
            _, lab, v, n, c, b = st
            d = f.find(v)
            d[v] = 0
            while True:
                self.tick()
                if k == "while":
                    if not (d[v] < n and (c is None or self.ev(c, f))):
                        break
                else:
                    if d[v] >= n or (c is not None and self.ev(c, f)):
                        break
                d[v] += 1
                try:
                    self.block(b, f)
                except Next as x:
                    if x.label != lab:
                        raise
                except Exit as x:
                    if x.label != lab:
                        raise
                    break
        elif k == "print":
            self.out.append(st[2].image(self.ev(st[1], f)))
        elif k == "exit":
            if st[3] is None or self.ev(st[3], f):
                raise Exit(st[1])
        elif k == "next":
            if st[3] is None or self.ev(st[3], f):
                raise Next(st[1])
        elif k == "return":
            raise Ret(copy(self.ev(st[1], f)) if st[1] is not None else None)
        elif k == "wait":
            self.time += st[1]
        elif k == "pcall":
            p = st[1]
            if p.depth_param is not None and st[2][p.depth_param][0] == "dec" and f.find(st[2][p.depth_param][1])[st[2][p.depth_param][1]] <= 0:
                return
            self.call(p, st[2], f)

    def loop(self, lab, v, r, body, f):
        for i in r:
            self.tick()
            fr = Frame(f)
            fr.vars[v] = i
            try:
                self.block(body, fr)
            except Next as x:
                if x.label != lab:
                    raise
            except Exit as x:
                if x.label != lab:
                    raise
                break


class Program:
    """A process with its declarations, plus functions evaluated during elaboration."""
    def __init__(self, src, waits=True, maxstmts=60, bits=32):
        g = self.g = Gen(src, waits, maxstmts, bits=bits)
        top = Scope(g, [], [], [], None, waits, True)
        self.vars = []
        for _ in range(src.int(2, 5)):
            t = src.choice(g.ints + [BOOL] + g.enums + g.arrs + g.recs + g.arrs)
            self.vars.append((Var(g.name("v"), t), g.expr(top, t, 0) if src.bool(0.7) else None))
        # subprograms of the package (pure with respect to the process)
        self.pkg = []
        psc = Scope(g, [], [], [], None, False, False)
        for _ in range(src.int(0, 2)):
            f = g.mk_sub(psc, True, 2, 1)
            self.pkg.append(f)
            psc.funcs.append(f)
        top.funcs += self.pkg
        self.subs = []
        top.vars = [v for v, _ in self.vars]
        for _ in range(src.int(0, 3)):
            f = g.mk_sub(top, src.bool(0.4), 2, 0)
            self.subs.append(f)
            (top.funcs if f.ret is not None else top.procs).append(f)
        self.consts = []
        for f in self.pkg:
            if f.ret.kind in ("int", "bool") and src.bool(0.7):
                esc = Scope(g, [], [], [], None, False, False)
                self.consts.append((g.name("k"), f.ret, g.call(f, esc, 1)))
        self.decls = list(self.vars)
        g.budget = max(g.budget, 25)
        self.body = g.stmts(top, src.int(3, 9), 3)
        for v in top.decls:
            self.decls.append((v, None))
        # final dump of all state
        for v, _ in self.vars:
            out = []
            for kind in ("int", "bool", "enum"):
                g.paths(("var", v.name), v.t, out, kind)
            for node, t in out:
                self.dump(node, t)
        for n, t, e in self.consts:
            self.body.append(("print", ("var", n), t))

    def dump(self, node, t):
        def expand(n):
            if n[0] == "idx":
                return [("idx", b, ("lit", i), n[3]) for b in expand(n[1]) for i in range(n[3].lo, n[3].hi + 1)]
            if n[0] == "fld":
                return [("fld", b, n[2]) for b in expand(n[1])]
            return [n]
        for n in expand(node)[:24]:
            self.body.append(("print", n, t))

    def package(self, name="pk"):
        out = ["package %s is" % name]
        for d in self.g.type_decls():
            out.append("  " + d)
        out.append("  function vlen (x : IVEC) return INTEGER;")
        body = ["package body %s is" % name, "  function vlen (x : IVEC) return INTEGER is begin return x'length; end;"]
        for f in self.pkg:
            b = []
            f.pure = not f.subs and not f.touches and all(c.pure or c is f for c in callees(f))
            emit_sub(f, 1, b)
            if f.pure:
                b[0] = b[0].replace("impure function", "function")
            body += b
            out.append(b[0].rsplit(" is", 1)[0] + ";")
        out.append("end package;")
        body.append("end package body;")
        return out + body

    def emit(self):
        out = self.package()
        out += ["use std.textio.all; use work.pk.all;", "entity tb is end entity;", "architecture a of tb is"]
        for n, t, e in self.consts:
            out.append("  constant %s : %s := %s;" % (n, t.name, emit_e(e)))
        out += ["begin", "  process is",
                "    procedure put (s : STRING) is begin write(output, s & LF); end procedure;"]
        emit_decls(self.decls, 2, out)
        for f in self.subs:
            emit_sub(f, 2, out)
        out.append("  begin")
        for st in self.body:
            emit_s(st, 2, out)
        out += ["    wait;", "  end process;", "end architecture;", ""]
        return "\n".join(out)

    def execute(self, fuel=20000):
        ex = Exec(fuel)
        g0 = Frame(None)
        for f in self.pkg:
            g0.vars[f.name] = f
        for n, t, e in self.consts:
            g0.vars[n] = ex.ev(e, g0)
        fr = Frame(g0)
        for v, e in self.decls:
            fr.vars[v.name] = copy(ex.ev(e, fr)) if e is not None else v.t.default()
        for f in self.subs:
            fr.vars[f.name] = f
        ex.block(self.body, fr)
        self.steps = fuel - ex.fuel
        self.time = ex.time
        return ex.out
