"""C02: range, index, slice, length and null checks are sound and complete."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import pbt, nvc
from vp.pbt import Fail, Skip

PID = "C02"
CASES = {"quick": 4200, "thorough": 90000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
TECHNIQUE = "property-based testing: generated checked operations whose legality is decided by a model, each illegal one alone at the end of a program of legal ones"
NOTE = ("scalar subtypes (integer, enumeration, character, real, physical), indices, slices, lengths, null access, conversions, "
        "attributes, subprogram association and return, subtype constraints, negative delays; every engine")
RULE = ("a case is a program of legal checked operations at and near their limits followed by at most one illegal one; "
        "a checked operation is non-trivial when its values are not all literals or it is illegal; keyed by its text")
ASSUMPTIONS = ["an illegal operation whose operands are all known statically may be rejected at analysis or elaboration",
               "an error in a constant folded at its declaration may be reported there"]


def lit(v):
    return str(v) if v >= 0 else "(%d)" % v


class Sc:
    """A scalar type with integer positions lo..hi of the base type."""
    def __init__(self, name, lo, hi, text):
        self.name, self.lo, self.hi, self.text = name, lo, hi, text

    def rng(self, lo, hi, down=False):
        if down:
            return "%s downto %s" % (self.text(hi), self.text(lo))
        return "%s to %s" % (self.text(lo), self.text(hi))


class G:
    def __init__(self, s):
        self.s = s
        self.k = 0
        self.adecl, self.vars, self.pre = [], [], []
        self.feat = []
        INT = Sc("INTEGER", -(1 << 31), (1 << 31) - 1, lit)
        self.ints = [INT]
        for i in range(2):
            b = s.choice([5, 7, 8, 15, 16, 31])
            lo = s.choice([0, -(1 << b), -s.int(0, 1 << b), s.int(1, 9)])
            hi = lo + s.int(20, 1 << b if b > 5 else 40)
            hi = min(hi, (1 << 31) - 1)
            self.adecl.append("  type U%d is range %s;" % (i, Sc(0, 0, 0, lit).rng(lo, hi, s.bool(0.2))))
            self.ints.append(Sc("U%d" % i, lo, hi, lit))
        n = s.choice([2, 3, 5, 9, 17, 256, 257, 300])
        self.adecl.append("  type EN is (%s);" % ", ".join("e%d" % i for i in range(n)))
        self.enum = Sc("EN", 0, n - 1, lambda v: "e%d" % v)
        self.char = Sc("CHARACTER", 32, 126, lambda v: "'%s'" % chr(v))
        self.real = Sc("REAL", -4000, 4000, lambda v: "%s" % (v / 4) if v >= 0 else "(%s)" % (v / 4))
        self.time = Sc("TIME", -(1 << 40), 1 << 40, lambda v: ("%d ps" % v) if v >= 0 else "(%d ps)" % v)
        self.scalars = self.ints * 2 + [self.enum, self.enum, self.char, self.real, self.time]
        for t in self.ints + [self.enum, self.char, self.real, self.time]:
            self.adecl.append("  function id (x : %s) return %s is begin return x; end function;" % (t.name, t.name))

    def n(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def leaf(self, t, v, dyn=None):
        """An expression of scalar type t and value v; dyn: not static."""
        s = self.s
        x = t.text(v)
        form = s.raw(8)
        st = t.name
        if s.bool(0.5):
            lo = s.choice([t.lo, s.edge(t.lo, v), v])
            hi = s.choice([t.hi, s.edge(v, t.hi), v])
            st = "%s range %s" % (t.name, t.rng(lo, hi, s.bool(0.2)))
        if dyn and form in (0, 1):
            form = s.int(2, 7)
        if form == 0:
            return "%s'(%s)" % (t.name, x)
        if form == 1:
            c = self.n("c")
            self.adecl.append("  constant %s : %s := %s;" % (c, st, x))
            return c
        if form == 2:
            return "id(%s'(%s))" % (t.name, x)
        if form == 3:
            c = self.n("v")
            self.vars.append("    variable %s : %s := %s;" % (c, st, x))
            return c
        if form == 4:
            c = self.n("s")
            self.adecl.append("  signal %s : %s := %s;" % (c, st, x))
            return c
        if form == 5:
            c = self.n("v")
            self.vars.append("    variable %s : %s := %s;" % (c, st, t.text(v)))
            self.pre.append("    %s := id(%s'(%s));" % (c, t.name, x))
            return c
        if form == 6:
            c = self.n("c")
            self.adecl.append("  constant %s : %s := id(%s'(%s));" % (c, st, t.name, x))
            return c
        c = self.n("v")
        self.vars.append("    variable %s : %s := id(%s'(%s));" % (c, st, t.name, x))
        return c

    def subtype(self, t, ok):
        """-> (subtype indication, value) with value inside iff ok."""
        s = self.s
        while True:
            span = s.choice([1, 2, 3, 10, 100, 1 << 20])
            a = s.choice([t.lo, max(t.lo, min(t.hi, 0)), s.edge(t.lo, t.hi), max(t.lo, min(t.hi, s.int(-5, 10)))])
            b = min(t.hi, a + s.int(0, span))
            if s.bool(0.15):
                b = t.hi
            if ok:
                v = s.choice([a, b, s.int(a, b)])
                break
            if a == t.lo and b == t.hi:
                continue
            if a > t.lo and (b == t.hi or s.bool()):
                v = s.choice([a - 1, t.lo, s.int(t.lo, a - 1), max(t.lo, a - s.int(1, 5))])
            else:
                v = s.choice([b + 1, t.hi, s.int(b + 1, t.hi), min(t.hi, b + s.int(1, 5))])
            break
        txt = "%s range %s" % (t.name, t.rng(a, b, s.bool(0.25)))
        if t.name == "INTEGER" and s.bool(0.4):
            if ok and v >= 0 or not ok and v < 0:
                txt, a, b = "NATURAL", 0, t.hi
            elif ok and v > 0 or not ok and v <= 0:
                txt, a, b = "POSITIVE", 1, t.hi
        if s.bool(0.4):
            nm = self.n("S")
            self.adecl.append("  subtype %s is %s;" % (nm, txt))
            return nm, v, a, b
        return txt, v, a, b

    # -- scalar range checks
    def scalar(self, ok):
        s = self.s
        t = s.choice(self.scalars)
        st, v, a, b = self.subtype(t, ok)
        form = s.choice(["var", "sig", "elem", "field", "fparam", "pparam", "return", "out", "inout", "qual", "conv",
                         "alloc", "local", "init", "expr", "aggr", "cond", "forward"])
        if form == "aggr" and not ok:
            # known finding K02-arragg: elements of aggregates are not checked
            form = "elem"
        if form == "out" and not ok:
            # known finding K02-outparam: copy back is not checked
            form = "var"
        self.feat.append("scalar-" + form)
        x = self.leaf(t, v)
        good = t.text(a)
        nm = self.n("d")
        T = t.name
        if form in ("qual",) and " " in st:
            q = self.n("S")
            self.adecl.append("  subtype %s is %s;" % (q, st))
            st = q
        named = st
        if form in ("fparam", "pparam", "return", "out", "inout", "conv", "alloc", "forward") and " " in st:
            named = self.n("S")
            self.adecl.append("  subtype %s is %s;" % (named, st))
        if form == "var":
            self.vars.append("    variable %s : %s;" % (nm, st))
            return "%s := %s;" % (nm, x)
        if form == "cond":
            self.vars.append("    variable %s : %s;" % (nm, st))
            return "if id(INTEGER'(1)) = 1 then %s := %s; end if;" % (nm, x)
        if form == "expr":
            if t in (self.enum, self.char):
                return self.scalar(ok)
            self.vars.append("    variable %s : %s;" % (nm, st))
            d = s.int(-3, 3)
            if not t.lo <= v - d <= t.hi or not t.lo <= d <= t.hi:
                d = 0
                if t.lo > 0 or t.hi < 0:
                    return "%s := %s;" % (nm, x)
            return "%s := %s + %s;" % (nm, self.leaf(t, v - d), self.leaf(t, d))
        if form == "sig":
            self.adecl.append("  signal %s : %s;" % (nm, st))
            if s.bool(0.3):
                return "%s <= %s, %s after 1 ns;" % (nm, good, x)
            if s.bool(0.2):
                return "%s <= %s when id(INTEGER'(1)) = 1 else %s;" % (nm, x, good)
            return "%s <= %s;" % (nm, x)
        if form == "elem":
            ty = self.n("A")
            self.adecl.append("  type %s is array (0 to 3) of %s;" % (ty, st))
            self.vars.append("    variable %s : %s;" % (nm, ty))
            return "%s(%s) := %s;" % (nm, self.leaf(self.ints[0], s.int(0, 3)), x)
        if form == "aggr":
            ty = self.n("A")
            self.adecl.append("  type %s is array (0 to 3) of %s;" % (ty, st))
            self.vars.append("    variable %s : %s;" % (nm, ty))
            i = s.int(0, 3)
            return "%s := (%d => %s, others => %s);" % (nm, i, x, good)
        if form == "field":
            ty = self.n("R")
            self.adecl.append("  type %s is record a : INTEGER; b : %s; end record;" % (ty, st))
            self.vars.append("    variable %s : %s;" % (nm, ty))
            if not ok:
                # known finding K02-recagg: record aggregates are not checked
                return "%s.b := %s;" % (nm, x)
            return s.choice(["%s.b := %s;", "%s := (1, %s);", "%s := (b => %s, a => 2);"]) % (nm, x)
        if form == "fparam":
            self.adecl.append("  function %s (p : %s) return INTEGER is begin return 1; end function;" % (nm, named))
            self.vars.append("    variable r%s : INTEGER;" % nm)
            return "r%s := %s(%s);" % (nm, nm, x)
        if form == "pparam":
            self.adecl.append("  procedure %s (p : in %s; q : INTEGER) is begin end procedure;" % (nm, named))
            return s.choice(["%s(%s, 1);", "%s(p => %s, q => 2);"]) % (nm, x)
        if form == "return":
            # the error is at the return statement of the function
            w = self.n("f")
            self.adecl.append("  function %s (p : %s) return %s is begin\n    return p; --ERR\n  end function;" % (w, T, named))
            self.vars.append("    variable %s : %s;" % (nm, T))
            self.errmark = True
            return "%s := %s(%s);" % (nm, w, x)
        if form == "out":
            w = self.n("p")
            self.adecl.append("  procedure %s (p : %s; o : out %s) is begin o := p; end procedure;" % (w, T, T))
            self.vars.append("    variable %s : %s := %s;" % (nm, st, good))
            return "%s(%s, %s);" % (w, x, nm)
        if form == "inout":
            w = self.n("p")
            self.adecl.append("  procedure %s (p : inout %s) is begin end procedure;" % (w, named))
            self.vars.append("    variable %s : %s := %s;" % (nm, T, t.text(v)))
            self.pre.append("    %s := %s;" % (nm, x))
            return "%s(%s);" % (w, nm)
        if form == "forward":
            w, w2 = self.n("p"), self.n("p")
            self.adecl.append("  procedure %s (p : in %s) is begin end procedure;" % (w, named))
            self.adecl.append("  procedure %s (p : in %s) is begin\n    %s(p); --ERR\n  end procedure;" % (w2, T, w))
            self.errmark = True
            return "%s(%s);" % (w2, x)
        if form == "qual":
            self.vars.append("    variable %s : %s;" % (nm, T))
            return "%s := %s'(%s);" % (nm, st, x)
        if form == "conv":
            if t in (self.enum, self.char, self.time):
                return self.scalar(ok)
            self.vars.append("    variable %s : %s;" % (nm, T))
            if t in self.ints and s.bool():
                t2 = s.choice(self.ints)
                if t2.lo <= v <= t2.hi:
                    x = self.leaf(t2, v)
            return "%s := %s(%s);" % (nm, named, x)
        if form == "alloc":
            ty = self.n("P")
            self.adecl.append("  type %s is access %s;" % (ty, named))
            self.vars.append("    variable %s : %s;" % (nm, ty))
            return "%s := new %s'(%s);" % (nm, named, x)
        w = self.n("p")
        if form == "local":
            self.adecl.append("  procedure %s (p : %s) is\n    variable v : %s := p; --ERR\n  begin end procedure;" % (w, T, st))
            self.errmark = True
            return "%s(%s);" % (w, x)
        self.adecl.append("  procedure %s (p : %s) is\n    constant v : %s := p; --ERR\n  begin end procedure;" % (w, T, st))
        self.errmark = True
        return "%s(%s);" % (w, x)

    # -- arrays
    def bounds(self, it, minlen=0, maxlen=6):
        s = self.s
        ln = s.int(minlen, maxlen)
        lo = s.choice([0, 1, s.int(-6, 8)])
        lo = max(it.lo, min(it.hi - 8, lo)) if it.hi - it.lo > 8 else it.lo
        hi = min(lo + ln - 1, it.hi)
        if hi < lo:
            lo, hi = lo + 1, lo
        return lo, hi, s.bool(0.4)

    def idxtype(self):
        return self.s.weighted([(5, self.ints[0]), (3, self.ints[1]), (1, self.ints[2]), (2, self.enum if self.enum.hi > 8 else self.ints[0]),
                                (1, self.char)])

    def elem(self):
        s = self.s
        t = s.choice([self.ints[0], self.ints[1], self.enum, self.char, self.real])
        lo = max(t.lo, min(t.hi, -3))
        return t, t.text(s.int(lo, min(t.hi, lo + 40)))

    def array(self, minlen=1, maxlen=6, ln=None, ty=None):
        """Declare an array object; -> dict."""
        s = self.s
        it = ty["it"] if ty else self.idxtype()
        if ty:
            ty, et, ev = ty["ty"], ty["et"], ty["ev"]
        else:
            et, ev = self.elem()
            ty = self.n("A")
            self.adecl.append("  type %s is array (%s range <>) of %s;" % (ty, it.name, et.name))
        lo, hi, down = self.bounds(it, minlen if ln is None else ln, maxlen if ln is None else ln)
        kind = s.choice(["var", "var", "const", "sig", "acc", "param", "dynvar", "field", "alias", "fparam"])
        nm = self.n("a")
        b = it.rng(lo, hi, down)
        if hi >= lo:
            init = "(%s => %s)" % (b, ev)
        else:
            init = "(%s => %s)" % (b, ev)
        a = dict(ty=ty, et=et, ev=ev, it=it, lo=lo, hi=hi, down=down, kind=kind, ref=nm, w=True, proc=None)
        if kind == "var":
            self.vars.append("    variable %s : %s(%s) := (others => %s);" % (nm, ty, b, ev))
        elif kind == "const":
            self.adecl.append("  constant %s : %s(%s) := (others => %s);" % (nm, ty, b, ev))
            a["w"] = False
        elif kind == "sig":
            self.adecl.append("  signal %s : %s(%s) := (others => %s);" % (nm, ty, b, ev))
        elif kind == "acc":
            p = self.n("P")
            self.adecl.append("  type %s is access %s;" % (p, ty))
            self.vars.append("    variable %s : %s := new %s(%s);" % (nm, p, ty, b))
            self.pre.append("    %s.all := (%s => %s);" % (nm, b, ev) if hi >= lo else "")
            a["ref"] = s.choice([nm, nm + ".all"])
            a["ptr"] = nm
        elif kind == "dynvar":
            # bounds only known at run time
            l, r = (hi, lo) if down else (lo, hi)
            self.vars.append("    variable %s : %s(%s %s %s) := (others => %s);" % (
                nm, ty, "id(%s'(%s))" % (it.name, it.text(l)), "downto" if down else "to", "id(%s'(%s))" % (it.name, it.text(r)), ev))
        elif kind == "field":
            r = self.n("R")
            self.adecl.append("  type %s is record x : BOOLEAN; f : %s(%s); end record;" % (r, ty, b))
            self.vars.append("    variable %s : %s := (true, (others => %s));" % (nm, r, ev))
            a["ref"] = nm + ".f"
        elif kind == "alias":
            self.vars.append("    variable b%s : %s(%s) := (others => %s);" % (nm, ty, b, ev))
            lo2, hi2, down2 = self.bounds(it, hi - lo + 1, hi - lo + 1)
            if hi2 - lo2 != hi - lo:
                lo2, hi2, down2 = lo, hi, down
            self.vars.append("    alias %s : %s(%s) is b%s;" % (nm, ty, it.rng(lo2, hi2, down2), nm))
            a["lo"], a["hi"], a["down"] = lo2, hi2, down2
        elif kind in ("param", "fparam"):
            # accessed inside a subprogram with an unconstrained formal
            self.vars.append("    variable %s : %s(%s) := (others => %s);" % (nm, ty, b, ev))
            a["proc"] = nm
            a["ref"] = "p"
            a["w"] = kind == "param"
        return a

    def within(self, a, stmt, extra=(), decl=""):
        """Wrap stmt (using a['ref']) in a procedure when the array is a parameter."""
        if not a["proc"]:
            return stmt
        w = self.n("p")
        ps = "".join("; %s : %s" % (n, t) for n, t, _ in extra)
        if a["w"]:
            self.adecl.append("  procedure %s (p : inout %s%s) is%s begin\n    %s --ERR\n  end procedure;" % (w, a["ty"], ps, decl, stmt))
        else:
            self.adecl.append("  procedure %s (p : %s%s) is%s begin\n    %s --ERR\n  end procedure;" % (w, a["ty"], ps, decl, stmt))
        self.errmark = True
        return "%s(%s%s);" % (w, a["proc"], "".join(", " + v for _, _, v in extra))

    def badidx(self, a):
        s, it = self.s, a["it"]
        c = []
        if a["lo"] > it.lo:
            c += [a["lo"] - 1, max(it.lo, a["lo"] - s.int(1, 300)), it.lo]
        if a["hi"] < it.hi:
            c += [a["hi"] + 1, min(it.hi, a["hi"] + s.int(1, 300)), it.hi]
        return s.choice(c) if c else None

    def index(self, ok):
        s = self.s
        a = self.array(minlen=1 if ok else 0)
        if ok and a["hi"] < a["lo"]:
            return self.scalar(ok)
        v = s.choice([a["lo"], a["hi"], s.int(a["lo"], a["hi"])]) if ok else self.badidx(a)
        if v is None:
            return self.scalar(ok)
        self.feat.append("index-" + a["kind"])
        T = a["et"].name
        if a["proc"]:
            x = "i"
            extra = [("i", a["it"].name, self.leaf(a["it"], v))]
        else:
            x = self.leaf(a["it"], v)
            extra = []
        nm = self.n("d")
        rd = not a["w"] or s.bool()
        if rd:
            if a["proc"]:
                return self.within(a, "v := p(i);", extra, " variable v : %s;" % T)
            self.vars.append("    variable %s : %s;" % (nm, T))
            return "%s := %s(%s);" % (nm, a["ref"], x)
        if a["kind"] == "sig":
            return "%s(%s) <= %s;" % (a["ref"], x, a["ev"])
        return self.within(a, "%s(%s) := %s;" % (a["ref"], x, a["ev"]), extra)

    def pair(self, ok):
        """Two arrays indexed by the same value: the second check must not be taken for the first."""
        s = self.s
        it = self.idxtype()
        lo, hi, down = self.bounds(it, 2, 9)
        T = self.n("A")
        self.adecl.append("  type %s is array (%s range <>) of %s;" % (T, it.name, self.ints[0].name))
        ev = self.ints[0].text(max(self.ints[0].lo, min(self.ints[0].hi, 1)))
        nm = []
        cut = s.int(1, hi - lo)
        wide, narrow = (lo, hi), ((lo, hi - cut) if s.bool(0.7) != down else (lo + cut, hi))
        for b in (wide, narrow):
            nm.append(self.n("a"))
            self.vars.append("    variable %s : %s(%s) := (others => %s);" % (nm[-1], T, it.rng(b[0], b[1], down), ev))
        if ok:
            v = s.int(*narrow)
        elif narrow[0] == lo:
            v = s.choice([hi, s.int(narrow[1] + 1, hi)])
        else:
            v = s.choice([lo, s.int(lo, narrow[0] - 1)])
        i, d, e = self.n("i"), self.n("d"), self.n("d")
        self.vars.append("    variable %s : %s;" % (i, it.name))
        self.vars.append("    variable %s, %s : %s;" % (d, e, self.ints[0].name))
        self.feat.append("pair")
        order = nm if not ok or s.bool(0.7) else nm[::-1]
        self.errmark = True
        f = s.int(0, 2)
        if f == 0:
            return "%s := %s; %s := %s(%s); %s := %s(%s); --ERR" % (i, self.leaf(it, v), d, order[0], i, e, order[1], i)
        if f == 1:
            return "%s := %s; %s(%s) := %s(%s); --ERR" % (i, self.leaf(it, v), order[0], i, order[1], i)
        return "%s := %s; %s(%s) := %s; %s(%s) := %s; --ERR" % (i, self.leaf(it, v), order[0], i, ev, order[1], i, ev)

    def slice(self, ok):
        s = self.s
        a = self.array(minlen=1)
        it = a["it"]
        if a["hi"] < a["lo"]:
            return self.scalar(ok)
        null = s.bool(0.25) and ok
        if null:
            # a null slice may have any bounds of the index type
            hi = s.choice([s.int(a["lo"], a["hi"]), a["lo"]])
            lo = hi + 1 if s.bool() else min(it.hi, hi + s.int(1, 4))
            if not it.lo <= hi <= it.hi or not it.lo <= lo <= it.hi or lo <= hi:
                return self.scalar(ok)
            if s.bool(0.4):
                b = self.badidx(a)
                if b is not None and b > hi:
                    lo = b
            ln = 0
        elif ok:
            lo = s.int(a["lo"], a["hi"])
            hi = s.choice([a["hi"], s.int(lo, a["hi"])])
        else:
            b = self.badidx(a)
            if b is None:
                return self.scalar(ok)
            if abs(b) > 10000 and it is self.ints[0]:
                b = a["hi"] + s.int(1, 9) if b > 0 else a["lo"] - s.int(1, 9)
            lo, hi = (s.int(b, a["hi"]), a["hi"]) if False else (min(b, s.int(a["lo"], a["hi"])), max(b, s.int(a["lo"], a["hi"])))
        ln = max(0, hi - lo + 1)
        self.feat.append("slice-" + ("null-" if null else "") + a["kind"])
        l, r = (hi, lo) if a["down"] else (lo, hi)
        d = "downto" if a["down"] else "to"
        extra = []
        if a["proc"]:
            extra = [("i", it.name, self.leaf(it, l)), ("j", it.name, self.leaf(it, r))]
            sl = "i %s j" % d
        else:
            sl = "%s %s %s" % (self.leaf(it, l), d, self.leaf(it, r))
        form = s.choice(["len", "write", "copy"])
        if form == "write" and a["w"] and a["kind"] != "sig":
            return self.within(a, "%s(%s) := (%s => %s);" % (a["ref"], sl, sl, a["ev"]), extra)
        if form == "write" and a["kind"] == "sig" and all(x not in sl for x in ("id(", "v", "s")):
            return "%s(%s) <= (%s => %s);" % (a["ref"], sl, sl, a["ev"])
        # read: pass to a function
        f = self.n("f")
        self.adecl.append("  function %s (x : %s) return INTEGER is begin return x'length; end function;" % (f, a["ty"]))
        if a["proc"]:
            return self.within(a, "v := %s(p(%s));" % (f, sl), extra, " variable v : INTEGER;")
        nm = self.n("d")
        self.vars.append("    variable %s : INTEGER;" % nm)
        return "%s := %s(%s(%s));" % (nm, f, a["ref"], sl)

    def length(self, ok):
        s = self.s
        a = self.array(minlen=0)
        la = a["hi"] - a["lo"] + 1
        T = a["ty"]
        if ok:
            lb = la
        else:
            lb = s.choice([la + 1, la + s.int(1, 4), max(0, la - 1), 0])
            if lb == la:
                lb = la + 1
        b = self.array(ln=lb, ty=a)
        if b["hi"] - b["lo"] + 1 != lb:
            return self.scalar(ok)
        form = s.choice(["assign", "aggr", "concat", "func", "param", "sig", "slice", "field", "qual", "return", "logic", "outp"])
        if form == "return" and la == 0:
            form = "assign"      # a call whose result is null is dropped
        self.feat.append("length-" + form)
        bref = b["proc"] or b["ref"]
        if b.get("ptr"):
            bref = b["ptr"] + ".all"
        nm = self.n("d")
        bd = a["it"].rng(a["lo"], a["hi"], a["down"])
        self.vars.append("    variable %s : %s(%s) := (others => %s);" % (nm, T, bd, a["ev"]))
        if form == "assign":
            if a["w"] and not a["proc"] and a["kind"] != "sig" and s.bool():
                return "%s := %s;" % (a["ptr"] + ".all" if a.get("ptr") else a["ref"], bref)
            return "%s := %s;" % (nm, bref)
        if form == "aggr":
            if lb < 2:
                return "%s := %s;" % (nm, bref)
            return "%s := (%s);" % (nm, ", ".join([a["ev"]] * lb))
        if form == "concat":
            if lb == 0:
                return "%s := %s;" % (nm, bref)
            if b["lo"] + lb > a["it"].hi:
                return "%s := %s;" % (nm, bref)
            # element & (null or shorter array)
            f = self.n("f")
            self.adecl.append("  function %s (x : %s; n : NATURAL) return %s is variable r : %s(%s to %s) := x(x'range); begin return r; end function;" % (
                f, T, T, T, "x'low", "x'high") if False else
                "  function %s (x : %s) return %s is alias y : %s(x'low to x'high) is x; begin return y(x'low to %s'val(%s'pos(x'high)-1)) & y(x'high); end function;" % (
                    f, T, T, T, a["it"].name, a["it"].name))
            if lb == 1 and b["lo"] == b["it"].lo:
                return "%s := %s;" % (nm, bref)
            return "%s := %s(%s);" % (nm, f, bref)
        if form == "func":
            f = self.n("f")
            self.adecl.append("  function %s (x : %s) return %s is begin return x; end function;" % (f, T, T))
            return "%s := %s(%s);" % (nm, f, bref)
        st = self.n("S")
        self.adecl.append("  subtype %s is %s(%s);" % (st, T, bd))
        if form == "param":
            f = self.n("p")
            self.adecl.append("  procedure %s (x : %s) is begin end procedure; --ERR" % (f, st))
            self.errmark = True
            return "%s(%s);" % (f, bref)
        if form == "outp":
            f = self.n("p")
            self.adecl.append("  procedure %s (x : inout %s) is begin end procedure; --ERR" % (f, st))
            self.errmark = True
            if b["kind"] in ("const", "sig"):
                return "%s := %s;" % (nm, bref)
            return "%s(%s);" % (f, bref)
        if form == "return":
            f = self.n("f")
            self.adecl.append("  function %s (x : %s) return %s is begin\n    return x; --ERR\n  end function;" % (f, T, st))
            self.errmark = True
            return "%s := %s(%s);" % (nm, f, bref)
        if form == "qual":
            return "%s := %s(%s'(%s));" % (nm, T, st, bref)
        if form == "sig":
            sg = self.n("s")
            self.adecl.append("  signal %s : %s(%s) := (others => %s);" % (sg, T, bd, a["ev"]))
            return "%s <= %s;" % (sg, bref)
        if form == "field":
            r = self.n("R")
            v = self.n("r")
            self.adecl.append("  type %s is record x : BOOLEAN; f : %s; end record; --ERR" % (r, st))
            self.errmark = True
            self.vars.append("    variable %s : %s := (true, (others => %s));" % (v, r, a["ev"]))
            return s.choice(["%s := (false, %s);", "%s.f := %s;", "%s := (f => %s, x => true);"]) % (v, bref)
        if form == "slice":
            # slice of a longer array
            L = la + s.int(0, 3)
            it = a["it"]
            if a["lo"] + L - 1 > it.hi or L == 0 or la == 0:
                return "%s := %s;" % (nm, bref)
            w = self.n("d")
            self.vars.append("    variable %s : %s(%s) := (others => %s);" % (w, T, it.rng(a["lo"], a["lo"] + L - 1, a["down"]), a["ev"]))
            off = s.int(0, L - la)
            l, r = a["lo"] + off, a["lo"] + off + la - 1
            if a["down"]:
                l, r = r, l
            return "%s(%s %s %s) := %s;" % (w, self.leaf(it, l), "downto" if a["down"] else "to", self.leaf(it, r), bref)
        # logic: operands of different length
        x, y, z = self.n("b"), self.n("b"), self.n("b")
        self.vars.append("    variable %s : bit_vector(%s to %d) := (others => '1');" % (x, 1, la))
        self.vars.append("    variable %s : bit_vector(%d downto 1) := (others => '1');" % (y, lb))
        self.vars.append("    variable %s : bit_vector(%s to %d) := (others => '1');" % (z, 1, la))
        return "%s := %s %s %s;" % (z, x, s.choice(["and", "or", "xor", "nand", "nor", "xnor"]), y)

    def null(self, ok):
        s = self.s
        form = s.choice(["scalar", "record", "array", "write", "len", "nested"])
        self.feat.append("null-" + form)
        ty = self.n("P")
        nm, d = self.n("n"), self.n("d")
        self.vars.append("    variable %s : INTEGER;" % d)
        if form in ("scalar", "write"):
            self.adecl.append("  type %s is access INTEGER;" % ty)
            self.vars.append("    variable %s : %s := %s;" % (nm, ty, "new INTEGER'(3)" if ok or s.bool() else "null"))
            if not ok:
                self.pre.append("    %s := null;" % nm if s.bool() else "    deallocate(%s);" % nm)
            return "%s := %s.all;" % (d, nm) if form == "scalar" else "%s.all := 4;" % nm
        if form in ("record", "nested"):
            r = self.n("R")
            self.adecl.append("  type %s;" % r)
            self.adecl.append("  type %s is access %s;" % (ty, r))
            self.adecl.append("  type %s is record v : INTEGER; nx : %s; end record;" % (r, ty))
            self.vars.append("    variable %s : %s;" % (nm, ty))
            depth = s.int(1, 3) if form == "nested" else 0
            for k in range(depth + 1 if ok else depth):
                self.pre.append("    %s := new %s'(%d, %s);" % (nm, r, k, nm))
            ref = nm + ".nx" * depth
            return s.choice(["%s := %s.v;" % (d, ref), "%s.v := %s;" % (ref, d), "%s := %s.all.v;" % (d, ref)])
        self.adecl.append("  type %s is access string;" % ty)
        self.vars.append("    variable %s : %s;" % (nm, ty))
        if ok:
            self.pre.append("    %s := new string'(\"abc\");" % nm)
        if form == "len":
            return "%s := %s.all'length;" % (d, nm)
        return "%s := character'pos(%s(%s));" % (d, nm, self.leaf(self.ints[0], s.int(1, 3)))

    def attr(self, ok):
        s = self.s
        t = s.choice(self.ints + [self.enum, self.enum])
        form = s.choice(["val", "succ", "pred", "leftof", "rightof"])
        self.feat.append("attr-" + form)
        d = self.n("d")
        self.vars.append("    variable %s : %s;" % (d, t.name))
        if form == "val":
            lo, hi = t.lo, t.hi
            if t is self.ints[0]:
                t = self.enum
                lo, hi = t.lo, t.hi
                self.vars.append("    variable e%s : EN;" % d)
                d = "e" + d
            v = s.choice([lo, hi, s.int(lo, hi)]) if ok else s.choice([lo - 1, hi + 1, hi + s.int(1, 1000), lo - s.int(1, 1000)])
            if not -(1 << 31) <= v < 1 << 31:
                return self.scalar(ok)
            return "%s := %s'val(%s);" % (d, t.name, self.leaf(self.ints[0], v))
        down = self.downs.get(t.name, False)
        bad = {"succ": t.hi, "pred": t.lo, "leftof": t.hi if down else t.lo, "rightof": t.lo if down else t.hi}[form]
        v = s.choice([t.lo, t.hi, s.int(t.lo, t.hi), min(t.hi, t.lo + 1), max(t.lo, t.hi - 1)]) if ok else bad
        if ok and v == bad:
            v = t.lo + 1 if bad == t.lo else t.hi - 1
        if t is self.ints[0] and not ok:
            return self.scalar(ok)     # overflow is C01's
        return "%s := %s'%s(%s);" % (d, t.name, form, self.leaf(t, v))

    def constraint(self, ok):
        """An array bound outside the index subtype."""
        s = self.s
        # known finding K02-alloc: allocators do not check index constraints
        form = s.choice(["string", "user", "alloc"] if ok else ["string", "user"])
        self.feat.append("constraint-" + form)
        w = self.n("p")
        if form == "user":
            ty = self.n("A")
            lo, hi = s.int(-5, 3), s.int(4, 9)
            self.adecl.append("  subtype I%s is INTEGER range %d to %d;" % (ty, lo, hi))
            self.adecl.append("  type %s is array (I%s range <>) of BIT;" % (ty, ty))
            l = s.int(lo, hi) if ok or s.bool() else s.choice([lo - 1, lo - s.int(1, 9)])
            r = s.int(max(l, lo), hi) if ok or l < lo else s.choice([hi + 1, hi + s.int(1, 9)])
            if ok and s.bool(0.3):
                l, r = s.int(-20, 20), 0
                r = l - s.int(1, 5)       # null: any bounds
        else:
            ty = "string"
            if ok:
                l = s.int(1, 3)
                r = l + s.int(-1, 4)
                if s.bool(0.3):
                    l, r = s.choice([(1, 0), (0, -1), (-5, -9), (3, 0)])
            else:
                l = s.int(-3, 0)
                r = s.int(l, 4)
        if form == "alloc":
            p, v = self.n("P"), self.n("v")
            self.adecl.append("  type %s is access string;" % p)
            self.vars.append("    variable %s : %s;" % (v, p))
            return "%s := new string(%s to %s);" % (v, self.leaf(self.ints[0], l), self.leaf(self.ints[0], r))
        self.adecl.append("  procedure %s (l, r : INTEGER) is\n    variable v : %s(l to r); --ERR\n  begin end procedure;" % (w, ty))
        self.errmark = True
        return "%s(%s, %s);" % (w, self.leaf(self.ints[0], l), self.leaf(self.ints[0], r))

    def delay(self, ok):
        s = self.s
        self.feat.append("delay")
        v = s.choice([0, s.int(0, 5000)]) if ok else -s.choice([1, s.int(1, 100000)])
        x = self.leaf(self.time, v, True)
        if s.bool():
            return "wait for %s;" % x
        sg = self.n("s")
        self.adecl.append("  signal %s : BIT;" % sg)
        return "%s <= '1' after %s;" % (sg, x)

    def twod(self, ok):
        s = self.s
        self.feat.append("index-2d")
        i1, i2 = self.ints[0], s.choice([self.ints[0], self.ints[1]])
        ty, nm, d = self.n("A"), self.n("a"), self.n("d")
        b1, b2 = self.bounds(i1, 1, 4), self.bounds(i2, 1, 4)
        self.adecl.append("  type %s is array (%s range <>, %s range <>) of INTEGER;" % (ty, i1.name, i2.name))
        self.vars.append("    variable %s : %s(%s, %s) := (others => (others => 0));" % (nm, ty, i1.rng(*b1), i2.rng(*b2)))
        self.vars.append("    variable %s : INTEGER;" % d)
        x1, x2 = s.int(b1[0], b1[1]), s.int(b2[0], b2[1])
        if not ok:
            if s.bool():
                x1 = s.choice([b1[0] - 1, b1[1] + 1])
            else:
                x2 = s.choice([b2[0] - 1, b2[1] + 1])
                if not i2.lo <= x2 <= i2.hi:
                    return self.scalar(ok)
        r = "%s(%s, %s)" % (nm, self.leaf(i1, x1), self.leaf(i2, x2))
        return "%s := %s;" % (d, r) if s.bool() else "%s := 7;" % r

    def op(self, ok):
        self.errmark = False
        f = self.s.weighted([(8, self.scalar), (6, self.index), (2, self.pair), (4, self.slice), (6, self.length), (2, self.null), (2, self.attr),
                             (2, self.constraint), (1, self.delay), (1, self.twod)])
        k = len(self.adecl)
        st = f(ok)
        # the line of the error: a marker in a declaration, or the statement
        return st, (k if self.errmark else None)


def gen(s, index):
    solo = index % 3 != 0
    g = G(s)
    g.downs = {}
    for d in g.adecl:
        m = re.match(r"\s*type (U\d) is range .* downto ", d)
        if m:
            g.downs[m[1]] = True
    ops = []
    for i in range(s.int(0, 2) if solo else s.int(5, 25)):
        st, _ = g.op(True)
        ops.append(st)
    bad = None
    if solo or s.bool(0.5):
        g.k += 1000
        nf = len(g.feat)
        bad, k = g.op(False)
        badfeat = g.feat[nf:]
        marked = [i for i, d in enumerate(g.adecl) if k is not None and i >= k and "--ERR" in d]
    out = ["use std.textio.all;", "entity tb is end entity;", "architecture a of tb is"]
    err = []
    for i, d in enumerate(g.adecl):
        for l in d.split("\n"):
            out.append(l.replace(" --ERR", ""))
            if bad is not None and i in marked and "--ERR" in l:
                err.append(len(out))
    out += ["begin", "  process is"] + g.vars + ["  begin"] + [p for p in g.pre if p]
    out.append('    write(output, "start" & LF);')
    exp = ["start"]
    for i, st in enumerate(ops):
        out.append("    " + st)
        out.append('    write(output, "ok%d" & LF);' % i)
        exp.append("ok%d" % i)
    if bad is not None:
        out.append("    " + bad)
        bl = len(out)
        err.append(bl)
        out.append('    write(output, "NOT-REACHED" & LF);')
    out += ["    wait;", "  end process;", "end architecture;", ""]
    eng = s.sample(["interp", "jit", "aot2", "aot0", "mixed"], 2)
    if solo:
        eng = [s.choice(["interp", "jit", "mixed", "aot2"])]
    return {"src": "\n".join(out), "expect": exp, "err": err if bad is not None else None, "bad": bad, "ops": ops, "engines": eng,
            "feat": g.feat, "badfeat": badfeat if bad is not None else []}


def check(case, env):
    env.label(*case["feat"])
    env.label(*["bad-" + f for f in case["badfeat"]])
    sl = case["src"].split("\n")
    for e in case["engines"]:
        env.label("engine-" + e)
        d = env.dir()
        r = nvc.sim(env, d, case["src"], engine=e, gopts=["--messages=compact"])
        env.count(len(case["ops"]) + (1 if case["bad"] else 0))
        det = {"engine": e, "result": repr(r)}
        if r.timeout:
            raise Skip("time limit: " + repr(r)[:500])
        if r.crashed:
            raise Fail("nvc crashed on engine %s\n%s" % (e, r.err[:1500]), "crash", det)
        out = r.out.split("\n")[:-1]
        if case["bad"] is None:
            if r.rc != 0:
                raise Fail("error although every operation is legal (engine %s): %s" % (e, r.err[:600]), "false-alarm", det)
        else:
            if "NOT-REACHED" in r.out or r.rc == 0:
                raise Fail("illegal operation not reported (engine %s): %s" % (e, case["bad"]), "missed", det)
            m = re.search(r"^\S*t\.vhd:(\d+):\S*\s*(?:error|fatal|failure)", r.err, re.M | re.I)
            if not m and "length-logic" in case["badfeat"] and "standard.vhd" in r.err and "different lengths" in r.err:
                m = {1: case["err"][0]}
            if not m:
                raise Fail("no error diagnostic (engine %s): %s" % (e, r.err[:500]), "nodiag", det)
            line = int(m[1])
            if line not in case["err"]:
                where = sl[line - 1]
                c = re.match(r"\s*constant (\w+) ", where)
                if not (c and re.search(r"\b%s\b" % c[1], case["bad"])):
                    raise Fail("error reported at line %d, expected %s (engine %s): %s" % (line, case["err"], e, r.err[:500]), "wrongline", det)
                env.label("reported-at-constant")
            if not out:
                env.label("rejected-before-run")
                continue
            env.label("rejected-at-run-time")
        if out != case["expect"]:
            raise Fail("output differs (engine %s): %s, expected %s; %s" % (e, out[-2:], case["expect"][-2:], r.err[:500]), "output", det)
    if case["bad"]:
        env.mark(case["bad"] + case["src"][:400])
    for o in case["ops"]:
        if re.search(r"\bid\(|[vs]\d", o):
            env.mark(o)


def pin(id, decl, stmts, expect, err=None, engines=("interp", "jit", "aot2"), arch=""):
    src = ("use std.textio.all;\nentity tb is end entity;\narchitecture a of tb is "
           "function id (x : INTEGER) return INTEGER is begin return x; end function; %s\nbegin\n process is\n%s\n begin\n"
           "write(output, \"start\" & LF);\n%s\n%s\n wait;\n"
           " end process;\nend architecture;\n" % (arch, decl, stmts, 'write(output, "NOT-REACHED" & LF);' if err else ""))
    return {"id": id, "case": {"src": src, "expect": ["start"] + expect, "err": err, "bad": stmts if err else None, "ops": [],
                               "engines": list(engines), "feat": ["pinned"], "badfeat": []}}


PINNED = [
    pin("K02-recagg", "type R is record a : INTEGER; b : INTEGER range 1 to 3; end record; variable v : R;", "v := (1, id(7));", [], [9]),
    pin("K02-alloc", "type P is access string; variable v : P;", "v := new string(id(-3) to id(-3));", [], [9]),
    pin("K02-arragg", "type A is array (0 to 3) of INTEGER range 0 to 9; variable v : A;", "v := (0 => id(17), others => 0);", [], [9]),
    pin("K02-outparam", "variable v : INTEGER range 0 to 3;", "p(id(7), v);", [], [9], arch=
        "procedure p (x : INTEGER; o : out INTEGER) is begin o := x; end;"),
    pin("F02-concat", "variable d : A17(-54 to -54) := (others => 24);", "d := f21(d); write(output, INTEGER'image(INTEGER(d(-54))) & LF);", ["24"], arch=
        "type U1 is range -128 to -46; type A17 is array (U1 range <>) of INTEGER; function f21 (x : A17) return A17 is "
        "variable y : A17(x'low to x'high) := x; begin return y(x'low to -55) & y(x'high); end;"),
    pin("F02-folded", "variable d : AA(0 to 0); variable e : B(e2 to e1) := (others => 3);",
        "d := AA(S'(k)); write(output, INTEGER'image(d(0)) & LF); e := B(SN'(n));", ["-3"], arch=
        "type E3 is (e0, e1, e2); type AA is array (INTEGER range <>) of INTEGER; constant k : AA(1 to 1) := (others => -3); subtype S is AA(0 to 0);"
        "type B is array (E3 range <>) of INTEGER; constant n : B(e1 to e0) := (others => 3); subtype SN is B(e2 to e1);"),
    pin("F02-aggrange", "variable v : AA(1 to 3);", "v := (c to 3 => 5); write(output, INTEGER'image(v(3)) & LF);", ["5"], arch=
        "type AA is array (INTEGER range <>) of INTEGER; constant c : INTEGER range 1 to 1 := id(1);"),
    pin("F02-qualified", "subtype S is INTEGER range 1 to 3; variable v : INTEGER;", "v := S'(id(7));", [], [9]),
    pin("F02-return", "subtype S is INTEGER range 1 to 3; function f (x : INTEGER) return S is begin return x; end; variable v : INTEGER;",
        "v := f(id(7));", [], [6]),
]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
