#!/usr/bin/env python3
"""C05: elaboration preserves hierarchy semantics."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C05"
CASES = {"quick": 900, "thorough": 30000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = "a generated hierarchy with at least two instances, blocks or generates and at least six observed objects; distinct by source"
TECHNIQUE = ("model-based and metamorphic property testing: generated hierarchies (entities, components, configurations, blocks, for/if/case generates, "
             "all forms of port and generic map) are elaborated by a Python reference into a flat network whose settled values, names and bounds "
             "are compared with the reports of the real design; the same design with --no-collapse, saved and reloaded, compiled or interpreted, must agree")
NOTE = "settled values once per nanosecond and step; delta-cycle behaviour is C04; depth up to 5; sampled"
ASSUMPTIONS = ["all networks are acyclic apart from clocked registers, so settled values do not depend on delta cycles"]

PKG = """package p is
  subtype int is integer range -1000 to 1000;
  type ivec is array (integer range <>) of int;
  type bvec is array (integer range <>) of bit;
  type rec is record a : int; b : bvec(3 downto 0); c : bit; end record;
  type myint is range -1000 to 1000;
  type enum is (red, green, blue);
  function sum(v : ivec) return int;
  subtype rint is sum int;
  signal clk : bit;
  function m(x : integer) return int;
  function m1(x : int) return int;
  function inv(x : bit) return bit;
  function b2i(x : bit) return int;
  function i2b(x : int) return bit;
  function flip(x : bvec) return bvec;
  function flip4(x : bvec(3 downto 0)) return bvec;
  function cnt(x : bvec) return int;
  function str(x : int) return string;
  function str(x : bit) return string;
  function str(x : bvec) return string;
  function str(x : ivec) return string;
  function str(x : rec) return string;
end package;
package body p is
  function sum(v : ivec) return int is variable s : integer := 0; begin
    for i in v'range loop s := (s + v(i)) mod 997; end loop; return s; end function;
  function m(x : integer) return int is begin return x mod 997; end function;
  function m1(x : int) return int is begin return (x + 7) mod 997; end function;
  function inv(x : bit) return bit is begin return not x; end function;
  function b2i(x : bit) return int is begin if x = '1' then return 5; else return 2; end if; end function;
  function i2b(x : int) return bit is begin if x mod 2 = 1 then return '1'; else return '0'; end if; end function;
  function flip(x : bvec) return bvec is variable r : bvec(x'range); begin
    for i in x'range loop r(i) := not x(i); end loop; return r; end function;
  function flip4(x : bvec(3 downto 0)) return bvec is begin return flip(x); end function;
  function cnt(x : bvec) return int is variable n : int := 0; begin
    for i in x'range loop if x(i) = '1' then n := n + 1; end if; end loop; return n; end function;
  function str(x : int) return string is begin return integer'image(x); end function;
  function str(x : bit) return string is begin if x = '1' then return "1"; else return "0"; end if; end function;
  function str(x : bvec) return string is variable r : string(1 to x'length); variable k : integer := 1; begin
    for i in x'range loop if x(i) = '1' then r(k) := '1'; else r(k) := '0'; end if; k := k + 1; end loop; return r; end function;
  function str(x : ivec) return string is begin
    if x'length = 0 then return ""; elsif x'length = 1 then return str(x(x'left));
    elsif x'ascending then return str(x(x'left)) & "," & str(x(x'left + 1 to x'right));
    else return str(x(x'left)) & "," & str(x(x'left - 1 downto x'right)); end if; end function;
  function str(x : rec) return string is begin return str(x.a) & "/" & str(x.b) & "/" & str(x.c); end function;
end package body;
"""
TYPES = {"int": "int", "bit": "bit", "rec": "rec", "bv": "bvec", "iv": "ivec", "rint": "rint", "my": "myint"}
FIELDS = {"a": ("int", 0, 1), "b": ("bv", 1, 5), "c": ("bit", 5, 6)}
STEPS = 4


class Cell:
    __slots__ = ("val", "src")

    def __init__(self, v):
        self.val, self.src = v, None


class Obj:
    def __init__(self, shape, cells, left=None, desc=False):
        self.shape, self.cells, self.left, self.desc = shape, cells, left, desc

    def index(self, i):
        p = self.left - i if self.desc else i - self.left
        assert 0 <= p < len(self.cells), (self.left, self.desc, i)
        return Obj("bit" if self.shape == "bv" else "int", [self.cells[p]])

    def right(self):
        n = len(self.cells)
        return self.left - n + 1 if self.desc else self.left + n - 1

    def text(self):
        v = [c.val for c in self.cells]
        return {"int": lambda: str(v[0]), "rint": lambda: str(v[0]), "my": lambda: str(v[0]), "bit": lambda: str(v[0]),
                "bv": lambda: "".join(map(str, v)), "iv": lambda: ",".join(map(str, v)),
                "rec": lambda: "%d/%s/%d" % (v[0], "".join(map(str, v[1:5])), v[5])}[self.shape]()


def fn_flip(xs):
    return [1 - x for x in xs]


class Ref:
    """a named object or part of one: text, shape, static length and range (or None), bind(ctx) -> Obj"""
    def __init__(self, text, shape, n, rng, bind, base=None):
        self.text, self.shape, self.n, self.rng, self.bind = text, shape, n, rng, bind
        self.multi = False
        self.unc = False
        self.base = base or text

    def elem(self, pos):
        l, desc = self.rng
        i = l - pos if desc else l + pos
        b = self.bind
        return Ref("%s(%d)" % (self.base, i), "bit" if self.shape == "bv" else "int", 1, None, lambda cx: b(cx).index(i))

    def slice(self, a, z):
        l, desc = self.rng
        i, j = (l - a, l - z + 1) if desc else (l + a, l + z - 1)
        b, sh = self.bind, self.shape
        return Ref("%s(%d %s %d)" % (self.base, i, "downto" if desc else "to", j), sh, z - a, (i, desc),
                   lambda cx: Obj(sh, b(cx).cells[a:z], i, desc), self.base)

    def field(self, f):
        sh, a, z = FIELDS[f]
        b = self.bind
        return Ref(self.text + "." + f, sh, z - a, (3, True) if sh == "bv" else None,
                   lambda cx: Obj(sh, b(cx).cells[a:z], 3 if sh == "bv" else None, True))


class Ctx:
    def __init__(self, model, path, ipath, gens, objs):
        self.model, self.path, self.ipath, self.gens, self.objs = model, path, ipath, dict(gens), dict(objs)

    def child(self, path, ipath):
        return Ctx(self.model, path, ipath, self.gens, self.objs)


class Model:
    def __init__(self):
        self.cells, self.regs, self.probes, self.stim = [], [], [], []
        self.scopes = 0

    def obj(self, shape, vals, left=None, desc=False):
        cs = [Cell(v) for v in vals]
        self.cells += cs
        return Obj(shape, cs, left, desc)

    def settle(self):
        for _ in range(2000):
            ch = False
            for c in self.cells:
                if c.src is not None:
                    v = c.src()
                    if v != c.val:
                        c.val, ch = v, True
            if not ch:
                return
        raise RuntimeError("model does not settle")


class Ent:
    pass


class Scope:
    def __init__(self, g, ent, srcs, gens, decl_ok=True):
        self.g, self.ent, self.srcs, self.gens = g, ent, list(srcs), list(gens)
        self.decl, self.stmt, self.acts = [], [], []

    def child(self):
        return Scope(self.g, self.ent, self.srcs, self.gens)


def drive_cells(obj, thunks):
    for c, t in zip(obj.cells, thunks):
        assert c.src is None
        c.src = t


def val(c):
    return lambda: c.val


class Gen:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.std = s.choice(["1993", "2002", "2008", "2008", "2008", "2019"])
        self.new = self.std >= "2008"
        self.units = []      # text of design units in order of analysis
        self.ents = []
        self.budget = s.int(6, 26)
        self.stats = 0
        self.config = []     # component specs for the configuration declaration

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- values
    def rnd(self, shape, n=1):
        s = self.s
        if shape in ("int", "rint", "my"):
            return [s.int(-500, 500)]
        if shape == "bit":
            return [s.int(0, 1)]
        if shape == "bv":
            return [s.int(0, 1) for _ in range(n)]
        if shape == "iv":
            return [s.int(0, 99) for _ in range(n)]
        return [s.int(0, 99)] + [s.int(0, 1) for _ in range(5)]

    def lit(self, shape, v):
        if shape in ("int", "rint", "my"):
            return str(v[0])
        if shape == "bit":
            return "'%d'" % v[0]
        if shape == "bv":
            return '"' + "".join(map(str, v)) + '"'
        if shape == "iv":
            if len(v) == 1:
                return None
            return "(" + ", ".join(map(str, v)) + ")"
        return '(%d, "%s", \'%d\')' % (v[0], "".join(map(str, v[1:5])), v[5])

    # ---- expressions: (text, bind(ctx) -> list of thunks)
    def pick(self, sc, shape, n=None):
        c = [r for r in self.refs(sc) if r.shape == shape and (n is None or r.n == n)]
        return self.s.choice(c) if c else None

    def refs(self, sc):
        out = []
        for r in sc.srcs:
            out.append(r)
            if r.shape in ("bv", "iv") and r.rng is not None and r.n:
                k = self.s.int(0, r.n - 1)
                out.append(r.elem(k))
                if r.n > 1:
                    a = self.s.int(0, r.n - 1)
                    out.append(r.slice(a, self.s.int(a + 1, r.n)))
            elif r.shape == "rec":
                out.append(r.field(self.s.choice("abc")))
        return out

    def ivalue(self, sc):
        """an integer-valued static expression: (text, fn(ctx))"""
        s = self.s
        k = s.weighted([(2, "lit"), (3 if sc.gens else 0, "gen")])
        if k == "lit":
            v = s.int(-20, 50)
            return ("(%d)" % v if v < 0 else str(v)), (lambda cx: v)
        n = s.choice(sc.gens)
        if s.bool():
            return n, (lambda cx: cx.gens[n])
        v = s.int(1, 9)
        return "(%s + %d)" % (n, v), (lambda cx: cx.gens[n] + v)

    def iexpr(self, sc, d):
        """-> text, bind(ctx)->thunk"""
        s = self.s
        k = s.weighted([(3, "ref"), (2, "static"), (2 if d else 0, "add"), (1, "b2i"), (1, "cnt")])
        if k == "ref":
            r = self.pick(sc, "int") or self.pick(sc, "rint")
            if r:
                return r.text, (lambda cx: val(r.bind(cx).cells[0]))
        if k == "add":
            t1, b1 = self.iexpr(sc, d - 1)
            t2, b2 = self.iexpr(sc, d - 1)

            def bind(cx):
                x, y = b1(cx), b2(cx)
                return lambda: (x() + 2 * y()) % 997
            return "m(%s + 2 * %s)" % (t1, t2), bind
        if k == "b2i":
            t, b = self.bexpr(sc, d)

            def bind(cx):
                x = b(cx)
                return lambda: 5 if x() else 2
            return "b2i(%s)" % t, bind
        if k == "cnt":
            r = self.pick(sc, "bv")
            if r:
                def bind(cx):
                    cs = r.bind(cx).cells
                    return lambda: sum(c.val for c in cs)
                return "cnt(%s)" % r.text, bind
        t, f = self.ivalue(sc)

        def bind(cx):
            v = f(cx)
            return lambda: v
        return t, bind

    def bexpr(self, sc, d):
        s = self.s
        k = s.weighted([(4, "ref"), (1, "i2b"), (2 if d else 0, "op"), (1 if d else 0, "not")])
        if k == "ref":
            r = self.pick(sc, "bit")
            if r:
                return r.text, (lambda cx: val(r.bind(cx).cells[0]))
        if k == "op":
            t1, b1 = self.bexpr(sc, d - 1)
            t2, b2 = self.bexpr(sc, d - 1)
            op, f = s.choice([("and", lambda a, b: a & b), ("xor", lambda a, b: a ^ b), ("or", lambda a, b: a | b)])

            def bind(cx):
                x, y = b1(cx), b2(cx)
                return lambda: f(x(), y())
            return "(%s %s %s)" % (t1, op, t2), bind
        if k == "not":
            t, b = self.bexpr(sc, d - 1)

            def bind(cx):
                x = b(cx)
                return lambda: 1 - x()
            return "(not %s)" % t, bind
        t, b = self.iexpr(sc, 0)

        def bind(cx):
            x = b(cx)
            return lambda: x() % 2
        return "i2b(%s)" % t, bind

    def vexpr(self, sc, tgt):
        """expression for a whole target: text, bind(ctx) -> list of thunks"""
        s = self.s
        sh = tgt.shape
        if sh in ("int", "rint", "my"):
            t, b = self.iexpr(sc, s.int(0, 2))
            return t if sh != "my" else "myint(%s)" % t, (lambda cx: [b(cx)])
        if sh == "bit":
            t, b = self.bexpr(sc, s.int(0, 2))
            return t, (lambda cx: [b(cx)])
        if tgt.n is not None or sh == "rec":
            r = self.pick(sc, sh, tgt.n) if s.int(0, 2) else None
            if r:
                if sh == "bv" and s.bool():
                    return "flip(%s)" % r.text, (lambda cx: [(lambda c=c: 1 - c.val) for c in r.bind(cx).cells])
                return r.text, (lambda cx: [val(c) for c in r.bind(cx).cells])
        if sh == "rec":
            t1, b1 = self.iexpr(sc, 1)
            v = [s.int(0, 1) for _ in range(4)]
            t2, b2 = self.bexpr(sc, 1)
            return '(%s, "%s", %s)' % (t1, "".join(map(str, v)), t2), (lambda cx: [b1(cx)] + [(lambda x=x: x) for x in v] + [b2(cx)])
        t, b = self.bexpr(sc, 1) if sh == "bv" else self.iexpr(sc, 1)
        if tgt.n is not None and tgt.n > 1 and s.bool():
            parts = [(self.bexpr(sc, 1) if sh == "bv" else self.iexpr(sc, 1)) for _ in range(tgt.n)]
            return "(" + ", ".join(p[0] for p in parts) + ")", (lambda cx: [p[1](cx) for p in parts])
        # (others => ..) needs a constrained target: use the range of the target
        tb = tgt.bind
        return "(%s'range => %s)" % (tgt.text, t), (lambda cx: [b(cx)] * len(tb(cx, True).cells if tgt.multi else tb(cx).cells))

    # ---- driving a target
    def drive(self, sc, tgt, depth):
        s = self.s
        self.budget -= 1
        vec = tgt.shape in ("bv", "iv")
        if depth <= 0 or self.budget <= 0:
            k = s.choice(["comb", "comb", "reg"])
        else:
            k = s.weighted([(2, "comb"), (1, "reg"), (9, "inst"), (4 if vec else 1, "for"), (3, "if"), (2 if self.new else 0, "case"),
                            (3, "block"), (3 if (vec and tgt.n and tgt.n > 1 and tgt.rng) or tgt.shape == "rec" else 0, "split"),
                            (2, "local"), (2 if tgt.shape == "int" else 0, "resolved")])
        if k in ("for", "local") and tgt.unc and not self.new:
            k = "comb"       # the range of an unconstrained port is not static before VHDL-2008
        getattr(self, "d_" + k)(sc, tgt, depth)

    def d_comb(self, sc, tgt, depth):
        t, b = self.vexpr(sc, tgt)
        lab = self.name("c") + ": " if self.s.bool() else ""
        sc.stmt.append("%s%s <= %s;" % (lab, tgt.text, t))
        sc.acts.append(lambda cx: drive_cells(tgt.bind(cx), b(cx)))

    def d_reg(self, sc, tgt, depth):
        t, b = self.vexpr(sc, tgt)
        sc.stmt.append("%sprocess (clk) is begin if clk'event and clk = '1' then %s <= %s; end if; end process;" % (
            self.name("p") + ": " if self.s.bool() else "", tgt.text, t))
        sc.acts.append(lambda cx: cx.model.regs.append((tgt.bind(cx), b(cx))))

    def probe(self, sc, ref, bounds=False):
        """report value and names of a declared object in this scope"""
        nm = ref.text
        extra = " & \" \" & integer'image(%s'left) & \" \" & integer'image(%s'right)" % (nm, nm) if ref.shape in ("bv", "iv") else ""
        v = "str(%s)" % nm if ref.shape != "my" else "myint'image(%s)" % nm
        if self.s.int(0, 2) == 0:
            extra += " & \" \" & %s'instance_name" % nm
            inst = True
        else:
            inst = False
        self.nprobe = getattr(self, "nprobe", 0) + 1
        sc.stmt.append("process is begin wait for 500 ps; loop report %s'path_name & \" \" & %s%s; wait for 1 ns; end loop; end process;" % (nm, v, extra))
        sc.acts.append(lambda cx: cx.model.probes.append((cx.path + ":" + nm, ref.bind(cx), cx.ipath + ":" + nm if inst else None)))

    def declare(self, sc, shape, n, keyword="signal"):
        """declare a local signal; -> Ref"""
        s = self.s
        nm = self.name("s")
        rng = None
        t = TYPES[shape]
        if shape in ("bv", "iv"):
            desc = s.bool()
            l = s.int(-3, 8)
            rng = (l, desc)
            t += "(%d %s %d)" % (l, "downto" if desc else "to", l - n + 1 if desc else l + n - 1)
        elif shape == "rec":
            n = 6
        v = self.rnd(shape, n)
        lit = self.lit(shape, v) if s.bool() else None
        if lit is None:
            v = {"int": [-1000], "rint": [-1000], "bit": [0], "bv": [0] * (n or 0), "iv": [-1000] * (n or 0), "rec": [-1000, 0, 0, 0, 0, 0], "my": [-1000]}[shape]
        sc.decl.append("signal %s : %s%s;" % (nm, t, " := " + lit if lit else ""))

        def act(cx):
            cx.objs[nm] = cx.model.obj(shape, v, rng[0] if rng else None, rng[1] if rng else False)
        sc.acts.append(act)
        r = Ref(nm, shape, n if shape in ("bv", "iv") else 1, rng, lambda cx: cx.objs[nm])
        return r

    def d_local(self, sc, tgt, depth):
        """a fresh local signal drives the target"""
        s = self.s
        n = tgt.n
        if tgt.shape in ("bv", "iv") and n is None:
            return self.d_for(sc, tgt, depth)
        r = self.declare(sc, tgt.shape if tgt.shape != "rint" else "int", n)
        self.drive(sc, r, depth - 1)
        if s.bool():
            self.probe(sc, r)
        sc.srcs.append(r)
        sc.stmt.append("%s <= %s;" % (tgt.text, r.text))
        sc.acts.append(lambda cx: drive_cells(tgt.bind(cx), [val(c) for c in r.bind(cx).cells]))

    def d_split(self, sc, tgt, depth):
        if tgt.shape == "rec":
            for f in "abc":
                self.drive(sc, tgt.field(f), depth - 1)
        else:
            k = self.s.int(1, tgt.n - 1)
            if tgt.n <= 3 and self.s.bool():
                for i in range(tgt.n):
                    self.drive(sc, tgt.elem(i), depth - 1)
            else:
                self.drive(sc, tgt.slice(0, k), depth - 1)
                self.drive(sc, tgt.slice(k, tgt.n), depth - 1)

    def d_resolved(self, sc, tgt, depth):
        """a resolved signal with several sources"""
        s = self.s
        nm = self.name("r")
        sc.decl.append("signal %s : rint;" % nm)

        def act(cx):
            o = cx.model.obj("rint", [-1000])
            cx.objs[nm] = o
            o.parts = []
            o.cells[0].src = lambda: sum(c.val for c in o.parts) % 997
        sc.acts.append(act)

        def contrib(cx, peek=False):
            o = cx.objs[nm]
            if peek:
                return o
            p = cx.model.obj("int", [-1000])
            o.parts.append(p.cells[0])
            return p
        for _ in range(s.int(1, 3)):
            t = Ref(nm, "int", 1, None, contrib)
            t.multi = True
            self.drive(sc, t, depth - 1)
        full = Ref(nm, "rint", 1, None, lambda cx: cx.objs[nm])
        self.probe(sc, full)
        sc.srcs.append(full)
        sc.stmt.append("%s <= m1(%s);" % (tgt.text, nm))

        def fin(cx):
            c = full.bind(cx).cells[0]
            drive_cells(tgt.bind(cx), [lambda: (c.val + 7) % 997])
        sc.acts.append(fin)

    def region(self, sc, ch, label, head, tail, gen):
        """text of a generate body or block from child scope"""
        b = ["  " + l for l in ch.stmt]
        d = ["  " + l for l in ch.decl]
        return [head] + d + (["begin"] if d or not gen else []) + b + [tail]

    @staticmethod
    def run(ch, cx):
        for a in ch.acts:
            a(cx)
        cx.model.scopes += 1

    def d_for(self, sc, tgt, depth):
        s = self.s
        self.stats += 1
        lab, gv = self.name("g"), self.name("i")
        ch = sc.child()
        if tgt.shape in ("bv", "iv"):
            mode = s.choice(["range", "explicit"]) if tgt.rng and tgt.n else "range"
            b = tgt.bind
            esh = "bit" if tgt.shape == "bv" else "int"
            if mode == "range":
                head = "%s: for %s in %s'range generate" % (lab, gv, tgt.text) if s.bool() or tgt.rng is None else \
                    "%s: for %s in %s'reverse_range generate" % (lab, gv, tgt.text)
                rngf = lambda cx: [b(cx).left + (-k if b(cx).desc else k) for k in range(len(b(cx).cells))]
                el = Ref("%s(%s)" % (tgt.base, gv), esh, 1, None, lambda cx: b(cx).index(cx.gens[gv]))
            else:
                off = s.int(-6, 6)
                l, desc = tgt.rng
                lo = (l - tgt.n + 1 if desc else l) + off
                hi = lo + tgt.n - 1
                head = "%s: for %s in %s generate" % (lab, gv, s.choice(["%d to %d" % (lo, hi), "%d downto %d" % (hi, lo), "integer range %d to %d" % (lo, hi)]))
                rngf = lambda cx: range(lo, hi + 1)
                el = Ref("%s(%s - (%d))" % (tgt.base, gv, off), esh, 1, None, lambda cx: b(cx).index(cx.gens[gv] - off))
        else:
            # a single iteration that drives a scalar or record; or one of several (selected by if generate)
            k = s.int(-4, 9)
            head = "%s: for %s in %d to %d generate" % (lab, gv, k, k)
            rngf = lambda cx: [k]
            el = tgt
        ch.gens.append(gv)
        self.drive(ch, el, depth - 1)
        sc.stmt += self.region(sc, ch, lab, head, "end generate;", True)
        if tgt.shape not in ("bv", "iv") and s.bool():
            sc.stmt.append("%s: for %s in 1 to 0 generate begin q: assert false severity failure; end generate;" % (self.name("g"), self.name("i")))

        def act(cx):
            for i in rngf(cx):
                c = cx.child("%s:%s(%d)" % (cx.path, lab, i), "%s:%s(%d)" % (cx.ipath, lab, i))
                c.gens[gv] = i
                self.run(ch, c)
        sc.acts.append(act)

    def cond(self, sc):
        t, f = self.ivalue(sc)
        k = self.s.int(-5, 20)
        op, g = self.s.choice([("<", lambda a, b: a < b), (">=", lambda a, b: a >= b), ("=", lambda a, b: a == b), ("/=", lambda a, b: a != b)])
        return "%s %s %d" % (t, op, k), (lambda cx: g(f(cx), k))

    def d_if(self, sc, tgt, depth):
        s = self.s
        self.stats += 1
        t, f = self.cond(sc)
        if self.new:
            lab = self.name("g")
            nb = s.int(1, 3)
            br, txt = [], []
            for i in range(nb + 1):
                ch = sc.child()
                alt = None       # alternative labels: nvc is not consistent about them in path names
                self.drive(ch, tgt, depth - 1)
                if i:
                    t, f = self.cond(sc)
                al = alt + ": " if alt else ""
                head = "%s: if %s%s generate" % (lab, al, t) if i == 0 else "elsif %s%s generate" % (al, t) if i < nb else "else %sgenerate" % al
                txt += self.region(sc, ch, lab, head, "--", True)
                if alt and s.bool():
                    txt.append("end %s;" % alt if ch.decl else "-- end")
                br.append((f if i < nb else (lambda cx: True), ch, alt))
            txt = [x for x in txt if x not in ("--", "-- end")]
            sc.stmt += txt + ["end generate;"]

            def act(cx):
                for f, ch, alt in br:
                    if f(cx):
                        self.run(ch, cx.child("%s:%s" % (cx.path, alt or lab), "%s:%s" % (cx.ipath, alt or lab)) if False else
                                 cx.child("%s:%s" % (cx.path, lab), "%s:%s" % (cx.ipath, lab)))
                        return
            sc.acts.append(act)
        else:
            for neg in (False, True):
                lab = self.name("g")
                ch = sc.child()
                self.drive(ch, tgt, depth - 1)
                sc.stmt += self.region(sc, ch, lab, "%s: if %s generate" % (lab, "not (%s)" % t if neg else t), "end generate;", True)

                def act(cx, ch=ch, lab=lab, neg=neg):
                    if bool(f(cx)) != neg:
                        self.run(ch, cx.child("%s:%s" % (cx.path, lab), "%s:%s" % (cx.ipath, lab)))
                sc.acts.append(act)

    def d_case(self, sc, tgt, depth):
        s = self.s
        self.stats += 1
        lab = self.name("g")
        t, f = self.ivalue(sc)
        lo = s.int(-5, 10)
        choices = [("%d" % lo, lambda v: v == lo), ("%d" % (lo + 1), lambda v: v == lo + 1),   # ranges are not supported by nvc
                   ("%d | %d" % (lo + 5, lo + 9), lambda v: v in (lo + 5, lo + 9)), ("others", lambda v: True)]
        br, txt = [], ["%s: case %s generate" % (lab, t)]
        for i, (c, g) in enumerate(choices):
            if i < 3 and s.int(0, 2) == 0:
                continue
            ch = sc.child()
            self.drive(ch, tgt, depth - 1)
            txt += self.region(sc, ch, lab, "when %s =>" % c, "--", True)[:-1]
            br.append((g, ch))
        sc.stmt += txt + ["end generate;"]

        def act(cx):
            v = f(cx)
            for g, ch in br:
                if g(v):
                    self.run(ch, cx.child("%s:%s" % (cx.path, lab), "%s:%s" % (cx.ipath, lab)))
                    return
        sc.acts.append(act)

    def d_block(self, sc, tgt, depth):
        s = self.s
        self.stats += 1
        lab = self.name("b")
        ch = sc.child()
        head = []
        gmap, maps = [], None
        if s.bool():
            gn = self.name("K")
            t, f = self.ivalue(sc)
            head += ["  generic (%s : integer := 7);" % gn, "  generic map (%s);" % (t if s.bool() else gn + " => " + t)]
            ch.gens.append(gn)
            gmap.append((gn, f))
        if s.bool():
            E = self.ports_for(ch, tgt, allow_generic=False)
            maps = self.portmap(sc, E, tgt)
            head += ["  port (%s);" % "; ".join(p.decl for p in E.ports), "  port map (%s);" % ", ".join(maps[0])]
            ch.srcs = [r for r in ch.srcs if s.bool()] + [p.ref for p in E.ports if p.mode == "in"]
            inner = E.out.ref
        else:
            inner = tgt
        if maps and self.new and s.bool():
            self.probe(ch, inner)
        self.drive(ch, inner, depth - 1)
        sc.stmt += ["%s: block %s" % (lab, s.choice(["", "is"]))] + head + ["  " + l for l in ch.decl] + ["begin"] + ["  " + l for l in ch.stmt] + ["end block;"]

        def act(cx):
            c = cx.child("%s:%s" % (cx.path, lab), "%s:%s" % (cx.ipath, lab))
            for n, f in gmap:
                c.gens[n] = f(cx)
            if maps:
                maps[1](cx, c)
            self.run(ch, c)
        sc.acts.append(act)

    # ---- ports
    def ports_for(self, isc, tgt, allow_generic=True):
        """create ports: one out port able to drive tgt, some in ports. -> object with .ports, .out, .gens"""
        s = self.s
        E = Ent()
        E.ports, E.gens = [], []
        E.W = None
        sh = tgt.shape if tgt.shape != "rint" else "int"
        E.conv = None
        if sh == "int" and s.int(0, 3) == 0 and not tgt.multi:
            E.conv = s.choice(["b2i", "m1", "my"])
            sh = {"b2i": "bit", "m1": "int", "my": "my"}[E.conv]
        elif sh == "bit" and s.int(0, 4) == 0:
            E.conv = s.choice(["inv", "i2b"])
            sh = {"inv": "bit", "i2b": "int"}[E.conv]
        elif sh == "bv" and tgt.n == 4 and s.int(0, 4) == 0:
            E.conv = "flip4"
        E.oshape = sh
        n = tgt.n
        E.out = self.port(E, "y", "out", sh, n, allow_generic and E.conv is None, E.conv == "flip4")
        for _ in range(s.int(1, 4)):
            sh = s.choice(["int", "int", "bit", "bv", "bv", "iv", "rec"])
            self.port(E, self.name("x"), "in", sh, s.int(1, 5) if sh in ("bv", "iv") else 1, allow_generic, False)
        ps = list(E.ports)
        s.shuffle(ps)
        E.ports = ps
        return E

    def port(self, E, nm, mode, sh, n, allow_generic, fixed4):
        s = self.s
        P = Ent()
        P.name, P.mode, P.shape, P.n = nm, mode, sh, n
        P.rng = None
        t = TYPES[sh]
        P.kind = "fixed"
        if nm == "y":
            P.name = nm = self.name("y")
        if sh in ("bv", "iv"):
            kinds = ["fixed", "fixed", "unc"] + (["gen"] if allow_generic else [])
            P.kind = "fixed" if fixed4 else s.choice(kinds)
            if n is None:
                P.kind = "unc"
            desc = s.bool() or fixed4
            l = 3 if fixed4 else s.int(-3, 8)
            if P.kind == "fixed":
                P.rng = (l, desc)
                t += "(%d %s %d)" % (l, "downto" if desc else "to", l - n + 1 if desc else l + n - 1)
            elif P.kind == "gen":
                P.gn = self.name("W")
                E.gens.append((P.gn, "int", n, P))
                P.desc = desc
                t += "(%s)" % ("%s - 1 downto 0" % P.gn if desc else "1 to %s" % P.gn)
        P.default = None
        dl = {"int": [-1000], "my": [-1000], "bit": [0], "bv": [0] * (n or 0), "iv": [-1000] * (n or 0), "rec": [-1000, 0, 0, 0, 0, 0]}[sh]
        if P.kind == "fixed" and s.bool():
            v = self.rnd(sh, n)
            l = self.lit(sh, v)
            if l:
                t += " := " + l
                P.default = dl = v
        P.init = dl
        P.decl = "%s : %s %s" % (nm, mode, t)
        P.ref = Ref(nm, sh, n if P.kind == "fixed" else None, P.rng, lambda cx: cx.objs[nm])
        if sh not in ("bv", "iv"):
            P.ref.n = 1
        P.ref.unc = P.kind == "unc"
        E.ports.append(P)
        return P

    def actual_like(self, sc, P, n):
        """a readable source with the shape of P (and length n): Ref or None"""
        c = [r for r in self.refs(sc) if (r.shape == P.shape or (r.shape == "rint" and P.shape == "int")) and
             (P.shape not in ("bv", "iv") or (r.n == n if P.kind == "fixed" or n is not None else True))]
        return self.s.choice(c) if c else None

    def portmap(self, sc, E, tgt, names=None):
        """-> (list of association texts, elab(cx outer, c inner))"""
        s = self.s
        assoc, acts = [], []
        names = names or {}
        positional = s.int(0, 4) == 0
        order = list(E.ports)
        for P in order:
            fn = names.get(P.name, P.name)
            n = P.n

            def mk(cx, c, P=P, vals=None, left=None, desc=None, ln=None):
                k = ln if ln is not None else len(P.init)
                iv = vals if vals is not None else (P.init if len(P.init) == k else [0 if P.shape == "bv" else -1000] * k)
                if P.kind == "fixed":
                    l, d = P.rng if P.rng else (None, False)
                elif P.kind == "gen":
                    k = c.gens[P.gn]
                    iv = [0 if P.shape == "bv" else -1000] * k if vals is None else vals
                    l, d = (k - 1, True) if P.desc else (1, False)
                else:
                    l, d = left, desc
                o = cx.model.obj(P.shape, iv, l, d)
                c.objs[P.name] = o
                return o

            if P is E.out:
                t = tgt
                if E.conv:
                    f = {"b2i": lambda v: 5 if v else 2, "m1": lambda v: (v + 7) % 997, "my": lambda v: v, "inv": lambda v: 1 - v,
                         "i2b": lambda v: v % 2, "flip4": lambda v: 1 - v}[E.conv]
                    cn = {"my": "int"}.get(E.conv, E.conv)
                    assoc.append("%s(%s) => %s" % (cn, fn, t.text))
                    positional = False

                    def act(cx, c, P=P, mk=mk, f=f):
                        o = mk(cx, c)
                        drive_cells(tgt.bind(cx), [(lambda x=x: f(x.val)) for x in o.cells])
                    acts.append(act)
                    continue
                split = P.kind == "fixed" and t.rng is not None and t.n and t.n > 1 and P.shape in ("bv", "iv") and s.int(0, 2) == 0
                if split:
                    self.split_assoc(assoc, P, fn, t)
                    positional = False
                elif P.shape == "rec" and s.int(0, 2) == 0:
                    for f in s.sample("abc", 3):
                        assoc.append("%s.%s => %s" % (fn, f, t.field(f).text))
                    positional = False
                else:
                    assoc.append(t.text if positional else "%s => %s" % (fn, t.text))

                def act(cx, c, P=P, mk=mk):
                    a = tgt.bind(cx)
                    o = mk(cx, c, left=a.left, desc=a.desc, ln=len(a.cells))
                    drive_cells(a, [val(x) for x in o.cells])
                acts.append(act)
                continue
            # in port
            k = s.weighted([(6, "ref"), (2, "split"), (2, "const"), (2 if P.default is not None else 0, "open"), (2, "conv"), (2 if self.new else 0, "expr")])
            if k == "open":
                if s.bool() and not positional:
                    pass      # not mentioned
                else:
                    assoc.append("open" if positional else "%s => open" % fn)
                acts.append(lambda cx, c, mk=mk: mk(cx, c))
                continue
            if k == "split" and P.kind == "fixed" and (P.rng or P.shape == "rec"):
                if P.shape == "rec":
                    srcs = [(f, self.pick(sc, FIELDS[f][0], FIELDS[f][2] - FIELDS[f][1])) for f in "abc"]
                    if all(r for f, r in srcs):
                        for f, r in srcs:
                            assoc.append("%s.%s => %s" % (fn, f, r.text))
                        positional = False

                        def act(cx, c, mk=mk, srcs=srcs):
                            o = mk(cx, c)
                            drive_cells(o, [val(x) for f, r in srcs for x in r.bind(cx).cells])
                        acts.append(act)
                        continue
                else:
                    esh = "bit" if P.shape == "bv" else "int"
                    rs = []
                    for i in range(P.n):
                        r = self.pick(sc, esh)
                        rs.append(r)
                    if all(rs):
                        idx = list(range(P.n))
                        for i in idx:
                            assoc.append("%s => %s" % (P.ref.elem(i).text.replace(P.name, fn, 1), rs[i].text))
                        positional = False

                        def act(cx, c, mk=mk, rs=rs):
                            o = mk(cx, c)
                            drive_cells(o, [val(r.bind(cx).cells[0]) for r in rs])
                        acts.append(act)
                        continue
            if k == "conv":
                cv = {"int": [("b2i", "bit", lambda v: 5 if v else 2), ("m1", "int", lambda v: (v + 7) % 997)],
                      "bit": [("inv", "bit", lambda v: 1 - v), ("i2b", "int", lambda v: v % 2)],
                      "bv": [("flip", "bv", lambda v: 1 - v)] if P.kind == "fixed" else []}.get(P.shape, [])
                if cv:
                    f, sh, g = s.choice(cv)
                    r = self.pick(sc, sh, P.n if sh == "bv" else None)
                    if r:
                        assoc.append("%s(%s)" % (f, r.text) if positional else "%s => %s(%s)" % (fn, f, r.text))

                        def act(cx, c, mk=mk, r=r, g=g):
                            o = mk(cx, c)
                            drive_cells(o, [(lambda x=x: g(x.val)) for x in r.bind(cx).cells])
                        acts.append(act)
                        continue
            if k == "expr" and P.shape in ("int", "bit"):
                t, b = (self.iexpr if P.shape == "int" else self.bexpr)(sc, 1)
                assoc.append(t if positional else "%s => %s" % (fn, t))

                def act(cx, c, mk=mk, b=b):
                    o = mk(cx, c)
                    drive_cells(o, [b(cx)])
                acts.append(act)
                continue
            r = self.actual_like(sc, P, n) if k != "const" else None
            if r is not None and not (P.kind != "fixed" and r.n is None and P.kind == "gen"):
                assoc.append(r.text if positional else "%s => %s" % (fn, r.text))

                def act(cx, c, mk=mk, r=r):
                    a = r.bind(cx)
                    o = mk(cx, c, left=a.left, desc=a.desc, ln=len(a.cells))
                    drive_cells(o, [val(x) for x in a.cells])
                acts.append(act)
                continue
            v = self.rnd(P.shape, n)
            if P.shape == "iv":
                # an aggregate needs known bounds: associate with a qualified constrained subtype through a constant
                lt = "ivec'(%s)" % ", ".join("%d => %d" % (i, x) for i, x in enumerate(v)) if len(v) > 1 or True else None
                left = 0
            elif P.shape == "bv":
                lt, left = "bvec'(\"%s\")" % "".join(map(str, v)), -2147483648
            else:
                lt, left = self.lit(P.shape, v), None
                if P.shape == "my":
                    lt = "myint'(%s)" % lt
            if P.kind == "unc" and P.shape == "bv":
                cn = self.name("CB")
                sc.decl.append("constant %s : bvec(%d downto %d) := \"%s\";" % (cn, n + 1, 2, "".join(map(str, v))))
                lt, left, desc = cn, n + 1, True
            else:
                desc = False
            assoc.append(lt if positional else "%s => %s" % (fn, lt))

            def act(cx, c, mk=mk, v=v, left=left, desc=desc):
                mk(cx, c, vals=v, left=left, desc=desc, ln=len(v))
            acts.append(act)
        if not positional and self.s.bool():
            # groups of one formal must stay together: shuffle only when each formal appears once
            if len(set(a.split("=>")[0].split("(")[-1 if "(" in a.split("=>")[0] else 0] for a in assoc)) == len(assoc) and not any("(" in a.split("=>")[0] or "." in a.split("=>")[0] for a in assoc):
                self.s.shuffle(assoc)

        def elab(cx, c):
            for a in acts:
                a(cx, c)
        # positional associations must come first: all or nothing
        if positional and any(" => " in a and "ivec'" not in a for a in assoc):
            pass
        return assoc, elab

    def split_assoc(self, assoc, P, fn, t):
        s = self.s
        i = 0
        out = []
        while i < t.n:
            z = s.int(i + 1, t.n)
            if z - i == 1 and s.bool():
                out.append("%s => %s" % (P.ref.elem(i).text.replace(P.name, fn, 1), t.elem(i).text))
            else:
                out.append("%s => %s" % (P.ref.slice(i, z).text.replace(P.name, fn, 1), t.slice(i, z).text))
            i = z
        if s.bool():
            s.shuffle(out)
        assoc += out

    # ---- entity instances
    def entity(self, tgt, depth):
        s = self.s
        E = self.ports_for(None, tgt)
        E.name = self.name("ent")
        E.tshape, E.tn = tgt.shape, tgt.n
        gens = []           # integer generics: (name, default or None)
        for _ in range(s.int(0, 2)):
            gens.append((self.name("G"), s.int(-9, 30) if s.bool() else None))
        E.ig = gens
        sg = self.name("S") if s.int(0, 2) == 0 else None
        E.sg = (sg, s.choice(["abc", "x", "Hello", ""])) if sg else None
        gt = ["%s : integer%s" % (n, "" if d is None else " := %d" % d) for n, d in gens]
        gt += ["%s : %s" % (n, s.choice(["natural", "positive", "integer"])) for n, _, _, _ in E.gens]
        if sg:
            gt.append("%s : string := \"%s\"" % E.sg)
        E.gtext = gt
        E.archs = []
        for i in range(s.weighted([(4, 1), (1, 2)])):
            sc = Scope(self, E, [p.ref for p in E.ports if p.mode == "in"], [n for n, _ in gens] + [g[0] for g in E.gens])
            an = self.name("rtl")
            self.drive(sc, E.out.ref, depth - 1)
            if self.new or E.out.mode == "buffer":
                self.probe(sc, E.out.ref)
            for p in E.ports:
                if p.mode == "in" and s.bool():
                    self.probe(sc, p.ref)
            if sg and not any("probe_str" in x for x in sc.stmt):
                sc.stmt.append("probe_str: process is begin wait for 500 ps; report %s'path_name & \" \" & integer'image(%s'length) & %s; wait; end process;" % (E.name, sg, sg))
                sc.acts.append(lambda cx: cx.model.strs.append("%s: %d%s" % (cx.path, len(cx.gens[sg]), cx.gens[sg])))
            E.archs.append((an, sc))
        u = ["use work.p.all;", "entity %s is" % E.name]
        if gt:
            u.append("  generic (%s);" % "; ".join(gt))
        u += ["  port (%s);" % "; ".join(p.decl for p in E.ports), "end entity;"]
        for an, sc in E.archs:
            u += ["architecture %s of %s is" % (an, E.name)] + ["  " + l for l in sc.decl] + ["begin"] + ["  " + l for l in sc.stmt] + ["end architecture;"]
        self.units.append("\n".join(u))
        self.ents.append(E)
        return E

    def d_inst(self, sc, tgt, depth):
        s = self.s
        self.stats += 1
        tsh = tgt.shape if tgt.shape != "rint" else "int"
        cand = [e for e in self.ents if e.tshape == tgt.shape and e.done and not (tgt.multi and (e.conv or e.out.mode == "buffer")) and
                (tsh not in ("bv", "iv") or (e.tn == tgt.n and tgt.n is not None) or (e.out.kind == "unc" and e.conv is None and tgt.n is None) or
                 (e.out.kind == "unc" and not e.conv))] if s.int(0, 2) == 0 else []
        if cand:
            E = s.choice(cand)
        else:
            E = self.entity(tgt, depth)
            E.done = True
        # lengths for generic-width ports of this instance
        gm, gbind = [], []
        for n, d in E.ig:
            if d is not None and s.bool():
                gbind.append((n, lambda cx, d=d: d))
            else:
                t, f = self.ivalue(sc)
                gm.append((n, t))
                gbind.append((n, f))
        for n, _, w, P in E.gens:
            if P is E.out and tgt.n is None:
                raise pbt.Skip("symbolic width for a generic port")
            v = tgt.n if P is E.out else P.n
            gm.append((n, str(v)))
            gbind.append((n, lambda cx, v=v: v))
        if E.sg:
            if s.bool():
                v = s.choice(["q", "long string", "", "Zz"])
                gm.append((E.sg[0], '"%s"' % v))
            else:
                v = E.sg[1]
            gbind.append((E.sg[0], lambda cx, v=v: v))
        lab = self.name("u")
        kind = s.weighted([(5, "entity"), (4, "comp")])
        names = {}
        an, asc = E.archs[-1]
        spec = None
        if kind == "comp":
            mode = s.choice(["default", "default", "spec", "rename"] + (["config"] if sc is self.top and self.use_cfg else []))
            cname = E.name if mode == "default" else self.name("comp")
            if mode == "rename":
                names = {p.name: self.name("q") for p in E.ports}
            else:
                names = {}
            if mode != "default":
                an, asc = s.choice(E.archs)
            ports = "; ".join(p.decl.replace(p.name, names.get(p.name, p.name), 1) for p in E.ports)
            if mode == "default" and sc.child is None:
                pass
            comp = "component %s is %s port (%s); end component;" % (cname, "generic (%s);" % "; ".join(E.gtext) if E.gtext else "", ports)
            if not any(d.startswith("component %s is" % cname) for d in sc.decl):
                sc.decl.append(comp)
            bind = "use entity work.%s(%s)" % (E.name, an)
            if mode == "rename":
                gmt = " generic map (%s)" % ", ".join("%s => %s" % (g.split(" ")[0], g.split(" ")[0]) for g in E.gtext) if E.gtext else ""
                bind += gmt + " port map (%s)" % ", ".join("%s => %s" % (p.name, names[p.name]) for p in E.ports)
            if mode in ("spec", "rename"):
                sc.decl.append("for %s : %s %s;" % (s.choice([lab, "all"]), cname, bind))
            elif mode == "config":
                self.config.append("for %s : %s %s; end for;" % (lab, cname, bind))
            head = "%s: %s%s" % (lab, s.choice(["", "component "]), cname)
        else:
            if s.bool():
                an, asc = s.choice(E.archs)
                head = "%s: entity work.%s(%s)" % (lab, E.name, an)
            else:
                head = "%s: entity work.%s" % (lab, E.name)
        assoc, elab = self.portmap(sc, E, tgt, names)
        gmt = ""
        if gm:
            gmt = " generic map (%s)" % ", ".join("%s => %s" % x for x in gm)
        sc.stmt.append("%s%s%s;" % (head, gmt, " port map (%s)" % ", ".join(assoc) if assoc else ""))

        def act(cx):
            c = Ctx(cx.model, "%s:%s" % (cx.path, lab), "%s:%s@%s(%s)" % (cx.ipath, lab, E.name, an), {}, {})
            for n, f in gbind:
                c.gens[n] = f(cx)
            elab(cx, c)
            self.run(asc, c)
        sc.acts.append(act)

    # ---- whole design
    def build(self):
        s = self.s
        self.use_cfg = s.int(0, 3) == 0
        self.top = None
        sc = Scope(self, None, [], [])
        self.top = sc
        tg = []
        for _ in range(s.int(0, 2)):
            n = self.name("T")
            d = s.int(-5, 30)
            tg.append([n, d, s.int(-5, 30) if s.bool() else None])
            sc.gens.append(n)
        stim = []
        for _ in range(s.int(2, 5)):
            sh = s.choice(["int", "bit", "bv", "iv", "rec"])
            r = self.declare(sc, sh, s.int(1, 5))
            vals = [self.rnd(sh, r.n if sh in ("bv", "iv") else 1) for _ in range(STEPS)]
            if sh == "iv" and r.n == 1:
                txt = ["(%d => %d)" % (r.rng[0], v[0]) for v in vals]
            else:
                txt = [self.lit(sh, v) for v in vals]
            stim.append((r, vals, txt))
            sc.srcs.append(r)
        for _ in range(s.int(1, 3)):
            sh = s.choice(["int", "bit", "bv", "bv", "iv", "rec"])
            r = self.declare(sc, sh, s.int(1, 5))
            self.drive(sc, r, s.int(2, 5))
            self.probe(sc, r)
            sc.srcs.append(r)
        body = ["stim: process is begin"]
        for k in range(STEPS):
            for r, vals, txt in stim:
                body.append("  %s <= %s;" % (r.text, txt[k]))
            body.append("  wait for 300 ps; clk <= '1'; wait for 100 ps; clk <= '0'; wait for 600 ps;")
        body.append("  wait; end process;")
        top = ["use work.p.all;", "entity tb is"]
        if tg:
            top.append("  generic (%s);" % "; ".join("%s : integer := %d" % (n, d) for n, d, _ in tg))
        top += ["end entity;", "architecture a of tb is"] + ["  " + l for l in sc.decl] + ["begin"] + ["  " + l for l in body + sc.stmt] + ["end architecture;"]
        self.units.append("\n".join(top))
        topname = "tb"
        if self.config:
            self.units.append("configuration cfg of tb is for a\n" + "\n".join(self.config) + "\nend for; end configuration;")
            topname = "cfg"
        src = PKG + "\n".join(self.units) + "\n"
        m = Model()
        m.strs = []
        cx = Ctx(m, ":tb", ":tb(a)", {n: (d if o is None else o) for n, d, o in tg}, {})
        self.run(sc, cx)
        exp = []
        for k in range(STEPS):
            for r, vals, txt in stim:
                for c, v in zip(r.bind(cx).cells, vals[k]):
                    c.val = v
            m.settle()
            new = [[t() for t in ts] for o, ts in m.regs]
            for (o, ts), vs in zip(m.regs, new):
                for c, v in zip(o.cells, vs):
                    c.val = v
            m.settle()
            lines = []
            for nm, o, inst in m.probes:
                l = nm + " " + o.text()
                if o.shape in ("bv", "iv"):
                    l += " %d %d" % (o.left, o.right())
                if inst:
                    l += " " + inst
                lines.append(l.lower())
            if k == 0:
                lines += [x for x in m.strs]
            exp.append(sorted(lines))
        return {"std": self.std, "src": src, "top": topname, "over": [[n, o] for n, d, o in tg if o is not None], "exp": exp,
                "size": [self.stats, len(m.probes), m.scopes]}


Ent.done = False


def gen(s, index):
    g = Gen(s)
    c = g.build()
    c["cfg"] = s.sample(["jit", "interp", "nocollapse", "saved", "aot"], 2)
    return c


def outputs(env, case, cfg):
    d = env.dir()
    open(os.path.join(d, "t.vhd"), "w").write(case["src"])
    b = [env.nvc, "--std=" + case["std"], "--messages=compact", "-L", env.lib]
    go = ["-g%s=%d" % (n, v) for n, v in case["over"]]
    top = case["top"]
    a = ["-a", "t.vhd"]
    if cfg == "saved":
        for st in (a, ["-e"] + go + [top], ["-r", "--stop-time=4 ns", top]):
            r = nvc.run(b + st, d, {}, 40)
            if r.rc != 0:
                break
    else:
        e = ["-e"] + ({"aot": ["--no-save"] if False else [], "jit": ["--jit", "--no-save"], "interp": ["--jit", "--no-save"], "nocollapse": ["--jit", "--no-save", "--no-collapse"]}[cfg])
        x = {"NVC_JIT_THRESHOLD": "0"} if cfg == "interp" else {"NVC_JIT_THRESHOLD": "1"} if cfg == "jit" else {}
        r = nvc.run(b + a + e + go + [top, "-r", "--stop-time=4 ns", top], d, x, 40)
    out = r.out + r.err
    got = [[] for _ in range(STEPS)]
    other = []
    for l in out.splitlines():
        m = re.match(r"^t\.vhd:\d+:(?:\d+:)? note: (\d+)ps\+\d+: (?:Report Note: )?(.*)$", l)
        if m:
            k = (int(m.group(1)) - 500) // 1000
            if 0 <= k < STEPS:
                got[k].append(m.group(2))
        else:
            other.append(l)
    if r.rc != 0 or r.timeout or r.crashed:
        raise pbt.Fail("%s: exit status %d: %s" % (cfg, r.rc, " | ".join(other)[:300]), sig="rc:" + re.sub(r"\d+", "N", " ".join(other))[:80], detail=case["src"] + out)
    return [sorted(g) for g in got], out


def check(case, env):
    st = case["size"]
    if st[0] >= 2 and st[1] >= 6:
        env.mark(case["src"])
    env.label("std:" + case["std"], "top:" + case["top"])
    for w in ("block", "generic map", "component ", " => open", "case ", "rint", "myint'", "elsif", "buffer"):
        if w in case["src"].split("end package body;")[1]:
            env.label("has:" + w.strip())
    for i, cfg in enumerate(case["cfg"]):
        env.label("cfg:" + cfg)
        got, out = outputs(env, case, cfg)
        for k in range(STEPS):
            if got[k] != case["exp"][k]:
                e, g = set(case["exp"][k]), set(got[k])
                raise pbt.Fail("%s: at step %d expected %s, got %s" % (cfg, k, sorted(e - g)[:3], sorted(g - e)[:3]), sig="values", detail=case["src"] + out)


PINNED = []

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
