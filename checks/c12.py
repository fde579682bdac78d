"""C12: coverage counters against a counting interpreter, merging and selection of coverage databases."""
import os, re, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import pbt, nvc
from vp.pbt import Fail, Skip

PID = "C12"
CASES = {"quick": 500, "thorough": 12000}
RULE = ("one coverage item whose count the model predicts; non-trivial if the count is above one; distinct by case, item and count")
TECHNIQUE = ("property-based testing: generated designs with labelled statements, conditions, case choices, loops, subprograms, partially "
             "driven vectors, ports and state signals are executed by a counting model in Python, and the exported XML of the coverage "
             "database (also after merging several databases, with pragmas and specification files) must show the same counts")
NOTE = ("labelled sequential statements; expression bins of short-circuit operators are bounded by the lazy and the eager reading where the "
        "right operand has no side effect; HTML report not parsed")
ASSUMPTIONS = ["bins of an expression are numbered in post-order of its operators"]
REL = {"=": lambda a, b: a == b, "/=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
BINS = {"and": ["01", "10", "11"], "nand": ["01", "10", "11"], "or": ["00", "01", "10"], "nor": ["00", "01", "10"],
        "xor": ["00", "01", "10", "11"], "xnor": ["00", "01", "10", "11"]}
LIMIT = 2147483647
SLV = "UX01ZWLH-"


class Exit(Exception):
    pass


class Next(Exception):
    pass


class Return(Exception):
    pass


class G:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.lines = []
        self.labels = set()
        self.funcs = []
        self.procs = []
        self.choiceloc = []
        self.steps = 0

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---- expressions -------------------------------------------------
    def intx(self, vs, depth=2):
        s = self.s
        k = s.weighted([(4, "v"), (2, "c"), (2 if depth else 0, "b")])
        if k == "v":
            return ("v", s.choice(vs))
        if k == "c":
            return ("c", s.int(0, 6))
        return ("b", s.choice("+-"), self.intx(vs, depth - 1), self.intx(vs, depth - 1))

    def boolx(self, vs, depth=2, calls=True):
        s = self.s
        k = s.weighted([(5, "rel"), (1, "b"), (5 if depth else 0, "log"), (1 if depth else 0, "not"), (2 if calls and self.funcs else 0, "call")])
        if k == "rel":
            # operands that cannot be folded to a constant
            a = s.choice([v for v in vs if v[0] != "i"])
            b = s.choice([v for v in vs if v != a])
            r = s.weighted([(2, ("c", s.int(0, 6))), (2, ("v", b)), (1, ("b", s.choice("+-"), ("v", b), ("c", s.int(1, 6))))])
            return ("rel", s.choice(sorted(REL)), ("v", a), r)
        if k == "b":
            return ("v", s.choice(["b0", "b1"]))
        if k == "log":
            a, b = self.boolx(vs, depth - 1, calls), self.boolx(vs, depth - 1, calls)
            if a == b:
                b = ("v", "b1" if a == ("v", "b0") else "b0")    # equal operands are folded
            return ("log", s.choice(sorted(BINS)), a, b)
        if k == "not":
            return ("not", self.boolx(vs, depth - 1, calls))
        return ("call", s.choice(self.funcs), self.intx(vs, 1))

    def text(self, x):
        k = x[0]
        if k in ("v",):
            return x[1]
        if k == "c":
            return str(x[1])
        if k in ("b", "rel", "log"):
            return "(%s %s %s)" % (self.text(x[2]), x[1], self.text(x[3]))
        if k == "not":
            return "(not %s)" % self.text(x[1])
        return "%s(%s)" % (x[1]["name"], self.text(x[2]))

    # ---- statements --------------------------------------------------
    def stmts(self, vs, depth, loops, infunc, n):
        return [self.stmt(vs, depth, loops, infunc) for _ in range(n)]

    def stmt(self, vs, depth, loops, infunc):
        s = self.s
        k = s.weighted([(5, "assign"), (3, "bassign"), (4 if depth else 0, "if"), (3 if depth else 0, "case"), (2 if depth else 0, "while"),
                        (2 if depth else 0, "for"), (1 if depth else 0, "loop"), (3 if loops else 0, "exit"), (3 if loops else 0, "next"),
                        (1 if not infunc else 0, "wait"), (1, "assert"), (2 if self.procs and not infunc else 0, "pcall"), (1 if infunc else 0, "return")])
        l = self.name("s")
        st = {"k": k, "l": l}
        self.labels.add(k)
        w = [v for v in vs if v[0] == "v"]
        if k == "assign":
            st["v"], st["x"] = s.choice(w), self.intx(vs, 2)
        elif k == "bassign":
            st["v"], st["x"] = s.choice(["b0", "b1"]), self.boolx(vs, 3)
        elif k == "if":
            st["br"] = [(self.boolx(vs), self.stmts(vs, depth - 1, loops, infunc, s.int(1, 2))) for _ in range(s.int(1, 3))]
            st["else"] = self.stmts(vs, depth - 1, loops, infunc, s.int(1, 2)) if s.bool() else None
        elif k == "case":
            pts = list(range(-2, 9))
            s.shuffle(pts)
            alts = []
            for _ in range(s.int(1, 3)):
                ch = []
                for _ in range(s.int(1, 3)):
                    if pts:
                        a = pts.pop()
                        b = a
                        if s.bool(0.3):
                            while b + 1 in pts:
                                b += 1
                                pts.remove(b)
                        ch.append((a, b))
                if ch:
                    alts.append((ch, self.stmts(vs, depth - 1, loops, infunc, s.int(0, 2))))
            alts.append((None, self.stmts(vs, depth - 1, loops, infunc, s.int(0, 2))))
            st["x"], st["alts"] = ("b", s.choice("+-"), ("v", s.choice(w)), ("c", s.int(0, 3)) if s.bool() else ("v", s.choice(w))), alts
        elif k in ("while", "for", "loop"):
            lab = l
            if k == "while":
                c = self.cnt(infunc)
                x = ("rel", "<", ("v", c), ("c", s.int(1, 4)))
                st["c"] = c
                if s.bool(0.6):
                    x = ("log", "and", x, self.boolx(vs, 1))
                st["x"] = x
            elif k == "for":
                st["v"] = self.name("i")
                st["a"], st["b"] = ("c", s.int(0, 3)), (("c", s.int(1, 5)) if s.bool(0.7) else ("v", s.choice(w)))
                st["down"] = s.bool(0.2)
                if st["b"][0] == "c" and (st["a"][1] > st["b"][1]) != st["down"] and st["a"][1] != st["b"][1]:
                    st["a"], st["b"] = st["b"], st["a"]      # a loop with a static null range has no items
            else:
                c = self.cnt(infunc)
                st["c"], st["n"] = c, s.int(1, 4)
            vs2 = vs + [st["v"]] if k == "for" else vs
            st["body"] = self.stmts(vs2, depth - 1, loops + [lab], infunc, s.int(1, 3))
        elif k in ("exit", "next"):
            st["to"] = s.choice(loops) if s.bool(0.4) else loops[-1]
            st["named"] = st["to"] != loops[-1] or s.bool(0.3)
            st["x"] = self.boolx(vs) if s.bool(0.85) else None
        elif k == "wait":
            st["ns"] = s.choice([0, 1, 1, 2])
        elif k == "assert":
            st["x"] = self.boolx(vs, 1)
        elif k == "pcall":
            st["p"], st["x"] = s.choice(self.procs), self.intx(vs, 1)
        elif k == "return":
            st["c"], st["x"] = self.boolx(vs, 1), self.boolx(vs, 2)
        return st

    def cnt(self, infunc):
        c = self.name("c")
        self.cnts.append(c)
        return c

    def subprogram(self, isfunc):
        s = self.s
        f = {"name": self.name("f" if isfunc else "q"), "func": isfunc}
        self.cnts = []
        vs = ["x", "v0", "v1"]
        f["body"] = self.stmts(vs, 2, [], True, s.int(1, 4))
        if isfunc:
            f["ret"] = {"k": "ret", "l": self.name("s"), "x": self.boolx(vs, 2)}
        f["cnts"] = self.cnts
        return f

    # ---- emission ----------------------------------------------------
    def out(self, ind, t):
        self.lines.append("  " * ind + t)

    def emit(self, ss, ind):
        s = self.s
        for st in ss:
            off = s.bool(0.04)
            if off:
                self.labels.add("pragma")
                self.out(0, "-- coverage off")
            self.emit1(st, ind)
            if off:
                self.out(0, "-- coverage on")
        if not ss:
            self.out(ind, "null;")

    def emit1(self, st, ind):
        k, l, T = st["k"], st["l"], self.text
        if k == "while":
            self.out(ind, "%s := 0;" % st["c"])
        if k == "loop":
            self.out(ind, "%s := 0;" % st["c"])
        st["line"] = len(self.lines) + 1
        if k == "assign":
            self.out(ind, "%s: %s := (%s) mod 11;" % (l, st["v"], T(st["x"])))
        elif k == "bassign":
            self.out(ind, "%s: %s := %s;" % (l, st["v"], T(st["x"])))
        elif k == "if":
            st["lines"] = []
            for i, (x, b) in enumerate(st["br"]):
                st["lines"].append(len(self.lines) + 1)
                self.out(ind, "%s %s then" % ("elsif" if i else l + ": if", T(x)))
                self.emit(b, ind + 1)
            if st["else"] is not None:
                self.out(ind, "else")
                self.emit(st["else"], ind + 1)
            self.out(ind, "end if;")
        elif k == "case":
            self.out(ind, "%s: case %s is" % (l, T(st["x"])))
            st["lines"] = []
            for ch, b in st["alts"]:
                st["lines"].append(len(self.lines) + 1)
                self.out(ind, "when %s =>" % ("others" if ch is None else " | ".join("%d" % a if a == b2 else "%d to %d" % (a, b2) for a, b2 in ch)))
                self.emit(b, ind + 1)
            self.out(ind, "end case;")
        elif k == "while":
            self.out(ind, "%s: while %s loop" % (l, T(st["x"])))
            self.out(ind + 1, "%s := %s + 1;" % (st["c"], st["c"]))
            self.emit(st["body"], ind + 1)
            self.out(ind, "end loop;")
        elif k == "for":
            self.out(ind, "%s: for %s in %s %s %s loop" % (l, st["v"], T(st["a"]), "downto" if st["down"] else "to", T(st["b"])))
            self.emit(st["body"], ind + 1)
            self.out(ind, "end loop;")
        elif k == "loop":
            self.out(ind, "%s: loop" % l)
            self.out(ind + 1, "exit when %s >= %d;" % (st["c"], st["n"]))
            self.out(ind + 1, "%s := %s + 1;" % (st["c"], st["c"]))
            self.emit(st["body"], ind + 1)
            self.out(ind, "end loop;")
        elif k in ("exit", "next"):
            self.out(ind, "%s: %s%s%s;" % (l, k, " " + st["to"] if st["named"] else "", " when " + T(st["x"]) if st["x"] else ""))
        elif k == "wait":
            self.out(ind, "%s: wait for %d ns;" % (l, st["ns"]))
        elif k == "assert":
            self.out(ind, '%s: assert %s report "A" severity note;' % (l, T(st["x"])))
        elif k == "pcall":
            self.out(ind, "%s: %s(%s);" % (l, st["p"]["name"], T(st["x"])))
        elif k == "return":
            # conditional, so that the statements after it are reached
            st["iline"] = len(self.lines) + 1
            self.out(ind, "%s: if %s then" % (l + "i", T(st["c"])))
            st["line"] = len(self.lines) + 1
            self.out(ind + 1, "%s: return%s;" % (l, " " + T(st["x"]) if self.infunc else ""))
            self.out(ind, "end if;")
        elif k == "ret":
            self.out(ind, "%s: return %s;" % (l, T(st["x"])))

    # ---- execution ---------------------------------------------------
    def hit(self, key, line, n=1):
        """n: (lo, hi) increments"""
        if any(a <= line <= b for a, b in self.offs):
            self.absent.add(key)
            return
        lo, hi = n if isinstance(n, tuple) else (n, n)
        e = self.cov.setdefault(key, [0, 0])
        e[0] += lo
        e[1] += hi

    def ints(self, x, env):
        k = x[0]
        if k == "v":
            return env[x[1]] if x[1] in env else self.glob[x[1]]
        if k == "c":
            return x[1]
        a, b = self.ints(x[2], env), self.ints(x[3], env)
        return a + b if x[1] == "+" else a - b

    def pure(self, x):
        k = x[0]
        if k == "call":
            return False
        if k in ("v", "c", "b", "rel"):
            return True
        return all(self.pure(y) for y in x[1:] if isinstance(y, tuple))

    def ev(self, x, env, ctx, mode=(1, 1), reg=False):
        """Evaluate; ctx: [scope, line, next number]; mode: certain/possible evaluation; reg: register only."""
        k = x[0]
        if k == "v":
            return None if reg else self.ints(x, env)
        add = lambda name, hit: self.hit("%s._E%d.%s" % (ctx[0], self.num(ctx), name), ctx[1], (mode[0] * hit, mode[1] * hit) if hit else 0)
        if k == "call":
            if reg:
                return None
            a = self.ints(x[2], env)
            return self.call(x[1], a)
        if k == "rel":
            r = None if reg else REL[x[1]](self.ints(x[2], env), self.ints(x[3], env))
            add("BIN_FALSE", r is False)
            add("BIN_TRUE", r is True)
            return r
        if k == "not":
            v = self.ev(x[1], env, ctx, mode, reg)
            r = None if reg else not v
            add("BIN_FALSE", r is False)
            add("BIN_TRUE", r is True)
            return r
        op = x[1]
        a = self.ev(x[2], env, ctx, mode, reg)
        m2, reg2 = mode, reg
        lazy = op in ("and", "or", "nand", "nor")
        stop = False
        if lazy and not reg:
            stop = (a is False) if op in ("and", "nand") else (a is True)
            if stop:
                if self.pure(x[3]):
                    m2 = (0, mode[1])
                else:
                    reg2 = True
        b = self.ev(x[3], env, ctx, m2, reg2)
        for bn in BINS[op]:
            h = not reg and not reg2 and (a, b) == (bn[0] == "1", bn[1] == "1")
            self.hit("%s._E%d.BIN_%s_%s" % (ctx[0], self.num(ctx), bn[0], bn[1]), ctx[1], m2 if h else 0)
        if reg:
            return None
        if op in ("and", "nand"):
            r = bool(a) and (False if stop else bool(b))
        elif op in ("or", "nor"):
            r = bool(a) or (False if stop else bool(b))
        else:
            r = a != b
        return (not r) if op in ("nand", "nor", "xnor") else r

    def num(self, ctx):
        ctx[2] += 1
        return ctx[2] - 1

    def call(self, f, a):
        env = {"x": a}
        for c in f["cnts"]:
            env[c] = 0
        pre = "WORK.TB." + f["name"].upper()
        self.depth += 1
        if self.depth > 50:
            raise Skip("recursion")
        try:
            self.run(f["body"], env, pre)
            r = None
            if f["func"]:
                st = f["ret"]
                h = pre + "." + st["l"].upper()
                self.hit(h, st["line"])
                r = self.ev(st["x"], env, [h, st["line"], 0])
        except Return as e:
            r = e.args[0]
        finally:
            self.depth -= 1
        return r

    def run(self, ss, env, pre):
        for st in ss:
            self.steps += 1
            if self.steps > 60000:
                raise Skip("too many steps")
            self.run1(st, env, pre)

    def run1(self, st, env, pre):
        k = st["k"]
        line = st["line"]
        h = pre + "." + st["l"].upper()
        if k == "return":
            hi = pre + "." + st["l"].upper() + "I"
            self.hit(hi, st["iline"])
            c = self.ev(st["c"], env, [hi + "._B0", st["iline"], 0])
            self.hit(hi + "._B0.BIN_TRUE", st["iline"], int(c))
            self.hit(hi + "._B0.BIN_FALSE", st["iline"], int(not c))
            if c:
                h = hi + "._B0." + st["l"].upper()
                self.hit(h, line)
                r = self.ev(st["x"], env, [h, line, 0]) if self.isfunc_stmt(st) else None
                raise Return(r)
            return
        self.hit(h, line)
        tgt = lambda v: env if v in env else self.glob
        if k == "assign":
            v = self.ints(st["x"], env) % 11
            tgt(st["v"])[st["v"]] = v
        elif k == "bassign":
            v = self.ev(st["x"], env, [h, line, 0])
            tgt(st["v"])[st["v"]] = v
        elif k == "if":
            for i, (x, b) in enumerate(st["br"]):
                sc = "%s._B%d" % (h, i)
                v = self.ev(x, env, [sc, st["lines"][i], 0])
                self.hit(sc + ".BIN_TRUE", st["lines"][i], int(v))
                self.hit(sc + ".BIN_FALSE", st["lines"][i], int(not v))
                if v:
                    self.run(b, env, sc)
                    return
            if st["else"] is not None:
                self.run(st["else"], env, "%s._B%d" % (h, len(st["br"])))
        elif k == "case":
            v = self.ints(st["x"], env)
            for (ch, b), ln in zip(st["alts"], st["lines"]):
                if ch is None or any(p <= v <= q for p, q in ch):
                    self.hit("%s@%d" % (h, ln), ln)
                    self.run(b, env, h)
                    return
        elif k == "while":
            env[st["c"]] = 0
            while True:
                v = self.ev(st["x"], env, [h, line, 0])
                self.hit(h + ".BIN_TRUE", line, int(v))
                self.hit(h + ".BIN_FALSE", line, int(not v))
                if not v:
                    break
                env[st["c"]] += 1
                try:
                    self.run(st["body"], env, h)
                except Exit as e:
                    if e.args[0] == st["l"]:
                        break
                    raise
                except Next as e:
                    if e.args[0] != st["l"]:
                        raise
        elif k == "for":
            a, b = self.ints(st["a"], env), self.ints(st["b"], env)
            for i in (range(a, b - 1, -1) if st["down"] else range(a, b + 1)):
                env[st["v"]] = i
                try:
                    self.run(st["body"], env, h)
                except Exit as e:
                    if e.args[0] == st["l"]:
                        break
                    raise
                except Next as e:
                    if e.args[0] != st["l"]:
                        raise
        elif k == "loop":
            env[st["c"]] = 0
            while env[st["c"]] < st["n"]:
                env[st["c"]] += 1
                try:
                    self.run(st["body"], env, h)
                except Exit as e:
                    if e.args[0] == st["l"]:
                        break
                    raise
                except Next as e:
                    if e.args[0] != st["l"]:
                        raise
        elif k in ("exit", "next"):
            v = True
            if st["x"]:
                v = self.ev(st["x"], env, [h, line, 0])
                self.hit(h + ".BIN_TRUE", line, int(v))
                self.hit(h + ".BIN_FALSE", line, int(not v))
            if v:
                raise (Exit if k == "exit" else Next)(st["to"])
        elif k == "wait":
            self.time += st["ns"]
        elif k == "assert":
            if not self.ev(st["x"], env, [h, line, 0]):
                self.notes += 1
        elif k == "pcall":
            self.call(st["p"], self.ints(st["x"], env))

    def isfunc_stmt(self, st):
        return st["inf"]

    def walk(self, ss, pre):
        """Register every item with count zero."""
        for st in ss:
            k, line = st["k"], st.get("line")
            h = pre + "." + st["l"].upper()
            if k == "return":
                hi = h + "I"
                self.hit(hi, st["iline"], 0)
                self.ev(st["c"], {}, [hi + "._B0", st["iline"], 0], reg=True)
                self.hit(hi + "._B0.BIN_TRUE", st["iline"], 0)
                self.hit(hi + "._B0.BIN_FALSE", st["iline"], 0)
                h = hi + "._B0." + st["l"].upper()
                self.hit(h, line, 0)
                if st["inf"]:
                    self.ev(st["x"], {}, [h, line, 0], reg=True)
                continue
            self.hit(h, line, 0)
            if k in ("bassign", "while", "exit", "next", "assert", "ret") and st.get("x"):
                self.ev(st["x"], {}, [h, line, 0], reg=True)
            if k in ("while", "exit", "next") and st.get("x"):
                self.hit(h + ".BIN_TRUE", line, 0)
                self.hit(h + ".BIN_FALSE", line, 0)
            if k == "if":
                for i, (x, b) in enumerate(st["br"]):
                    sc = "%s._B%d" % (h, i)
                    self.ev(x, {}, [sc, st["lines"][i], 0], reg=True)
                    self.hit(sc + ".BIN_TRUE", st["lines"][i], 0)
                    self.hit(sc + ".BIN_FALSE", st["lines"][i], 0)
                    self.walk(b, sc)
                if st["else"] is not None:
                    self.walk(st["else"], "%s._B%d" % (h, len(st["br"])))
            elif k == "case":
                for (ch, b), ln in zip(st["alts"], st["lines"]):
                    self.hit("%s@%d" % (h, ln), ln, 0)
                    self.walk(b, h)
            elif k in ("while", "for", "loop"):
                self.walk(st["body"], h)


TGL = {
    "": lambda a, b: {"01": 1, "10": 0}.get(a + b),
    "count-from-undefined": lambda a, b: {"01": 1, "10": 0, "U1": 1, "X1": 1, "U0": 0, "X0": 0}.get(a + b),
    "count-from-to-z": lambda a, b: {"01": 1, "10": 0, "0Z": 1, "Z1": 1, "1Z": 0, "Z0": 0}.get(a + b),
}
TGL["count-from-undefined,count-from-to-z"] = lambda a, b: (lambda x, y: y if x is None else x)(
    TGL["count-from-undefined"](a, b), TGL["count-from-to-z"](a, b))


def gen(s, index):
    g = G(s)
    g.offs = []
    g.infunc = True
    g.glob = {"v0": s.int(0, 5), "v1": s.int(0, 5), "v2": s.int(0, 5), "b0": s.bool(), "b1": s.bool()}
    init = dict(g.glob)
    for i in range(s.int(0, 2)):
        g.funcs.append(g.subprogram(True))
    keep = g.funcs
    for i in range(s.int(0, 1)):
        g.procs.append(g.subprogram(False))
    g.cnts = []
    body = g.stmts(["v0", "v1", "v2"], 3, [], False, s.int(2, 6))
    for c, v in list(zip(g.cnts, [0] * len(g.cnts))):
        pass
    # signals and their drivers
    sigs = []
    for i in range(s.int(1, 3)):
        w = s.weighted([(2, 0), (3, s.int(1, 4)), (2, s.int(5, 20))])
        kind = "sl" if w == 0 else s.choice(["std_logic_vector", "std_ulogic_vector", "unsigned"])
        rng = None
        if w:
            lo = s.int(0, 3)
            rng = (lo, lo + w - 1, 1) if s.bool() else (lo + w - 1, lo, -1)
        iv = "".join(s.choice("01UX0Z") for _ in range(max(w, 1)))
        split = s.bool()
        cut = s.choice([0, max(w, 1)]) if not split or not w else s.int(0, w)
        sigs.append({"n": "g%d" % i, "w": max(w, 1), "kind": "std_logic" if w == 0 else kind, "rng": rng, "iv": iv, "cut": cut, "port": s.bool(0.6), "uninit": s.bool(0.3), "split": bool(split and w)})
        if sigs[-1]["uninit"]:
            sigs[-1]["iv"] = "U" * max(w, 1)
    enum = ["e%d" % i for i in range(s.int(2, 5))]
    es = {"init": s.int(0, len(enum) - 1), "explicit": s.bool()}
    if not es["explicit"]:
        es["init"] = 0
    # two driving processes: lists of steps (assignments, wait)
    alphabet = s.choice(["01", "01", "01Z", "01UXZWLH-"])
    drv = []
    for p in range(2):
        steps = []
        for k in range(s.int(1, 10)):
            asg = []
            for sg in sigs:
                part = range(0, sg["cut"]) if p == 0 else range(sg["cut"], sg["w"])
                if not len(part):
                    continue
                if k == 0 or s.bool(0.6):
                    if s.bool(0.5) or k == 0 or not sg["split"]:
                        asg.append((sg["n"], list(part), "".join(s.choice(alphabet) for _ in part)))
                    else:
                        asg.append((sg["n"], [s.choice(list(part))], s.choice(alphabet)))
            if p == 1 and s.bool(0.6):
                asg.append(("es", None, s.int(0, len(enum) - 1)))
            steps.append((asg, s.choice([0, 0, 1, 1, 1])))
        drv.append(steps)
    opt = s.weighted([(5, ""), (2, "count-from-undefined"), (2, "count-from-to-z"), (1, "count-from-undefined,count-from-to-z")])
    spec = s.weighted([(5, None), (1, "subs"), (1, "notu1"), (1, "tbonly")])

    # ---- text
    o = g.out
    o(0, "library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;")
    for i, sg in enumerate(sigs):
        if sg["port"]:
            t = "std_logic" if sg["rng"] is None else "%s(%d %s %d)" % (sg["kind"], sg["rng"][0], "to" if sg["rng"][2] > 0 else "downto", sg["rng"][1])
            sg["t"] = t
            o(0, "library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;")
            o(0, "entity sub%d is port (pi : in %s; po : out %s); end entity;" % (i, t, t))
            o(0, "architecture a of sub%d is begin" % i)
            sg["sline"] = len(g.lines) + 2
            o(0, "  po <= pi;")
            o(1, "w : process (pi) is variable q : boolean; begin sx : q := not q; end process;")
            o(0, "end architecture;")
    o(0, "library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;")
    o(0, "entity tb is generic (seed : integer := 0); end entity;")
    o(0, "architecture a of tb is")
    for sg in sigs:
        t = "std_logic" if sg["rng"] is None else "%s(%d %s %d)" % (sg["kind"], sg["rng"][0], "to" if sg["rng"][2] > 0 else "downto", sg["rng"][1])
        q = "'%s'" if sg["rng"] is None else '"%s"'
        o(1, "signal %s%s : %s%s;" % (sg["n"], "", t, "" if sg["uninit"] else " := " + q % sg["iv"]))
        if sg["port"]:
            o(1, "signal o%s : %s;" % (sg["n"], t))
    o(1, "type e_t is (%s);" % ", ".join(enum))
    o(1, "signal es : e_t%s;" % (" := " + enum[es["init"]] if es["explicit"] else ""))
    o(1, "shared variable v0 : integer := %d + seed; shared variable v1 : integer := %d;" % (init["v0"], init["v1"]))
    o(1, "shared variable v2 : integer := %d; shared variable b0 : boolean := %s; shared variable b1 : boolean := %s;" % (init["v2"], init["b0"], init["b1"]))
    for f in g.funcs + g.procs:
        o(1, "%s %s(x : integer)%s is" % ("impure function" if f["func"] else "procedure", f["name"], " return boolean" if f["func"] else ""))
        for c in f["cnts"]:
            o(2, "variable %s : integer := 0;" % c)
        o(1, "begin")
        g.infunc = f["func"]
        mark(f["body"], f["func"])
        g.emit(f["body"], 2)
        if f["func"]:
            g.emit1(f["ret"], 2)
        o(1, "end;")
    o(0, "begin")
    for i, sg in enumerate(sigs):
        if sg["port"]:
            o(1, "u%d : entity work.sub%d port map (%s, o%s);" % (i, i, sg["n"], sg["n"]))
    o(1, "p1 : process")
    for c in g.cnts:
        o(2, "variable %s : integer := 0;" % c)
    o(1, "begin")
    mark(body, False)
    rep = {"k": "for", "l": "rpt", "v": "rp", "a": ("c", 1), "b": ("c", s.int(1, 4)), "down": False, "body": body}
    g.emit([rep], 2)
    o(2, 'report "end " & integer\'image(v0) & " " & integer\'image(v1) & " " & integer\'image(v2) & " " & boolean\'image(b0) & " " & boolean\'image(b1);')
    o(2, "wait;")
    o(1, "end process;")
    idx = lambda sg, i: sg["rng"][0] + i * sg["rng"][2]
    for p in range(2):
        o(1, "d%d : process is begin" % p)
        o(2, "null;")
        for asg, w in drv[p]:
            for n, part, v in asg:
                if n == "es":
                    o(2, "es <= %s;" % enum[v])
                    continue
                sg = next(x for x in sigs if x["n"] == n)
                if sg["rng"] is None:
                    o(2, "%s <= '%s';" % (n, v))
                elif len(part) == 1:
                    o(2, "%s(%d) <= '%s';" % (n, idx(sg, part[0]), v))
                else:
                    o(2, '%s(%d %s %d) <= "%s";' % (n, idx(sg, part[0]), "to" if sg["rng"][2] > 0 else "downto", idx(sg, part[-1]), v))
            o(2, "wait for %d ns;" % w)
        o(2, "wait;")
        o(1, "end process;")
    o(0, "end architecture;")

    state = True
    for n, t in enumerate(g.lines, 1):
        if t == "-- coverage off" and state:
            g.offs.append([n, 10 ** 9])
            state = False
        elif t == "-- coverage on" and not state:
            g.offs[-1][1] = n
            state = True

    # ---- model runs, one per value of the generic
    runs = []
    seeds = [0] if s.bool(0.6) else [s.int(0, 4) for _ in range(s.int(2, 3))]
    for sd in seeds:
        g.cov, g.absent, g.time, g.notes, g.depth, g.steps = {}, set(), 0, 0, 0, 0
        g.glob = dict(init)
        g.glob["v0"] += sd
        for f in g.funcs + g.procs:
            pre = "WORK.TB." + f["name"].upper()
            # subprograms never called are not compiled
            g.walk(f["body"], pre)
            if f["func"]:
                g.walk([f["ret"]], pre)
        g.walk([rep], "WORK.TB.P1")
        env = {c: 0 for c in g.cnts}
        g.run([rep], env, "WORK.TB.P1")
        end = "end %d %d %d %s %s" % (g.glob["v0"], g.glob["v1"], g.glob["v2"], str(g.glob["b0"]).lower(), str(g.glob["b1"]).lower())
        signals(g, sigs, drv, es, enum, opt)
        cov = {k: v for k, v in g.cov.items()}
        runs.append({"seed": sd, "cov": cov, "absent": sorted(g.absent), "end": end, "notes": g.notes})
    called = {k: None for k in ()}
    engine = s.weighted([(2, "interp"), (4, "jit"), (1, "mixed")] + ([(2, "aot1")] if index % 5 == 0 else []))
    order = list(range(len(seeds)))
    s.shuffle(order)
    many = len(seeds) > 1 and s.bool(0.15)
    return {"src": "\n".join(g.lines) + "\n", "runs": runs, "opt": opt, "spec": spec, "engine": engine, "labels": sorted(g.labels), "order": order,
            "sat": many, "subs": [f["name"].upper() for f in g.funcs + g.procs], "ports": [i for i, sg in enumerate(sigs) if sg["port"]]}


def mark(ss, inf):
    for st in ss:
        st["inf"] = inf
        for x, b in st.get("br", []):
            mark(b, inf)
        mark(st.get("else") or [], inf)
        for x, b in st.get("alts", []):
            mark(b, inf)
        mark(st.get("body", []), inf)


def signals(g, sigs, drv, es, enum, opt):
    """Toggle and state counts: merge the two step lists by (time, delta)."""
    ev = []     # (time, delta, assignments): assignments take effect in the next delta
    for steps in drv:
        t, d = 0, 0
        for asg, w in steps:
            ev.append((t, d + 1, asg))
            if w:
                t, d = t + w, 0
            else:
                d += 1
    ev.sort(key=lambda x: x[:2])
    val = {sg["n"]: list(sg["iv"]) for sg in sigs}
    st = es["init"]
    tg = TGL[opt]
    for sg in sigs:
        for i in range(sg["w"]):
            suf = "" if sg["rng"] is None else "(%d)" % (sg["rng"][0] + i * sg["rng"][2])
            for pre in names(sg, sigs):
                g.hit(pre + suf + ".BIN_0_TO_1", 0, 0)
                g.hit(pre + suf + ".BIN_1_TO_0", 0, 0)
        if sg["port"]:
            k = sigs.index(sg)
            g.hit("WORK.TB.U%d.W.SX" % k, 0, 1)
            # the output starts at 'U' and takes the value of the input in the first delta
            for i in range(sg["w"]):
                suf = "" if sg["rng"] is None else "(%d)" % (sg["rng"][0] + i * sg["rng"][2])
                r = tg("U", sg["iv"][i]) if sg["iv"][i] != "U" else None
                if r is not None:
                    for pre in onames(sg, sigs):
                        g.hit(pre + suf + (".BIN_0_TO_1" if r else ".BIN_1_TO_0"), 0, 1)
    for e in enum:
        g.hit("WORK.TB.ES.BIN_STATE." + e.upper(), 0, 0)
    g.hit("WORK.TB.ES.BIN_STATE." + enum[st].upper(), 0, 1)
    i = 0
    events = {sg["n"]: sg["w"] for sg in sigs}
    while i < len(ev):
        j = i
        changed = set()
        while j < len(ev) and ev[j][:2] == ev[i][:2]:
            new = {}
            for n, part, v in ev[j][2]:
                if n == "es":
                    new["es"] = v
                else:
                    for p, c in zip(part, v):
                        new[n, p] = c
            for kk, c in new.items():
                if kk == "es":
                    if c != st:
                        st = c
                        g.hit("WORK.TB.ES.BIN_STATE." + enum[st].upper(), 0, 1)
                    continue
                n, p = kk
                if val[n][p] != c:
                    changed.add(n)
                    events[n] += 1
                    sg = next(x for x in sigs if x["n"] == n)
                    suf = "" if sg["rng"] is None else "(%d)" % (sg["rng"][0] + p * sg["rng"][2])
                    r = tg(val[n][p], c)
                    if r is not None:
                        for pre in names(sg, sigs):
                            g.hit(pre + suf + (".BIN_0_TO_1" if r else ".BIN_1_TO_0"), 0, 1)
                    val[n][p] = c
            j += 1
        for n in changed:
            k = next(x for x, sg in enumerate(sigs) if sg["n"] == n)
            if sigs[k]["port"]:
                g.hit("WORK.TB.U%d.W.SX" % k, 0, 1)
        i = j
    # K12-split: bits of a signal whose parts are driven separately are counted again when another part changes
    for sg in sigs:
        if sg["split"]:
            for pre in names(sg, sigs):
                for k in g.cov:
                    if (k.startswith(pre + "(") or k.startswith(pre + ".BIN")) and g.cov[k][0]:
                        g.cov[k][1] += events[sg["n"]]


def names(sg, sigs):
    """Hierarchical names with the values of this signal."""
    k = sigs.index(sg)
    r = ["WORK.TB." + sg["n"].upper()]
    if sg["port"]:
        r += ["WORK.TB.U%d.PI" % k] + onames(sg, sigs)
    return r


def onames(sg, sigs):
    k = sigs.index(sg)
    return ["WORK.TB.U%d.PO" % k, "WORK.TB.O" + sg["n"].upper()]


def export(env, d, db):
    r = nvc.run([env.nvc, "--cover-export", "--format=xml", "-o", db + ".xml", db], d)
    if r.rc or r.crashed or r.timeout:
        raise Fail("--cover-export failed: %s" % r.err[:300], "export")
    try:
        root = ET.parse(os.path.join(d, db + ".xml")).getroot()
    except ET.ParseError as e:
        raise Fail("the exported XML is not well formed: %s" % e, "xml")
    got = {}

    def walk(e, path, line):
        for c in e:
            if c.tag == "scope":
                p = (path + "." if path else "") + c.get("name")
                walk(c, p, c.get("line") or line)
            else:
                h, n = c.get("hier"), int(c.get("data"))
                if h.endswith("BIN_CHOICE") or "_B_OTHERS" in h or h.endswith("BIN_OTHERS"):
                    h = "%s@%s" % (re.sub(r"\._B[^.]*\.BIN.*$", "", h), line)
                got.setdefault(h, []).append(n)
    walk(root, "", None)
    return got


def compare(env, case, got, exp, absent, what, sel):
    for k in sorted(exp):
        lo, hi = exp[k]
        f = k.split(".")[2].split("(")[0] if k.count(".") >= 2 else ""
        if not sel(k):
            if k in got:
                raise Fail("%s: %s is covered although the specification excludes it" % (what, k), "spec-extra")
            continue
        if k not in got:
            if f in case["subs"] and hi == 0:
                continue        # a subprogram that is never called is not compiled
            raise Fail("%s: no item %s (expected count %s)" % (what, k, lo), "missing")
        n = sum(got[k])
        if not lo <= n <= hi and not (hi == LIMIT and n > hi and "@" in k):
            kind = re.sub(r"[0-9]+", "", k.split(".")[-1].split("@")[0])
            raise Fail("%s: %s counted %d times, expected %s" % (what, k, n, lo if lo == hi else "%d to %d" % (lo, hi)), "count-" + kind, case["src"])
        env.count(1)
        if lo > 1:
            env.mark("%s %s %d" % (what, k, lo))
    for k in absent:
        if k in got and k not in exp:
            raise Fail("%s: %s is covered although a pragma excludes it" % (what, k), "pragma")


def check(case, env):
    d = env.dir()
    env.label(case["engine"], case["opt"] or "toggle01", "spec-%s" % case["spec"], *case["labels"])
    with open(os.path.join(d, "spec.txt"), "w") as f:
        f.write({None: "", "subs": "+block SUB*\n", "notu1": "-hierarchy WORK.TB.U1*\n+hierarchy WORK.TB*\n", "tbonly": "-block SUB*\n+block TB\n"}[case["spec"]])
    sel = {None: lambda k: True, "subs": lambda k: re.match(r"WORK\.TB\.U\d", k), "notu1": lambda k: not k.startswith("WORK.TB.U1"),
           "tbonly": lambda k: not re.match(r"WORK\.TB\.U\d", k)}[case["spec"]]
    for i, run in enumerate(case["runs"]):
        cov = ["--cover=%s" % ",".join(x for x in ("all", case["opt"]) if x), "--cover-file=c%d.db" % i] if True else []
        if case["spec"]:
            cov.append("--cover-spec=spec.txt")
        r = nvc.sim(env, d, case["src"], std="2008", engine=case["engine"], aopts=["--relaxed"], eopts=cov + ["-gseed=%d" % run["seed"]], gopts=["--messages=compact"])
        if r.timeout:
            raise Fail("timeout", "timeout")
        if r.crashed or r.rc:
            raise Fail("nvc failed with coverage: rc=%s %s" % (r.rc, r.err[-400:]), "crash", case["src"])
        txt = r.out + r.err
        if txt.count(": A\n") != run["notes"] or run["end"] not in txt:
            raise Fail("coverage changed the simulation: expected %d notes and '%s', got %d and %s" % (
                run["notes"], run["end"], txt.count(": A\n"), re.findall(r"end [-\d].*", txt)), "simulation", case["src"])
        compare(env, case, export(env, d, "c%d.db" % i), run["cov"], run["absent"], "run %d" % i, sel)
    if len(case["runs"]) > 1:
        dbs = ["c%d.db" % i for i in case["order"]]
        r = nvc.run([env.nvc, "--cover-merge", "-o", "m.db"] + dbs, d)
        if r.rc or r.crashed or r.timeout:
            raise Fail("--cover-merge failed: %s" % r.err[:300], "merge-crash")
        exp = {}
        for run in case["runs"]:
            for k, (lo, hi) in run["cov"].items():
                e = exp.setdefault(k, [0, 0])
                e[0] += lo
                e[1] += hi
        compare(env, case, export(env, d, "m.db"), exp, set(), "merged", sel)
        env.label("merge")
        if case["sat"]:
            env.label("saturate")
            f, src = 1, "m.db"
            for step in range(5):
                r = nvc.run([env.nvc, "--cover-merge", "-o", "m%d.db" % step] + [src] * 64, d)
                if r.rc or r.crashed:
                    raise Fail("--cover-merge failed: %s" % r.err[:300], "merge-crash")
                f, src = f * 64, "m%d.db" % step
                exp2 = {k: [min(LIMIT, lo * f), min(LIMIT, hi * f)] for k, (lo, hi) in exp.items()}
                compare(env, case, export(env, d, src), exp2, set(), "merged %d times" % f, sel)


SPLIT = """library ieee; use ieee.std_logic_1164.all;
entity tb is generic (seed : integer := 0); end entity;
architecture a of tb is
  signal g0 : std_logic_vector(1 downto 0) := "00";
begin
  process begin g0(1) <= '1'; wait; end process;
  process begin wait for 1 ns; g0(0) <= '1'; wait for 1 ns; g0(0) <= '0'; report "end"; wait; end process;
end architecture;
"""
PINNED = [{"id": "K12-split", "case": {"src": SPLIT, "runs": [{"seed": 0, "cov": {"WORK.TB.G0(1).BIN_0_TO_1": [1, 1]}, "absent": [], "end": "end", "notes": 0}],
                                       "opt": "", "spec": None, "engine": "jit", "labels": ["pinned"], "order": [0], "sat": False, "subs": [], "ports": []}}]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
