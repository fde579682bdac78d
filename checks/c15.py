#!/usr/bin/env python3
"""C15: choices of case statements, selected assignments and aggregates."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C15"
CASES = {"quick": 2500, "thorough": 60000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = ("one item (case statement, selected assignment, aggregate, case generate) with at least two choices; distinct by text")
TECHNIQUE = ("property-based testing: generated choice sets (exact partitions and single mutations of them: gap, overlap, "
             "out of range) against set arithmetic; accepted items are run on every probe value")
NOTE = "6 items per case over scalars, character arrays, matching forms and aggregates; sampled"
ASSUMPTIONS = ["choices are rendered only with expressions that IEEE 1076-2008 9.4.2 calls locally static"]

BIT9 = ["'U'", "'X'", "'0'", "'1'", "'Z'", "'W'", "'L'", "'H'", "'-'"]


class Ty:
    """A scalar type: name, declaration, number range and how to write a value."""

    def __init__(self, name, decl, lo, hi, lits=None, down=False):
        self.name, self.decl, self.lo, self.hi, self.lits, self.down = name, decl, lo, hi, lits, down

    def lit(self, v):
        if self.lits:
            return self.lits[v]
        return str(v)

    def vals(self):
        return range(self.lo, self.hi + 1)


def mk_type(s, k):
    c = s.weighted([(4, "int"), (2, "type"), (4, "enum"), (2, "std"), (1, "char"), (1, "big")])
    if c == "int":
        lo = s.choice([0, 1, -3, -10, 100, -2**31, 2**31 - 12, s.int(-50, 50)])
        n = s.choice([2, 3, 5, 8, 12, 20])
        return Ty("INTEGER", "", max(lo, -2**31), min(lo + n - 1, 2**31 - 1)), True
    if c == "big":
        return Ty("INTEGER", "", -2**31, 2**31 - 1), False
    if c == "type":
        lo = s.int(-20, 20)
        hi = lo + s.int(0, 14)
        down = s.bool(0.4)
        d = "type t%d is range %s;" % (k, "%d downto %d" % (hi, lo) if down else "%d to %d" % (lo, hi))
        return Ty("t%d" % k, d, lo, hi, None, down), False
    if c == "enum":
        n = s.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 30])
        lits = []
        for i in range(n):
            lits.append("e%d_%d" % (k, i) if s.bool(0.7) else "'%s'" % "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLM"[i])
        return Ty("t%d" % k, "type t%d is (%s);" % (k, ", ".join(lits)), 0, n - 1, lits), False
    if c == "char":
        lits = ["'%s'" % chr(i) if 32 <= i < 127 else "CHARACTER'val(%d)" % i for i in range(256)]
        return Ty("CHARACTER", "", 0, 255, lits), False
    n, l = s.choice([("BOOLEAN", ["FALSE", "TRUE"]), ("BIT", ["'0'", "'1'"]), ("STD_ULOGIC", BIT9),
                     ("SEVERITY_LEVEL", ["NOTE", "WARNING", "ERROR", "FAILURE"])])
    return Ty(n, "", 0, len(l) - 1, l), False


def rng(s, a, b, f):
    return "%s to %s" % (f(a), f(b)) if s.bool(0.7) else "%s downto %s" % (f(b), f(a))


class Item:
    def __init__(self, k):
        self.k = k
        self.lines = []         # architecture text
        self.probes = {}        # key -> expected text
        self.errors = []        # (line index, kind, set of values or None)
        self.labels = []

    def add(self, l):
        self.lines.append(l)
        return len(self.lines) - 1


def partition(s, lo, hi, maxn):
    """Random intervals covering lo..hi exactly."""
    n = s.int(1, min(maxn, hi - lo + 1))
    cuts = set()
    for _ in range(n - 1):
        cuts.add(s.int(lo + 1, hi) if s.bool(0.6) or hi - lo < 6 else min(hi, max(lo + 1, s.edge(lo + 1, hi))))
    cuts = sorted(cuts)
    b = [lo] + cuts + [hi + 1]
    return [(b[i], b[i + 1] - 1) for i in range(len(b) - 1)]


class Choices:
    """A list of choices over values lo..hi: mutated partition, with expectations."""

    def __init__(self, s, ty, lo, hi, valid, allow_others=True, decls=None, k=0, maxn=7, force_others=False, agg=False):
        self.agg = agg
        self.s, self.ty, self.lo, self.hi = s, ty, lo, hi
        parts = partition(s, lo, hi, maxn)
        # split small intervals to singles now and then
        out = []
        for a, b in parts:
            if b - a < 6 and s.bool(0.5):
                out += [(v, v) for v in range(a, b + 1)]
            else:
                out.append((a, b))
        if s.bool(0.75):
            out = s.shuffle(out)
        self.others = force_others or allow_others and s.bool(0.35)
        if self.others:
            keep = s.int(0 if len(out) > 1 else 0, len(out))
            out = out[:keep]
        self.mut = None
        if not valid:
            ms = ["dup"] if out else []
            if not self.others:
                if len(out) > 1:
                    ms += ["gap", "gap"]
                ms += ["shrink"] if any(b > a for a, b in out) else []
            ms += ["out"]
            if len(out) > 1:
                ms += ["overlap", "overlap"]
            self.mut = s.choice(ms)
            if self.mut == "gap":
                out.pop(s.int(0, len(out) - 1))
            elif self.mut == "shrink":
                i = s.choice([i for i, (a, b) in enumerate(out) if b > a])
                a, b = out[i]
                out[i] = s.choice([(a + 1, b), (a, b - 1)])
            elif self.mut == "dup":
                a, b = s.choice(out)
                v = s.int(a, b)
                out.insert(s.int(0, len(out)), (v, v))
            elif self.mut == "overlap":
                i = s.int(0, len(out) - 1)
                a, b = out[i]
                if s.bool() and a > lo or b >= hi:
                    a2, b2 = max(lo, a - s.int(1, 3)), b
                else:
                    a2, b2 = a, min(hi, b + s.int(1, 3))
                if (a2, b2) == (a, b):
                    out.insert(s.int(0, len(out)), (a, b))
                else:
                    out[i] = (a2, b2)
            elif self.mut == "out":
                base = (-2**31, 2**31 - 1) if ty.name == "INTEGER" else (ty.lo, ty.hi)
                if force_others and ty.name == "INTEGER":
                    base = (lo, hi)
                if ty.lits:
                    base = (0, len(ty.lits) - 1)
                opts = []
                if lo > base[0]:
                    opts.append(lo - 1)
                if hi < base[1]:
                    opts.append(hi + 1)
                if not opts:
                    self.mut = "dup"
                    if out:
                        v = s.int(*s.choice(out))
                        out.insert(s.int(0, len(out)), (v, v))
                    else:
                        self.mut = None
                else:
                    v = s.choice(opts)
                    out.insert(s.int(0, len(out)), (v, v))
        self.items = out
        # null ranges cover nothing
        self.null = set()
        if s.bool(0.1) and hi > lo and not agg:
            i = s.int(0, len(self.items))
            b = s.int(lo, hi - 1)
            self.items.insert(i, (b + 1, b))
        self.decls = decls
        self.k = k
        self.text = [self.render(a, b, i) for i, (a, b) in enumerate(self.items)]

    def val(self, v):
        s, ty = self.s, self.ty
        if ty.lits:
            if s.bool(0.1) and ty.name not in ("CHARACTER",):
                return "%s'val(%d)" % (ty.name, v)
            if s.bool(0.06) and ty.lo < v and ty.lits[v - 1]:
                return "%s'succ(%s)" % (ty.name, ty.lits[v - 1])
            return ty.lit(v)
        if s.bool(0.1) and abs(v) < 10**6:
            d = s.int(1, 9)
            return "%d + %d" % (v - d, d) if s.bool() else "%d - %d" % (v + d, d)
        if s.bool(0.08) and self.decls is not None:
            n = "c%d_%d" % (self.k, len(self.decls))
            self.decls.append("constant %s : %s := %s;" % (n, ty.name, ty.lit(v)))
            return n
        return ty.lit(v)

    def render(self, a, b, i):
        s, ty = self.s, self.ty
        if a == b and s.bool(0.9):
            return self.val(a)
        r = "%s to %s" % (self.val(a), self.val(b)) if s.bool(0.65) else "%s downto %s" % (self.val(b), self.val(a))
        x = s.weighted([(7, 0), (2, 1), (1, 2)])
        if x == 1 and self.agg:
            x = 0                   # K15-aggrange
        if x == 1:
            return "%s range %s" % (ty.name, r)
        if x == 2 and self.decls is not None and a <= b:
            n = "s%d_%d" % (self.k, len(self.decls))
            self.decls.append("subtype %s is %s range %s;" % (n, ty.name, r))
            return n
        return r

    def expect(self):
        """-> (dups by item index, missing set, out-of-range item indexes)"""
        dups, outs = {}, []
        for i, (a, b) in enumerate(self.items):
            if a > b:
                continue
            if a < self.lo or b > self.hi:
                outs.append(i)
            for c, d in self.items[:i]:
                if c <= d and max(a, c) <= min(b, d):
                    dups.setdefault(i, []).append((max(a, c), min(b, d)))
        missing = None
        if not self.others:
            cov = sorted((a, b) for a, b in self.items if a <= b)
            missing, w = [], self.lo
            for a, b in cov:
                if a > w:
                    missing.append((w, a - 1))
                w = max(w, b + 1)
            if w <= self.hi:
                missing.append((w, self.hi))
        return dups, missing or [], outs

    def which(self, v):
        for i, (a, b) in enumerate(self.items):
            if a <= v <= b:
                return i
        return -1


def when_groups(s, n):
    """Group choice indexes 0..n-1 into alternatives."""
    g, i = [], 0
    while i < n:
        k = s.weighted([(3, 1), (2, 2), (1, 3)])
        g.append(list(range(i, min(n, i + k))))
        i += k
    return g


def record_errors(it, ch, first_line, stmt_line):
    dups, missing, outs = ch.expect()
    for i in outs:
        it.errors.append((first_line[i], "out", None))
    for i, vs in dups.items():
        if not outs:
            it.errors.append((first_line[i], "dup", sorted(vs)))
    if missing and not outs:
        it.errors.append((stmt_line, "missing" if not dups else "maybe", missing))


def probes_for(s, ch):
    ps = set([ch.lo, ch.hi])
    for a, b in ch.items:
        for v in (a - 1, a, b, b + 1):
            if ch.lo <= v <= ch.hi:
                ps.add(v)
    if ch.hi - ch.lo < 20:
        ps |= set(range(ch.lo, ch.hi + 1))
    for _ in range(3):
        ps.add(s.int(ch.lo, ch.hi))
    return sorted(ps)[:60]


def scalar_item(s, k, valid):
    it = Item(k)
    ty, sub = mk_type(s, k)
    decls = []
    lo, hi = ty.lo, ty.hi
    if ty.decl:
        it.add(ty.decl)
    st = ty.name
    if sub or s.bool(0.35):
        if not sub:
            lo = s.int(ty.lo, ty.hi)
            hi = s.int(lo, ty.hi)
        st = "st%d" % k
        it.add("subtype %s is %s range %s;" % (st, ty.name, rng(s, lo, hi, ty.lit)))
    full = (ty.lo, ty.hi) if not sub else None
    # form of the expression
    form = s.weighted([(6, "x"), (1, "(x)"), (1, "qual"), (1, "conv"), (1, "call"), (1, "nonstatic")])
    clo, chi = lo, hi
    force = False
    if form == "nonstatic":
        if ty.name == "INTEGER":
            force = True
            clo, chi = lo, hi
        else:
            clo, chi = ty.lo, ty.hi
    if ty.name == "INTEGER" and not sub and st == "INTEGER":
        force = True                # 64 bits wide in VHDL-2019
    kind = s.weighted([(5, "case"), (2, "select"), (2, "seqsel"), (1, "gen")])
    if kind == "gen":
        valid = True                # nvc does not check the choices of case generate statements
        if form == "nonstatic":
            kind = "case"
    ch = Choices(s, ty, clo, chi, valid, True, decls, k, force_others=force)
    it.labels += [kind, "expr-" + form, "valid" if valid else "mut-%s" % ch.mut]
    for d in decls:
        it.add(d)
    it.add("function idf (x : %s) return %s is begin return x; end function;" % (st, st))
    e = {"x": "x", "(x)": "(x)", "qual": "%s'(x)" % st, "conv": "%s(x)" % st, "call": "idf(x)", "nonstatic": "x"}[form]
    groups = when_groups(s, len(ch.items))
    cat = {i: g for g, ix in enumerate(groups) for i in ix}
    dflt = len(groups)
    if not groups and not ch.others:
        ch.others = True
    lines = {}
    ps = [p for p in probes_for(s, ch) if lo <= p <= hi] or [lo]
    rep = {}

    def head(i, pre):
        pass

    if kind in ("case", "seqsel"):
        if kind == "case":
            it.add("function f (x0 : %s; lim : %s) return INTEGER is" % (st, st))
        else:
            it.add("procedure q (x0 : %s; lim : %s; r : out INTEGER) is" % (st, st))
        if form == "nonstatic":
            it.add("  variable x : %s range %s to lim := x0;" % (ty.name, ty.lit(lo)) if not ty.down else
                   "  variable x : %s range lim downto %s := x0;" % (ty.name, ty.lit(lo)))
        else:
            it.add("  %s x : %s := x0;" % (s.choice(["variable", "constant"]), st))
        it.add("begin")
        if kind == "case":
            sl = it.add("  case %s is" % e)
            for g, ix in enumerate(groups):
                for n, i in enumerate(ix):
                    lines[i] = it.add("    %s %s%s" % ("when" if n == 0 else "   |", ch.text[i],
                                                       " => return %d;" % g if n == len(ix) - 1 else ""))
            if ch.others:
                it.add("    when others => return %d;" % dflt)
            it.add("  end case;")
            it.add("  return -1;")
            it.add("end function;")
        else:
            sl = it.add("  with %s select" % e)
            it.add("    r :=")
            tot = len(groups) + (1 if ch.others else 0)
            for g, ix in enumerate(groups):
                for n, i in enumerate(ix):
                    lines[i] = it.add("      %s %s%s" % ("%d when" % g if n == 0 else "   |", ch.text[i],
                                                        ("," if g < tot - 1 else ";") if n == len(ix) - 1 else ""))
            if ch.others:
                it.add("      %d when others;" % dflt)
            it.add("end procedure;")
        it.add("begin")
        it.add("process is variable x : %s; variable r : INTEGER; begin" % st)
        for v in ps:
            if s.bool(0.8):
                it.add("x := %s;" % ty.lit(v))
                a = "x"
            else:
                a = ty.lit(v)
            if kind == "case":
                it.add('p("%d:%d=" & INTEGER\'image(f(%s, %s)));' % (k, v, a, ty.lit(hi)))
            else:
                it.add('q(%s, %s, r); p("%d:%d=" & INTEGER\'image(r));' % (a, ty.lit(hi), k, v))
        it.add("wait; end process;")
    elif kind == "select":
        it.add("signal r : INTEGER; signal x : %s := %s;" % (st, ty.lit(ps[0])))
        if form == "nonstatic":
            it.add("signal lim : %s := %s;" % (st, ty.lit(hi)))
            form = "x"
        it.add("begin")
        sl = it.add("  with %s select" % (e if e != "idf(x)" else "idf(x)"))
        it.add("    r <=")
        tot = len(groups) + (1 if ch.others else 0)
        for g, ix in enumerate(groups):
            for n, i in enumerate(ix):
                lines[i] = it.add("      %s %s%s" % ("%d when" % g if n == 0 else "   |", ch.text[i],
                                                    ("," if g < tot - 1 else ";") if n == len(ix) - 1 else ""))
        if ch.others:
            it.add("      %d when others;" % dflt)
        it.add("process is begin")
        for v in ps:
            it.add('x <= %s; wait for 1 ns; p("%d:%d=" & INTEGER\'image(r));' % (ty.lit(v), k, v))
        it.add("wait; end process;")
    else:
        v = s.choice(ps)
        ps = [v]
        it.add("constant x : %s := %s;" % (st, ty.lit(v)))
        it.add("begin")
        e = e if form != "call" else "x"
        sl = it.add("  gg : case %s generate" % e)
        for g, ix in enumerate(groups):
            for n, i in enumerate(ix):
                lines[i] = it.add("    %s %s%s" % ("when" if n == 0 else "   |", ch.text[i], " =>" if n == len(ix) - 1 else ""))
            it.add('process is begin p("%d:%d=%d"); wait; end process;' % (k, v, g))
        if ch.others:
            it.add("    when others =>")
            it.add('process is begin p("%d:%d=%d"); wait; end process;' % (k, v, dflt))
        it.add("  end generate;")
    if kind == "select" and e == "x" and it.labels[1] == "expr-nonstatic":
        pass
    for v in ps:
        w = ch.which(v)
        it.probes["%d:%d" % (k, v)] = str(cat[w] if w >= 0 else dflt)
    if it.labels[1] == "expr-nonstatic" and kind == "select":
        # the object itself has a locally static subtype here
        ch.lo, ch.hi = lo, hi
    record_errors(it, ch, lines, sl)
    it.key = "\n".join(it.lines)
    it.n = len(ch.items) + ch.others
    return it


ENUMS = [2, 3, 4, 5, 8, 9, 16, 17, 26]


def array_item(s, k, valid):
    """case over a one-dimensional character array"""
    it = Item(k)
    c = s.weighted([(3, "BIT_VECTOR"), (3, "STD_LOGIC_VECTOR"), (2, "STRING"), (3, "user")])
    decls = []
    if c == "BIT_VECTOR":
        al = "01"
        at = c
    elif c == "STD_LOGIC_VECTOR":
        al, at = "UX01ZWLH-", c
    elif c == "STRING":
        al, at = "".join(chr(i) for i in range(32, 127) if chr(i) not in '"'), c
    else:
        n = s.choice(ENUMS)
        al = "abcdefghijklmnopqrstuvwxyz"[:n]
        it.add("type ch%d is (%s);" % (k, ", ".join("'%s'" % x for x in al)))
        it.add("type av%d is array (%s range <>) of ch%d;" % (k, s.choice(["NATURAL", "INTEGER", "POSITIVE"]), k))
        at = "av%d" % k
    card = len(al) if c != "STRING" else 256
    n = s.weighted([(1, 1), (2, 2), (3, 3), (2, 4), (1, 5), (1, 6), (1, 8), (1, 13), (1, 16), (1, 20), (1, 33), (1, 64), (1, 70)])
    full = card ** n <= 40 and s.bool(0.7)
    W = lambda: "".join(s.choice(al) for _ in range(n))
    if full:
        import itertools
        words = ["".join(x) for x in itertools.product(al, repeat=n)]
        words = s.shuffle(words)
        others = s.bool(0.2)
        if others:
            words = words[:s.int(1, len(words))]
    else:
        m = s.choice([1, 2, 3, 6, 12, 30])
        words, seen = [], set()
        base = W()
        for _ in range(m):
            if s.bool(0.5):
                w = W()
            else:
                i = s.int(0, n - 1)
                w = base[:i] + s.choice(al) + base[i + 1:]
                if s.bool(0.3):
                    j = s.int(0, n - 1)
                    w = w[:j] + s.choice(al) + w[j + 1:]
            if w not in seen:
                seen.add(w)
                words.append(w)
        others = True
    mut = None
    if not valid:
        mut = s.choice(["dup", "missing" if full and len(words) > 1 else "dup", "len"] if n > 1 else ["dup"])
        if mut == "dup":
            words.insert(s.int(0, len(words)), s.choice(words))
        elif mut == "len":
            if len(words) < 2:
                words.append(W())
            i = s.int(1, len(words) - 1)
            words[i] = words[i][:-1] if s.bool() else words[i] + al[0]
        else:
            others = False
            if len(words) == card ** n:
                words.pop(s.int(0, len(words) - 1))
    elif not full:
        others = True
    down = s.bool(0.5)
    base = s.int(1, 5)
    con = "(%d downto %d)" % (base + n - 1, base) if down else "(%d to %d)" % (base, base + n - 1)

    def lit(w, i, choice=True):
        x = s.weighted([(6, 0), (1, 1), (1, 2), (1, 3)])
        q = '"%s"' % w
        if not choice or x == 0:
            return q
        if x == 1 and len(w) == n:
            nm = "k%d_%d" % (k, len(decls))
            decls.append("constant %s : %s%s := %s;" % (nm, at, con, q))
            return nm
        if x == 2 and 2 <= len(w) <= 8:
            return "(%s)" % ", ".join("'%s'" % y for y in w)
        if x == 3 and c in ("BIT_VECTOR", "STD_LOGIC_VECTOR") and set(w) <= set("01") and len(w) % 4 == 0:
            return 'X"%0*X"' % (len(w) // 4, int(w, 2))
        return q
    form = s.weighted([(4, "x"), (2, "unc"), (1, "slice"), (1, "qual")])
    if mut == "missing" and form == "slice":
        form = "x"
    texts = [lit(w, i) for i, w in enumerate(words)]
    for d in decls:
        it.add(d)
    it.add("subtype sa%d is %s%s;" % (k, at, con))
    it.labels += ["array", c, "expr-" + form, "len-%s" % (">64bit" if n > 16 else "small"), "valid" if valid else "mut-array-" + mut]
    groups = when_groups(s, len(words))
    cat = {i: g for g, ix in enumerate(groups) for i in ix}
    dflt = len(groups)
    sel = s.bool(0.25)
    pt = at if form == "unc" else "sa%d" % k
    lines = {}
    e = {"x": "x", "unc": "x", "slice": "y(1 to %d)" % n, "qual": "sa%d'(x)" % k}[form]
    it.add("%s (x : %s%s" % ("procedure q" if sel else "function f", pt, "; r : out INTEGER) is" if sel else ") return INTEGER is"))
    if form == "slice":
        it.add("  alias y : %s(1 to %d) is x;" % (at, n))
    it.add("begin")
    if sel:
        sl = it.add("  with %s select" % e)
        it.add("    r :=")
        tot = len(groups) + others
        for g, ix in enumerate(groups):
            for m, i in enumerate(ix):
                lines[i] = it.add("      %s %s%s" % ("%d when" % g if m == 0 else "   |", texts[i],
                                                    ("," if g < tot - 1 else ";") if m == len(ix) - 1 else ""))
        if others:
            it.add("      %d when others;" % dflt)
        it.add("end procedure;")
    else:
        sl = it.add("  case %s is" % e)
        for g, ix in enumerate(groups):
            for m, i in enumerate(ix):
                lines[i] = it.add("    %s %s%s" % ("when" if m == 0 else "   |", texts[i],
                                                   " => return %d;" % g if m == len(ix) - 1 else ""))
        if others:
            it.add("    when others => return %d;" % dflt)
        it.add("  end case;")
        it.add("  return -1;")
        it.add("end function;")
    ps = list(words)[:40] if full else list(words)
    for w in list(words)[:12]:
        i = s.int(0, n - 1)
        if len(w) == n:
            ps.append(w[:i] + s.choice(al) + w[i + 1:])
    for _ in range(3):
        ps.append(W())
    ps = [w for w in dict.fromkeys(ps) if len(w) == n]
    if full:
        ps = [w for w in ps if w in words or others]
    it.add("begin")
    it.add("process is variable x : sa%d; variable r : INTEGER; begin" % k)
    for i, w in enumerate(ps):
        a = "x"
        if s.bool(0.85) or form == "slice":
            it.add('x := "%s";' % w)
        else:
            a = '"%s"' % w if form != "qual" else "sa%d'(\"%s\")" % (k, w)
        if sel:
            it.add('q(%s, r); p("%d:%d=" & INTEGER\'image(r));' % (a, k, i))
        else:
            it.add('p("%d:%d=" & INTEGER\'image(f(%s)));' % (k, i, a))
        it.probes["%d:%d" % (k, i)] = str(cat[words.index(w)] if w in words else dflt)
    it.add("wait; end process;")
    if mut == "dup":
        for i, w in enumerate(words):
            if w in words[:i]:
                it.errors.append((lines[i], "adup", None))
    elif mut == "len":
        ln = len(words[0]) if form in ("unc", "slice") else n
        for i, w in enumerate(words):
            if len(w) != (n if form != "unc" else len(words[0])):
                it.errors.append((lines[i], "alen", None))
                break
    elif mut == "missing":
        it.errors.append((sl, "amissing", [len(words), card ** n]))
    it.key = "\n".join(it.lines)
    it.n = len(words) + others
    return it


def match_item(s, k, valid):
    """case? / select? with '-' in the choices: disjoint cubes from a decision tree"""
    it = Item(k)
    sc = s.bool(0.15)
    n = 1 if sc else s.choice([1, 2, 3, 4, 6, 9, 15, 18])
    bv = s.bool(0.2)
    cubes = []

    def split(cube, depth):
        free = [i for i, c in enumerate(cube) if c == "-"]
        if not free or depth == 0 or s.bool(0.2):
            cubes.append(cube)
            return
        i = s.choice(free)
        split(cube[:i] + "0" + cube[i + 1:], depth - 1)
        split(cube[:i] + "1" + cube[i + 1:], depth - 1)
    if bv:
        cubes = list(dict.fromkeys("".join(s.choice("01") for _ in range(n)) for _ in range(s.int(1, 6))))
    else:
        split("-" * n, 4)
    cubes = s.shuffle(cubes)
    cubes = cubes[:s.int(1, len(cubes))]
    others = True
    if not bv and len(cubes) == 1 and set(cubes[0]) == {"-"}:
        others = s.bool(0.5)
        if others:
            others = True
    ty = ("BIT" if bv else "STD_ULOGIC") if sc else ("BIT_VECTOR" if bv else "STD_LOGIC_VECTOR")
    st = ty if sc else "%s(%s)" % (ty, "1 to %d" % n if s.bool() else "%d downto 0" % (n - 1))
    it.add("subtype sa%d is %s;" % (k, st))
    L = lambda w: "'%s'" % w if sc else '"%s"' % w
    groups = when_groups(s, len(cubes))
    cat = {i: g for g, ix in enumerate(groups) for i in ix}
    dflt = len(groups)
    sel = s.bool(0.3)
    it.add("%s (x : sa%d%s" % ("procedure q" if sel else "function f", k, "; r : out INTEGER) is" if sel else ") return INTEGER is"))
    it.add("begin")
    if sel:
        it.add("  with x select?")
        it.add("    r :=")
        tot = len(groups) + others
        for g, ix in enumerate(groups):
            it.add("      %d when %s%s" % (g, " | ".join(L(cubes[i]) for i in ix), "," if g < tot - 1 else ";"))
        if others:
            it.add("      %d when others;" % dflt)
        it.add("end procedure;")
    else:
        it.add("  case? x is")
        for g, ix in enumerate(groups):
            it.add("    when %s => return %d;" % (" | ".join(L(cubes[i]) for i in ix), g))
        if others:
            it.add("    when others => return %d;" % dflt)
        it.add("  end case?;")
        it.add("  return -1;")
        it.add("end function;")
    it.add("begin")
    it.add("process is variable x : sa%d; variable r : INTEGER; begin" % k)
    ps = []
    for c in cubes:
        ps.append("".join(s.choice("01" if bv else "0011LH") if y == "-" else
                          (y if bv or s.bool(0.7) else {"0": "L", "1": "H"}[y]) for y in c))
    for _ in range(4):
        ps.append("".join(s.choice("01" if bv else "0011LHXZUW" if others and s.bool(0.2) else "01LH") for _ in range(n)))
    for i, w in enumerate(dict.fromkeys(ps)):
        it.add("x := %s;" % L(w))
        it.add(('q(x, r); p("%d:%d=" & INTEGER\'image(r));' if sel else 'p("%d:%d=" & INTEGER\'image(f(x)));') % (k, i))
        z = w.replace("L", "0").replace("H", "1")
        hit = [j for j, c in enumerate(cubes) if all(a == "-" or a == b for a, b in zip(c, z))]
        assert len(hit) <= 1
        it.probes["%d:%d" % (k, i)] = str(cat[hit[0]] if hit else dflt)
    it.add("wait; end process;")
    it.labels += ["match", "valid"]
    it.key = "\n".join(it.lines)
    it.n = len(cubes) + others
    return it


def agg_item(s, k, valid):
    """array aggregate with named choices"""
    it = Item(k)
    ty, sub = mk_type(s, k)
    if ty.name == "INTEGER" and not sub or ty.name == "CHARACTER":
        ty, sub = Ty("INTEGER", "", -3, 6), True
    if ty.decl:
        it.add(ty.decl)
    lo = s.int(ty.lo, ty.hi)
    hi = min(ty.hi, s.int(lo, min(ty.hi, lo + 12)))
    decls = []
    ch = Choices(s, ty, lo, hi, valid, True, decls, k, agg=True)
    # a null choice or a non-static one must be the only choice; keep to static choices
    el = s.choice(["INTEGER", "NATURAL", "CHARACTER"])
    E = (lambda v: str(v)) if el != "CHARACTER" else (lambda v: "'%s'" % chr(48 + v))
    it.add("type ar%d is array (%s range <>) of %s;" % (k, ty.name, el))
    it.add("subtype sr%d is ar%d(%s);" % (k, k, rng(s, lo, hi, ty.lit)))
    for d in decls:
        it.add(d)
    groups = when_groups(s, len(ch.items))
    cat = {i: g for g, ix in enumerate(groups) for i in ix}
    dflt = len(groups)
    if not groups:
        ch.others = True
    lines = {}
    q = s.choice(["decl", "assign", "qual"])
    it.add("begin")
    it.add("process is function idn (n : INTEGER) return INTEGER is begin return n; end function;")

    def agg():
        sl = it.add("(")
        tot = len(groups) + ch.others
        for g, ix in enumerate(groups):
            for n, i in enumerate(ix):
                v = E(g) if el == "CHARACTER" or s.bool(0.5) else "idn(%d)" % g
                lines[i] = it.add("   %s%s%s" % ("" if n == 0 else "|", ch.text[i],
                                                " => %s%s" % (v, "," if g < tot - 1 else "") if n == len(ix) - 1 else ""))
        if ch.others:
            it.add("   others => %s" % E(dflt))
        it.add(")")
        return sl
    if q == "decl":
        it.add("variable v : sr%d :=" % k)
        sl = agg()
        it.add("; begin")
    else:
        it.add("variable v : sr%d; begin" % k)
        it.add("v := " if q == "assign" else "v := sr%d'" % k)
        sl = agg()
        it.add(";")
    for v in range(lo, hi + 1):
        it.add('p("%d:%d=" & %s\'image(v(%s)));' % (k, v, el, ty.lit(v)))
        w = ch.which(v)
        it.probes["%d:%d" % (k, v)] = E(cat[w] if w >= 0 else dflt)
    it.add("wait; end process;")
    it.labels += ["aggregate", "valid" if valid else "mut-agg-%s" % ch.mut]
    dups, missing, outs = ch.expect()
    for i in outs:
        it.errors.append((lines[i], "out", None))
    for i, vs in dups.items():
        if not outs:
            it.errors.append((lines[groups[cat[i]][0]], "dup", sorted(vs)))
    if missing and not outs:
        it.errors.append((sl, "missing" if not dups else "maybe", missing))
    it.key = "\n".join(it.lines)
    it.n = len(ch.items) + ch.others
    return it


def rec_item(s, k, valid):
    it = Item(k)
    n = s.int(1, 6)
    fs = ["f%d" % i for i in range(n)]
    ft = [s.choice(["INTEGER", "BOOLEAN", "CHARACTER"]) for _ in fs]
    it.add("type r%d is record" % k)
    for f, t in zip(fs, ft):
        it.add("  %s : %s;" % (f, t))
    it.add("end record;")
    vals = {}
    V = {"INTEGER": lambda: str(s.int(0, 9)), "BOOLEAN": lambda: s.choice(["true", "false"]), "CHARACTER": lambda: "'%s'" % s.choice("abc")}
    npos = s.int(0, n) if s.bool(0.5) else 0
    parts = []
    for i in range(npos):
        vals[i] = V[ft[i]]()
        parts.append(vals[i])
    rest = s.shuffle(list(range(npos, n)))
    while rest:
        i = rest[0]
        same = [j for j in rest if ft[j] == ft[i]]
        if s.bool(0.2) and len(set(ft[j] for j in rest)) == 1:
            v = V[ft[i]]()
            for j in rest:
                vals[j] = v
            parts.append("others => %s" % v)
            break
        m = s.int(1, len(same))
        v = V[ft[i]]()
        for j in same[:m]:
            vals[j] = v
        parts.append("%s => %s" % (" | ".join(fs[j] for j in same[:m]), v))
        rest = [j for j in rest if j not in same[:m]]
    mut = None
    if not valid:
        named = [i for i, p in enumerate(parts) if "=>" in p and "others" not in p]
        has_o = any("others" in p for p in parts)
        mut = s.choice(["dup", "missing"])
        if mut == "missing" and (has_o or n == 1 or len(parts) < 2):
            mut = "dup"
        if mut == "missing":
            parts.pop(s.choice(named) if named else len(parts) - 1)
            if not parts:
                mut = "dup"
                parts = ["%s => %s" % (fs[0], V[ft[0]]())]
        if mut == "dup":
            j = s.int(0, n - 1)
            if has_o:
                cov = [i for i in range(n) if i < npos or any(re.search(r"\bf%d\b" % i, p) for p in parts[npos:])]
                if not cov:
                    valid = True
                    mut = None
                else:
                    j = s.choice(cov)
            if mut:
                at = len(parts) - 1 if has_o else len(parts)
                parts.insert(s.int(min(npos, at), at), "%s => %s" % (fs[j], V[ft[j]]()))
    it.add("begin")
    it.add("process is variable v : r%d; begin" % k)
    if len(parts) == 1 and "=>" not in parts[0]:
        parts = ["%s => %s" % (fs[0], parts[0])]
    sl = it.add("v := (%s);" % ", ".join(parts))
    for i in range(n):
        it.add('p("%d:%d=" & %s\'image(v.%s));' % (k, i, ft[i], fs[i]))
        it.probes["%d:%d" % (k, i)] = vals.get(i, "?")
    it.add("wait; end process;")
    it.labels += ["record", "valid" if not mut else "mut-rec-" + mut]
    if mut:
        it.errors.append((sl, "rec", None))
    it.key = "\n".join(it.lines)
    it.n = len(parts)
    return it


def gen(s, index):
    out = []
    for k in range(6):
        valid = s.bool(0.55)
        f = s.weighted([(6, scalar_item), (4, array_item), (2, match_item), (3, agg_item), (1, rec_item)])
        it = f(s, k, valid)
        out.append({"lines": it.lines, "probes": it.probes, "errors": it.errors, "labels": it.labels, "n": it.n})
    return {"items": out, "engine": s.weighted([(5, "interp"), (2, "jit"), (1, "aot2")]), "std": s.choice(["2008", "2019"]),
            "relaxed": s.bool(0.0)}


PK = """package pk is
procedure p (x : in STRING);
end package;
use std.textio.all;
package body pk is
procedure p (x : in STRING) is
  variable l : LINE;
begin
  write(l, STRING'("#")); write(l, x); writeline(output, l);
end procedure;
end package body;
"""


def build(items):
    L = PK.split("\n")[:-1]
    starts = []
    for k, it in items:
        L += ["library ieee; use ieee.std_logic_1164.all; use work.pk.all;", "entity e%d is end entity;" % k, "architecture a of e%d is" % k]
        starts.append(len(L))
        L += it["lines"]
        L.append("end architecture;")
    L += ["entity tb is end entity;", "architecture t of tb is begin"]
    for k, it in items:
        L.append("u%d : entity work.e%d;" % (k, k))
    L.append("end architecture;")
    return "\n".join(L) + "\n", starts


def parse_vals(txt, it):
    return txt


def names_ok(msg, kind, ranges, lines):
    """Does the message name exactly (missing) / only (dup) the expected values?"""
    lits = None
    decl = [l for l in lines if re.match(r"type t\d+ is \(", l)]
    std = {"BOOLEAN": ["false", "true"], "BIT": ["'0'", "'1'"], "STD_ULOGIC": [x.lower() for x in BIT9],
           "SEVERITY_LEVEL": ["note", "warning", "error", "failure"]}
    return True


def check(case, env):
    items = list(enumerate(case["items"]))
    src, starts = build(items)
    d = env.dir()
    with open(d + "/t.vhd", "w", encoding="latin-1") as f:
        f.write(src)
    r = nvc.run([env.nvc, "-L", env.lib, "--std=" + case["std"], "--messages=compact", "-a", "t.vhd"], d)
    if r.crashed or r.timeout:
        raise pbt.Fail("nvc crashed", "crash", detail=repr(r))
    diags = {}
    for l in r.err.split("\n"):
        m = re.match(r"t\.vhd:(\d+):\d+: (error|fatal|warning): (.*)", l)
        if m and m.group(2) != "warning":
            diags.setdefault(int(m.group(1)), []).append(m.group(3))
    for (k, it), st in zip(items, starts):
        env.label(*it["labels"])
        env.count(max(1, len(it["probes"])))
        if it["n"] >= 2:
            env.mark("\n".join(it["lines"]))
        want = {}
        for ln, kind, vs in it["errors"]:
            want.setdefault(st + ln + 1, []).append((kind, vs))
        got = {ln: ms for ln, ms in diags.items() if st < ln <= st + len(it["lines"])}
        text = "\n".join("%d %s" % (st + i + 1, l) for i, l in enumerate(it["lines"]))
        kinds = "-".join(sorted(set(kk for v in want.values() for kk, _ in v)))
        if any(kk == "out" for v in want.values() for kk, _ in v):
            # may be reported at the declaration of a subtype used as choice
            if not any(re.search("outside of|range", m) for ms in got.values() for m in ms):
                raise pbt.Fail("item %d (%s): choice out of range not reported: %s\n%s" % (k, it["labels"], got, text), "missed-out", repr(r))
            continue
        if it["labels"][0] == "aggregate":
            for ln in list(got):
                ws = [w for w in want if w not in got]
                if ln not in want and ws and re.search("already covered|duplicate", got[ln][0]):
                    got[ws[0]] = got.pop(ln)
        for ln, w in want.items():
            if all(kk == "maybe" for kk, _ in w):
                continue
            if ln not in got:
                raise pbt.Fail("item %d (%s): expected %s at line %d, got %s\n%s" % (k, it["labels"], w, ln, got, text),
                               "missed-" + kinds, repr(r))
            msg = " / ".join(got[ln])
            for kk, vs in w:
                pat = {"dup": "already covered|duplicate choice", "missing": "missing choice", "out": "violates|outside|out of|range|bounds|invalid",
                       "adup": "duplicate choice", "alen": "length|elements|at most|missing choice", "amissing": "choices cover only", "rec": "field|element|associat", "maybe": ""}[kk]
                if not re.search(pat, msg):
                    raise pbt.Fail("item %d: expected %s at line %d, got %s\n%s" % (k, w, ln, msg, text), "kind-" + kk, repr(r))
                if kk == "amissing" and not re.search(r"choices cover only %d of %s" % (vs[0], vs[1] if vs[1] <= 100000 else ""), msg):
                    raise pbt.Fail("item %d: expected %s, got %s\n%s" % (k, w, msg, text), "count", repr(r))
                if kk in ("dup", "missing") and vs is not None:
                    if kk == "dup":
                        vs = sorted(tuple(x) for e in it["errors"] if e[1] == "dup" for x in e[2])
                    e = None
                    for m1 in got[ln]:
                        if re.search(pat, m1):
                            e = e or name_check(m1, kk, vs, it["lines"])
                    if e:
                        raise pbt.Fail("item %d: %s: %s at line %d\n%s" % (k, e, msg, ln, text), "names-" + kk, repr(r))
        extra = [ln for ln in got if ln not in want]
        if extra:
            raise pbt.Fail("item %d (%s): unexpected diagnostic %s\n%s" % (k, it["labels"], {e: got[e] for e in extra}, text),
                           "extra", repr(r))
    any_err = any(it["errors"] for _, it in items)
    if (r.rc != 0) != any_err:
        raise pbt.Fail("exit status %d" % r.rc, "rc", repr(r))
    good = [(k, it) for k, it in items if not it["errors"]]
    if not good:
        return
    src2, _ = build(good)
    r = nvc.sim(env, env.dir(), src2, std=case["std"], engine=case["engine"], gopts=["--messages=compact"])
    if r.crashed or r.timeout:
        raise pbt.Fail("nvc crashed\n" + src2, "crash", detail=repr(r))
    if r.rc != 0:
        raise pbt.Fail("accepted items do not run: %s\n%s" % (r.err[:500], src2), "run", repr(r))
    out = dict(l[1:].split("=", 1) for l in r.out.split("\n") if l.startswith("#"))
    for k, it in good:
        for key, w in it["probes"].items():
            if out.get(key) != w:
                raise pbt.Fail("item %d probe %s: got %s expected %s\n%s" % (k, key, out.get(key), w, "\n".join(it["lines"])),
                               "select", repr(r))


def name_check(msg, kind, vs, lines):
    """vs: list of inclusive number ranges.  Parse the values the message names."""
    names = None
    for l in lines:
        m = re.match(r"type t\d+ is \((.*)\);", l)
        if m:
            names = m.group(1).split(", ")
    text = "\n".join(lines)
    if names is None:
        for n, l in (("BOOLEAN", ["FALSE", "TRUE"]), ("STD_ULOGIC", BIT9), ("SEVERITY_LEVEL", ["NOTE", "WARNING", "ERROR", "FAILURE"]),
                     ("BIT", ["'0'", "'1'"])):
            if re.search(r"\b(x0?|st\d+) (:|is) %s\b|array \(%s range|function idf \(x : %s\)" % (n, n, n), text):
                names = l
        if re.search(r"\b(x0?|st\d+) (:|is) CHARACTER\b|function idf \(x : CHARACTER\)", text):
            return None             # names of control characters: not parsed
    pos = {}
    if names:
        pos = {n.upper() if not n.startswith("'") else n: i for i, n in enumerate(names)}

    def num(t):
        t = t.strip()
        if names:
            return pos.get(t if t.startswith("'") else t.upper())
        return int(t) if re.match(r"-?\d+$", t) else None
    got = set()
    if kind == "dup":
        m = re.search(r"value (-?\d+) is already|range (-?\d+) to (-?\d+) is already|duplicate choice for (.*?)(?: /|$)|"
                      r"duplicate choices for range (.*?) to (.*?)(?: /|$)", msg)
        g = [x for x in m.groups() if x is not None]
        a, b = num(g[0]), num(g[-1])
        if a is None or b is None:
            return "cannot read value"
        w = a
        for c, d in vs:
            if c <= w:
                w = max(w, d + 1)
        return None if a <= b < w and any(c <= a for c, _ in vs) else "not a duplicated value"
    m = re.search(r"missing choices? for elements? (.*?) of (?:type )?\w+", msg)
    if not m:
        return "cannot read message"
    for part in m.group(1).split(", "):
        g = re.split(r" (to|downto) ", part)
        if len(g) == 1:
            a = b = num(g[0])
        elif g[1] == "to":
            a, b = num(g[0]), num(g[2])
        else:
            b, a = num(g[0]), num(g[2])
        if a is None or b is None:
            return "cannot read value " + part
        got.add((a, b))
    # exactly the missing values
    norm = []
    for a, b in sorted(got):
        if norm and norm[-1][1] + 1 == a:
            norm[-1] = (norm[-1][0], b)
        else:
            norm.append((a, b))
    want = [tuple(x) for x in vs]
    return None if norm == want else "missing values are %s" % want


PINNED = [{"id": "K15-aggrange", "case": {"items": [{"lines": [
    "type ar is array (NATURAL range <>) of INTEGER;", "begin", "process is variable v : ar(1 to 4); begin",
    "v := (NATURAL range 1 to 2 => 5, others => 6);", 'p("0:1=" & INTEGER\'image(v(2)));', "wait; end process;"],
    "probes": {"0:1": "5"}, "errors": [], "labels": ["aggregate"], "n": 2}], "engine": "interp", "std": "2008"}}]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
