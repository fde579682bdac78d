#!/usr/bin/env python3
"""C06: waveform dumps record exactly the simulated signal history."""
import codecs, hashlib, math, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import build, nvc, pbt

PID = "C06"
CASES = {"quick": 1200, "thorough": 50000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = "one generated design whose dump holds at least 4 variables with 8 value changes; distinct by source and options"
TECHNIQUE = ("model-based property testing: generated hierarchies and signal histories of every dumpable type; the parsed VCD, and the FST "
             "read back, must equal the reference history, names and selection")
NOTE = "up to 12 signals in 5 scopes and 12 time steps; sampled"
ASSUMPTIONS = ["FST files are read with the reader in the tree (thirdparty/fstapi.c)"]
FST2VCD = None
UNITS = {"FS": 1, "PS": 10**3, "NS": 10**6, "US": 10**9, "MS": 10**12, "SEC": 10**15, "MIN": 60 * 10**15, "HR": 3600 * 10**15}


def prepare(built):
    """Compile the FST to VCD printer against the tree's own FST library."""
    global FST2VCD
    tp = os.path.join(build.SRC, "thirdparty")
    me = os.path.join(os.path.dirname(os.path.abspath(nvc.__file__)), "fst2vcd.c")
    h = hashlib.sha1()
    for f in [me] + [os.path.join(tp, x) for x in ("fstapi.c", "fstapi.h", "lz4.c", "fastlz.c")]:
        h.update(open(f, "rb").read())
    FST2VCD = os.path.join(build.BLD, "fst2vcd-" + h.hexdigest()[:16])
    if not os.path.exists(FST2VCD):
        obj = os.path.dirname(os.path.dirname(built["nvc"]))
        tmp = FST2VCD + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-include", os.path.join(obj, "config.h"), "-I", tp, "-I", obj, "-I", os.path.join(build.SRC, "src"), "-o", tmp, me,
                        os.path.join(tp, "fstapi.c"), os.path.join(tp, "lz4.c"), os.path.join(tp, "fastlz.c"), "-lz", "-lpthread"], check=True)
        os.rename(tmp, FST2VCD)


# ---- types: lit(value) gives VHDL text; flat(value, name) -> [(dump path, kind, value)]

class Scalar:
    n = 1
    vec = False

    def __init__(self, name, rnd, lit, kind, init):
        self.name, self.rnd, self.lit, self.kind, self.init = name, rnd, lit, kind, init
        self.decl = ""

    def leaves(self, nm):
        return [((nm,), self.kind)]

    def flat(self, v):
        return [v]

    def paths(self):
        return []


class Vec:
    """One-dimensional array of bit/std_logic/character shown as one variable."""
    vec = True

    def __init__(self, name, elem, l, d, r, kind, decl=""):
        self.name, self.elem, self.l, self.d, self.r, self.kind, self.decl = name, elem, l, d, r, kind, decl
        self.len = max(0, (r - l if d == "to" else l - r) + 1)
        self.idx = [l + i if d == "to" else l - i for i in range(self.len)]

    init = property(lambda s: [s.elem.init] * s.len)

    def rnd(self, s):
        return [self.elem.rnd(s) for _ in range(self.len)]

    def lit(self, v):
        if self.len == 0:
            return '""'
        if self.elem.kind == "char":
            return "(" + ", ".join("%d => %s" % (i, self.elem.lit(x)) for i, x in zip(self.idx, v)) + ")"
        return '"' + "".join(v) + '"'

    def leaves(self, nm):
        return [(("%s[%d:%d]" % (nm, self.l, self.r),), self.kind + str(self.len))]

    def flat(self, v):
        return ["".join(v)]

    def paths(self):
        return [("(%d)" % i, k, self.elem) for k, i in enumerate(self.idx)]


class Arr:
    vec = False
    kind = None

    def __init__(self, name, elem, l, d, r, decl):
        self.name, self.elem, self.l, self.d, self.r, self.decl = name, elem, l, d, r, decl
        self.len = (r - l if d == "to" else l - r) + 1
        self.idx = [l + i if d == "to" else l - i for i in range(self.len)]

    init = property(lambda s: [s.elem.init] * s.len)

    def rnd(self, s):
        return [self.elem.rnd(s) for _ in range(self.len)]

    def lit(self, v):
        return "(" + ", ".join("%d => %s" % (i, self.elem.lit(x)) for i, x in zip(self.idx, v)) + ")"

    def leaves(self, nm):
        return [l for i in self.idx for l in self.elem.leaves("%s[%d]" % (nm, i))]

    def flat(self, v):
        return [y for x in v for y in self.elem.flat(x)]

    def paths(self):
        return [("(%d)" % i, k, self.elem) for k, i in enumerate(self.idx)]


class Rec:
    vec = False
    kind = "rec"

    def __init__(self, name, fields, decl):
        self.name, self.fields, self.decl = name, fields, decl

    init = property(lambda s: [t.init for _, t in s.fields])

    def rnd(self, s):
        return [t.rnd(s) for _, t in self.fields]

    def lit(self, v):
        return "(" + ", ".join("%s => %s" % (n, t.lit(x)) for (n, t), x in zip(self.fields, v)) + ")"

    def leaves(self, nm):
        return [((nm,) + p, k) for n, t in self.fields for p, k in t.leaves(n.lower())]

    def flat(self, v):
        return [y for (n, t), x in zip(self.fields, v) for y in t.flat(x)]

    def paths(self):
        return [("." + n, k, t) for k, (n, t) in enumerate(self.fields)]


def has_arr(t):
    """(contains an array dumped per element at top, longest such array)"""
    if isinstance(t, Arr):
        return True
    if isinstance(t, Rec):
        return any(has_arr(x) for _, x in t.fields)
    return False


NUL = ["nul", "soh", "stx", "etx", "eot", "enq", "ack", "bel", "bs", "ht", "lf", "vt", "ff", "cr", "so", "si", "dle", "dc1", "dc2", "dc3", "dc4",
       "nak", "syn", "etb", "can", "em", "sub", "esc", "fsp", "gsp", "rsp", "usp"]


def charlit(c):
    o = ord(c)
    if o < 32:
        return NUL[o].upper()
    if o == 127:
        return "DEL"
    if 128 <= o < 160:
        return "C%d" % o
    return "'%s'" % c


def chardump(c):
    x = charlit(c)
    return x if x[0] == "'" else x.lower()


def timelit(v):
    for u in ("HR", "MIN", "SEC", "MS", "US", "NS", "PS"):
        if v % UNITS[u] == 0 and v:
            return "%d %s" % (v // UNITS[u], u.lower())
    return "%d fs" % v


class G:
    def __init__(self, s):
        self.s = s
        self.types = []
        self.decls = []
        self.n = 0
        self.base()

    def base(self):
        s = self.s
        ch = lambda cs: (lambda s: s.choice(cs))
        q = lambda v: "'%s'" % v
        self.bit = Scalar("BIT", ch("01"), q, "l1", "0")
        self.sl = Scalar("STD_LOGIC", ch("UX01ZWLH-"), q, "l1", "U")
        self.sul = Scalar("STD_ULOGIC", ch("UX01ZWLH-"), q, "l1", "U")
        self.bool = Scalar("BOOLEAN", ch(["false", "true"]), str, "enum", "false")
        self.char = Scalar("CHARACTER", lambda s: chr(s.weighted([(6, 97 + s.int(0, 5)), (2, 65 + s.int(0, 5)), (3, s.int(0, 255)), (1, s.choice([0, 10, 32, 34, 39, 92, 127, 255]))])),
                           charlit, "char", "\0")
        self.int = Scalar("INTEGER", lambda s: s.weighted([(3, s.int(-9, 99)), (1, s.int(-2**31, 2**31 - 1)), (1, s.choice([-2**31, 2**31 - 1, -1]))]),
                          lambda v: "INTEGER'low" if v == -2**31 else "(%d)" % v, "int", None)
        self.nat = Scalar("NATURAL", lambda s: s.weighted([(3, s.int(0, 20)), (1, s.int(0, 2**31 - 1))]), str, "int", 0)
        self.real = Scalar("REAL", lambda s: s.choice([0.0, 1.5, -2.25, 1.0e10, -1.0e-10, 3.14159, 1.25e300, 0.1, -7.0]), lambda v: "(%s)" % (repr(v) if "." in repr(v) else repr(v).replace("e", ".0e")), "real", None)
        self.time = Scalar("TIME", lambda s: s.choice([0, 1, -1, -616, 10**6, -10**6, 5 * 10**9, 3600 * 10**15, 60 * 10**15, 123456789, s.int(-10**6, 10**6), -(s.int(0, 1000) * 1000 + 616)]), timelit, "phys", None)
        self.pool = [self.bit, self.sl, self.sul, self.bool, self.char, self.int, self.nat, self.real, self.time]
        for _ in range(s.int(1, 5)):
            self.pool.append(self.newtype())

    def tn(self):
        self.n += 1
        return "t%d" % self.n

    def rng(self, nat=False):
        s = self.s
        a, ln = s.choice([0, 0, 1, 3, 7] if nat else [0, 0, 1, 3, -2, 7]), s.choice([1, 2, 2, 3, 4, 8])
        if s.bool():
            return a, "to", a + ln - 1
        return a + ln - 1, "downto", a

    def newtype(self):
        s = self.s
        k = s.weighted([(2, "enum"), (1, "int"), (1, "phys"), (3, "vec"), (3, "arr"), (3, "rec"), (1, "big")])
        nm = self.tn()
        if k == "enum":
            n = s.choice([1, 2, 3, 5])
            lits = ["%s_%s%d" % (nm, s.choice(["aa", "Bb"]), i) for i in range(n)]
            if s.bool(0.4):
                lits += ["'%s'" % c for c in s.sample(list("aAbB10"), s.int(1, 4))]
            if s.bool(0.3):
                lits += ["\\%s Ext\\" % nm, "\\%s eXT\\" % nm]
            d = "type %s is (%s);" % (nm, ", ".join(lits))
            self.decls.append(d)
            return Scalar(nm, lambda s: s.choice(lits), lambda v: "%s'(%s)" % (nm, v), "enum", lits[0])
        if k == "int":
            lo = s.choice([0, 0, -3, -128, 1, -40000])
            hi = lo + s.choice([5, 9, 255, 256, 100000])
            self.decls.append("type %s is range %d to %d;" % (nm, lo, hi))
            return Scalar(nm, lambda s: s.choice([lo, hi, s.int(lo, hi)]), lambda v: "%s'(%d)" % (nm, v), "int", lo)
        if k == "phys":
            m = s.choice([10, 1000, 60])
            lo, hi = s.choice([(-10**6, 10**6), (0, 100), (-100, 100), (-2**31 + 1, 2**31 - 1)])
            self.decls.append("type %s is range %d to %d units %s_a; %s_b = %d %s_a; end units;" % (nm, lo, hi, nm, nm, m, nm))
            x = Scalar(nm, lambda s: s.choice([lo, hi, 0, 1, s.int(lo, hi), max(lo, min(hi, m)), max(lo, -m)]), lambda v: "%d %s_a" % (v, nm), "phys", lo)
            UN = {nm.upper() + "_A": 1, nm.upper() + "_B": m}
            self.units = getattr(self, "units", {})
            self.units.update(UN)
            return x
        if k in ("vec", "big"):
            e = s.choice(["BIT_VECTOR", "STD_LOGIC_VECTOR", "STRING", "UNSIGNED", "SIGNED", "own"])
            if e == "own":
                l, d, r = self.rng()
                el = s.choice([self.bit, self.sl, self.sul])
                self.decls.append("type %s is array (INTEGER range <>) of %s;" % (nm, el.name))
                return Vec("%s(%d %s %d)" % (nm, l, d, r), el, l, d, r, "l")
            l, d, r = self.rng(True)
            if e == "STRING":
                l, d, r = 1, "to", s.choice([1, 2, 5, 9])
                return Vec("STRING(%d to %d)" % (l, r), self.char, l, d, r, "s")
            if k == "big":
                l, d, r = s.choice([31, 63, 64, 127, 300]), "downto", 0
            return Vec("%s(%d %s %d)" % (e, l, d, r), self.bit if e == "BIT_VECTOR" else self.sl, l, d, r, "l")
        if k == "arr":
            # element without records
            es = [t for t in self.pool if not (isinstance(t, Rec) or rec_arr(t))]
            e = s.choice(es)
            l, d, r = self.rng()
            if e.vec and e.len == 0:
                e = self.int
            if not e.vec and e.kind == "l1":
                e = self.real
            self.decls.append("type %s is array (%d %s %d) of %s;" % (nm, l, d, r, e.name))
            return Arr(nm, e, l, d, r, "")
        es = [t for t in self.pool]
        fs = [("f%d" % i if s.bool(0.8) else "Fx%d" % i, s.choice(es)) for i in range(s.int(1, 4))]
        self.decls.append("type %s is record %s end record;" % (nm, " ".join("%s : %s;" % (n, t.name) for n, t in fs)))
        t = Rec(nm, fs, "")
        if s.bool(0.3) and not has_arr(t):
            nm2 = self.tn()
            l, d, r = self.rng()
            self.decls.append("type %s is array (%d %s %d) of %s;" % (nm2, l, d, r, nm))
            return Arr(nm2, t, l, d, r, "")
        return t


def rec_arr(t):
    return isinstance(t, Arr) and (isinstance(t.elem, Rec) or rec_arr(t.elem))


class Scope:
    def __init__(self, name, path, parent):
        self.name, self.path, self.parent, self.kids = name, path, parent, []
        self.sigs = []          # Sig declared here (ports included)
        self.text = []


class Sig:
    def __init__(self, name, t, scope, drv=True):
        self.name, self.t, self.scope, self.drv = name, t, scope, drv
        self.val = t.init
        self.hist = []          # (time, flat values)
        self.alias = None


def initval(t, s):
    """Explicit initial value keeps the types with a large minimum readable."""
    return t.rnd(s)


def gen(s, index):
    g = G(s)
    cnt = [0]
    scopes, ents = [], []
    init = {}
    nt = s.int(2, 12)
    collapse = s.bool(0.8)

    def newsig(sc, t=None, name=None):
        cnt[0] += 1
        nm = name or s.weighted([(8, "s%d" % cnt[0]), (1, "Sig_%d" % cnt[0]), (1, "\\ext %d A\\" % cnt[0])])
        x = Sig(nm, t or s.choice(g.pool), sc)
        if s.bool(0.7) or x.t.init is None or "None" in str(x.t.init):
            x.val = x.t.rnd(s)
            x.explicit = True
        else:
            x.explicit = False
        sc.sigs.append(x)
        return x

    def decl(x):
        return "signal %s : %s%s;" % (x.name, x.t.name, " := " + x.t.lit(x.val) if x.explicit else "")

    def process(sc, own, lab):
        """Random history for the own signals; returns text and records events."""
        L = ["%s : process is begin" % lab]
        now = 0
        ev = []
        for _ in range(nt):
            k = s.weighted([(4, "assign"), (2, "wait"), (1, "delta")])
            if k == "wait":
                d = s.choice([1, 1000, 10**6, 10**6, 5 * 10**6, 12345, 10**9])
                L.append("wait for %d fs;" % d)
                now += d
            elif k == "delta":
                L.append("wait for 0 ns;")
            else:
                x = s.choice(own)
                t, p, ref = x.t, [], x.name
                while t.paths() and s.bool(0.5):
                    sfx, kx, t = s.choice(t.paths())
                    p.append(kx)
                    ref += sfx
                v = t.rnd(s)
                L.append("%s <= %s;" % (ref, t.lit(v)))
                ev.append((now, x, tuple(p), v))
        L.append("wait; end process;")
        sc.text.append("\n".join(L))
        for tm, x, p, v in ev:
            def upd(cur, p):
                if not p:
                    return v
                c = list(cur)
                c[p[0]] = upd(c[p[0]], p[1:])
                return c
            x.events = getattr(x, "events", [])
            x.events.append((tm, p, v))

    ents_text = []

    def build_scope(sc, depth, label):
        """Fill sc with signals, processes and children; return (decls, stmts)."""
        decls, stmts = [], []
        own = [newsig(sc) for _ in range(s.int(1, 4) if depth == 0 else s.int(0, 2))]
        decls += [decl(x) for x in own]
        drv = list(own)
        nk = s.int(0, 3) if depth == 0 else s.int(0, 1) if depth < 3 else 0
        for i in range(nk):
            cnt[0] += 1
            k = s.choice(["inst", "inst", "block", "for", "if"])
            lab = s.choice(["u%d", "Lab%d"]) % cnt[0]
            if k == "block":
                c = Scope(lab.lower(), sc.path + [lab.lower()], sc)
                scopes.append(c)
                d, st = build_scope(c, depth + 1, lab)
                stmts.append("%s : block is\n%s\nbegin\n%s\nend block;" % (lab, "\n".join(d), "\n".join(st)))
            elif k == "if":
                c = Scope(lab.lower(), sc.path + [lab.lower()], sc)
                scopes.append(c)
                d, st = build_scope(c, depth + 1, lab)
                stmts.append("%s : if true generate\n%s\nbegin\n%s\nend generate;" % (lab, "\n".join(d), "\n".join(st)))
            elif k == "for":
                n, a = s.int(1, 3), s.choice([0, 1, 5, -1])
                n0 = len(scopes)
                c = Scope(None, None, sc)
                scopes.append(c)
                d, st = build_scope(c, 3, lab)
                del scopes[n0]
                for j in range(n):
                    nm = "%s(%d)" % (lab.lower(), a + j)
                    cc = Scope(nm, sc.path + [nm], sc)
                    cc.sigs = []
                    for x in c.sigs:
                        y = Sig(x.name, x.t, cc)
                        y.val, y.explicit, y.events = x.val, x.explicit, getattr(x, "events", [])
                        cc.sigs.append(y)
                    scopes.append(cc)
                stmts.append("%s : for k in %d to %d generate\n%s\nbegin\n%s\nend generate;" % (lab, a, a + n - 1, "\n".join(d), "\n".join(st)))
            else:
                c = Scope(lab.lower(), sc.path + [lab.lower()], sc)
                scopes.append(c)
                ports, maps, pouts = [], [], []
                for x in own:
                    if collapse and (has_arr(x.t) or isinstance(x.t, Rec)):
                        continue            # not dumped again through collapsed ports (K06-compport)
                    r = s.weighted([(3, None), (3, "in"), (2, "out" if x in drv else "in")])
                    if r is None:
                        continue
                    cnt[0] += 1
                    y = Sig("p%d" % cnt[0], x.t, c)
                    c.sigs.append(y)
                    tn = x.t.name
                    if isinstance(x.t, Vec) and s.bool(0.4):
                        tn = re.sub(r"\(.*", "", tn)
                    y.alias = x
                    if r == "out":
                        drv.remove(x)
                        pouts.append(y)
                        y.explicit = True
                        ports.append("%s : %s %s := %s" % (y.name, s.choice(["out", "inout", "buffer"]), tn, x.t.lit(x.val)))
                    else:
                        ports.append("%s : in %s" % (y.name, tn))
                    maps.append((y.name, x.name))
                sm = s.sample(maps, len(maps))
                d, st = build_scope(c, depth + 1, lab)
                if pouts:
                    # drive the actual's history through the port
                    fake = []
                    for y in pouts:
                        fake.append(y)
                    c.text = []
                    process(c, fake, "po%d" % cnt[0])
                    st = st + c.text
                    for y in pouts:
                        y.alias.events = getattr(y, "events", [])
                e = "e%d" % cnt[0] if False else "ent_" + lab.lower()
                ents_text.append("library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all; use work.pk.all;\nentity %s is%s\nend entity;\narchitecture a of %s is\n%s\nbegin\n%s\nend architecture;\n" % (
                    e, "\n port (" + "; ".join(ports) + ");" if ports else "", e, "\n".join(d), "\n".join(st)))
                m = " port map (" + ", ".join("%s => %s" % p for p in sm) + ")" if sm else ""
                stmts.append("%s : entity work.%s%s;" % (lab, e, m))
        if drv and s.bool(0.95):
            sc.text = []
            process(sc, drv, "pr%d" % cnt[0])
            stmts += sc.text
        return decls, stmts

    top = Scope("tb", ["tb"], None)
    scopes.append(top)
    d, st = build_scope(top, 0, "tb")
    src = "library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;\npackage pk is\n%s\nend package;\n" % "\n".join(g.decls)
    src += "".join(ents_text)
    src += ("library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all; use work.pk.all;\nentity tb is end entity;\narchitecture a of tb is\n%s\nbegin\n%s\nend architecture;\n"
            % ("\n".join(d), "\n".join(st)))
    stop = s.choice([None, None, None, 10**6, 3 * 10**6])
    dump = s.choice([None, 0, 0, 0, 2, 4])      # --dump-arrays: absent, unlimited, limit
    # patterns
    allp = [":".join([""] + sc.path + [x.name.lower()]) for sc in scopes for x in sc.sigs]

    def pat():
        p = s.choice(allp) if allp else ":tb:x"
        k = s.int(0, 5)
        if k == 0:
            return p
        if k == 1:
            i = s.int(0, len(p))
            return p[:i] + "*"
        if k == 2:
            i = s.int(0, len(p))
            return "*" + p[i:]
        if k == 3:
            i = s.int(0, len(p))
            j = s.int(i, len(p))
            return p[:i] + "*" + p[j:]
        if k == 4:
            return s.choice([":tb:*", "*", ":tb:u*", "*s*", "**", ":tb", ":tb:*:*", "", ":*:*:*", "*1*"])
        i = s.int(0, len(p))
        return p[:i] + "*" + p[i:] + "*"
    inc = [pat() for _ in range(s.weighted([(5, 0), (2, 1), (1, 3)]))]
    exc = [pat() for _ in range(s.weighted([(6, 0), (2, 1), (1, 2)]))]
    rx = lambda p: re.compile("".join(".*" if c == "*" else re.escape(c) for c in p), re.S)
    ok = lambda p: not any(rx(x).fullmatch(p) for x in exc) and (not inc or any(rx(x).fullmatch(p) for x in inc))
    if not any(ok(p) for p in allp):
        inc, exc = [], []           # an empty selection is known finding K06-empty
    want = {}
    changes = 0
    limit = stop if stop is not None else 10**18
    for sc in scopes:
        for x in sc.sigs:
            if not ok(":".join([""] + sc.path + [x.name.lower()])):
                continue
            ev = getattr(x.alias or x, "events", None) or []
            cur = (x.alias or x).val
            h = [[0, x.t.flat(cur)]]
            for tm, p, v in ev:
                if tm > limit:
                    break
                cur = put(cur, p, v)
                f = x.t.flat(cur)
                if h[-1][0] == tm:
                    h[-1][1] = f
                else:
                    h.append([tm, f])
            lv = shown(x.t, x.name.lower(), dump)
            for (path, kind), idx in lv:
                hh = []
                for tm, f in h:
                    if not hh or hh[-1][1] != f[idx]:
                        hh.append([tm, f[idx]])
                changes += len(hh) - 1
                want["\x01".join(sc.path + list(path))] = [kind, hh]
    return {"src": src, "want": want, "stop": stop, "dump": dump, "inc": inc, "exc": exc, "format": s.choice(["vcd", "fst"]), "changes": changes,
            "units": getattr(g, "units", {}), "collapse": collapse, "labels": sorted(set(type(x.t).__name__ for sc in scopes for x in sc.sigs)),
            "files": s.bool(0.2), "std": s.choice(["2008", "2008", "1993"]) if "numeric" and False else "2008"}


def put(cur, p, v):
    if not p:
        return v
    c = list(cur)
    c[p[0]] = put(c[p[0]], p[1:], v)
    return c


def shown(t, nm, dump):
    """-> [((path, kind), index in flat list)] of the variables that are dumped."""
    out, pos = [], [0]

    def walk(t, nm, pre, vis):
        if isinstance(t, Rec):
            for n, ft in t.fields:
                walk(ft, n.lower(), pre + (nm,), vis)
        elif isinstance(t, Arr):
            v = vis and dump is not None and (dump == 0 or t.len <= dump)
            if isinstance(t.elem, Arr):
                # the limit applies to the outermost dimension only
                def inner(tt, n2):
                    for i in tt.idx:
                        if isinstance(tt.elem, Arr):
                            inner(tt.elem, "%s[%d]" % (n2, i))
                        else:
                            walk(tt.elem, "%s[%d]" % (n2, i), pre, v)
                inner(t, nm)
            else:
                for i in t.idx:
                    walk(t.elem, "%s[%d]" % (nm, i), pre, v)
        else:
            for p, k in t.leaves(nm):
                if vis:
                    out.append(((pre + p, k), pos[0]))
                pos[0] += 1
    walk(t, nm, (), True)
    return out


def parse_vcd(text):
    """-> {path: (type, size, [(time, raw)])}; raw keeps the VCD notation."""
    head, sep, body = text.partition("$enddefinitions $end\n")
    if not sep:
        raise pbt.Fail("no $enddefinitions in the dump", "vcd", text[:2000])
    if not re.search(r"\$timescale\s+1\s*fs\s+\$end", head):
        raise pbt.Fail("wrong timescale", "vcd", head[:500])
    stack, vars_, codes = [], {}, {}
    for m in re.finditer(r"\$(scope|upscope|var|\w+)\b(.*?)\$end", head, re.S):
        k, a = m.group(1), m.group(2).strip()
        if k == "scope":
            stack.append(a.split(" ", 1)[1])
        elif k == "upscope":
            stack.pop()
        elif k == "var":
            ty, size, code, name = a.split(" ", 3)
            p = "\x01".join(stack + [name])
            if p in vars_:
                raise pbt.Fail("variable %s is declared twice" % p.split("\x01"), "dup", head)
            vars_[p] = (ty, int(size), code)
    if stack:
        raise pbt.Fail("unbalanced scopes", "vcd", head)
    hist = {}
    now = None
    for l in body.split("\n"):
        if not l or l.startswith("$"):
            continue
        if l[0] == "#":
            t = int(l[1:])
            if now is not None and t < now:
                raise pbt.Fail("time goes back in the dump", "time", body[:3000])
            now = t
            continue
        if l[0] in "bsr":
            v, _, c = l.partition(" ")
        else:
            v, c = l[0], l[1:]
        hist.setdefault(c, []).append((now, v))
    return {p: (ty, size, hist.pop(c) if False else hist.get(c, [])) for p, (ty, size, c) in vars_.items()}, \
        set(hist) - set(v[2] for v in vars_.values())


ESC = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}


def unesc(v):
    return re.sub(r"\\([0-7]{3}|x[0-9a-fA-F]{2}|.)", lambda m: chr(int(m.group(1), 8)) if m.group(1)[0] in "01234567" else
                  chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == "x" else ESC.get(m.group(1), m.group(1)), v, flags=re.S)


def value(raw, kind, size, units):
    if kind.startswith("l"):
        return raw.lstrip("b").lower() if raw[0] == "b" else raw.lower()
    if kind == "int":
        if raw[0] != "b" or len(raw) - 1 != size:
            return ("bad", raw)
        return int(raw[1:], 2)
    if kind == "real":
        return float(raw[1:]) if raw[0] == "r" else ("bad", raw)
    if raw[0] != "s":
        return ("bad", raw)
    t = unesc(raw[1:])
    if kind == "phys":
        m = re.fullmatch(r"(-?\d+) (\S+)", t)
        u = units.get(m.group(2), UNITS.get(m.group(2))) if m else None
        return int(m.group(1)) * u if u else ("bad", raw)
    return t


def same(got, want, kind, size):
    if isinstance(got, tuple):
        return False
    if kind.startswith("l"):
        return got == want.lower()
    if kind == "int":
        lo = -(1 << (size - 1))
        return got == want % (1 << size) and lo <= want < (1 << size)
    if kind == "real":
        return got == want or abs(got - want) <= 1e-15 * abs(want)
    if kind == "phys":
        return got == want
    if kind == "char":
        return got == chardump(want)
    if kind == "enum":
        return got == (want if want[0] in "'\\" else want.lower())
    return got == want


def check(case, env):
    if not case["want"] and not case.get("pin"):
        raise pbt.Skip("nothing to dump")       # known finding K06-empty
    d = env.dir()
    fn = "w." + case["format"]
    ropts = ["--wave=" + fn, "--format=" + case["format"]]
    if case["dump"] is not None:
        ropts.append("--dump-arrays" + ("=%d" % case["dump"] if case["dump"] else ""))
    if case["stop"] is not None:
        ropts.append("--stop-time=%dfs" % case["stop"])
    if case["files"]:
        for nm, l in (("include", case["inc"]), ("exclude", case["exc"])):
            if l:
                l = [x for x in l]
                open(os.path.join(d, "tb." + nm), "w").write("# comment\n" + "".join(x + "\n" for x in l))
        if any(re.search(r"\s|^$|#", x) for x in case["inc"] + case["exc"]):
            raise pbt.Skip("pattern not writable in a file")
    else:
        ropts += ["--include=" + x for x in case["inc"]] + ["--exclude=" + x for x in case["exc"]]
    xenv = {"TMPDIR": d}
    r = nvc.sim(env, d, case["src"], std="2008", engine="interp", ropts=ropts, eopts=[] if case["collapse"] else ["--no-collapse"], xenv=xenv)
    if r.timeout:
        raise pbt.Skip("timeout")
    if r.rc != 0 or r.crashed:
        raise pbt.Fail("nvc failed: " + r.err[:300], "rc", repr(r))
    if case["format"] == "fst":
        c = nvc.run([FST2VCD, fn], d)
        if c.rc:
            raise pbt.Fail("FST reader failed with %d" % c.rc, "fst", repr(c))
        text = c.out
    else:
        text = open(os.path.join(d, fn), encoding="latin-1", newline="").read()
        left = [x for x in os.listdir(d) if x.startswith("vcd")]
        if left:
            raise pbt.Fail("temporary files left behind: %s" % left, "tmp")
    env.label("format-" + case["format"], *case["labels"])
    if case["inc"] or case["exc"]:
        env.label("patterns")
    got, stray = parse_vcd(text)
    if stray:
        raise pbt.Fail("value changes for undeclared variables %s" % sorted(stray), "stray", text[:6000])
    want = case["want"]
    for p in sorted(set(got) | set(want)):
        q = ".".join(p.split("\x01"))
        if p not in got:
            raise pbt.Fail("signal %s is not dumped" % q, "missing " + case["want"][p][0][:1], repr(r) + text[:8000])
        if p not in want:
            raise pbt.Fail("signal %s is dumped but should not be" % q, "extra", repr(r) + text[:8000])
        kind, hist = want[p]
        ty, size, raw = got[p]
        if kind.startswith("l") and size != int(kind[1:]):
            raise pbt.Fail("%s has size %d" % (q, size), "size", text[:6000])
        if kind == "l0" or kind == "s0":
            continue
        env.count()
        # step function: value at the end of every time step
        steps = []
        for t, v in raw:
            if steps and steps[-1][0] == t:
                steps[-1] = (t, v)
            else:
                steps.append((t, v))
        vals = []
        for t, v in steps:
            x = value(v, kind, size, case["units"])
            if vals and vals[-1][1] == x:
                continue
            vals.append((t, x))
        if len(vals) != len(hist) or any(a[0] != b[0] or not same(a[1], b[1], kind, size) for a, b in zip(vals, hist)):
            raise pbt.Fail("%s (%s): dumped %s, simulated %s" % (q, kind, vals, hist), "value " + kind[:4], repr(r) + text[:8000])
    if len(want) >= 4 and case["changes"] >= 8:
        env.mark(case["src"] + str([case[k] for k in ("format", "inc", "exc", "dump", "stop")]))


def pin(src, want, inc=(), collapse=True):
    return {"src": src, "want": want, "stop": None, "dump": 0, "inc": list(inc), "exc": [], "format": "vcd", "changes": 0, "units": {},
            "collapse": collapse, "labels": [], "files": False, "pin": True}


PINNED = [
    {"id": "K06-empty", "case": pin("entity tb is end entity;\narchitecture a of tb is\nsignal s : BIT;\nbegin\nend architecture;\n", {}, [":none"])},
    {"id": "K06-compport", "case": pin(
        "package pk is type t1 is record a : integer; end record; end package;\nuse work.pk.all;\nentity sub is port (p : in t1); end entity;\n"
        "architecture a of sub is begin end architecture;\nuse work.pk.all;\nentity tb is end entity;\narchitecture a of tb is\n"
        "signal s : t1 := (a => 1);\nbegin\nu : entity work.sub port map (s);\nend architecture;\n",
        {"tb\x01s\x01a": ["int", [[0, 1]]], "tb\x01u\x01p\x01a": ["int", [[0, 1]]]})},
    {"id": "K06-arrport", "case": pin(
        "package pk is type t1 is array (1 to 2) of integer; end package;\nuse work.pk.all;\nentity sub is port (p : in t1); end entity;\n"
        "architecture a of sub is begin end architecture;\nuse work.pk.all;\nentity tb is end entity;\narchitecture a of tb is\n"
        "signal s : t1 := (3, 4);\nbegin\nu : entity work.sub port map (s);\nend architecture;\n",
        {"tb\x01s[1]": ["int", [[0, 3]]], "tb\x01s[2]": ["int", [[0, 4]]], "tb\x01u\x01p[1]": ["int", [[0, 3]]], "tb\x01u\x01p[2]": ["int", [[0, 4]]]})},
    {"id": "K06-pkgfilter", "case": pin(
        "package pk is signal gs : bit; end package;\nuse work.pk.all;\nentity tb is end entity;\narchitecture a of tb is\n"
        "signal s : BIT;\nbegin\ns <= gs;\nend architecture;\n", {"tb\x01s": ["l1", [[0, "0"]]]}, [":tb:*"])},
]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
