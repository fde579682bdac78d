"""Generated networks of signals and processes, with a reference simulator.

The reference follows IEEE 1076-2008 clause 10.5.2 (signal assignment),
14.7 (simulation cycle) and 16.2 (signal attributes) literally: one driver
per process and scalar subelement, a projected output waveform per driver,
resolution, events, implicit signals, waits with timeouts, postponed
processes.  Processes are Python generators built next to their VHDL text.
"""

import re

NS = 1000000
LV = "UX01ZWLH-"
_RES = ["UUUUUUUUU", "UXXXXXXXX", "UX0X0000X", "UXX11111X", "UX01ZWLHX", "UX01WWWWX", "UX01LWLWX", "UX01HWWHX", "UXXXXXXXX"]


def res_logic(vs):
    if len(vs) == 1:
        return vs[0]
    r = 4
    for v in vs:
        r = LV.index(_RES[r][v])
    return r


def _sum(vs):
    return sum(vs) % 1000


# kind: (VHDL scalar type, array type, domain size, resolution or None)
KINDS = {
    "B": ("BIT", "BIT_VECTOR", 2, None),
    "E": ("E4", "E4_V", 4, None),
    "U": ("U8", "U8_V", 200, None),
    "I": ("INTEGER", "I_V", 1000, None),
    "T": ("TIME", "T_V", 100, None),
    "Q": ("BOOLEAN", "Q_V", 2, None),
    "L": ("STD_LOGIC", "STD_LOGIC_VECTOR", 9, res_logic),
    "RI": ("RSUM INTEGER", "RI_V", 1000, _sum),
    "RE": ("RMAX E4", "RE_V", 4, max),
}

PKG = """library ieee; use ieee.std_logic_1164.all;
package sp is
  type E4 is (e0, e1, e2, e3);
  type U8 is range 0 to 199;
  type E4_V is array (INTEGER range <>) of E4;
  type U8_V is array (INTEGER range <>) of U8;
  type I_V is array (INTEGER range <>) of INTEGER;
  type T_V is array (INTEGER range <>) of TIME;
  type Q_V is array (INTEGER range <>) of BOOLEAN;
  function RSUM (x : I_V) return INTEGER;
  function RMAX (x : E4_V) return E4;
  subtype RI is RSUM INTEGER;
  subtype RE is RMAX E4;
  type RI_V is array (INTEGER range <>) of RI;
  type RE_V is array (INTEGER range <>) of RE;
  type REC is record
    a : INTEGER; b : BIT_VECTOR(2 downto 0); c : E4;
  end record;
  type RREC is record
    a : RI; b : STD_LOGIC_VECTOR(0 to 1);
  end record;
  function p (x : BIT) return INTEGER;
  function p (x : E4) return INTEGER;
  function p (x : U8) return INTEGER;
  function p (x : INTEGER) return INTEGER;
  function p (x : TIME) return INTEGER;
  function p (x : BOOLEAN) return INTEGER;
  function p (x : STD_LOGIC) return INTEGER;
  function d (x : INTEGER) return BIT;
  function d (x : INTEGER) return E4;
  function d (x : INTEGER) return U8;
  function d (x : INTEGER) return INTEGER;
  function d (x : INTEGER) return TIME;
  function d (x : INTEGER) return BOOLEAN;
  function d (x : INTEGER) return STD_LOGIC;
  function la (t : TIME) return INTEGER;
  function im (x : INTEGER) return STRING;
  procedure log (s : STRING);
end package;
package body sp is
  function RSUM (x : I_V) return INTEGER is
    variable r : INTEGER := 0;
  begin
    for i in x'range loop r := r + x(i); end loop;
    return r mod 1000;
  end;
  function RMAX (x : E4_V) return E4 is
    variable r : E4 := e0;
  begin
    for i in x'range loop if x(i) > r then r := x(i); end if; end loop;
    return r;
  end;
  function p (x : BIT) return INTEGER is begin return BIT'pos(x); end;
  function p (x : E4) return INTEGER is begin return E4'pos(x); end;
  function p (x : U8) return INTEGER is begin return INTEGER(x); end;
  function p (x : INTEGER) return INTEGER is begin return x; end;
  function p (x : TIME) return INTEGER is begin return x / 1 ns; end;
  function p (x : BOOLEAN) return INTEGER is begin return BOOLEAN'pos(x); end;
  function p (x : STD_LOGIC) return INTEGER is begin return STD_LOGIC'pos(x); end;
  function d (x : INTEGER) return BIT is begin return BIT'val(x mod 2); end;
  function d (x : INTEGER) return E4 is begin return E4'val(x mod 4); end;
  function d (x : INTEGER) return U8 is begin return U8(x mod 200); end;
  function d (x : INTEGER) return INTEGER is begin return x mod 1000; end;
  function d (x : INTEGER) return TIME is begin return (x mod 100) * 1 ns; end;
  function d (x : INTEGER) return BOOLEAN is begin return x mod 2 = 1; end;
  function d (x : INTEGER) return STD_LOGIC is begin return STD_LOGIC'val(x mod 9); end;
  function la (t : TIME) return INTEGER is
  begin
    if t = TIME'high then return -1; end if;
    return t / 1 ps;
  end;
  function im (x : INTEGER) return STRING is begin return " " & INTEGER'image(x); end;
  procedure log (s : STRING) is begin std.textio.write(std.textio.output, s & LF); end;
end package body;
"""


class Leaf:
    __slots__ = ("id", "text", "kind", "init", "val", "last", "tev", "tac", "event", "active", "drv", "sig", "imp", "n",
                 "forced", "fpend", "hist", "drvval", "dead")

    def __init__(self, id, text, kind, init, sig):
        self.id, self.text, self.kind, self.init, self.sig = id, text, kind, init, sig
        self.n = KINDS[kind][2]
        self.dead = False
        self.drv = {}
        self.imp = None
        self.forced = None
        self.fpend = None
        self.tev = self.tac = None
        self.event = self.active = False


class Driver:
    __slots__ = ("val", "q", "proc", "live")

    def __init__(self, val):
        self.val, self.q = val, []

    def assign(self, wave, reject, transport):
        """wave: [(abs time, value)]"""
        t0 = wave[0][0]
        old = [x for x in self.q if x[0] < t0]
        if transport:
            self.q = old + list(wave)
            return
        new = list(wave)
        keep = []
        nxt = new[0][1]
        nxt_marked = True
        for t, v in reversed(old):
            m = t < t0 - reject or (nxt_marked and v == nxt)
            if m:
                keep.append((t, v))
            # "immediately precedes a marked transaction" refers to the list of
            # remaining transactions in projected order
            nxt, nxt_marked = v, m
        keep.reverse()
        self.q = keep + new


class Sig:
    """A declared signal: leaves in declaration order."""
    def __init__(self, name, kind, shape, leaves, decl):
        self.name, self.kind, self.shape, self.leaves, self.decl = name, kind, shape, leaves, decl


class Ex:
    """Integer expression: VHDL text, evaluator, leaves it is sensitive to."""
    __slots__ = ("t", "f", "s")

    def __init__(self, t, f, s=frozenset()):
        self.t, self.f, self.s = t, f, frozenset(s)


class DeltaLimit(Exception):
    pass


class Proc:
    def __init__(self, pid):
        self.pid = pid
        self.vars = {}
        self.postponed = False
        self.gen = None
        self.sens, self.cond, self.tmo = frozenset(), None, None
        self.log = []
        self.ctx_sens = None


class Sim:
    def __init__(self, leaves, procs, stop, dlimit):
        self.leaves, self.procs, self.stop, self.dlimit = leaves, procs, stop, dlimit
        self.now = 0
        self.delta = 0
        self.limit_hit = False
        self.ghost = False
        self.events = 0
        self.hist = []          # (time, delta, leaf id, value)
        self.cycles = 0
        self.pending_force = []

    def reset(self):
        pass

    # -- operations used by process bodies
    def assign(self, proc, leaf, wave, reject, transport):
        leaf.drv[proc.pid].assign([(self.now + d, v) for d, v in wave], reject, transport)
        if wave[0][0] == 0:
            # nvc simulates a delta cycle even if this transaction is deleted again
            self.ghost = True

    def resolve(self, lf):
        vs = [d.val for d in lf.drv.values()]
        if lf.sig is not None and getattr(lf.sig, "compres", None):
            return None
        r = KINDS[lf.kind][3]
        if r is not None:
            return r(vs) if vs else lf.init
        return vs[0] if vs else lf.init

    def run(self):
        L, P = self.leaves, self.procs
        for lf in L:
            lf.val = lf.last = lf.init
            lf.tev = lf.tac = None
            lf.event = lf.active = False
            lf.forced = None
        for lf in L:
            if lf.imp is None and lf.drv:
                lf.val = lf.last = self.resolve(lf)
        for lf in L:
            if lf.imp is not None:
                k, src, t = lf.imp
                if k == "delayed":
                    lf.val = lf.last = src.val
                    lf.drv["imp"] = Driver(src.val)
                elif k == "transaction":
                    lf.val = lf.last = 0
                else:
                    lf.val = lf.last = 1
                    lf.drv["imp"] = Driver(1)
        for p in P:
            p.gen = p.body(self, p)
        try:
            for p in [p for p in P if not p.postponed]:
                self.resume(p)
            for lf in L:
                if lf.imp is not None and not lf.dead and lf.imp[0] == "delayed" and lf.imp[2] is not None:
                    # the process P of S'delayed: R <= transport S after T, runs once initially
                    lf.drv["imp"].assign([(lf.imp[2], lf.imp[1].val)], 0, True)
            for p in [p for p in P if p.postponed]:
                self.resume(p)
            while True:
                tn = self.next_time()
                if tn is None or tn >= self.stop:
                    break
                if tn == self.now:
                    self.delta += 1
                    if self.delta > self.dlimit:
                        raise DeltaLimit()
                else:
                    self.delta = 0
                    self.now = tn
                self.cycle()
        except DeltaLimit:
            self.limit_hit = True

    def next_time(self):
        t = None
        if self.ghost:
            return self.now
        for lf in self.leaves:
            for d in lf.drv.values():
                if d.q and (t is None or d.q[0][0] < t):
                    t = d.q[0][0]
            if lf.fpend is not None:
                return self.now
        for p in self.procs:
            if p.tmo is not None and (t is None or p.tmo < t):
                t = p.tmo
        return t

    def resume(self, p):
        p.sens, p.cond, p.tmo = frozenset(), None, None
        try:
            w = next(p.gen)
            p.sens, p.cond = w[0], w[1]
            p.tmo = None if w[2] is None else self.now + w[2]
        except StopIteration:
            pass

    def cycle(self):
        L = self.leaves
        self.cycles += 1
        self.ghost = False
        now = self.now
        for lf in L:
            lf.event = lf.active = False
        # explicit signals
        for lf in L:
            if lf.imp is not None:
                continue
            for d in lf.drv.values():
                while d.q and d.q[0][0] <= now:
                    d.val = d.q.pop(0)[1]
                    lf.active = True
            if lf.fpend is not None:
                k, v = lf.fpend
                lf.fpend = None
                lf.active = True
                lf.forced = v if k == "force" else None
            if lf.active:
                v = lf.forced if lf.forced is not None else self.resolve(lf)
                lf.tac = now
                self.update(lf, v)
        # implicit signals
        for lf in L:
            if lf.imp is None or lf.dead:
                continue
            k, src, t = lf.imp
            srcs = src if isinstance(src, list) else [src]
            if k == "delayed":
                d = lf.drv["imp"]
                while d.q and d.q[0][0] <= now:
                    d.val = d.q.pop(0)[1]
                    lf.active = True
                if lf.active:
                    lf.tac = now
                    self.update(lf, d.val)
            elif k == "transaction":
                if any(s.active for s in srcs):
                    lf.active = True
                    lf.tac = now
                    self.update(lf, 1 - lf.val)
            else:
                hit = any((s.event if k == "stable" else s.active) for s in srcs)
                d = lf.drv["imp"]
                due = False
                while d.q and d.q[0][0] <= now:
                    d.val = d.q.pop(0)[1]
                    due = True
                if hit:
                    lf.active = True
                    lf.tac = now
                    self.update(lf, 0)
                    d.q = [(now + t, 1)]
                elif due:
                    lf.active = True
                    lf.tac = now
                    self.update(lf, 1)
        # 'delayed follows events of its prefix by an implicit process
        for lf in L:
            if lf.imp is not None and not lf.dead and lf.imp[0] == "delayed" and lf.imp[1].event:
                lf.drv["imp"].assign([(now + lf.imp[2], lf.imp[1].val)], 0, True)
        run = []
        for p in self.procs:
            if p.postponed and getattr(p, "due", False):
                continue
            r = False
            if p.tmo is not None and p.tmo <= now:
                r = True
            elif any(L[i].event for i in p.sens):
                if p.cond is None or p.cond(self, p):
                    r = True
            if r:
                p.due = True
                p.tmo = None
                p.sens = frozenset()
                if not p.postponed:
                    run.append(p)
        for p in run:
            p.due = False
            self.resume(p)
        tn = self.next_time()
        if tn != self.now:
            for p in self.procs:
                if p.postponed and getattr(p, "due", False):
                    p.due = False
                    self.resume(p)

    def update(self, lf, v):
        if v != lf.val:
            lf.last = lf.val
            lf.val = v
            lf.event = True
            lf.tev = self.now
            self.events += 1
            self.hist.append((self.now, self.delta, lf.id, v))


# ---------------------------------------------------------------- generator

def tt(fs):
    if fs % NS == 0:
        return "%d ns" % (fs // NS)
    return "%d ps" % (fs // 1000)


class Gen:
    def __init__(self, s, opts=None):
        self.s = s
        self.o = {"attrs": True, "implicit": True, "procs": True, "postponed": True, "records": True, "force": False,
                  "conc": True, "nsig": 6, "nproc": 5}
        self.o.update(opts or {})
        self.leaves, self.sigs, self.procs = [], [], []
        self.noamb = False
        self.ptext = []         # VHDL text of each process / concurrent statement
        self.imps = {}
        self.labels = set()
        self.decls = []
        self.pid = 0

    # ---- signals
    def leaf(self, text, kind, init, sig):
        lf = Leaf(len(self.leaves), text, kind, init, sig)
        self.leaves.append(lf)
        return lf

    def const(self, kind, v):
        if kind == "B":
            return "'%d'" % v
        if kind in ("E", "RE"):
            return "e%d" % v
        if kind == "T":
            return "%d ns" % v
        if kind == "Q":
            return ["FALSE", "TRUE"][v]
        if kind == "L":
            return "'%s'" % LV[v]
        return str(v)

    def rnd(self, kind):
        if kind == "L":
            return self.s.weighted([(4, 2), (4, 3), (1, 4), (1, 1), (1, 6), (1, 7), (1, 5), (1, 0), (1, 8)])
        return self.s.raw(min(KINDS[kind][2], 6))

    def signal(self, kinds=None):
        s = self.s
        name = "s%d" % len(self.sigs)
        shape = s.weighted([(6, "scalar"), (5, "array")] + ([(2, "rec")] if self.o["records"] else []))
        kind = s.choice(kinds or ["B", "I", "L", "RI", "E", "RE", "U", "B", "I", "L", "T"])
        sig = Sig(name, kind, shape, [], None)
        if shape == "scalar":
            v = self.rnd(kind)
            sig.leaves = [self.leaf(name, kind, v, sig)]
            ty = {"RI": "RI", "RE": "RE"}.get(kind, KINDS[kind][0])
            sig.ty = ty
            init = " := " + self.const(kind, v)
            dflt = {"T": None, "I": None, "RI": None}.get(kind, 0)
            if s.bool(0.2) and dflt == 0:
                for lf in sig.leaves:
                    lf.init = 0
                init = ""
        elif shape == "array":
            n = s.int(1, 5)
            lo = s.int(0, 3)
            down = s.bool(0.5)
            l, r = (lo + n - 1, lo) if down else (lo, lo + n - 1)
            sig.l, sig.r, sig.down = l, r, down
            idx = list(range(l, r - 1, -1)) if down else list(range(l, r + 1))
            sig.idx = idx
            vs = [self.rnd(kind) for _ in idx]
            sig.leaves = [self.leaf("%s(%d)" % (name, i), kind, v, sig) for i, v in zip(idx, vs)]
            sig.ty = "%s(%d %s %d)" % (KINDS[kind][1], l, "downto" if down else "to", r)
            init = " := (%s)" % ", ".join("%d => %s" % (i, self.const(kind, v)) for i, v in zip(idx, vs))
        else:
            if s.bool(0.5):
                sig.rec, sig.ty = "REC", "REC"
                a, b, c = self.rnd("I"), [self.rnd("B") for _ in range(3)], self.rnd("E")
                sig.leaves = [self.leaf(name + ".a", "I", a, sig)] + \
                    [self.leaf("%s.b(%d)" % (name, i), "B", v, sig) for i, v in zip((2, 1, 0), b)] + \
                    [self.leaf(name + ".c", "E", c, sig)]
                init = " := (%d, (%s), e%d)" % (a, ", ".join("'%d'" % x for x in b), c)
                sig.parts = {"a": [0], "b": [1, 2, 3], "c": [4]}
            else:
                sig.rec, sig.ty = "RREC", "RREC"
                a, b = self.rnd("RI"), [self.rnd("L") for _ in range(2)]
                sig.leaves = [self.leaf(name + ".a", "RI", a, sig)] + \
                    [self.leaf("%s.b(%d)" % (name, i), "L", v, sig) for i, v in zip((0, 1), b)]
                init = " := (%d, (%s))" % (a, ", ".join("'%s'" % LV[x] for x in b))
                sig.parts = {"a": [0], "b": [1, 2]}
        sig.init = init
        sig.split = shape == "scalar" or s.bool(0.6)
        sig.decl = "signal %s : %s%s;" % (name, sig.ty, init)
        self.sigs.append(sig)
        return sig

    # ---- ownership: which process drives which leaf
    def allocate(self, nproc):
        s = self.s
        own = {i: [] for i in range(nproc)}
        for sig in self.sigs:
            groups = [list(range(len(sig.leaves)))]
            if sig.shape == "array" and len(sig.leaves) > 1 and s.bool(0.4):
                k = s.int(1, len(sig.leaves) - 1)
                groups = [groups[0][:k], groups[0][k:]]
            elif sig.shape == "rec" and s.bool(0.5):
                groups = list(sig.parts.values())
            for g in groups:
                res = KINDS[sig.leaves[g[0]].kind][3] is not None and all(KINDS[sig.leaves[i].kind][3] for i in g)
                n = s.weighted([(8, 1), (1, 0)]) if not res else s.weighted([(4, 2), (3, 1), (2, 3)])
                for q in s.sample(range(nproc), n):
                    own[q].append((sig, g))
        return own

    # ---- expressions
    def implicit(self, kind, srcs, text, t):
        key = (text,)
        if key not in self.imps:
            lf = self.leaf(text, "Q" if kind in ("stable", "quiet") else "B" if kind == "transaction" else srcs[0].kind, 0, None)
            lf.imp = (kind, srcs if kind != "delayed" else srcs[0], t)
            self.imps[key] = lf
        return self.imps[key]

    def read(self, p, depth=0):
        """An atom reading a signal."""
        s = self.s
        sig = s.choice(self.sigs)
        k = s.raw(10)
        if sig.shape == "array" and k < 2 and p is not None and p.nvars:
            # dynamic index: sensitive to the whole signal
            v = "v%d" % s.raw(p.nvars)
            lo, n = min(sig.idx), len(sig.idx)
            by = {i: lf for i, lf in zip(sig.idx, sig.leaves)}
            return Ex("p(%s(%s mod %d + %d))" % (sig.name, v, n, lo),
                      lambda sim, q: by[q.vars[v] % n + lo].val, [lf.id for lf in sig.leaves])
        lf = s.choice(sig.leaves)
        return Ex("p(%s)" % lf.text, lambda sim, q: lf.val, [lf.id])

    def attr(self, p):
        """Attribute of a signal, as integer expression."""
        s = self.s
        sig = s.choice(self.sigs)
        if s.bool(0.35) or sig.shape == "scalar":
            lfs, text = sig.leaves, sig.name
        else:
            lf = s.choice(sig.leaves)
            lfs, text = [lf], lf.text
        ids = [l.id for l in lfs]
        one = len(lfs) == 1 and text == lfs[0].text
        # S'last_active after a zero-delay assignment in the same cycle: known finding K04-lastactive
        # S(i)'last_value of an element of a nexus that is not split: known finding K04-lastvalue
        # whether they add their prefix to an implied sensitivity set is not clear: not used there
        kinds = ["event", "active"]
        if not self.noamb:
            kinds += ["last_event"] + (["last_active"] if self.nozero else []) + (["last_value"] if one and (sig.split or sig.shape == "scalar") else [])
        if self.o["implicit"]:
            # S'delayed of a resolved signal: known finding K04-delayedres
            kinds += ["stable", "quiet"] + (["delayed"] if one and KINDS[lfs[0].kind][3] is None else [])
        k = s.choice(kinds)
        self.labels.add("attr-" + k)
        if k == "event":
            return Ex("p(%s'event)" % text, lambda sim, q: int(any(l.event for l in lfs)), ids)
        if k == "active":
            return Ex("p(%s'active)" % text, lambda sim, q: int(any(l.active for l in lfs)), ids)
        if k == "last_value":
            l0 = lfs[0]
            return Ex("p(%s'last_value)" % text, lambda sim, q: l0.last, ids)
        if k in ("last_event", "last_active"):
            def f(sim, q):
                ts = [(l.tev if k == "last_event" else l.tac) for l in lfs]
                ts = [t for t in ts if t is not None]
                return (sim.now - max(ts)) // 1000 if ts else -1
            return Ex("la(%s'%s)" % (text, k), f, ids)
        t = s.choice([0, 0, 1, 2, 3, 4]) * NS
        if t == 0 and s.bool(0.5):
            lf = self.implicit(k, lfs, text + "'" + k, 0)
        else:
            lf = self.implicit(k, lfs, "%s'%s(%s)" % (text, k, tt(t)), t)
        return Ex("p(%s)" % lf.text, lambda sim, q: lf.val, [lf.id])

    def expr(self, p, depth=2):
        s = self.s
        k = s.raw(12)
        if depth <= 0 or k < 4:
            j = s.raw(8)
            if j < 1:
                c = s.int(0, 7)
                return Ex(str(c), lambda sim, q: c)
            if j < 3 and p is not None and p.nvars:
                v = "v%d" % s.raw(p.nvars)
                return Ex(v, lambda sim, q: q.vars[v])
            if j == 3 and self.o["attrs"]:
                return self.attr(p)
            return self.read(p)
        a, b = self.expr(p, depth - 1), self.expr(p, depth - 1)
        ss = a.s | b.s
        if k < 7:
            return Ex("(%s + %s)" % (a.t, b.t), lambda sim, q: a.f(sim, q) + b.f(sim, q), ss)
        if k < 8:
            return Ex("(%s - %s)" % (a.t, b.t), lambda sim, q: a.f(sim, q) - b.f(sim, q), ss)
        if k < 9:
            m = s.int(2, 9)
            return Ex("(%s mod %d)" % (a.t, m), lambda sim, q: a.f(sim, q) % m, a.s)
        if k < 11:
            op = s.choice(["=", "/=", "<", ">="])
            fn = {"=": lambda x, y: x == y, "/=": lambda x, y: x != y, "<": lambda x, y: x < y, ">=": lambda x, y: x >= y}[op]
            return Ex("p(%s %s %s)" % (a.t, op, b.t), lambda sim, q: int(fn(a.f(sim, q), b.f(sim, q))), ss)
        c = s.int(1, 5)
        return Ex("(%s + %d)" % (a.t, c), lambda sim, q: a.f(sim, q) + c, a.s)

    def nonconst(self, p, depth):
        """Constant conditions in statements with implied sensitivity are
        folded away with the branches: known finding K04-foldsens."""
        a = self.expr(p, depth)
        if self.noamb and not a.s:
            b = self.read(p)
            return Ex("(%s + %s)" % (a.t, b.t), lambda sim, q: a.f(sim, q) + b.f(sim, q), a.s | b.s)
        return a

    def cond(self, p, depth=1):
        s = self.s
        a = self.nonconst(p, depth)
        k = s.raw(4)
        if k == 0:
            return Ex("%s mod 2 = 1" % a.t, lambda sim, q: a.f(sim, q) % 2 == 1, a.s)
        if k == 1:
            return Ex("%s mod 3 /= 0" % a.t, lambda sim, q: a.f(sim, q) % 3 != 0, a.s)
        b = self.expr(p, depth)
        op = "=" if k == 2 else "<"
        fn = (lambda x, y: x == y) if k == 2 else (lambda x, y: x < y)
        return Ex("%s %s %s" % (a.t, op, b.t), lambda sim, q: fn(a.f(sim, q), b.f(sim, q)), a.s | b.s)

    def dec(self, kind, e):
        """Value of a scalar kind from an integer expression."""
        n = KINDS[kind][2]
        return "d(%s)" % e.t, (lambda sim, q: e.f(sim, q) % n), e.s

    def value(self, p, tgt_text, kinds, sig, g):
        """Value for a target of the leaves g: (text, fn -> list of values, sens)"""
        s = self.s
        lfs = [sig.leaves[i] for i in g]
        n = len(g)
        scalar = n == 1 and tgt_text == lfs[0].text
        if scalar:
            k = lfs[0].kind
            c = s.raw(6)
            if c == 0:
                v = self.rnd(k)
                return self.const(k, v), (lambda sim, q: [v]), frozenset()
            if c == 1:
                same = [l for x in self.sigs for l in x.leaves
                        if KINDS[l.kind][0].split()[-1] == KINDS[k][0].split()[-1]]
                l = s.choice(same)
                return l.text, (lambda sim, q: [l.val]), frozenset([l.id])
            t, f, ss = self.dec(k, self.expr(p))
            return t, (lambda sim, q: [f(sim, q)]), ss
        whole = n == len(sig.leaves)
        if sig.shape == "rec" and whole:
            others = [x for x in self.sigs if x.shape == "rec" and x.rec == sig.rec]
            if s.bool(0.3):
                o = s.choice(others)
                return o.name, (lambda sim, q: [l.val for l in o.leaves]), frozenset(l.id for l in o.leaves)
            es = [self.dec(l.kind, self.expr(p, 1)) for l in lfs]
            pt = []
            for f, ix in sig.parts.items():
                if len(ix) == 1:
                    pt.append("%s => %s" % (f, es[ix[0]][0]))
                else:
                    pt.append("%s => (%s)" % (f, ", ".join(es[i][0] for i in ix)))
            return "(%s)" % ", ".join(pt), (lambda sim, q: [e[1](sim, q) for e in es]), frozenset().union(*[e[2] for e in es])
        # array-like
        k = lfs[0].kind
        c = s.raw(6)
        if c <= 1:
            cand = []
            for x in self.sigs:
                if x.shape == "array" and x.kind == k and len(x.leaves) >= n:
                    for i in range(len(x.leaves) - n + 1):
                        cand.append((x, i))
            if cand:
                x, i = s.choice(cand)
                ls = x.leaves[i:i + n]
                d = "downto" if x.down else "to"
                text = x.name if n == len(x.leaves) and s.bool(0.7) else "%s(%d %s %d)" % (x.name, x.idx[i], d, x.idx[i + n - 1])
                ids = [l.id for l in ls]
                if k == "B" and s.bool(0.5):
                    return "not " + text, (lambda sim, q: [1 - l.val for l in ls]), frozenset(ids)
                return text, (lambda sim, q: [l.val for l in ls]), frozenset(ids)
        if c == 2 and whole and sig.shape == "array":
            t, f, ss = self.dec(k, self.expr(p, 1))
            return "(others => %s)" % t, (lambda sim, q: [f(sim, q)] * n), ss
        if c == 3 and k in ("B", "L", "E", "U", "I"):
            vs = [self.rnd(k) for _ in range(n)]
            if k in ("B", "L"):
                return '"%s"' % "".join("01"[v] if k == "B" else LV[v] for v in vs), (lambda sim, q: vs), frozenset()
        es = [self.dec(k, self.expr(p, 1)) for _ in range(n)]
        if n == 1:
            # a one-element aggregate needs named association
            if sig.shape == "array":
                ix = sig.idx[g[0]]
                text = "(%d => %s)" % (ix, es[0][0])
            else:
                text = "(0 => %s)" % es[0][0]
        else:
            text = "(%s)" % ", ".join(e[0] for e in es)
        return text, (lambda sim, q: [e[1](sim, q) for e in es]), frozenset().union(*[e[2] for e in es])

    # ---- targets
    def target(self, p):
        """(text, sig, group) within the leaves the process owns; None if none."""
        s = self.s
        if not p.own:
            return None
        sig, g = s.choice(p.own)
        if sig.shape == "scalar":
            return sig.name, sig, g
        if sig.shape == "rec":
            if len(g) == len(sig.leaves) and s.bool(0.4):
                return sig.name, sig, g
            parts = [ix for ix in sig.parts.values() if ix[0] in g]
            ix = s.choice(parts)
            f = [k for k, v in sig.parts.items() if v == ix][0]
            if len(ix) == 1:
                return sig.name + "." + f, sig, ix
            if s.bool(0.5):
                return sig.name + "." + f, sig, ix
            i = s.choice(ix)
            return sig.leaves[i].text, sig, [i]
        c = s.raw(4)
        d = "downto" if sig.down else "to"
        if c == 0:
            i = s.choice(g)
            return sig.leaves[i].text, sig, [i]
        if len(g) == len(sig.leaves) and c <= 2:
            return sig.name, sig, g
        a = s.raw(len(g))
        b = s.int(a, len(g) - 1)
        return "%s(%d %s %d)" % (sig.name, sig.idx[g[a]], d, sig.idx[g[b]]), sig, g[a:b + 1]

    def mark(self, sig, g):
        self.track.setdefault(sig.name, set()).update(g)

    def delay(self, zero=0.35):
        s = self.s
        if s.bool(1 - zero) or self.nozero:
            return s.choice([1, 2, 3, 4, 5, 7]) * NS if s.bool(0.9) else s.int(1, 3000) * 1000
        return 0

    def waveform(self, p, tgt, minzero=True, one=False):
        s = self.s
        n = 1 if one else s.weighted([(6, 1), (2, 2), (1, 3)])
        els = []
        dl = self.delay(0.35 if minzero else 0.0)
        for i in range(n):
            if i:
                dl = dl + s.choice([1, 2, 3]) * NS
            v = self.value(p, tgt[0], None, tgt[1], tgt[2])
            els.append((v, dl))
        mech = s.weighted([(6, "inertial"), (3, "transport"), (3, "reject")])
        if not tgt[1].split:
            # pulse rejection on composites: known finding K04-vecreject
            mech = "transport"
        d0 = els[0][1]
        rej = d0
        pre = ""
        if mech == "transport":
            pre = "transport "
        elif mech == "reject":
            rej = s.choice([0, d0 // 2 // 1000 * 1000, min(NS, d0), d0])
            pre = "reject %s inertial " % tt(rej)
            if rej > d0:
                rej = d0
        elif s.bool(0.1):
            pre = "inertial "
        if n > 1 or d0:
            self.labels.add("mech-" + mech)
        text = pre + ", ".join("%s%s" % (v[0], " after %s" % tt(dd) if dd else "") for v, dd in els)
        tr = mech == "transport"
        lfs = [tgt[1].leaves[i] for i in tgt[2]]
        sens = frozenset().union(*[v[2] for v, _ in els])

        def do(sim, q):
            vals = [(dd, v[1](sim, q)) for v, dd in els]
            for i, lf in enumerate(lfs):
                sim.assign(q, lf, [(dd, vv[i]) for dd, vv in vals], rej, tr)
        return text, do, sens

    # ---- statements: (lines, generator function (sim, proc), sens)
    def stmt(self, p, depth, waits):
        s = self.s
        ch = [(8, "asg"), (3, "var"), (3, "log")]
        if depth > 0:
            ch += [(3, "if"), (1, "for"), (1, "case")]
        if waits:
            ch += [(4, "wait")]
        if any(sg.shape == "array" and len(g) == len(sg.leaves) for sg, g in p.own) and p.nvars:
            ch += [(1, "dyn")]
        if self.o["procs"] and p.own and p.kind != "conc":
            ch += [(1, "call")]
        if self.o["force"] and p.own and not p.postponed:
            ch += [(2, "force")]
        k = s.weighted(ch)
        if k == "asg" or k == "call":
            tgt = self.target(p)
            if tgt is None:
                k = "log"
            elif k == "call":
                self.mark(tgt[1], tgt[2])
                return self.callstmt(p, tgt, waits)
            else:
                self.mark(tgt[1], tgt[2])
                if s.bool(0.15) and p.std2008:
                    c = self.cond(p)
                    t1, d1, s1 = self.waveform(p, tgt, not p.postponed, True)
                    t2, d2, s2 = self.waveform(p, tgt, not p.postponed, True)
                    # a conditional assignment has a single delay mechanism
                    if all(not t.startswith(("transport", "reject", "inertial")) for t in (t1, t2)):
                        def run(sim, q):
                            (d1 if c.f(sim, q) else d2)(sim, q)
                            return
                            yield
                        return ["%s <= %s when %s else %s;" % (tgt[0], t1, c.t, t2)], run, c.s | s1 | s2
                t, do, ss = self.waveform(p, tgt, not p.postponed)

                def run(sim, q):
                    do(sim, q)
                    return
                    yield
                return ["%s <= %s;" % (tgt[0], t)], run, ss
        if k == "force":
            tgt = self.target(p)
            lfs = [tgt[1].leaves[i] for i in tgt[2]]
            self.labels.add("force")
            if s.bool(0.5):
                def run(sim, q):
                    for lf in lfs:
                        lf.fpend = ("release", None)
                    return
                    yield
                return ["%s <= release;" % tgt[0]], run, frozenset()
            v = self.value(p, tgt[0], None, tgt[1], tgt[2])

            def run(sim, q):
                for lf, x in zip(lfs, v[1](sim, q)):
                    lf.fpend = ("force", x)
                return
                yield
            return ["%s <= force %s;" % (tgt[0], v[0])], run, v[2]
        if k == "dyn":
            own = [sg for sg, g in p.own if sg.shape == "array" and len(g) == len(sg.leaves)]
            sig = s.choice(own)
            self.mark(sig, range(len(sig.leaves)))
            v = "v%d" % s.raw(p.nvars)
            lo, n = min(sig.idx), len(sig.idx)
            by = {i: lf for i, lf in zip(sig.idx, sig.leaves)}
            e = self.dec(sig.kind, self.expr(p, 1))
            dl = self.delay(0.0 if p.postponed else 0.4)
            tr = not sig.split

            def run(sim, q):
                lf = by[q.vars[v] % n + lo]
                sim.assign(q, lf, [(dl, e[1](sim, q))], dl, tr)
                return
                yield
            return ["%s(%s mod %d + %d) <= %s%s%s;" % (sig.name, v, n, lo, "transport " if tr else "", e[0], " after " + tt(dl) if dl else "")], run, e[2]
        if k == "var" and p.nvars:
            v = "v%d" % s.raw(p.nvars)
            e = self.expr(p)

            def run(sim, q):
                q.vars[v] = e.f(sim, q) % 1000
                return
                yield
            return ["%s := %s mod 1000;" % (v, e.t)], run, e.s
        if k in ("log", "var"):
            es = [self.expr(p, 1) for _ in range(s.int(1, 3))]
            tag = "%s.%d" % (p.pid, p.nlog)
            p.nlog += 1

            def run(sim, q):
                q.log.append("%s @%d%s" % (tag, sim.now // 1000, "".join(" %d" % e.f(sim, q) for e in es)))
                return
                yield
            return ['log("%s @" & INTEGER\'image(now / 1 ps)%s);' % (tag, "".join(" & im(%s)" % e.t for e in es))], run, \
                frozenset().union(*[e.s for e in es])
        if k == "if":
            c = self.cond(p)
            a = self.block(p, depth - 1, waits, s.int(1, 2))
            b = self.block(p, depth - 1, waits, s.int(0, 2))
            lines = ["if %s then" % c.t] + ["  " + x for x in a[0]]
            if b[0]:
                lines += ["else"] + ["  " + x for x in b[0]]
            lines += ["end if;"]

            def run(sim, q):
                yield from (a if c.f(sim, q) else b)[1](sim, q)
            return lines, run, c.s | a[2] | b[2]
        if k == "case":
            e = self.nonconst(p, 1)
            bs = [self.block(p, depth - 1, waits, s.int(1, 2)) for _ in range(3)]
            lines = ["case INTEGER'(%s mod 4) is" % e.t]
            for w, b in zip(("0", "1 | 3", "others"), bs):
                lines += ["  when %s =>" % w] + ["    " + x for x in b[0]]
            lines += ["end case;"]

            def run(sim, q):
                yield from bs[(0, 1, 2, 1)[e.f(sim, q) % 4]][1](sim, q)
            return lines, run, e.s.union(*[b[2] for b in bs])
        if k == "for":
            n = s.int(1, 3)
            a = self.block(p, depth - 1, waits, s.int(1, 2))

            def run(sim, q):
                for _ in range(n):
                    yield from a[1](sim, q)
            return ["for i in 1 to %d loop" % n] + ["  " + x for x in a[0]] + ["end loop;"], run, a[2]
        return self.wait(p)

    def callstmt(self, p, tgt, waits):
        """A call of a procedure with a signal parameter."""
        s = self.s
        lfs = [tgt[1].leaves[i] for i in tgt[2]]
        name = "pr%d" % len(p.procs)
        if tgt[1].shape == "rec" and len(tgt[2]) > 1:
            ty = tgt[1].ty if len(tgt[2]) == len(lfs) and tgt[0] == tgt[1].name else ("BIT_VECTOR" if lfs[0].kind == "B" else "STD_LOGIC_VECTOR")
        elif tgt[0] == lfs[0].text:
            ty = {"RI": "RI", "RE": "RE"}.get(lfs[0].kind, KINDS[lfs[0].kind][0])
        else:
            ty = KINDS[lfs[0].kind][1]
        body, runs = [], []
        vals = []
        mode = s.choice(["out", "inout"])
        # a composite signal passed as a constant is passed by reference, which a wait makes visible
        waits = waits and tgt[0] == lfs[0].text
        for j in range(s.int(1, 2)):
            dl = self.delay(0.0 if p.postponed else 0.4)
            tr = s.bool(0.3) or not tgt[1].split
            body.append("s <= %sx%d%s;" % ("transport " if tr else "", j, " after " + tt(dl) if dl else ""))
            # the same type as the target: no qualified aggregates of unknown index
            v = self.value(p, tgt[0], None, tgt[1], tgt[2])
            if v[0].startswith("(others"):
                vs = [self.dec(l.kind, Ex("3", lambda sim, q: 3)) for l in lfs]
                if len(vs) == 1:
                    v = ("(%d => %s)" % (tgt[1].idx[tgt[2][0]], vs[0][0]),) + (lambda sim, q, vs=vs: [e[1](sim, q) for e in vs], frozenset())
                else:
                    v = ("(" + ", ".join(e[0] for e in vs) + ")",) + (lambda sim, q, vs=vs: [e[1](sim, q) for e in vs], frozenset())
            vals.append(v)
            w = None
            if waits and s.bool(0.5):
                w = s.choice([1, 2] if p.postponed else [0, 1, 2]) * NS
                body.append("wait for %s;" % tt(w))
            runs.append((j, dl, tr, w))
        ev = lfs[0].text
        p.procs.append("procedure %s (signal s : %s %s; %s) is begin %s end;" % (
            name, mode, ty, "; ".join("x%d : in %s" % (j, ty) for j in range(len(vals))), " ".join(body)))
        self.labels.add("signal-parameter")
        sens = frozenset().union(*[v[2] for v in vals])
        if mode == "inout":
            sens |= frozenset(l.id for l in lfs)

        def run(sim, q):
            vv = [v[1](sim, q) for v in vals]
            for j, dl, tr, w in runs:
                for i, lf in enumerate(lfs):
                    sim.assign(q, lf, [(dl, vv[j][i])], dl, tr)
                if w is not None:
                    yield frozenset(), None, w
        return ["%s(%s, %s);" % (name, tgt[0], ", ".join(v[0] for v in vals))], run, sens

    def sigref(self):
        """A signal name for a sensitivity list: (text, leaf ids)"""
        s = self.s
        if self.o["attrs"] and self.o["implicit"] and s.bool(0.2):
            for _ in range(4):
                a = self.attr(None)
                lf = [self.leaves[i] for i in a.s if self.leaves[i].imp is not None]
                if lf:
                    return lf[0].text, frozenset([lf[0].id])
        sig = s.choice(self.sigs)
        if sig.shape == "scalar" or s.bool(0.5):
            return sig.name, frozenset(l.id for l in sig.leaves)
        if sig.shape == "array" and len(sig.leaves) > 1 and s.bool(0.3):
            a = s.raw(len(sig.leaves))
            b = s.int(a, len(sig.leaves) - 1)
            return "%s(%d %s %d)" % (sig.name, sig.idx[a], "downto" if sig.down else "to", sig.idx[b]), \
                frozenset(l.id for l in sig.leaves[a:b + 1])
        lf = s.choice(sig.leaves)
        return lf.text, frozenset([lf.id])

    def wait(self, p, must=False):
        s = self.s
        on = until = tmo = None
        k = s.raw(8)
        if k in (0, 1):
            tmo = s.choice([1, 1, 2, 3, 5, 0]) * NS
        elif k in (2, 3):
            on = [self.sigref() for _ in range(s.int(1, 2))]
        elif k in (4, 5):
            old, self.noamb = self.noamb, True
            until = self.cond(p)
            self.noamb = old
            if k == 5:
                tmo = s.int(1, 6) * NS
        elif k == 6:
            on, tmo = [self.sigref()], s.int(0, 6) * NS
        else:
            on, until = [self.sigref()], self.cond(p)
            if s.bool(0.5):
                tmo = s.int(1, 6) * NS
        if p.postponed and tmo == 0:
            tmo = NS
        if k in (4,) and not until.s:
            until = None
            tmo = NS
        if must and tmo is None:
            tmo = s.int(3, 9) * NS
        text = "wait"
        sens = frozenset()
        if on:
            text += " on " + ", ".join(t for t, _ in on)
            sens = frozenset().union(*[x for _, x in on])
        if until:
            text += " until " + until.t
            if not on:
                sens = until.s
        if tmo is not None:
            text += " for " + tt(tmo)
        self.labels.add("wait" + ("-on" if on else "") + ("-until" if until else "") + ("-for" if tmo is not None else ""))
        cond = until.f if until else None

        def run(sim, q):
            yield sens, cond, tmo
        return [text + ";"], run, frozenset()

    def block(self, p, depth, waits, n):
        st = [self.stmt(p, depth, waits) for _ in range(n)]

        def run(sim, q):
            for x in st:
                yield from x[1](sim, q)
        return [l for x in st for l in x[0]], run, frozenset().union(*[x[2] for x in st]) if st else frozenset()

    # ---- processes
    def process(self, own):
        s = self.s
        p = Proc("p%d" % self.pid)
        self.pid += 1
        p.own, p.nlog, p.procs = own, 0, []
        p.std2008 = True
        kinds = [(5, "wait"), (5, "sens")]
        if self.o["conc"] and own:
            kinds += [(4, "conc")]
        p.kind = s.weighted(kinds)
        p.nvars = 0
        if p.kind == "conc":
            self.noamb = True
            self.conc(p)
            self.noamb = False
            return p
        allk = p.kind == "sens" and s.bool(0.25)
        self.noamb = allk
        # a postponed process with a timeout clause: known finding K04-postponedwait
        p.postponed = self.o["postponed"] and p.kind == "sens" and s.bool(0.2)
        p.nvars = s.int(0, 2)
        inits = [s.int(0, 9) for _ in range(p.nvars)]
        limit = s.int(5, 14)
        n = s.int(1, 4)
        first = ['log("%s @" & INTEGER\'image(now / 1 ps)%s);']
        es = [self.expr(p, 1) for _ in range(s.int(1, 3))]
        logtext = 'log("%s @" & INTEGER\'image(now / 1 ps)%s);' % (p.pid, "".join(" & im(%s)" % e.t for e in es))
        if p.kind == "sens":
            b = self.block(p, 2, False, n)
            self.noamb = False
            if allk:
                sens = b[2].union(*[e.s for e in es])
                st = "all"
                if not sens:
                    allk = False
            if not allk:
                refs = [self.sigref() for _ in range(s.int(1, 3))]
                st = ", ".join(t for t, _ in refs)
                sens = frozenset().union(*[x for _, x in refs])
            self.labels.add("process-all" if allk else "process-sens")

            def body(sim, q):
                k = 0
                while True:
                    k += 1
                    q.log.append("%s @%d%s" % (p.pid, sim.now // 1000, "".join(" %d" % e.f(sim, q) for e in es)))
                    if k < limit:
                        yield from b[1](sim, q)
                    yield sens, None, None
            head = "%sprocess (%s) is" % ("postponed " if p.postponed else "", st)
            lines = [logtext, "k := k + 1;", "if k < %d then" % limit] + ["  " + x for x in b[0]] + ["end if;"]
        else:
            b = self.block(p, 2, True, n)
            w = self.wait(p, True)
            self.labels.add("process-wait")

            def body(sim, q):
                k = 0
                while True:
                    k += 1
                    q.log.append("%s @%d%s" % (p.pid, sim.now // 1000, "".join(" %d" % e.f(sim, q) for e in es)))
                    if k >= limit:
                        yield frozenset(), None, None
                    yield from b[1](sim, q)
                    yield from w[1](sim, q)
            head = "%sprocess is" % ("postponed " if p.postponed else "")
            lines = [logtext, "k := k + 1;", "if k >= %d then wait; end if;" % limit] + b[0] + w[0]
        if p.postponed:
            self.labels.add("postponed")
        for i, v in enumerate(inits):
            p.vars["v%d" % i] = v
        p.body = body
        decl = ["variable k : INTEGER := 0;"] + ["variable v%d : INTEGER := %d;" % (i, v) for i, v in enumerate(inits)] + p.procs
        p.text = ["%s: %s" % (p.pid, head)] + ["  " + x for x in decl] + ["begin"] + ["  " + x for x in lines] + \
            ["end process;"]
        return p

    @staticmethod
    def mtext(ws):
        """The single delay mechanism of a conditional or selected assignment."""
        if ws[0][0].startswith("transport "):
            return [w[0][len("transport "):] for w in ws] + ["transport "]
        return [w[0] for w in ws] + [""]

    def conc(self, p):
        s = self.s
        tgt = self.target(p)
        self.mark(tgt[1], tgt[2])
        # one concurrent statement only drives its own target
        p.own = [(tgt[1], tgt[2])]
        k = s.raw(4)
        self.labels.add("concurrent-%s" % ["simple", "simple", "conditional", "selected"][k])
        if k <= 1:
            t, do, ss = self.waveform(p, tgt)
            text = ["%s <= %s;" % (tgt[0], t)]
        elif k == 2:
            c = self.cond(p)
            c2 = self.cond(p)
            ws = []
            for _ in range(3):
                while True:
                    w = self.waveform(p, tgt)
                    if not w[0].startswith(("reject", "inertial") if not tgt[1].split else ("transport", "reject", "inertial")):
                        break
                ws.append(w)
            un = s.bool(0.3)
            mt = self.mtext(ws)
            text = ["%s <= %s when %s else %s when %s%s;" % (tgt[0], mt[3] + mt[0], c.t, mt[1], c2.t, "" if un else " else " + mt[2])]
            ss = c.s | c2.s | ws[0][2] | ws[1][2] | (frozenset() if un else ws[2][2])

            def do(sim, q):
                if c.f(sim, q):
                    ws[0][1](sim, q)
                elif c2.f(sim, q):
                    ws[1][1](sim, q)
                elif not un:
                    ws[2][1](sim, q)
        else:
            e = self.nonconst(p, 1)
            ws = []
            for _ in range(3):
                while True:
                    w = self.waveform(p, tgt)
                    if not w[0].startswith(("reject", "inertial") if not tgt[1].split else ("transport", "reject", "inertial")):
                        break
                ws.append(w)
            mt = self.mtext(ws)
            text = ["with INTEGER'(%s mod 5) select" % e.t,
                    "  %s <= %s when 0 | 3, %s when 1, %s when others;" % (tgt[0], mt[3] + mt[0], mt[1], mt[2])]
            ss = e.s | ws[0][2] | ws[1][2] | ws[2][2]

            def do(sim, q):
                ws[(0, 1, 2, 0, 2)[e.f(sim, q) % 5]][1](sim, q)

        def body(sim, q):
            while True:
                do(sim, q)
                yield ss, None, None
        p.body = body
        p.text = ["%s: %s" % (p.pid, text[0])] + text[1:]

    def monitors(self):
        """One process per signal reporting every event on every leaf."""
        mon = []
        for sig in self.sigs:
            p = Proc("m%s" % sig.name)
            p.own, p.kind, p.nvars = [], "mon", 0
            ids = frozenset(l.id for l in sig.leaves)
            lf = list(sig.leaves)
            # S(i)'event splits the signal into one nexus per element
            sp = sig.split

            def body(sim, q, lf=lf, ids=ids, p=p, sp=sp):
                while True:
                    q.log.append("%s @%d%s" % (p.pid, sim.now // 1000, "".join(" %d %d" % (l.val, l.event) for l in lf) if sp else
                                               "".join(" %d" % l.val for l in lf) + " %d" % any(l.event for l in lf)))
                    yield ids, None, None
            p.body = body
            p.text = ["%s: process (%s) is begin" % (p.pid, sig.name),
                      "  log(\"%s @\" & INTEGER'image(now / 1 ps)%s);" % (
                          p.pid, "".join(" & im(p(%s)) & im(p(%s'event))" % (l.text, l.text) for l in lf) if sp else
                          "".join(" & im(p(%s))" % l.text for l in lf) + " & im(p(%s'event))" % sig.name),
                      "end process;"]
            mon.append(p)
        # S'transaction: nvc toggles it during initialisation, so only look at it afterwards
        if self.o["attrs"] and self.o["implicit"]:
            for _ in range(self.s.weighted([(3, 0), (1, 1), (1, 2)])):
                sig = self.s.choice(self.sigs)
                lfs, text = sig.leaves, sig.name
                if sig.shape != "scalar" and self.s.bool(0.5):
                    lf = self.s.choice(sig.leaves)
                    lfs, text = [lf], lf.text
                p = Proc("mt%d" % len(mon))
                p.own, p.kind, p.nvars = [], "mon", 0
                im = self.implicit("transaction", lfs, text + "'transaction", 0)
                self.labels.add("attr-transaction")

                def body(sim, q, im=im, p=p):
                    yield frozenset(), None, NS
                    while True:
                        yield frozenset([im.id]), None, None
                        q.log.append("%s @%d %d" % (p.pid, sim.now // 1000, im.event))
                p.body = body
                p.text = ["%s: process is begin" % p.pid, "  wait for 1 ns;", "  loop",
                          "    wait on %s;" % im.text,
                          "    log(\"%s @\" & INTEGER'image(now / 1 ps) & im(p(%s'event)));" % (p.pid, im.text),
                          "  end loop;", "end process;"]
                mon.append(p)
        self.procs[:0] = mon

    def build(self):
        s = self.s
        self.nozero = s.bool(0.2)
        ns = s.int(1, self.o["nsig"])
        for _ in range(ns):
            self.signal()
        np_ = s.int(1, self.o["nproc"])
        own = self.allocate(np_)
        for i in range(np_):
            self.cur = None
            p = Proc("x")
            self.track = {}
            q = self.process(own[i])
            q.drv = self.track
            self.procs.append(q)
        self.monitors()
        for p in self.procs:
            for name, ix in getattr(p, "drv", {}).items():
                sig = [x for x in self.sigs if x.name == name][0]
                for i in ix:
                    sig.leaves[i].drv[p.pid] = Driver(sig.leaves[i].init)

    def simulate(self, stop, dlimit):
        # implicit signals that were not used after all do not exist
        text = self.flat()
        for k, lf in list(self.imps.items()):
            if not re.search(r"\b" + re.escape(lf.text) + r"(?![\w(]| *')", text) and lf.text + "'event" not in text:
                lf.dead = True
        sim = Sim(self.leaves, self.procs, stop, dlimit)
        sim.run()
        return sim

    def flat(self, top="tb"):
        out = ["library ieee; use ieee.std_logic_1164.all; use work.sp.all;", "entity %s is end entity;" % top,
               "architecture a of %s is" % top]
        out += ["  " + x.decl for x in self.sigs]
        out.append("begin")
        for p in self.procs:
            out += ["  " + l for l in p.text]
        out.append("end architecture;")
        return "\n".join(out) + "\n"
