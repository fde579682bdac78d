#!/usr/bin/env python3
"""C11: garbage collection never changes program behaviour."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C11"
CASES = {"quick": 450, "thorough": 12000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = "a program whose run needs at least three collections in the chosen heap (allocated volume over three times the heap size) or must run out of memory; distinct by source"
TECHNIQUE = ("model-based property testing: random programs over heap object graphs (records, arrays of pointers, strings, vectors, recursion, waits, protected "
             "types, heap-allocated state) are executed by a Python model with unlimited memory and by nvc with heaps from 48 KB to 8 MB sized from the "
             "live data the model measured, on interpreted and compiled engines; all reported checksums must agree, and programs whose reachable data exceeds "
             "the heap must stop with an out of memory error")
NOTE = "the heap is at least three times the reachable data plus a margin, because the collector is conservative and does not compact"
ASSUMPTIONS = ["object sizes are overestimated by the model (96 bytes per record, 64 plus contents per array)"]

OPS = ["newnode", "setlink", "clear", "newstr", "append", "mutate", "newvec", "dflt", "kids", "kid", "prepend", "reverse", "tree", "burst", "slice",
       "walk", "dealloc", "big", "concat", "swap", "copyrec", "aggr", "intp", "grow2", "share", "tabset", "tabget", "tabnew"]


class Node:
    __slots__ = ("v", "l", "r", "s", "k", "i")

    def __init__(self, v=0):
        self.v, self.l, self.r, self.s, self.k, self.i = v, None, None, None, None, None


class Box:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Actor:
    """The state of one process, mirrored in VHDL by the record type actor."""
    def __init__(self, g, seed):
        n = g["N"]
        self.g = g
        self.seed = seed
        self.p = [None] * n
        self.s = [None] * n
        self.v = [None] * n
        self.i = [None] * n
        self.head = None
        self.tab = Box([None] * g["G"])
        self.len = 0
        self.sum = 0
        self.alloc = 0

    def rnd(self, m):
        self.seed = (self.seed * 1103 + 12345) % 65536
        return (self.seed // 8) % m

    def add(self, x):
        self.sum = (self.sum * 31 + x) % 1000003

    # ---- operations
    def step(self):
        g = self.g
        n = g["N"]
        w = self.rnd(g["wsum"])
        op = next(i for i, c in enumerate(g["cum"]) if w < c)
        name = g["ops"][op]
        a, b, c, d = self.rnd(n), self.rnd(n), self.rnd(n), self.rnd(1000)
        getattr(self, "o_" + name)(a, b, c, d)

    def nodes(self, k=1):
        self.alloc += 64 * k

    def o_newnode(self, a, b, c, d):
        x = Node(d)
        if depth(self.p[b]) < self.g["D"]:
            x.l = self.p[b]
        if depth(self.p[c]) < self.g["D"]:
            x.r = self.p[c]
        x.s = self.s[a]
        x.i = self.i[c]
        self.nodes()
        self.p[a] = x

    def o_setlink(self, a, b, c, d):
        if self.p[a] is not None:
            self.p[a].l = self.p[b] if d % 3 != 0 else None

    def o_clear(self, a, b, c, d):
        if d % 4 == 0:
            self.p[a] = None
        elif d % 4 == 1:
            self.s[a] = None
        elif d % 4 == 2:
            self.v[a] = None
        else:
            self.i[a] = None

    def o_newstr(self, a, b, c, d):
        n = d % self.g["S"]
        self.s[a] = Box([97 + (d + k) % 26 for k in range(1, n + 1)])
        self.alloc += n + 32

    def o_append(self, a, b, c, d):
        if self.s[a] is not None and len(self.s[a].d) < 3 * self.g["S"]:
            self.s[a] = Box(self.s[a].d + [97 + d % 26])
            self.alloc += len(self.s[a].d) + 32

    def o_grow2(self, a, b, c, d):
        if self.s[a] is not None and self.s[b] is not None and len(self.s[a].d) + len(self.s[b].d) < 4 * self.g["S"]:
            self.s[c] = Box(self.s[a].d + self.s[b].d)
            self.alloc += 2 * len(self.s[c].d) + 64

    def o_mutate(self, a, b, c, d):
        if self.p[a] is not None:
            self.p[a].v = (self.p[a].v + d) % 10007
        if self.s[b] is not None and self.s[b].d:
            self.s[b].d[d % len(self.s[b].d)] = 65 + d % 26
        if self.v[c] is not None and self.v[c].d:
            self.v[c].d[d % len(self.v[c].d)] = d
        if self.i[a] is not None:
            self.i[a].d = (self.i[a].d + d) % 5003

    def o_newvec(self, a, b, c, d):
        n = d % self.g["V"]
        x = [0] * n
        if b % 2 == 0 and n > 0:
            x[d % n] = d
        self.v[a] = Box(x)
        self.alloc += 4 * n + 32

    def o_dflt(self, a, b, c, d):
        self.p[a] = Node(7)
        self.nodes()

    def o_kids(self, a, b, c, d):
        if self.p[a] is not None:
            self.p[a].k = Box([None] * (1 + d % 9))
            self.alloc += 64

    def o_kid(self, a, b, c, d):
        if self.p[a] is not None and self.p[a].k is not None and depth(self.p[b]) < self.g["D"]:
            self.p[a].k.d[d % len(self.p[a].k.d)] = self.p[b]

    def o_prepend(self, a, b, c, d):
        for j in range(1, 1 + d % 20):
            x = Node(d + j)
            x.l = self.head
            self.head = x
            self.len += 1
            self.nodes()
        if self.len > self.g["L"]:
            if d % 2 == 0:
                self.head, self.len = None, 0
            else:
                # keep the first ten
                x = self.head
                for _ in range(9):
                    x = x.l
                x.l = None
                self.len = 10

    def o_reverse(self, a, b, c, d):
        r, x = None, self.head
        while x is not None:
            x.l, r, x = r, x, x.l
        self.head = r
        x = r
        while x is not None:
            self.add(x.v)
            x = x.l

    def o_tree(self, a, b, c, d):
        h = d % (self.g["T"] + 1)
        self.nodes(2 ** (h + 1))

        def tree(h, v):
            return v % 1009 + (tree(h - 1, v * 2 + 1) + tree(h - 1, v * 3 + 1) if h > 0 else 0)
        self.add(tree(h, d % 50))

    def o_burst(self, a, b, c, d):
        m = self.g["B"]
        n = d % 40
        t = 0
        for j in range(n):
            k = (d * 7 + j * 13) % m + 1
            self.alloc += k + 32
            t += 65 + j % 26 + k
        self.add(t)

    def o_slice(self, a, b, c, d):
        if self.s[a] is not None and len(self.s[a].d) > 2:
            x = self.s[a].d
            lo = d % len(x)
            t = 0
            self.alloc += 10 * 132
            for k in x[lo:]:
                t = (t * 3 + k) % 10007
            self.s[a] = None
            self.add(t)

    def o_walk(self, a, b, c, d):
        self.add(self.chk(self.p[a], self.g["W"]))

    def chk(self, x, depth):
        if x is None:
            return 1
        t = x.v + (sum_str(x.s) if x.s is not None else 5) + (x.i.d if x.i is not None else 3)
        if depth > 0:
            t += 3 * self.chk(x.l, depth - 1)
            t += 5 * self.chk(x.r, depth - 1)
            if x.k is not None:
                for j, y in enumerate(x.k.d):
                    t += (j + 2) * self.chk(y, depth - 2 if depth > 1 else 0)
        return t % 10007

    def o_dealloc(self, a, b, c, d):
        self.nodes()
        self.alloc += d + 33
        self.add(d % 100 + d + 1)

    def o_big(self, a, b, c, d):
        n = self.g["G"] // (1 + d % 3)
        x = [0] * n
        x[0], x[n - 1] = d, d + 1
        self.v[a] = Box(x)
        self.alloc += 4 * n
        if d % 2 == 0:
            self.v[a] = None

    def o_concat(self, a, b, c, d):
        n, m = d % 60, d % 7
        self.alloc += 2 * (n + m)
        self.add(n + m + 97 + ((d + 1) % 26 if n > 0 else 0))

    def o_swap(self, a, b, c, d):
        self.p[a], self.p[b] = self.p[b], self.p[a]
        self.s[b], self.s[c] = self.s[c], self.s[b]

    def o_copyrec(self, a, b, c, d):
        if self.p[a] is not None and depth(self.p[a]) < self.g["D"]:
            y, x = self.p[a], Node()
            x.v, x.l, x.r, x.s, x.k, x.i = y.v, y.l, y.r, y.s, y.k, y.i
            x.v = d
            self.p[b] = x
            self.nodes()

    def o_aggr(self, a, b, c, d):
        if depth(self.p[a]) < self.g["D"]:
            x = Node(d)
            x.r = Node(d + 1)
            x.r.l = self.p[a]
            x.k = Box([self.p[a], None, x.r])
            self.p[c] = x
            self.nodes(3)

    def o_intp(self, a, b, c, d):
        self.i[a] = Box(d)
        self.alloc += 32

    def o_share(self, a, b, c, d):
        if self.s[a] is not None and self.s[a].d:
            self.s[b] = self.s[a]
            self.s[b].d[0] = 98
            self.add(self.s[a].d[0] + len(self.s[b].d))

    def o_tabset(self, a, b, c, d):
        if depth(self.p[a]) < self.g["D"]:
            self.tab.d[(d * 37 + b) % self.g["G"]] = self.p[a]
            self.tab.d[self.g["G"] - 1 - d % 50] = self.p[a]

    def o_tabget(self, a, b, c, d):
        self.p[b] = self.tab.d[(d * 37 + c) % self.g["G"]]
        self.p[a] = self.tab.d[self.g["G"] - 1 - d % 50]

    def o_tabnew(self, a, b, c, d):
        if d % 8 == 0:
            self.tab = Box([None] * self.g["G"])
            self.alloc += 8 * self.g["G"]

    # ---- observation
    def total(self):
        t = self.sum
        for k in range(self.g["N"]):
            t = (t * 7 + self.chk(self.p[k], self.g["W"])) % 1000003
            t = (t * 7 + (sum_str(self.s[k]) if self.s[k] is not None else 11)) % 1000003
            t = (t * 7 + (sum_vec(self.v[k]) if self.v[k] is not None else 13)) % 1000003
            t = (t * 7 + (self.i[k].d if self.i[k] is not None else 17)) % 1000003
        return t

    def live(self, esz):
        seen = {}
        work = [x for x in self.p + self.s + self.v + self.i + [self.head, self.tab] if x is not None]
        while work:
            x = work.pop()
            if id(x) in seen:
                continue
            if isinstance(x, Node):
                seen[id(x)] = 96
                work.extend(y for y in (x.l, x.r, x.s, x.k, x.i) if y is not None)
            elif isinstance(x.d, list):
                seen[id(x)] = 64 + 8 * len(x.d)
                work.extend(y for y in x.d if isinstance(y, Node))
            else:
                seen[id(x)] = 32
        return sum(seen.values())


def depth(x, lim=4, seen=0):
    """Longest chain below x, as the VHDL function dep computes it."""
    if x is None or lim == 0:
        return 0
    m = max(depth(x.l, lim - 1), depth(x.r, lim - 1))
    if x.k is not None:
        for y in x.k.d:
            m = max(m, depth(y, lim - 1))
    return m + 1


def sum_str(s):
    t = len(s.d)
    for c in s.d:
        t = (t * 3 + c) % 10007
    return t


def sum_vec(v):
    t = len(v.d)
    for c in v.d:
        t = (t * 3 + c) % 10007
    return t


PKG = """package gp is
  type node;
  type nptr is access node;
  type sptr is access string;
  type ivec is array (natural range <>) of natural;
  type vptr is access ivec;
  type iptr is access integer;
  type nvec is array (natural range <>) of nptr;
  type kptr is access nvec;
  type node is record
    v : integer range 0 to 1000000;
    l, r : nptr;
    s : sptr;
    k : kptr;
    i : iptr;
  end record;
  type svec is array (natural range <>) of sptr;
  type vvec is array (natural range <>) of vptr;
  type ipvec is array (natural range <>) of iptr;
  constant NN : positive := @N@;
  type actor is record
    p : nvec(0 to NN - 1);
    s : svec(0 to NN - 1);
    v : vvec(0 to NN - 1);
    i : ipvec(0 to NN - 1);
    head : nptr;
    tab : kptr;
    len : natural;
    sum : natural;
    seed : natural;
  end record;
  type aptr is access actor;
  type prot is protected
    procedure init(seed : natural);
    procedure run(n : natural);
    procedure total(t : out natural);
  end protected;
  procedure init(a : inout actor; seed : natural);
  procedure run(a : inout actor; n : natural);
  procedure total(a : inout actor; t : out natural);
end package;
package body gp is
  procedure rnd(a : inout actor; m : positive; r : out natural) is
  begin
    a.seed := (a.seed * 1103 + 12345) mod 65536;
    r := (a.seed / 8) mod m;
  end procedure;
  procedure add(a : inout actor; x : natural) is
  begin a.sum := (a.sum * 31 + x) mod 1000003; end procedure;
  procedure dep(x : inout nptr; lim : natural; r : out natural) is
    variable m, t : natural := 0;
  begin
    if x = null or lim = 0 then r := 0; return; end if;
    dep(x.l, lim - 1, m);
    dep(x.r, lim - 1, t);
    if t > m then m := t; end if;
    if x.k /= null then
      for j in x.k'range loop
        dep(x.k(j), lim - 1, t);
        if t > m then m := t; end if;
      end loop;
    end if;
    r := m + 1;
  end procedure;
  function sum_str(s : string) return natural is
    variable t : natural := s'length;
  begin
    for k in s'range loop t := (t * 3 + character'pos(s(k))) mod 10007; end loop;
    return t;
  end function;
  function sum_vec(s : ivec) return natural is
    variable t : natural := s'length;
  begin
    for k in s'range loop t := (t * 3 + s(k)) mod 10007; end loop;
    return t;
  end function;
  procedure chk(x : inout nptr; depth : natural; r : out natural) is
    variable t, u : natural;
    variable d : natural := 0;
  begin
    if x = null then r := 1; return; end if;
    t := x.v;
    if x.s /= null then t := t + sum_str(x.s.all); else t := t + 5; end if;
    if x.i /= null then t := t + x.i.all; else t := t + 3; end if;
    if depth > 0 then
      chk(x.l, depth - 1, u); t := t + 3 * u;
      chk(x.r, depth - 1, u); t := t + 5 * u;
      if x.k /= null then
        if depth > 1 then d := depth - 2; end if;
        for j in x.k'range loop
          chk(x.k(j), d, u); t := t + (j + 2) * u;
        end loop;
      end if;
    end if;
    r := t mod 10007;
  end procedure;
  function fill(n, d : natural) return string is
    variable s : string(1 to n);
  begin
    for k in s'range loop s(k) := character'val(97 + (d + k) mod 26); end loop;
    return s;
  end function;
  function slen(s : string) return natural is begin return s'length; end function;
  procedure use_slice(a : inout actor; s : in string; q : natural) is
    variable t : natural := 0;
    variable g : sptr;
  begin
    a.s(q) := null;              -- the only reference left is the parameter
    for j in 1 to 10 loop g := new string(1 to 100); g.all := (1 to 100 => 'z'); end loop;
    for k in s'range loop t := (t * 3 + character'pos(s(k))) mod 10007; end loop;
    add(a, t);
  end procedure;
  procedure mktree(h, v : natural; r : out nptr) is
    variable x : nptr := new node;
  begin
    x.v := v mod 1009;
    if h > 0 then
      mktree(h - 1, v * 2 + 1, x.l);
      mktree(h - 1, v * 3 + 1, x.r);
    end if;
    r := x;
  end procedure;
  procedure sumtree(x : inout nptr; r : out natural) is
    variable a, b : natural := 0;
  begin
    if x = null then r := 0; return; end if;
    sumtree(x.l, a); sumtree(x.r, b);
    r := a + b + x.v;
  end procedure;
  procedure step(x : inout actor) is
    variable w, a, b, c, d, n, t, u, lo : natural;
    variable p, q : nptr;
    variable s : sptr;
    variable i : iptr;
  begin
    rnd(x, @WSUM@, w); rnd(x, NN, a); rnd(x, NN, b); rnd(x, NN, c); rnd(x, 1000, d);
    @BODY@
  end procedure;
  procedure init(a : inout actor; seed : natural) is
  begin
    a.p := (others => null); a.s := (others => null); a.v := (others => null); a.i := (others => null);
    a.tab := new nvec(0 to @G@ - 1); a.head := null; a.len := 0; a.sum := 0; a.seed := seed;
  end procedure;
  procedure run(a : inout actor; n : natural) is
  begin
    for k in 1 to n loop step(a); end loop;
  end procedure;
  procedure total(a : inout actor; t : out natural) is
    variable r : natural := a.sum;
    variable u : natural;
  begin
    for k in 0 to NN - 1 loop
      chk(a.p(k), @W@, u); r := (r * 7 + u) mod 1000003;
      if a.s(k) /= null then u := sum_str(a.s(k).all); else u := 11; end if; r := (r * 7 + u) mod 1000003;
      if a.v(k) /= null then u := sum_vec(a.v(k).all); else u := 13; end if; r := (r * 7 + u) mod 1000003;
      if a.i(k) /= null then u := a.i(k).all; else u := 17; end if; r := (r * 7 + u) mod 1000003;
    end loop;
    t := r;
  end procedure;
  type prot is protected body
    variable st : actor;
    procedure init(seed : natural) is begin init(st, seed); end procedure;
    procedure run(n : natural) is begin run(st, n); end procedure;
    procedure total(t : out natural) is begin total(st, t); end procedure;
  end protected body;
end package body;
"""

BODY = {
    "newnode": """p := new node; p.v := d;
      dep(x.p(b), 4, t); if t < @D@ then p.l := x.p(b); end if;
      dep(x.p(c), 4, t); if t < @D@ then p.r := x.p(c); end if;
      p.s := x.s(a); p.i := x.i(c); p.k := null; x.p(a) := p;""",
    "setlink": "if x.p(a) /= null then if d mod 3 /= 0 then x.p(a).l := x.p(b); else x.p(a).l := null; end if; end if;",
    "clear": """case d mod 4 is when 0 => x.p(a) := null; when 1 => x.s(a) := null; when 2 => x.v(a) := null; when others => x.i(a) := null; end case;""",
    "newstr": "x.s(a) := new string'(fill(d mod @S@, d));",
    "append": "if x.s(a) /= null then if x.s(a)'length < @S3@ then x.s(a) := new string'(x.s(a).all & character'val(97 + d mod 26)); end if; end if;",
    "grow2": """if x.s(a) /= null and x.s(b) /= null then
        if x.s(a)'length + x.s(b)'length < @S4@ then x.s(c) := new string'(x.s(a).all & x.s(b).all); end if; end if;""",
    "mutate": """if x.p(a) /= null then x.p(a).v := (x.p(a).v + d) mod 10007; end if;
      if x.s(b) /= null then if x.s(b)'length > 0 then x.s(b)(x.s(b)'low + d mod x.s(b)'length) := character'val(65 + d mod 26); end if; end if;
      if x.v(c) /= null then if x.v(c)'length > 0 then x.v(c)(d mod x.v(c)'length) := d; end if; end if;
      if x.i(a) /= null then x.i(a).all := (x.i(a).all + d) mod 5003; end if;""",
    "newvec": """n := d mod @V@; x.v(a) := new ivec(0 to n - 1); if b mod 2 = 0 and n > 0 then x.v(a)(d mod n) := d; end if;""",
    "dflt": "x.p(a) := new node; x.p(a).v := x.p(a).v + 7; if x.p(a).l /= null or x.p(a).k /= null or x.p(a).s /= null or x.p(a).i /= null then add(x, 99); end if;",
    "kids": "if x.p(a) /= null then x.p(a).k := new nvec(0 to d mod 9); end if;",
    "kid": """if x.p(a) /= null then if x.p(a).k /= null then dep(x.p(b), 4, t);
        if t < @D@ then x.p(a).k(d mod x.p(a).k'length) := x.p(b); end if; end if; end if;""",
    "prepend": """for j in 1 to d mod 20 loop
        p := new node'(v => d + j, l => x.head, r => null, s => null, k => null, i => null); x.head := p; x.len := x.len + 1; end loop;
      if x.len > @L@ then
        if d mod 2 = 0 then x.head := null; x.len := 0;
        else p := x.head; for j in 1 to 9 loop p := p.l; end loop; p.l := null; x.len := 10; end if;
      end if;""",
    "reverse": """p := x.head; q := null; x.head := null;
      while p /= null loop x.head := p; p := p.l; x.head.l := q; q := x.head; end loop;
      x.head := q; p := q;
      while p /= null loop add(x, p.v); p := p.l; end loop;""",
    "tree": "mktree(d mod (@T@ + 1), d mod 50, p); sumtree(p, t); add(x, t);",
    "burst": """t := 0; for j in 0 to d mod 40 - 1 loop
        s := new string(1 to (d * 7 + j * 13) mod @B@ + 1); s(s'right) := character'val(65 + j mod 26); t := t + character'pos(s(s'length)) + s'length; end loop;
      add(x, t);""",
    "slice": """if x.s(a) /= null then if x.s(a)'length > 2 then
        lo := d mod x.s(a)'length; use_slice(x, x.s(a)(x.s(a)'low + lo to x.s(a)'high), a); end if; end if;""",
    "walk": "chk(x.p(a), @W@, t); add(x, t);",
    "dealloc": """p := new node; p.v := d mod 100; s := new string(1 to d + 1); t := p.v + s'length; deallocate(p); deallocate(s);
      if p /= null or s /= null then add(x, 1); end if; add(x, t);""",
    "big": """n := @G@ / (1 + d mod 3); x.v(a) := new ivec(0 to n - 1); x.v(a)(0) := d; x.v(a)(n - 1) := d + 1;
      if d mod 2 = 0 then x.v(a) := null; end if;""",
    "concat": """n := d mod 60; t := slen(fill(n, d) & fill(d mod 7, d)); if n > 0 then t := t + character'pos(fill(n, d)(1)) + 0; else t := t + 97; end if;
      add(x, t);""",
    "swap": "p := x.p(a); x.p(a) := x.p(b); x.p(b) := p; s := x.s(b); x.s(b) := x.s(c); x.s(c) := s;",
    "copyrec": """if x.p(a) /= null then dep(x.p(a), 4, t); if t < @D@ then
        p := new node'(v => x.p(a).v, l => x.p(a).l, r => x.p(a).r, s => x.p(a).s, k => x.p(a).k, i => x.p(a).i); p.v := d; x.p(b) := p; end if; end if;""",
    "aggr": """dep(x.p(a), 4, t); if t < @D@ then
        p := new node; p.v := d; p.r := new node'(d + 1, x.p(a), null, null, null, null); p.k := new nvec(0 to 2);
        p.k(0) := x.p(a); p.k(2) := p.r; x.p(c) := p; end if;""",
    "intp": "x.i(a) := new integer'(d);",
    "tabset": """dep(x.p(a), 4, t); if t < @D@ then x.tab((d * 37 + b) mod @G@) := x.p(a); x.tab(@G@ - 1 - d mod 50) := x.p(a); end if;""",
    "tabget": "x.p(b) := x.tab((d * 37 + c) mod @G@); x.p(a) := x.tab(@G@ - 1 - d mod 50);",
    "tabnew": "if d mod 8 = 0 then x.tab := new nvec(0 to @G@ - 1); end if;",
    "share": """if x.s(a) /= null then if x.s(a)'length > 0 then x.s(b) := x.s(a); x.s(b)(x.s(b)'low) := 'b';
        add(x, character'pos(x.s(a)(x.s(a)'low)) + x.s(b)'length); end if; end if;""",
}


def gen(s, index):
    g = {"N": s.int(2, 7), "D": s.int(2, 4), "S": s.choice([5, 30, 100, 200]), "V": s.choice([4, 20, 60]), "L": s.choice([10, 30, 200]),
         "T": s.int(2, 6), "B": s.choice([10, 64, 300, 1000]), "W": s.int(1, 4), "G": s.choice([200, 1500, 9000, 30000, 100000])}
    ops = s.sample(OPS, s.int(5, len(OPS)))
    if "burst" not in ops and s.bool(0.7):
        ops.append("burst")
    focus = g["G"] >= 30000 and s.bool(0.8)
    if focus:
        # objects referenced only from the table while garbage is collected
        g["B"] = s.choice([20000, 60000])
        ops += [o for o in ("newnode", "tabset", "tabget", "burst", "clear") if o not in ops]
    g["ops"] = ops
    cum, t = [], 0
    for o in ops:
        t += s.choice([6, 12]) if focus and o in ("newnode", "tabset", "tabget", "burst") else s.choice([1, 1, 2, 3, 5]) if o not in ("big", "tree") else 1
        cum.append(t)
    g["cum"], g["wsum"] = cum, t
    std = s.choice(["1993", "2008", "2008", "2019"])
    kinds = []
    for _ in range(s.int(1, 3)):
        kinds.append(s.choice(["var", "var", "heap", "wait", "local"] + (["prot", "prot"] if std != "1993" else ["shared"])))
    rounds = s.int(2, 8) if g["G"] < 30000 else 2
    iters = s.choice([60, 150, 400, 800]) if g["G"] < 9000 else s.choice([60, 150])
    if focus:
        kinds, rounds, iters = kinds[:2], s.int(2, 4), s.choice([200, 400])
    seeds = [s.int(0, 65535) for _ in kinds]
    oom = s.bool(0.08)
    body = []
    for i, o in enumerate(ops):
        body.append("    %s w < %d then\n      %s" % ("if" if i == 0 else "elsif", cum[i], BODY[o]))
    body.append("    end if;")
    src = PKG.replace("@BODY@", "\n".join(body))
    for k, v in (("@S3@", 3 * g["S"]), ("@S4@", 4 * g["S"]), ("@WSUM@", g["wsum"])) + tuple(("@%s@" % k, g[k]) for k in "NDSVLTBWG"):
        src = src.replace(k, str(v))
    if std == "1993":
        src = re.sub(r"  type prot is protected\b.*?end protected;\n", "", src, flags=re.S)
        src = re.sub(r"  type prot is protected body.*?end protected body;\n", "", src, flags=re.S)
    # the model
    acts = [Actor(g, sd) for sd in seeds]
    events = []
    maxlive = 0
    for r in range(rounds):
        for k, a in enumerate(acts):
            for it in range(iters):
                a.step()
                if it % (40 if focus else 10) == 0:
                    lv = sum(x.live(8) for x in acts)
                    maxlive = max(maxlive, lv)
            events.append("%d:%d:%d" % (k, r, a.total()))
    alloc = sum(a.alloc for a in acts)
    # source: processes take turns through time
    src += "use work.gp.all;\nentity tb is end entity;\narchitecture a of tb is\n"
    for k, kd in enumerate(kinds):
        if kd == "prot":
            src += "  shared variable sp%d : prot;\n" % k
        if kd == "shared":
            src += "  shared variable sv%d : actor;\n" % k
    src += "begin\n"
    np = len(kinds)
    for k, kd in enumerate(kinds):
        rep = 'report "%d:" & integer\'image(r) & ":" & integer\'image(t);' % k
        first = "wait for %d ns;" % (k + 1)
        again = "wait for %d ns;" % np
        src += "  q%d : process\n    variable t : natural;\n" % k
        if kd == "var":
            src += "    variable st : actor;\n  begin\n    init(st, %d); %s\n    for r in 0 to %d loop run(st, %d); total(st, t); %s %s end loop;\n" % (
                seeds[k], first, rounds - 1, iters, rep, again)
        elif kd == "shared":
            src += "  begin\n    init(sv%d, %d); %s\n    for r in 0 to %d loop run(sv%d, %d); total(sv%d, t); %s %s end loop;\n" % (
                k, seeds[k], first, rounds - 1, k, iters, k, rep, again)
        elif kd == "prot":
            src += "  begin\n    sp%d.init(%d); %s\n    for r in 0 to %d loop sp%d.run(%d); sp%d.total(t); %s %s end loop;\n" % (
                k, seeds[k], first, rounds - 1, k, iters, k, rep, again)
        elif kd == "heap":
            src += "    variable st : aptr;\n  begin\n    st := new actor; init(st.all, %d); %s\n    for r in 0 to %d loop run(st.all, %d); total(st.all, t); %s %s end loop;\n" % (
                seeds[k], first, rounds - 1, iters, rep, again)
        elif kd == "local":
            src += ("    procedure go is variable st : actor; variable u : natural; begin init(st, %d); %s\n    for r in 0 to %d loop run(st, %d); total(st, u); t := u; %s %s end loop; end procedure;\n"
                    "  begin\n    go;\n" % (seeds[k], first, rounds - 1, iters, rep, again))
        else:
            src += ("    procedure go(st : inout actor; n : natural; r : natural) is variable keep : nptr; variable str : sptr; begin\n"
                    "      keep := new node; keep.v := 1234; str := new string'(fill_s(20));\n"
                    "      for j in 1 to n / 50 loop run(st, 50); wait for 0 ns; end loop;\n"
                    "      run(st, n mod 50); total(st, t); assert keep.v = 1234 and str.all = fill_s(20) report \"lost\" severity failure; %s end procedure;\n"
                    "    variable st : actor;\n  begin\n    init(st, %d); %s\n    for r in 0 to %d loop go(st, %d, r); %s end loop;\n" % (
                        rep, seeds[k], first, rounds - 1, iters, again))
            if "function fill_s" not in src:
                src = src.replace("architecture a of tb is\n", "architecture a of tb is\n  function fill_s(n : natural) return string is variable s : string(1 to n) := (others => 'q'); begin return s & \"end\"; end function;\n")
        if oom and k == 0:
            src += "    hoard: loop h := new node'(v => 1, l => h, r => null, s => null, k => null, i => null); end loop;\n"
            src = src.replace("  q0 : process\n", "  q0 : process\n    variable h : nptr;\n")
        src += "    wait;\n  end process;\n"
    src += "end architecture;\n"
    tmp = 200 * 2 ** (g["T"] + 1) + 16 * g["G"] + 10 * g["B"] + 4000
    heap = 3 * (maxlive + tmp) + 48 * 1024 + np * 4096
    heap = heap if focus or s.bool(0.7) else heap * s.choice([2, 3, 8])
    heap = (heap + 1023) // 1024
    if oom:
        events = [e for e in events]
        # after the hoarding process ran out of memory nothing else is reported
        last = max(i for i, e in enumerate(events) if e.startswith("0:")) if kinds else 0
    return {"src": src, "events": events, "heap": heap, "maxlive": maxlive, "alloc": alloc, "std": std, "oom": oom, "kinds": kinds, "ops": ops,
            "async": s.bool(0.3), "engine": s.choice(["interp", "jit", "jit", "mixed"] + (["aot0", "aot2", "aot3"] if index % 3 == 0 else []))}


def check(case, env):
    env.label("std" + case["std"], case["engine"], *case["kinds"])
    env.label(*["op-" + o for o in case["ops"]])
    if case["oom"]:
        env.label("oom")
    if case["oom"] or case["alloc"] > 3 * 1024 * case["heap"]:
        env.mark(case["src"])
        env.label("collects")
    d = env.dir()
    heap = "%dk" % case["heap"]
    r = nvc.sim(env, d, case["src"], std=case["std"], engine=case["engine"], gopts=["-H", heap], cpu=120,
                xenv={"NVC_JIT_ASYNC": "1"} if case["async"] else None)
    env.count(len(case["events"]))
    what = "heap %s, live %d, %s" % (heap, case["maxlive"], case["engine"])
    if r.timeout:
        raise pbt.Fail("timeout (%s)" % what, "timeout")
    if r.crashed:
        raise pbt.Fail("nvc crashed rc=%d (%s)" % (r.rc, what), "crash", r.err[-1500:])
    got = re.findall(r"Note: \d+\w+\+\d+: (\d+:\d+:\d+)", r.out + r.err)
    want = case["events"]
    if case["oom"]:
        if got != want[:len(got)] and got != want:
            raise pbt.Fail("wrong values before running out of memory (%s): %s expected %s" % (what, got[-3:], want[:len(got)][-3:]), "values", r.err[-800:])
        if r.rc != 1 or "out of memory" not in r.err + r.out:
            raise pbt.Fail("out of memory not reported (%s): rc=%d" % (what, r.rc), "oom", r.err[-800:])
        return
    if got != want:
        k = next(i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i])
        raise pbt.Fail("checksum %d is %s, expected %s (%s)" % (k, got[k] if k < len(got) else None, want[k] if k < len(want) else None, what),
                       "oom" if "out of memory" in r.err else "values", r.err[-1500:])
    if r.rc != 0:
        raise pbt.Fail("rc=%d (%s)" % (r.rc, what), "rc", r.err[-1500:])


if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
