"""C24: names and overloads against a reference model of scope, visibility and overload resolution."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import pbt, nvc
from vp.pbt import Fail, Skip

PID = "C24"
CASES = {"quick": 1500, "thorough": 60000}
RULE = ("one name or call whose meaning is compared with the model (value of the selected declaration, or rejection); non-trivial if at least "
        "two declarations of the designator exist at that point and the name is hidden, overloaded or made visible by a use clause; distinct by "
        "expression, context and the candidate declarations")
TECHNIQUE = ("property-based testing: random nestings of packages, architectures, blocks, generates, processes, procedures and loops that declare "
             "constants, overloaded functions, operators, enumeration literals and aliases over a tiny pool of designators, with use clauses and "
             "expanded names in random spelling, against a Python model of IEEE 1076-2008 clause 12, with shrinking")
NOTE = "three operand types, functions with up to two parameters, named association, extended identifiers, nesting up to five regions"
ASSUMPTIONS = ["visibility follows IEEE 1076-2008 sections 12.3 to 12.5"]
POOL = ["a", "b", "f", "\\a\\", "\\A\\", '"+"']
TY = ["TA", "TB", "INTEGER"]
ODD = False
TT = """package tt is
  type TA is record v : INTEGER; end record;
  type TB is record v : INTEGER; end record;
  constant ka : TA := (v => 1);
  constant kb : TB := (v => 2);
  function ma (i : INTEGER) return TA;
  function mb (i : INTEGER) return TB;
  function mi (i : INTEGER) return INTEGER;
  function va (i : TA) return INTEGER;
  function vb (i : TB) return INTEGER;
  function vi (i : INTEGER) return INTEGER;
  procedure pr (k, v : INTEGER);
end package;
package body tt is
  function ma (i : INTEGER) return TA is begin return (v => i); end function;
  function mb (i : INTEGER) return TB is begin return (v => i); end function;
  function mi (i : INTEGER) return INTEGER is begin return i; end function;
  function va (i : TA) return INTEGER is begin return i.v; end function;
  function vb (i : TB) return INTEGER is begin return i.v; end function;
  function vi (i : INTEGER) return INTEGER is begin return i; end function;
  procedure pr (k, v : INTEGER) is begin std.textio.write(std.textio.output, INTEGER'image(k) & " " & INTEGER'image(v) & LF); end procedure;
end package body;
"""
MK = {"TA": "work.tt.ma", "TB": "work.tt.mb", "INTEGER": "work.tt.mi"}
VK = {"TA": "work.tt.va", "TB": "work.tt.vb", "INTEGER": "work.tt.vi"}


class D:
    """A declaration: name, kind (obj, fun, lit), parameter types and names, result type, tag."""
    n = 0

    def __init__(self, name, kind, params, pnames, res, tag, alias=None):
        self.name, self.kind, self.params, self.pnames, self.res, self.tag = name, kind, tuple(params), tuple(pnames), res, tag
        self.ent = alias or self         # the denoted entity

    def over(self):
        return self.kind != "obj"

    def homo(self, o):
        if self.name != o.name:
            return False
        if self.over() and o.over():
            return self.params == o.params and self.res == o.res
        return True


# the predefined operator of STANDARD.INTEGER
PLUS = D('"+"', "fun", ("INTEGER", "INTEGER"), ("L", "R"), "INTEGER", 0)


class R:
    def __init__(self, kind, label):
        self.kind, self.label, self.decls, self.uses = kind, label, [], []
        self.formals = False        # K24-expanded: no expanded names into subprograms with parameters


def tr(ty):
    return ty if ty == "INTEGER" else ty if "." in ty else "work.tt." + ty


class G:
    def __init__(self, s):
        self.s = s
        self.out = []
        self.k = 0
        self.exp, self.bad = [], []
        self.pkgs = []
        self.stack = []
        self.tests = 0
        self.names = s.sample(POOL, s.int(2, 4))
        self.enums = {}

    def uid(self):
        self.k += 1
        return self.k

    def emit(self, t):
        self.out.append(t)

    def sp(self, name):
        """Random spelling of a designator."""
        s = self.s
        if name.startswith("\\") or name.startswith('"'):
            return name
        return name.upper() if s.bool(0.3) else name

    # ---- declarations
    def mkdecl(self, reg, pkg=False):
        s = self.s
        name = s.choice(self.names)
        kind = s.weighted([(5, "fun"), (2, "obj"), (1, "lit"), (1, "alias")])
        if name == '"+"' and kind in ("obj", "lit"):
            kind = "fun"
        u = self.uid()
        if kind == "alias":
            src = [d for p in self.pkgs for d in p.decls if d.kind in ("fun", "obj") and (d.name != '"+"') == (name != '"+"') and d.ent is d
                   and p is not reg]
            if name == '"+"':
                src = [d for d in src if d.name == '"+"']
            if not src:
                return
            t = s.choice(src)
            p = [p for p in self.pkgs if t in p.decls][0]
            d = D(name, t.kind, t.params, t.pnames, t.res, t.tag, t)
            if any(d.homo(o) for o in reg.decls):
                return
            ref = "work.%s.%s" % (p.label, t.name)
            if t.kind == "fun":
                self.emit("alias %s is %s [%s return %s];" % (self.sp(name), ref, ", ".join(tr(x) for x in t.params), tr(t.res)))
            else:
                self.emit("alias %s is %s;" % (self.sp(name), ref))
            reg.decls.append(d)
            return
        if kind == "obj":
            ty = s.choice(TY)
            d = D(name, "obj", (), (), ty, 100 + u)
            if any(d.homo(o) for o in reg.decls):
                return
            self.emit("constant %s : %s := %s(%d);" % (self.sp(name), tr(ty), MK[ty], d.tag))
            reg.decls.append(d)
        elif kind == "lit":
            lits = s.sample([n for n in self.names if n != '"+"'], s.int(1, 2))
            if not lits:
                return
            t = "e%d" % u
            full = "work.%s.%s" % (reg.label, t) if pkg else t
            if not pkg:
                return
            ds = [D(n, "lit", (), (), full, i + 1) for i, n in enumerate(lits)]
            if any(d.homo(o) for d in ds for o in reg.decls):
                return
            self.emit("type %s is (zz%d, %s);" % (t, u, ", ".join(self.sp(x) for x in lits)))
            reg.decls += ds
            self.enums[full] = reg.label
        else:
            n = 2 if name == '"+"' else s.weighted([(2, 0), (4, 1), (2, 2)])
            params = [s.choice(TY) for _ in range(n)]
            if name == '"+"' and all(p == "INTEGER" for p in params):
                params[0] = "TA"
            res = s.choice(TY)
            pn = [("x", "y"), ("u", "w"), ("x", "w")][s.weighted([(4, 0), (1, 1), (1, 2)])][:n]
            d = D(name, "fun", params, pn, res, 100 + u)
            if any(d.homo(o) for o in reg.decls):
                return
            sig = "function %s %s return %s" % (self.sp(name), "(" + "; ".join("%s : %s" % (a, tr(b)) for a, b in zip(pn, params)) + ")" if n else "", tr(res))
            body = "begin return %s((%d%s) mod 10007); end function;" % (MK[res], d.tag, "".join(
                " + %d * %s(%s)" % (7 + 6 * i, VK[p], a) for i, (p, a) in enumerate(zip(params, pn))))
            if pkg:
                self.emit(sig + ";")
                reg.bodies.append(sig + " is " + body)
            elif s.bool(0.2):
                self.emit(sig + ";")
                self.emit(sig + " is " + body)
            else:
                self.emit(sig + " is " + body)
            reg.decls.append(d)

    def use(self, reg):
        s = self.s
        if not self.pkgs:
            return
        p = s.choice(self.pkgs)
        if p is reg:
            return
        if s.bool(0.5) or not p.decls:
            self.emit("use work.%s.all;" % self.sp(p.label))
            reg.uses.append((p, None))
        else:
            n = s.choice(p.decls).name
            self.emit("use work.%s.%s;" % (p.label, self.sp(n)))
            reg.uses.append((p, n))

    # ---- the model
    def visible(self, name):
        """Declarations of name visible at this point (direct visibility)."""
        direct, hidden = [], []
        stop = False
        for reg in reversed(self.stack):
            here = [d for d in reg.decls if d.name == name]
            for d in here:
                if not stop and not any(d.homo(o) for o in direct):
                    direct.append(d)
                hidden.append(d)
            if any(not d.over() for d in here):
                stop = True
        pot = []
        for reg in self.stack:
            for p, n in reg.uses:
                if n is None or n == name:
                    pot += [d for d in p.decls if d.name == name and d not in pot]
        self.pot = len(pot)
        total = len(hidden) + len(pot)
        if name == '"+"' and not any(d.homo(PLUS) for d in hidden):
            direct.append(PLUS)
        if not all(d.over() for d in pot) and len({id(d.ent) for d in pot}) > 1:
            pot2 = []
        else:
            pot2 = [d for d in pot if not any(d.homo(o) for o in hidden)]
        if any(d.homo(o) and not (d.over() and o.over()) for d in pot for o in hidden):
            self.odd = True
        if len(pot) > 1 and not all(d.over() for d in pot):
            # K24-useregion: use clauses that make different declarations visible, one of them an object
            self.odd = True
        if total > 1 and any(d.ent is not d and d.over() for d in direct + pot):
            # K24-alias: an overloaded subprogram alias
            self.odd = True
        return direct + pot2, total, len(pot2)

    def interps(self, e):
        """[(result type, value function)] for an expression tree."""
        if e[0] == "atom":
            return [(e[1], e[2], ())]
        cands, args = e[1], e[2]
        subs = [(n, self.interps(x)) for n, x in args]
        out = []
        seen = set()
        for d in cands:
            if len(d.params) != len(args) or id(d.ent) in seen and False:
                continue
            order = []
            ok = True
            for i, (n, alts) in enumerate(subs):
                j = i if n is None else (d.pnames.index(n) if n in d.pnames else -1)
                if j < 0 or j in order:
                    ok = False
                    break
                order.append(j)
            if not ok:
                continue
            combos = [()]
            for (n, alts), j in zip(subs, order):
                combos = [c + ((j, a),) for c in combos for a in alts if a[0] == d.params[j]]
            for c in combos:
                if d is PLUS:
                    v = sum(a[1] for j, a in c)
                elif d.kind == "fun":
                    v = d.tag + sum((7 + 6 * j) * a[1] for j, a in c)
                    v %= 10007
                else:
                    v = d.tag
                out.append((d.res, v, (id(d.ent),) + tuple(a[2] for j, a in c)))
        return out

    def expr(self, depth, want):
        """-> (text, tree, information)"""
        s = self.s
        if depth >= 3 or depth and s.bool(0.35):
            ty = want or s.choice(TY)
            if ty == "TA":
                return "work.tt.ka", ("atom", "TA", 1, ()), 0
            if ty == "TB":
                return "work.tt.kb", ("atom", "TB", 2, ()), 0
            k = s.int(0, 9)
            return ("%d" % k if k % 2 else "16#%X#" % k), ("atom", "INTEGER", k, ()), 0
        name = s.choice(self.names)
        how = s.weighted([(7, "direct"), (1, "sel"), (1, "exp")])
        pre = ""
        if how == "sel" and self.pkgs:
            p = s.choice(self.pkgs)
            cands = [d for d in p.decls if d.name == name]
            pre, info = "work.%s." % p.label, len(cands)
            tot, u = len(cands), 0
        elif how == "exp" and self.stack[-1].label and not self.stack[-1].formals and any(d.name == name for d in self.stack[-1].decls):
            cands = [d for d in self.stack[-1].decls if d.name == name]
            pre = self.sp(self.stack[-1].label) + "."
            tot, u = len(cands), 0
        else:
            cands, tot, u = self.visible(name)
        lits = [d for d in cands if d.kind == "lit"]
        # mostly aim at an existing declaration
        if cands and s.bool(0.9):
            aim = s.choice([d for d in cands if want is None or d.res == want] or cands)
            types, pn = aim.params, aim.pnames
        else:
            if name == '"+"':
                types = [s.choice(TY), s.choice(TY)]
                if types == ["INTEGER", "INTEGER"]:
                    types[1] = "TB"
            else:
                types = [s.choice(TY) for _ in range(s.int(0, 2))]
            pn = ("x", "y")[:len(types)]
        if how == "exp" and self.visible(name) and self.pot:
            self.odd = True
        if not types and name != '"+"':
            _, al, po = self.visible(name)
            if al > 1 and self.pot or pre and any(d.kind == "fun" for d in cands):
                # K24-noargs: an overloaded name without arguments, partly visible through use clauses
                self.odd = True
        args, texts = [], []
        infix = name == '"+"' and not pre and s.bool(0.7)
        named = bool(types) and not infix and s.bool(0.25)
        order = list(range(len(types)))
        if named:
            order = s.shuffle(order) or order
        for i in order:
            t, tree, _ = self.expr(depth + 1, types[i])
            args.append((pn[i] if named else None, tree))
            if name == '"+"' and tree[0] == "call" and len({x[0] for x in self.interps(tree)}) > 1:
                # K24-nested: an overloaded operator as an operand of an overloaded operator
                self.odd = True
            texts.append(("%s => " % self.sp(pn[i]) if named else "") + t)
        tree = ("call", cands, args)
        if infix:
            tx = "(%s + %s)" % tuple(texts)
        else:
            sep = s.weighted([(5, ""), (1, " "), (1, " /* c */ ")])
            tx = pre + self.sp(name) + sep + ("(" + ", ".join(texts) + ")" if texts else "")
        return tx, tree, (tot, u, len(cands))

    def test(self, const):
        """One observation, as a constant declaration or a statement."""
        s = self.s
        u = self.uid()
        en = [t for t in self.enums]
        want = s.choice(TY)
        if en and s.bool(0.15):
            want = s.choice(en)
        self.odd = False
        tx, tree, info = self.expr(0, want)
        if self.odd and not ODD:
            # K24-useinner: a use clause against an object declaration of the same designator
            return
        if want in self.enums:
            full = "%s'pos(%s'(%s))" % (want, want, tx)
        else:
            full = "%s(%s)" % (VK[want], tx)
        its = {(i[1], i[2]) for i in self.interps(tree) if i[0] == want}
        n = len([i for i in self.interps(tree) if i[0] == want])
        if const:
            line = "constant z%d : INTEGER := %s;" % (u, full)
        else:
            line = "work.tt.pr(%d, %s);" % (u, full)
        if n == 1:
            self.emit(line)
            if const:
                self.later.append("work.tt.pr(%d, z%d);" % (u, u))
            v = list(its)[0][0]
            self.exp.append([u, v, full, list(info) if isinstance(info, tuple) else [0, 0, 0]])
        elif len(its) == n and len(self.bad) < 3:
            # no interpretation, or several different ones
            self.emit("--BAD%d " % len(self.bad) + line)
            self.bad.append([full, "none" if n == 0 else "ambiguous", u])
        self.tests += 1

    def decls(self, reg, pkg=False):
        s = self.s
        for _ in range(s.int(1, 4)):
            w = s.weighted([(5, "d"), (2, "u"), (2, "t")])
            if w == "d":
                self.mkdecl(reg, pkg)
            elif w == "u":
                self.use(reg)
            elif not pkg:
                self.test(True)

    def package(self):
        s = self.s
        reg = R("pkg", "pk%d" % len(self.pkgs))
        reg.bodies = []
        self.stack = [reg]
        self.emit("package %s is" % reg.label)
        for _ in range(s.int(1, 6)):
            self.mkdecl(reg, True)
        self.emit("end package;")
        self.emit("package body %s is" % reg.label)
        for b in reg.bodies:
            self.emit(b)
        self.emit("end package body;")
        self.pkgs.append(reg)
        self.stack = []

    def stmts(self, depth):
        """Sequential statements."""
        s = self.s
        for _ in range(s.int(1, 4)):
            if s.bool(0.2) and depth < 4:
                n = s.choice([x for x in self.names if x != '"+"'] or ["a"])
                k = self.uid()
                reg = R("loop", "lp%d" % k)
                reg.decls.append(D(n, "obj", (), (), "INTEGER", 100 + k))
                self.emit("lp%d : for %s in %d to %d loop" % (k, self.sp(n), 100 + k, 100 + k))
                self.stack.append(reg)
                self.stmts(depth + 1)
                self.stack.pop()
                self.emit("end loop;")
            else:
                self.test(False)

    def seqregion(self, kind, depth):
        """A process or a procedure: declarations, nested procedures, statements."""
        s = self.s
        k = self.uid()
        reg = R(kind, "r%d" % k)
        call = None
        if kind == "process":
            self.emit("r%d : process is" % k)
        else:
            if s.bool(0.4):
                n = s.choice([x for x in self.names if x != '"+"'] or ["a"])
                ty = s.choice(TY)
                reg.decls.append(D(n, "obj", (), (), ty, 100 + k))
                reg.formals = True
                self.emit("procedure r%d (%s : %s) is" % (k, self.sp(n), tr(ty)))
                call = "r%d(%s(%d));" % (k, MK[ty], 100 + k)
            else:
                self.emit("procedure r%d is" % k)
                call = "r%d;" % k
        self.stack.append(reg)
        save, self.later = self.later, []
        calls = []
        self.decls(reg)
        if depth < 3 and s.bool(0.4):
            calls.append(self.seqregion("procedure", depth + 1))
            self.decls(reg)
        self.emit("begin")
        for l in self.later:
            self.emit(l)
        for c in calls:
            self.emit(c)
        self.stmts(depth)
        if kind == "process":
            self.emit("wait;")
        self.emit("end %s;" % kind)
        self.later = save
        self.stack.pop()
        return call

    def conc(self, depth):
        """Concurrent statements."""
        s = self.s
        for _ in range(s.int(1, 2)):
            w = s.weighted([(3, "process"), (1, "block"), (1, "gen")]) if depth < 2 else "process"
            if w == "process":
                self.seqregion("process", depth)
                continue
            k = self.uid()
            reg = R(w, "bl%d" % k)
            if w == "block":
                self.emit("bl%d : block is" % k)
            else:
                n = s.choice([x for x in self.names if x != '"+"'] or ["a"])
                self.emit("bl%d : for %s in %d to %d generate" % (k, self.sp(n), 100 + k, 100 + k))
                reg.decls.append(D(n, "obj", (), (), "INTEGER", 100 + k))
                reg.label = None
            self.stack.append(reg)
            save, self.later = self.later, []
            self.decls(reg)
            self.emit("begin")
            self.flush()
            self.conc(depth + 1)
            self.later = save
            self.stack.pop()
            self.emit("end %s;" % ("block" if w == "block" else "generate"))

    def flush(self):
        if self.later:
            self.emit("process is begin")
            for l in self.later:
                self.emit(l)
            self.emit("wait; end process;")

    def build(self):
        s = self.s
        self.later = []
        for _ in range(s.int(1, 3)):
            self.package()
        self.emit("entity tb is end entity;")
        ctx = R("ctx", None)
        if s.bool(0.6):
            self.stack = [ctx]
            self.use(ctx)
        reg = R("arch", "ar")
        self.stack = [ctx, reg]
        self.emit("architecture ar of tb is")
        self.decls(reg)
        self.emit("begin")
        self.flush()
        self.conc(0)
        self.emit("end architecture;")


def gen(s, index):
    g = G(s)
    g.build()
    return {"src": TT + "\n".join(g.out) + "\n", "expect": g.exp, "bad": g.bad, "engine": s.weighted([(3, "interp"), (1, "jit")])}


def check(case, env):
    src = case["src"]
    plain = re.sub(r"(?m)^--BAD\d .*$", "", src)
    det = {"src": src}
    if case["expect"]:
        r = nvc.sim(env, env.dir(), plain, engine=case["engine"], gopts=["--messages=compact"])
        if r.timeout:
            raise Skip("time limit")
        if r.crashed:
            raise Fail("nvc crashed: %d %s" % (r.rc, (r.out + r.err)[-800:]), "crash", det)
        got = {}
        for l in r.out.split("\n"):
            m = re.fullmatch(r"(\d+) (-?\d+)", l)
            if m:
                got.setdefault(int(m.group(1)), []).append(int(m.group(2)))
        if r.rc != 0:
            m = re.search(r"t\.vhd:(\d+):\d+: error", r.err)
            line = src.split("\n")[int(m.group(1)) - 1] if m else "?"
            raise Fail("legal name rejected: %s\nline: %s" % ("\n".join(re.findall(r".*(?:error|fatal):.*", r.err, re.I))[:300], line), "reject", det)
        for u, v, tx, info in case["expect"]:
            env.count()
            if got.get(u) != [v]:
                raise Fail("%d: %s selects value %s, expected %s" % (u, tx, got.get(u), v), "value", det)
            if info[0] >= 2:
                env.mark(tx + repr(info))
            env.label("direct" if not info[1] else "use", "overloaded" if info[2] > 1 else "single", "hidden" if info[0] > info[2] else "nothidden")
    for i, (tx, why, u) in enumerate(case["bad"]):
        t = re.sub(r"(?m)^--BAD(\d) ", lambda m: "" if int(m.group(1)) == i else m.group(0), src)
        d = env.dir()
        with open(os.path.join(d, "t.vhd"), "w") as f:
            f.write(t)
        r = nvc.run([env.nvc, "-L", env.lib, "--std=2008", "--messages=compact", "-a", "t.vhd"], d)
        env.count()
        if r.timeout:
            raise Skip("time limit")
        if r.crashed:
            raise Fail("nvc crashed: %d %s" % (r.rc, (r.out + r.err)[-800:]), "crash", det)
        env.label("bad-" + why)
        if r.rc == 0:
            raise Fail("%s (%s) accepted" % (tx, why), "accept-" + why, det)
        env.mark(tx + why)


def fn(name, params, res, tag):
    """(declaration, body) of a pinned function."""
    s = "function %s %s return %s" % (name, "(" + "; ".join("p%d : %s" % (i, tr(p)) for i, p in enumerate(params)) + ")" if params else "", tr(res))
    return s + ";\n", s + " is begin return %s(%d); end function;\n" % (MK[res], tag)


def pk(name, *items):
    return ("package %s is\n" % name + "".join(i if isinstance(i, str) else i[0] for i in items) + "end package;\npackage body %s is\n" % name
            + "".join(i[1] for i in items if not isinstance(i, str)) + "end package body;\n")


def pin(pid, pkgs, decl, body, value=None, bad=None):
    """decl: architecture declarations; body: (process declarations, statement)"""
    src = (TT + pkgs + "entity tb is end entity;\narchitecture ar of tb is\n" + decl + "begin\npr : process is\n" + body[0] + "begin\n"
           + ("--BAD0 " if bad else "") + body[1] + "\nwait;\nend process;\nend architecture;\n")
    return {"id": pid, "case": {"src": src, "expect": [] if bad else [[1, value, body[1], [0, 0, 0]]], "bad": [[body[1], bad, 1]] if bad else [],
                                "engine": "interp"}}


PINNED = [
    pin("K24-useinner", pk("pk0", fn("b", ["INTEGER"], "INTEGER", 101)), "constant b : INTEGER := 105;\n", ("use work.pk0.all;\n", "work.tt.pr(1, work.tt.vi(b));"), 105),
    pin("K24-useregion", pk("pk0", "constant b : INTEGER := 5;\n") + pk("pk1", fn("b", [], "INTEGER", 101)), "use work.pk0.all;\n",
        ("use work.pk1.all;\n", "work.tt.pr(1, work.tt.vi(b));"), bad="none"),
    pin("K24-alias", pk("pk1", fn("f", ["INTEGER"], "TB", 104), fn("b", ["INTEGER", "INTEGER"], "INTEGER", 105))
        + pk("pk2", "alias b is work.pk1.f [INTEGER return work.tt.TB];\n"), fn("b", [], "TB", 110)[1],
        ("use work.pk2.b;\nuse work.pk1.all;\n", "work.tt.pr(1, work.tt.vb(b));"), 110),
    pin("K24-expanded", "", "", ("procedure q (x : INTEGER) is\nbegin\nwork.tt.pr(1, q.x);\nend procedure;\n", "q(7);"), 7),
    pin("K24-noargs", pk("pk0", fn("b", [], "TA", 101)), fn("b", [], "TA", 112)[1], ("use work.pk0.all;\n", "work.tt.pr(1, work.tt.va(b));"), 112),
    pin("K24-nested", pk("pk0", fn('"+"', ["TB", "TA"], "INTEGER", 101)),
        fn('"+"', ["TB", "TA"], "TA", 111)[1] + fn('"+"', ["TA", "INTEGER"], "TA", 112)[1] + fn('"+"', ["TA", "TA"], "TB", 108)[1] + fn('"+"', ["TA", "TA"], "INTEGER", 118)[1]
        + fn('"+"', ["TB", "INTEGER"], "INTEGER", 117)[1],
        ("use work.pk0.all;\n", 'work.tt.pr(1, work.tt.vi((((work.tt.kb + work.tt.ka) + work.pk0."+"(work.tt.kb, work.tt.ka)) + 0)));'), 202),
    pin("F24-nestedproc", "", "", ("procedure q (x : INTEGER) is\nprocedure r is\nprocedure s is\nbegin\nwork.tt.pr(1, x);\nend procedure;\nbegin\ns;\nend procedure;\n"
                                   "begin\nr;\nend procedure;\n", "q(7);"), 7),
]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
