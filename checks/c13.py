#!/usr/bin/env python3
"""C13: the design library is a faithful, consistent store of analysed units."""
import os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C13"
CASES = {"quick": 800, "thorough": 15000}
BUDGET = {"quick": 400, "thorough": 3 * 3600}
RULE = "a history of at least eight commands in which at least one stored unit became obsolete and at least one elaboration succeeded; distinct by history"
TECHNIQUE = ("stateful model-based property testing: random histories of edits and of analysis, elaboration, simulation, listing and dependency commands in separate "
             "processes over two libraries are mirrored by a Python model of the stored units, their contents and the versions they depend on; exit status, "
             "reported values, rejected obsolete units, newer-source warnings, --list and --print-deps must match the model after every command")
NOTE = "units in a file are analysed in dependency order; concurrent access and damaged libraries are C14"
ASSUMPTIONS = ["editing a file changes its modification time (the check spaces edits so that it does)"]

LIBS = ["work", "liba"]


class Unit:
    """A unit as written in a source file."""
    def __init__(self, kind, name, lib, deps, **kw):
        self.kind, self.name, self.lib, self.deps = kind, name, lib, deps
        self.ver = 1
        self.bad = False
        self.__dict__.update(kw)

    @property
    def key(self):
        return (self.lib, self.name)


class Gen:
    def __init__(self, s):
        self.s = s
        self.units = {}       # key -> Unit (as in the source files)
        self.files = {}       # file -> (lib, [keys])
        self.order = []
        self.std = s.choice(["1993", "2008", "2008", "2019"])
        self.build_units()
        self.stored = {}      # key -> dict(id, ver, deps {key: id}, file, kind, body...)
        self.seq = 0
        self.fver = {f: 0 for f in self.files}     # edit stamp of each file
        self.cmds = []
        self.labels = set()
        self.obsolete = False
        self.okel = 0

    def build_units(self):
        s = self.s
        pk, en = [], []
        npk, nen = s.int(1, 4), s.int(1, 3)
        two = s.bool(0.5)
        for i in range(npk):
            lib = "liba" if two and s.bool(0.5) else "work"
            deps = [d for d in pk if s.bool(0.5) and (lib == "work" or d[0] == "liba")]
            u = Unit("pkg", "p%d" % i, lib, deps, body=s.bool(0.6), elem=s.bool(0.4))
            self.units[u.key] = u
            self.order.append(u.key)
            pk.append(u.key)
            if u.body:
                bd = [d for d in pk[:-1] if s.bool(0.3) and (lib == "work" or d[0] == "liba")]
                b = Unit("body", "p%d-body" % i, lib, [u.key] + [d for d in bd if d not in deps], of=u.key)
                b.own = bd
                self.units[b.key] = b
                self.order.append(b.key)
        for i in range(nen):
            lib = "liba" if two and s.bool(0.3) else "work"
            edeps = [d for d in pk if s.bool(0.25) and (lib == "work" or d[0] == "liba")]
            u = Unit("ent", "e%d" % i, lib, edeps)
            self.units[u.key] = u
            self.order.append(u.key)
            for an in (["a"] if s.bool(0.7) else ["a", "b"]):
                deps = [d for d in pk if s.bool(0.4) and (lib == "work" or d[0] == "liba")]
                insts = [(d, s.choice(["direct", "comp"] if d[0] == lib else ["direct"])) for d in en if s.bool(0.5) and (lib == "work" or d[0] == "liba")]
                a = Unit("arch", "e%d-%s" % (i, an), lib, [u.key] + [d for d in deps] + [d for d, k in insts if k == "direct"], of=u.key, an=an, insts=insts)
                a.own = deps
                self.units[a.key] = a
                self.order.append(a.key)
            en.append(u.key)
            if s.bool(0.2):
                c = Unit("conf", "c%d" % i, lib, [u.key, (lib, "e%d-a" % i)], of=u.key)
                self.units[c.key] = c
                self.order.append(c.key)
        # distribute over files, keeping the dependency order inside each file
        k = 0
        cur = []
        for key in self.order:
            if cur and (cur[0][0] != key[0] or s.bool(0.55)):
                self.files["f%d.vhd" % k] = (cur[0][0], cur)
                k += 1
                cur = []
            cur.append(key)
        if cur:
            self.files["f%d.vhd" % k] = (cur[0][0], cur)
        self.fof = {key: f for f, (_, ks) in self.files.items() for key in ks}
        # files are always analysed in the same groups: what else one command
        # analyses may show in the checksum of a stored unit
        self.groups = []
        for f, (lib, _) in self.files.items():
            if self.groups and self.files[self.groups[-1][-1]][0] == lib and s.bool(0.35):
                self.groups[-1].append(f)
            else:
                self.groups.append([f])
        self.gof = {f: g for g in self.groups for f in g}

    # ---- source text: every unit takes exactly four lines
    def ref(self, frm, key):
        return key[1]

    def text(self, u):
        lib = u.lib

        def uses(deps):
            t = ""
            if any(d[0] != lib for d in deps):
                t += "library liba; "
            for d in deps:
                t += "use %s.%s; " % ("work" if d[0] == lib else d[0], d[1])
            return t

        def terms(deps):
            t = ""
            for d in deps:
                t += " + %s.c" % d[1]
                if self.units[d].body:
                    t += " + %s.f(1)" % d[1]
            return t
        bad = " constant oops : bit := 99;" if u.bad else ""
        if u.kind == "pkg":
            l = [uses(u.deps), "package %s is%s constant c : integer := %d%s;" % (u.name, bad, u.ver, "".join(" + %s.c" % d[1] for d in u.deps)),
                 "function f(n : integer) return integer;" if u.body else "", "end package;"]
        elif u.kind == "body":
            l = [uses(u.own), "package body %s is%s function f(n : integer) return integer is" % (u.of[1], bad),
                 "begin return n * %d + c%s; end function;" % (u.ver, terms(u.own)), "end package body;"]
        elif u.kind == "ent":
            l = [uses(u.deps), "entity %s is generic (g : integer := %d%s);" % (u.name, u.ver, "".join(" + %s.c" % d[1] for d in u.deps)), bad, "end entity;"]
        elif u.kind == "arch":
            ds = u.own
            comp = "".join(" component %s is end component;" % d[1] for d, k in u.insts if k == "comp")
            l = [uses(ds) + ("library liba; " if any(d[0] != lib for d, k in u.insts) else ""),
                 "architecture %s of %s is%s%s constant k : integer := %d%s;" % (u.an, u.of[1], comp, bad, u.ver, terms(ds)), "begin process begin report \"%s \" & integer'image(k) & \" \" & integer'image(g); wait; end process;" % u.name,
                 "".join(" i%d : %s;" % (i, d[1] if k == "comp" else "entity %s.%s" % ("work" if d[0] == lib else d[0], d[1])) for i, (d, k) in enumerate(u.insts)) + " end architecture;"]
        else:
            l = [bad, "configuration %s of %s is" % (u.name, u.of[1]), "for a end for;", "end configuration;"]
        return "\n".join(l) + "\n"

    def source(self, f):
        return "".join(self.text(self.units[k]) for k in self.files[f][1])

    # ---- model of the library
    def visit(self, st, key, seen, probs):
        """Load a unit and everything it refers to."""
        if key in seen:
            return
        seen.add(key)
        if key not in st:
            probs.append(("missing", key))
            return
        for d, i in st[key]["deps"].items():
            self.visit(st, d, seen, probs)
            if d in st and st[d]["id"] != i:
                probs.append(("obsolete", key, d))
            elif d in st and st[d]["comp"] != st[key]["dcomp"].get(d):
                self.vague = True

    def analyse(self, fs):
        """-> expected problems; updates the store when there are none"""
        st = dict(self.stored)
        comp = hash(tuple(self.source(f) for f in fs))
        for f in fs:
            for k in self.files[f][1]:
                u = self.units[k]
                probs = []
                seen = set()
                for d in u.deps:
                    self.visit(st, d, seen, probs)
                if u.kind == "arch":
                    # a component is not a reference to the entity
                    pass
                if u.bad:
                    probs.append(("bad", k))
                if probs:
                    return probs, seen
                self.seq += 1
                deps = {d: st[d]["id"] for d in u.deps}
                dcomp = {d: st[d]["comp"] for d in u.deps}
                if u.kind == "arch":
                    # declarations of the entity's packages are visible in the architecture
                    pass
                st[k] = {"id": (self.text(u), tuple(sorted((d, hash(i)) for d, i in deps.items()))), "deps": deps, "dcomp": dcomp, "comp": hash((comp, tuple(sorted(dcomp.items())))), "seq": self.seq, "u": (u.kind, u.ver),
                         "file": f, "stamp": self.fver[f], "own": getattr(u, "own", u.deps), "insts": getattr(u, "insts", []), "of": getattr(u, "of", None),
                         "body": getattr(u, "body", False)}
                if u.kind == "pkg" and not u.body:
                    pass
        self.stored = st
        return [], set()

    def loaded(self, fs, probs_seen):
        return probs_seen

    def elaborate(self, top):
        """-> (problems, reports, loaded units)"""
        st = self.stored
        probs, seen, out = [], set(), []

        def cval(p):
            return st[p]["u"][1] + sum(cval(d) for d in st[p]["deps"])

        def fval(p, n):
            b = (p[0], p[1] + "-body")
            self.visit(st, b, seen, probs)
            if b not in st or probs:
                if b not in st:
                    probs.append(("missing", b))
                return 0
            return n * st[b]["u"][1] + cval(p) + terms(st[b]["own"])

        def terms(ds):
            t = 0
            for d in ds:
                t += cval(d)
                if st[d]["body"]:
                    t += fval(d, 1)
                    if probs:
                        return 0
            return t

        def inst(e, arch=None):
            self.visit(st, e, seen, probs)
            if probs:
                return
            if arch is None:
                cands = [k for k in st if st[k]["of"] == e and st[k]["u"][0] == "arch"]
                if not cands:
                    probs.append(("noarch", e))
                    return
                arch = max(cands, key=lambda k: st[k]["seq"])
            self.visit(st, arch, seen, probs)
            if probs:
                return
            a = st[arch]
            g = st[e]["u"][1] + sum(cval(d) for d in st[e]["deps"])
            # every package which is used and has a body needs it
            for d in list(seen):
                if d in st and st[d]["u"][0] == "pkg" and st[d]["body"]:
                    self.maybe.add((d[0], d[1] + "-body"))
            k = a["u"][1] + terms(a["own"])
            if probs:
                return
            out.append("%s %d %d" % (arch[1], k, g))
            for d, kind in a["insts"]:
                inst(d)
                if probs:
                    return
        self.maybe = set()
        if top in st and st[top]["u"][0] == "conf":
            self.visit(st, top, seen, probs)
            if not probs:
                inst(st[top]["of"], (top[0], st[top]["of"][1] + "-a"))
        elif top not in st:
            probs.append(("missing", top))
        else:
            inst(top)
        # packages that are only used for their constants: their bodies may be loaded as well
        vague = False
        if not probs:
            # ... and with a body everything it uses, whose packages may need bodies in turn
            todo, done = set(self.maybe), set()
            todo |= {(d[0], d[1] + "-body") for d in seen if d in st and st[d]["u"][0] == "pkg" and st[d]["body"]}
            while todo and not vague:
                b = todo.pop()
                done.add(b)
                p2, s2 = [], set()
                self.visit(st, b, s2, p2)
                if p2:
                    vague = True
                for d in s2:
                    if d in st and st[d]["u"][0] == "pkg" and st[d]["body"] and (d[0], d[1] + "-body") not in done:
                        todo.add((d[0], d[1] + "-body"))
        return probs, sorted(out), seen, vague

    # ---- histories
    def run(self):
        s = self.s
        # usually start with everything analysed
        if s.bool(0.8):
            for lib in ("liba", "work"):
                fs = [f for f in self.files if self.files[f][0] == lib]
                if fs:
                    if s.bool(0.5):
                        self.c_analyse(fs, lib)
                    else:
                        for f in fs:
                            self.c_analyse([f], lib)
        for _ in range(s.int(5, 14)):
            r = s.weighted([(5, "edit"), (5, "analyse"), (6, "elab"), (1, "list"), (1, "deps"), (1, "touch"), (1, "bad"), (2, "fix")])
            if r == "edit":
                k = s.choice(self.order)
                u = self.units[k]
                u.ver = u.ver + 1 if s.bool(0.7) else max(1, u.ver - 1)
                self.edit(self.fof[k])
                if s.bool(0.5):
                    self.c_analyse([self.fof[k]], k[0])
                if s.bool(0.5):
                    self.c_elab()
            elif r == "bad":
                k = s.choice(self.order)
                u = self.units[k]
                if u.kind == "conf":
                    continue
                if u.kind == "ent":
                    continue
                u.bad = True
                self.edit(self.fof[k])
                self.c_analyse([self.fof[k]], k[0])
                if s.bool(0.8):
                    u.bad = False
                    self.edit(self.fof[k])
                self.labels.add("bad")
            elif r == "touch":
                self.edit(s.choice(list(self.files)))
            elif r == "analyse":
                lib = s.choice(LIBS)
                fs = [f for f in self.files if self.files[f][0] == lib]
                if fs:
                    self.c_analyse(sorted(s.sample(fs, s.int(1, min(3, len(fs)))), key=lambda f: int(f[1:-4])), lib)
            elif r == "fix":
                # bring everything up to date
                for u in self.units.values():
                    if u.bad:
                        u.bad = False
                        self.edit(self.fof[u.key])
                for lib in ("liba", "work"):
                    fs = [f for f in self.files if self.files[f][0] == lib]
                    if fs:
                        self.c_analyse(fs, lib)
                self.c_elab()
            elif r == "elab":
                self.c_elab()
            elif r == "list":
                lib = s.choice(LIBS)
                self.c_list(lib)
            else:
                self.c_deps()
        for lib in LIBS:
            self.c_list(lib)
        self.c_elab()

    def edit(self, f):
        self.seq += 1
        self.fver[f] = self.seq
        self.cmds.append({"op": "edit", "file": f, "text": self.source(f)})

    def c_analyse(self, fs, lib):
        done = []
        for f in fs:
            if self.gof[f] not in done:
                done.append(self.gof[f])
                self.c_group(self.gof[f], lib)

    def c_group(self, fs, lib):
        for f in fs:
            if self.fver[f] == 0:
                self.edit(f)
        self.vague = False
        old = self.stored
        probs, _ = self.analyse(fs)
        if self.vague:
            self.stored = old
            return
        if probs:
            self.labels.add("analysis-" + probs[0][0])
            if probs[0][0] == "obsolete":
                self.obsolete = True
        self.cmds.append({"op": "analyse", "lib": lib, "files": fs, "probs": [repr(p) for p in probs[:3]], "ok": not probs,
                          "bad": bool(probs) and probs[0][0] == "bad",
                          "single": self.s.bool(0.1)})

    def c_elab(self):
        s = self.s
        tops = [k for k in self.order if self.units[k].kind in ("ent", "conf")]
        es = [k for k in tops if k[0] == "work"] or tops
        top = s.choice(es + es[-1:] * 2)
        self.vague = False
        probs, out, seen, vague = self.elaborate(top)
        vague = vague or self.vague
        archs = {}
        for k, v in self.stored.items():
            if v["u"][0] == "arch":
                archs.setdefault(v["of"], []).append(self.gof[v["file"]][0])
        if any(len(set(v)) != len(v) for e, v in archs.items()):
            # both architectures come from one file: the most recent is not defined
            amb = [e for e, v in archs.items() if len(set(v)) != len(v)]
            if any(e in seen for e in amb) and self.units[top].kind != "conf":
                return
        warn = sorted(k for k in seen if k in self.stored and self.fver[self.stored[k]["file"]] != self.stored[k]["stamp"])
        if probs:
            self.labels.add("elab-" + probs[0][0])
            if probs[0][0] == "obsolete":
                self.obsolete = True
        else:
            self.labels.add("elab-ok")
            if warn:
                self.labels.add("elab-stale-source")
            self.okel += 1
        self.cmds.append({"op": "elab", "lib": top[0], "top": top[1], "probs": [repr(p) for p in probs[:3]], "kind": probs[0][0] if probs else "", "out": out, "vague": vague,
                          "warn": [list(k) for k in warn] if not probs else [], "split": s.bool(0.3), "ignore": s.bool(0.1),
                          "engine": s.weighted([(6, "jit"), (2, "interp"), (1, "aot0")])})

    def c_list(self, lib):
        self.cmds.append({"op": "list", "lib": lib, "units": sorted([k[1], v["u"][0]] for k, v in self.stored.items() if k[0] == lib)})

    def c_deps(self):
        s = self.s
        if not self.stored:
            return
        keys = sorted(self.stored)
        k = s.choice(keys)
        probs, seen = [], set()
        self.vague = False
        self.visit(self.stored, k, seen, probs)
        if probs or self.vague or self.stored[k]["u"][0] in ("body", "conf"):
            return
        # one rule is printed for every source file
        f = self.stored[k]["file"]
        for x in self.stored:
            if self.stored[x]["file"] == f:
                self.visit(self.stored, x, seen, probs)
        clo = sorted(x for x in seen if x != k)
        direct = sorted(x for x in self.stored[k]["deps"] if self.stored[x]["file"] != f)
        self.cmds.append({"op": "deps", "lib": k[0], "unit": k[1], "direct": [list(x) for x in direct], "closure": [list(x) for x in clo], "file": self.stored[k]["file"]})
        self.labels.add("print-deps")


def gen(s, index):
    g = Gen(s)
    g.run()
    return {"cmds": g.cmds, "std": g.std, "labels": sorted(g.labels), "obsolete": g.obsolete, "okel": g.okel}


KIND = {"pkg": "Package", "body": "Package body", "ent": "Entity", "arch": "Architecture", "conf": "Configuration"}


def upname(lib, name):
    i = name.find("-")
    if name.endswith("-body"):
        return "%s.%s-body" % (lib.upper(), name[:-5].upper())
    return "%s.%s" % (lib.upper(), name.upper())


def check(case, env):
    for l in case["labels"]:
        env.label(l)
    n = len(case["cmds"])
    if n >= 8 and case["obsolete"] and case["okel"]:
        env.mark(repr(case["cmds"]))
    d = env.dir()
    base = [env.nvc, "-L", env.lib, "-L", ".", "--std=" + case["std"]]
    for i, c in enumerate(case["cmds"]):
        env.count(1)
        what = "command %d (%s)" % (i, {k: v for k, v in c.items() if k != "text"})
        if c["op"] == "edit":
            time.sleep(0.002)
            with open(os.path.join(d, c["file"]), "w") as f:
                f.write(c["text"])
            time.sleep(0.002)
            continue
        work = "--work=" + c["lib"]

        def go(*a, xenv=None, flags=()):
            r = nvc.run(base + list(flags) + [work] + list(a), d, xenv or {}, 60)
            if r.timeout:
                raise pbt.Fail("timeout: " + what, "timeout")
            if r.crashed:
                raise pbt.Fail("nvc crashed: " + what, "crash", r.err[-1500:])
            return r
        if c["op"] == "analyse":
            r = go("-a", *c["files"])
            if (r.rc == 0) != c["ok"]:
                raise pbt.Fail("%s: exit status %d, expected %s" % (what, r.rc, "0" if c["ok"] else "a failure"), "analyse", r.err[-1500:])
            if r.rc != 0 and "Error" not in r.err and "Fatal" not in r.err:
                raise pbt.Fail("%s: failed without an error" % what, "silent", r.err[-500:])
        elif c["op"] == "elab":
            env.label("engine-" + c["engine"])
            eo, ee = nvc.ENGINES[c["engine"]]
            eo = [x for x in eo if x != "--no-save"]
            flags = ["--ignore-time"] if c["ignore"] else []
            if c["split"]:
                r = go("-e", *eo, c["top"], xenv=ee, flags=flags)
                err = r.err
                if r.rc == 0:
                    r = go("-r", c["top"], xenv=ee, flags=flags)
            else:
                r = go("-e", *eo, c["top"], "-r", xenv=ee, flags=flags)
                err = r.err
            got = sorted(re.findall(r"Note: \d+\w+\+\d+: (\S+ -?\d+ -?\d+)", r.out + r.err))
            if c["kind"]:
                if r.rc == 0:
                    raise pbt.Fail("%s: accepted, printing %s; expected %s" % (what, got, c["probs"]), "accepted-" + c["kind"], err[-1500:])
                if "Error" not in r.err and "Fatal" not in r.err:
                    raise pbt.Fail("%s: failed without an error" % what, "silent", r.err[-500:])
                if got:
                    raise pbt.Fail("%s: values printed although a unit is unusable: %s" % (what, got), "accepted-" + c["kind"], r.err[-1500:])
            elif r.rc != 0:
                if c["vague"]:
                    continue
                raise pbt.Fail("%s: exit status %d" % (what, r.rc), "rejected", r.err[-1500:])
            else:
                if got != c["out"]:
                    raise pbt.Fail("%s: got %s expected %s" % (what, got, c["out"]), "values", r.err[-1500:])
                seen = set(re.findall(r"design unit (\S+) is older than its source file", err))
                want = {upname(*k) for k in c["warn"]}
                if c["ignore"]:
                    if seen:
                        raise pbt.Fail("%s: --ignore-time did not suppress the source check" % what, "stale", err[-1500:])
                elif not want <= seen:
                    raise pbt.Fail("%s: no warning that %s is older than its source" % (what, sorted(want - seen)), "stale", err[-1500:])
        elif c["op"] == "list":
            if not os.path.isdir(os.path.join(d, c["lib"])):
                if c["units"]:
                    raise pbt.Fail("%s: library does not exist" % what, "list")
                continue
            r = go("--list")
            got = []
            for l in r.out.splitlines():
                m = re.match(r"(\S+)\s+: (.*\S)", l)
                if not m:
                    raise pbt.Fail("%s: unexpected line %r" % (what, l), "list")
                if m.group(2) != "Elaborated":
                    got.append([m.group(1), m.group(2)])
            want = sorted([upname(c["lib"], u), KIND[k]] for u, k in c["units"])
            if [[a.upper(), b] for a, b in sorted(got)] != [[a.upper(), b] for a, b in want]:
                raise pbt.Fail("%s: --list printed %s, expected %s" % (what, got, want), "list")
        else:
            r = go("--print-deps", c["unit"])
            if r.rc == 1 and "design unit depends on" in r.err and any(x["op"] == "elab" for x in case["cmds"][:i]):
                continue     # reads the stored elaborated design, which is outdated
            if r.rc != 0:
                raise pbt.Fail("%s: exit status %d" % (what, r.rc), "deps", r.err[-800:])
            line = None
            un = upname(c["lib"], c["unit"])
            for l in r.out.splitlines():
                m = re.match(r"(\S+): (.*)", l)
                if m and os.path.basename(m.group(1)).upper() == un.upper():
                    line = m.group(2).split()
            if line is None:
                raise pbt.Fail("%s: unit not printed" % what, "deps", r.out[-800:])
            names = {os.path.basename(x).upper() for x in line}
            need = {upname(*x).upper() for x in c["direct"]}
            may = {upname(*x).upper() for x in c["closure"]}
            extra = {x for x in names if re.match(r"(WORK|LIBA)\.", x)} - may
            if not need <= names or extra or c["file"].upper() not in names:
                raise pbt.Fail("%s: printed %s, expected %s (at most %s)" % (what, sorted(names), sorted(need), sorted(may)), "deps", r.out[-800:])


if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
