#!/usr/bin/env python3
"""C17: messages, severities, stop conditions and exit status."""
import collections, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C17"
CASES = {"quick": 1600, "thorough": 60000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = "one generated design with at least 3 expected messages; distinct by source and options"
TECHNIQUE = ("model-based property testing: generated schedules of reports, assertions, assertion-control calls, STOP/FINISH and "
             "time/delta limits against a reference scheduler; messages (text, severity, time, delta, line, stream) and exit status compared")
NOTE = "up to 5 processes and 40 messages; sampled"
ASSUMPTIONS = ["after the message that stops the simulation, other processes of the same delta cycle may or may not run"]
SEV = ["note", "warning", "error", "failure"]
UNIT = {"fs": 1, "ps": 10**3, "ns": 10**6, "us": 10**9, "ms": 10**12}


class P:
    """One process: text lines and a generator-like list of operations."""

    def __init__(self, name):
        self.name, self.ops, self.lines = name, [], []


class G:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.L = []                 # source lines
        self.procs = []
        self.labels = set()
        self.std = s.choice(["2008", "2019"])
        self.sigs = 0
        self.conc = []              # (signal, k, text, sev, postponed, label, line)

    def emit(self, l):
        self.L.append(l)
        return len(self.L)

    def text(self):
        s = self.s
        self.n += 1
        t = "m%d" % self.n
        x = s.weighted([(10, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6)])
        if x == 1:
            t += " $bold$ %s %d $$ {r} \\n"
        elif x == 2:
            t += "\n second line\nthird"
        elif x == 3:
            t += " " + "long" * s.choice([10, 50, 300])
        elif x == 4:
            t += " \"q\" 'x' ** Note: 3ns+1: fake"
        elif x == 5:
            t += " \xe9\xff\xa0"
        elif x == 6:
            t += "  trailing  "
        if x:
            self.labels.add("text-%d" % x)
        return t

    def vtext(self, t):
        parts = t.replace('"', '""').split("\n")
        return " & LF & ".join('"%s"' % p for p in parts)

    def stmt(self, p, ind, depth, ctx):
        """Emit one statement; return an op tree."""
        s = self.s
        pre = "  " * ind
        k = s.weighted([(6, "report"), (6, "assert"), (4, "wait"), (2, "zero"), (2, "for" if depth < 2 else "wait"), (1, "if" if depth < 2 else "wait"),
                        (2, "call"), (1, "func"), (1, "stop"), (1, "sig"), (6, "api" if ctx["api"] else "assert"), (1, "ieee"),
                        (1, "dyn"), (1, "plain")])
        if k == "wait":
            if ctx["nowait"]:
                k = "report"
            else:
                t = s.choice([10**6, 10**6, 2 * 10**6, 5 * 10**6, 500, 1500, 10**9, 12345, 10**12])
                u = s.choice([u for u in UNIT if t % UNIT[u] == 0])
                self.emit("%swait for %d %s;" % (pre, t // UNIT[u], u))
                return ("wait", t)
        if k == "zero":
            if ctx["nowait"]:
                k = "report"
            else:
                self.emit("%swait for 0 ns;" % pre)
                return ("wait", 0)
        if k == "report":
            t, sv = self.text(), s.weighted([(6, 0), (4, 1), (3, 2), (1, 3)])
            ln = self.emit("%sreport %s%s;" % (pre, self.vtext(t), "" if sv == 0 and s.bool() else " severity %s" % SEV[sv]))
            return ("msg", t, sv, ln)
        if k == "plain":
            sv = s.weighted([(3, 1), (3, 2), (1, 0)])
            c = s.choice(["false", "cnt < 0", "cnt = -1", "not true", "cnt > 5000"])
            ln = self.emit("%sassert %s%s;" % (pre, c, "" if sv == 2 else " severity " + SEV[sv]))
            return ("msg", None, sv, ln)
        if k == "assert":
            t, sv = self.text(), s.weighted([(4, 0), (4, 1), (3, 2), (1, 3)])
            v = s.bool(0.6)
            c = s.choice(["cnt < 0", "cnt = -1", "false", "not (cnt >= 0)", "idb(false)"] if v else ["cnt >= 0", "true", "idb(true)", "cnt /= -1"])
            if s.bool(0.3):
                ln = self.emit("%sassert %s" % (pre, c))
                self.emit("%s  report %s" % (pre, self.vtext(t)))
                self.emit("%s  %s;" % (pre, "" if sv == 2 else "severity " + SEV[sv]))
                return ("msg", t, sv, (ln, ln + 2)) if v else ("nop",)
            ln = self.emit("%sassert %s report %s%s;" % (pre, c, self.vtext(t), "" if sv == 2 else " severity " + SEV[sv]))
            return ("msg", t, sv, ln) if v else ("nop",)
        if k == "dyn":
            sv = s.int(0, 2)
            t = self.text()
            ln = self.emit("%sreport %s & INTEGER'image(cnt) severity SEVERITY_LEVEL'val(idi(%d));" % (pre, self.vtext(t), sv))
            return ("msgc", t, sv, ln)
        if k == "for":
            n = s.int(0, 3)
            self.loops = getattr(self, "loops", 0) + 1
            self.emit("%sfor i%d in 1 to %d loop" % (pre, self.loops, n))
            self.emit("%s  cnt := cnt + 1;" % pre)
            b = [("inc",)] + [self.stmt(p, ind + 1, depth + 1, ctx) for _ in range(s.int(1, 2))]
            self.emit("%send loop;" % pre)
            return ("loop", n, b)
        if k == "if":
            v = s.bool()
            self.emit("%sif cnt %s 0 then" % (pre, ">=" if v else "<"))
            b = [self.stmt(p, ind + 1, depth + 1, ctx) for _ in range(s.int(1, 2))]
            self.emit("%send if;" % pre)
            return ("loop", 1 if v else 0, b)
        if k == "call" and ctx["subs"]:
            nm, b = s.choice(ctx["subs"])
            ln = self.emit("%s%s;" % (pre, nm))
            return ("loop", 1, b)
        if k == "func":
            n = s.int(0, 9)
            ln = self.emit("%scnt := cnt + fz(%d);" % (pre, n))
            return ("msg", "fz%d" % n, 0, self.fz)
        if k == "stop" and s.bool(0.4):
            f = s.choice(["stop", "finish"])
            x = s.choice([None, 0, 1, 2, 3, 77, 100, 256, 261])
            self.emit("%s%s%s;" % (pre, f, "" if x is None else "(%d)" % x))
            return ("stop", f, x)
        if k == "sig":
            v = s.int(0, 3)
            self.emit("%ssg_%s <= %d;" % (pre, p.name, v))
            return ("sig", v)
        if k == "ieee":
            self.emit("%scnt := cnt + ieee.numeric_std.to_integer(meta);" % pre)
            return ("ieee",)
        if k == "api":
            x = s.choice(["en", "en", "get", "count", "count", "clear", "failed", "enall", "fmt", "fmt"])
            sv = s.int(0, 3)
            if x == "en":
                b = s.bool(0.4)
                self.emit("%sSetVhdlAssertEnable(%s, %s);" % (pre, SEV[sv], str(b).lower()))
                return ("en", [sv], b)
            if x == "enall":
                b = s.bool(0.7)
                self.emit("%sSetVhdlAssertEnable(Enable => %s, Level => %s);" % (pre, str(b).lower(), SEV[sv]))
                return ("en", [sv], b)
            if x == "get":
                self.emit('%spr("get=" & BOOLEAN\'image(GetVhdlAssertEnable(%s)));' % (pre, SEV[sv]))
                return ("get", sv)
            if x == "count":
                if s.bool(0.3):
                    self.emit('%spr("tot=" & INTEGER\'image(GetVhdlAssertCount));' % pre)
                    return ("tot",)
                self.emit('%spr("cnt=" & INTEGER\'image(GetVhdlAssertCount(%s)));' % (pre, SEV[sv]))
                return ("count", sv)
            if x == "failed":
                self.emit('%spr("failed=" & BOOLEAN\'image(IsVhdlAssertFailed));' % pre)
                return ("failed",)
            if x == "fmt":
                f = "@@ {S}/{s:%s%s%d}|{r}|{t:.%s}|{t}|{i}" % (s.choice(["", "*"]), s.choice("<>^"), s.int(0, 12), s.choice(["fs", "ps", "ns"]))
                self.emit('%sSetVhdlAssertFormat(%s, "%s");' % (pre, SEV[sv], f))
                self.labels.add("format")
                return ("fmt", sv, f)
            self.emit("%sClearVhdlAssert;" % pre)
            return ("clear",)
        self.emit("%snull;" % pre)
        return ("nop",)

    def build(self):
        s = self.s
        self.emit("library ieee;")
        self.emit("use std.env.all; use std.textio.all; use ieee.std_logic_1164.all;")
        self.emit("entity tb is end entity;")
        self.emit("architecture a of tb is")
        self.emit("  function idb (b : BOOLEAN) return BOOLEAN is begin return b; end function;")
        self.emit("  function idi (n : INTEGER) return INTEGER is begin return n; end function;")
        self.emit("  function fz (n : INTEGER) return INTEGER is begin")
        self.fz = self.emit("    report \"fz\" & INTEGER'image(n);")
        self.emit("    return 0;")
        self.emit("  end function;")
        self.emit("  procedure pr (m : STRING) is variable l : LINE; begin write(l, STRING'(\"#\")); write(l, m); writeline(output, l); end procedure;")
        n = s.weighted([(2 if self.std == "2008" else 6, 1), (3, 2), (2, 3), (1, 5)])
        names = ["pr%d" % i for i in range(n)]
        for x in names:
            self.emit("  signal sg_%s : INTEGER := 0;" % x)
        self.emit("begin")
        api = self.std == "2019" and n == 1 and s.bool(0.7)
        for i, x in enumerate(names):
            p = P(x)
            loc = []
            lim = s.bool(0.04) and i == 0
            self.emit("%s : process is" % x)
            self.emit("  variable cnt : INTEGER := 0;")
            self.emit("  variable meta : ieee.numeric_std.unsigned(1 downto 0) := \"0X\";")
            for j in range(s.int(0, 2)):
                nm = "q%d" % j
                self.emit("  procedure %s is begin" % nm)
                ctx = {"nowait": s.bool(0.5), "subs": list(loc), "api": api}
                b = [self.stmt(p, 2, 1, ctx) for _ in range(s.int(1, 3))]
                self.emit("  end procedure;")
                loc.append((nm, b))
            self.emit("begin")
            ctx = {"nowait": False, "subs": loc, "api": api}
            p.ops = [self.stmt(p, 1, 0, ctx) for _ in range(s.int(1, 10))]
            if lim:
                self.emit("  loop")
                self.emit("    wait for 0 ns;")
                self.emit("  end loop;")
                p.ops.append(("spin",))
                self.labels.add("spin")
            elif s.bool(0.15) and any(o[0] == "wait" and o[1] > 0 for o in p.ops):
                p.ops.append(("again",))
            else:
                self.emit("  wait;")
                p.ops.append(("end",))
            self.emit("end process;")
            self.procs.append(p)
        for x in names:
            if s.bool(0.3):
                k, t, sv, po = s.int(0, 3), self.text(), s.int(0, 2), s.bool(0.3)
                lab = "ca_" + x
                ln = self.emit("%s : %sassert sg_%s %s %d report %s severity %s;" % (
                    lab, "postponed " if po else "", x, "<", k, self.vtext(t), SEV[sv]))
                self.conc.append((x, k, t, sv, po, lab, ln))
                self.labels.add("concurrent" + ("-postponed" if po else ""))
        self.emit("end architecture;")
        self.api = api
        return "\n".join(self.L) + "\n"


class Stop(Exception):
    pass


class Model:
    def __init__(self, g, o):
        self.g, self.o = g, o
        self.msgs = []
        self.counts = [0] * 4
        self.enable = [True] * 4
        self.fmt = [None] * 4
        self.status = []            # statuses that may be returned
        self.sigs = {p.name: 0 for p in g.procs}
        self.cleared = False
        self.amb = False

    def msg(self, proc, text, sv, ln, ieee=False):
        if not ieee and not self.enable[sv] or ieee and not self.enable[sv]:
            return
        f = self.fmt[sv]
        if f is not None:
            # {s:..} alignment, {t} forms
            m = re.match(r"@@ \{S\}/\{s:(\*?)([<>^])(\d+)\}\|\{r\}\|\{t:\.(\w+)\}\|\{t\}\|\{i\}", f)
            fill, al, w = m.group(1) or " ", m.group(2), int(m.group(3))
            n = SEV[sv]
            pad = max(0, w - len(n))
            l = pad if al == ">" else pad // 2 if al == "^" else 0
            t = "@@ %s/%s|%s|%.15g %s|%d fs|" % (SEV[sv].upper(), fill * l + n + fill * (pad - l), text if text is not None else "",
                                                self.now / UNIT[m.group(4)], m.group(4), self.now)
            self.msgs.append((self.now, self.delta, proc, t, sv, None, "fmt"))
        else:
            self.msgs.append((self.now, self.delta, proc, text, sv, ln, "ieee" if ieee else "msg"))
        self.counts[sv] += 1
        if sv >= self.o["exit"]:
            self.status.append(1)
            raise Stop

    def run_ops(self, p, ops, st):
        for op in ops:
            k = op[0]
            if k == "wait":
                yield op[1]
            elif k == "msg":
                self.msg(p.name, op[1], op[2], op[3])
            elif k == "msgc":
                self.msg(p.name, op[1] + str(st["cnt"]), op[2], op[3])
            elif k == "inc":
                st["cnt"] += 1
            elif k == "loop":
                for _ in range(op[1]):
                    yield from self.run_ops(p, op[2], st)
            elif k == "stop":
                self.msgs.append((self.now, self.delta, p.name, op[1].upper() + " called" + ("" if op[2] is None else " with status %d" % op[2]),
                                  0, None, "stop"))
                self.status.append(None if op[2] is None else op[2] & 255)
                raise Stop
            elif k == "sig":
                if self.pend.get(p.name) is None or True:
                    self.pend[p.name] = op[1]
            elif k == "ieee":
                if self.o["ieee"]:
                    self.msg(p.name, "NUMERIC_STD.TO_INTEGER: metavalue detected, returning 0", 1, None, True)
            elif k == "en":
                for x in op[1]:
                    self.enable[x] = op[2]
            elif k == "get":
                self.out.append("get=%s" % str(self.enable[op[1]]).lower())
            elif k == "count":
                self.out.append("cnt=%d" % self.counts[op[1]])
            elif k == "tot":
                self.out.append("tot=%d" % sum(self.counts[1:]))
            elif k == "failed":
                self.out.append("failed=%s" % str(sum(self.counts[1:]) > 0).lower())
            elif k == "clear":
                self.counts = [0] * 4
                self.cleared = True
            elif k == "fmt":
                self.fmt[op[1]] = op[2]
            elif k == "spin":
                while True:
                    yield 0
            elif k == "again":
                while True:
                    yield from self.run_ops(p, ops[:-1], st)
            elif k == "end":
                yield None

    def run(self):
        g = self.g
        self.now = self.delta = 0
        self.out = []
        self.pend = {}
        self.limit = False
        gens = {p.name: self.run_ops(p, p.ops, {"cnt": 0}) for p in g.procs}
        wake = {p.name: (0, 0) for p in g.procs}
        conc_run = {c[5]: True for c in g.conc}      # pending evaluation
        sigev = {}
        stop = False
        nmsg = 0
        first = True
        while True:
            # next cycle
            init = first
            if not first:
                nd = [x for x, w in wake.items() if w == (self.now, self.delta + 1)]
                if self.pend or nd:
                    if self.o["delta"] and self.delta == self.o["delta"]:
                        self.limit = True
                        break
                    self.delta += 1
                else:
                    ts = [w[0] for w in wake.values() if w is not None]
                    if not ts or min(ts) > self.o["stop"]:
                        break
                    self.now, self.delta = min(ts), 0
            first = False
            # update signals
            for x, v in self.pend.items():
                if self.sigs[x] != v:
                    self.sigs[x] = v
                    for c in g.conc:
                        if c[0] == x:
                            conc_run[c[5]] = True
            self.pend = {}
            stopped = False
            for x in [x for x, w in wake.items() if w == (self.now, self.delta)]:
                try:
                    d = next(gens[x], None)
                    wake[x] = None if d is None else (self.now, self.delta + 1) if d == 0 else (self.now + d, 0)
                except Stop:
                    stopped = True
                    wake[x] = None
            for x, k, t, sv, po, lab, ln in g.conc:
                if conc_run.get(lab) and not po:
                    conc_run[lab] = False
                    try:
                        if not self.sigs[x] < k:
                            self.msg(lab, t, sv, ln)
                    except Stop:
                        stopped = True
            more = self.pend or any(w == (self.now, self.delta + 1) for w in wake.values())
            if init or not more:     # initialisation executes the postponed processes too
                for x, k, t, sv, po, lab, ln in g.conc:
                    if conc_run.get(lab) and po:
                        conc_run[lab] = False
                        try:
                            if not self.sigs[x] < k:
                                self.msg(lab, t, sv, ln)
                        except Stop:
                            stopped = True
            if stopped:
                self.stop_at = (self.now, self.delta)
                return
            self.cycles = getattr(self, "cycles", 0) + 1
            if len(self.msgs) > 120 or self.cycles > 3000:
                raise pbt.Skip("too many messages")
        self.stop_at = None


def gen(s, index):
    g = G(s)
    src = g.build()
    o = {"exit": s.weighted([(5, 3), (2, 2), (1, 1), (1, 0)]), "exit_given": True, "ieee": s.bool(0.7),
         "stop": s.choice([10**9, 10 * 10**6, 3 * 10**6, 500, 5 * 10**12, 2 * 10**6]), "delta": s.choice([0, 0, 2, 3, 5, 20]),
         "stderr": s.choice([None, None, 0, 1, 2, 3]), "mode": s.choice(["full", "compact"])}
    if o["exit"] == 3 and s.bool(0.7):
        o["exit_given"] = False
    if any(op[0] == "spin" for p in g.procs for op in p.ops):
        o["delta"] = o["delta"] or 30
    elif s.bool(0.3):
        o["delta"] = 0
    m = Model(g, o)
    try:
        m.run()
    except pbt.Skip:
        return {"skip": True}
    ul = max(x for x in UNIT.values() if o["stop"] % x == 0)
    st = "%d%s" % (o["stop"] // ul, [k for k, v in UNIT.items() if v == ul][0])
    thr = o["exit"] if o["exit_given"] else 2
    exp = set()
    bad = any(m.counts[v] for v in range(thr, 4))
    if m.status:
        for x in m.status:
            exp.add(x if x is not None else 1 if bad else 0)
        if len(m.status) > 1:
            exp = None
    elif m.limit:
        exp.add(1)
    else:
        exp.add(1 if bad else 0)
    return {"src": src, "o": o, "stop": st, "msgs": m.msgs, "stop_at": m.stop_at, "limit": m.limit, "rc": sorted(exp) if exp is not None else None,
            "cleared": m.cleared, "out": m.out, "labels": sorted(g.labels) + ["exit-%d" % o["exit"], "mode-" + o["mode"]] +
            (["stopped"] if m.status else []) + (["limit"] if m.limit else []), "std": g.std,
            "engine": s.weighted([(5, "interp"), (2, "jit"), (1, "aot2")])}


HDR = re.compile(r"\*\* (Note|Warning|Error|Failure|Fatal): (?:(\d+)(fs|ps|ns|us|ms)\+(\d+): )?(.*)$")
CHDR = re.compile(r"(?:([^\s:]+):(\d+):\d+|\(none\)|nvc): (note|warning|error|failure|fatal): (?:(\d+)(fs|ps|ns|us|ms)\+(\d+): )?(.*)$")
CTX = re.compile(r"   (Process|Procedure|Function|Package|Entity|Architecture|\w+) .*? at (.*):(\d+)$")


def parse(text, mode):
    """-> list of dicts"""
    out, cur = [], None
    for l in text.split("\n"):
        m = (HDR if mode == "full" else CHDR).match(l)
        if m:
            if mode == "full":
                cur = {"sev": m.group(1).lower(), "t": m.group(2) and int(m.group(2)) * UNIT[m.group(3)],
                       "d": m.group(4) and int(m.group(4)), "text": m.group(5), "proc": None, "line": None, "src": None}
            else:
                cur = {"sev": m.group(3), "t": m.group(4) and int(m.group(4)) * UNIT[m.group(5)], "d": m.group(6) and int(m.group(6)),
                       "text": m.group(7), "proc": None, "line": m.group(2) and int(m.group(2)), "src": m.group(1)}
            out.append(cur)
            continue
        l = re.sub(r"^(?:note|warning|error|failure|fatal): (?=@@ )", "", l)     # compact form of a custom format
        if l.startswith("@@ "):
            cur = {"sev": None, "t": None, "d": None, "text": l, "proc": None, "line": None, "src": None}
            out.append(cur)
            continue
        if cur is None:
            continue
        m = CTX.match(l)
        if m and mode == "full":
            if m.group(1) == "Process":
                p = re.search(r"Process \S*:(\w+) at", l)
                cur["proc"] = p.group(1) if p else "?"
            if cur["line"] is None:
                cur["line"], cur["src"] = int(m.group(3)), m.group(2)
            cur["done"] = True
            continue
        m = re.match(r" +> (.*):(\d+)$", l)
        if m and mode == "full":
            cur["line"], cur["src"] = int(m.group(2)), m.group(1)
            cur["done"] = True
            continue
        if not cur.get("done"):
            cur["text"] += "\n" + l
    return out


def check(case, env):
    if case.get("skip"):
        raise pbt.Skip("too many messages")
    o = case["o"]
    gopts = ["--ieee-warnings=" + ("on" if o["ieee"] else "off"), "--messages=" + o["mode"]]
    if o["stderr"] is not None:
        gopts.append("--stderr=" + SEV[o["stderr"]])
    ropts = ["--stop-time=" + case["stop"]]
    if o["exit_given"]:
        ropts.append("--exit-severity=" + SEV[o["exit"]])
    if o["delta"]:
        ropts.append("--stop-delta=%d" % o["delta"])
    r = nvc.sim(env, env.dir(), case["src"], std=case["std"], engine=case["engine"], gopts=gopts, ropts=ropts)
    env.label(*case["labels"])
    env.count(len(case["msgs"]))
    if r.timeout or r.crashed and (case["rc"] is None or r.rc not in case["rc"]):
        raise pbt.Fail("nvc crashed", "crash", repr(r))
    u8 = lambda t: t.encode("latin-1").decode("utf-8", "replace")     # messages are converted to the locale's encoding
    err, out = parse(u8(r.err), o["mode"]), parse(u8(r.out), o["mode"])
    got = [("err", m) for m in err] + [("out", m) for m in out]
    sim = []
    for st, m in got:
        if m["text"].startswith("limit of"):
            if not case["limit"] and not (case["stop_at"] and case["stop_at"][1] == o["delta"]):
                raise pbt.Fail("unexpected delta cycle limit", "limit", repr(r))
            case["saw"] = True
            continue
        if m["t"] is None and m["sev"] == "note" and not m["text"].startswith("@@"):
            continue                # hints
        # the --exit-severity hint and the like follow on lines of their own
        m["text"] = re.sub(r"(?s)\n *(= )?(Note|Help): .*|this will be treated as a fatal error due to --exit-severity=.*", "", m["text"])
        sim.append((st, m))
    if case["limit"] and not any(m["text"].startswith("limit of %d delta cycles reached" % o["delta"]) for _, m in got):
        raise pbt.Fail("delta cycle limit not reported", "nolimit", repr(r))
    want = [tuple(x) for x in case["msgs"]]
    stop_at = tuple(case["stop_at"]) if case["stop_at"] else None

    def key(m):
        t, d, proc, text, sv, ln, kind = m
        if kind == "fmt":
            return ("fmt", text.split("\n")[0])
        text = "Assertion violation." if text is None else text
        if o["mode"] == "compact":
            text = text.split("\n")[0]
        return (t, d, text, SEV[sv], None if o["mode"] == "compact" or text == "Assertion violation." else proc)

    def gkey(m):
        if m["text"].startswith("@@ "):
            x = m["text"].split("\n")[0]
            return ("fmt", x[:x.rindex("|") + 1] if x.count("|") >= 4 else x)
        text = m["text"].rstrip("\n") if o["mode"] == "full" else m["text"].split("\n")[0]
        return (m["t"], m["d"], text, m["sev"], None if o["mode"] == "compact" or text == "Assertion violation." else m["proc"])
    wk = collections.Counter()
    opt = collections.Counter()
    for m in want:
        k = key(m)
        if k[0] != "fmt" and k[4] is None and o["mode"] == "full":
            pass
        wk[k] += 1
        if stop_at and (m[0], m[1]) == stop_at:
            opt[k] += 1
    gk = collections.Counter(gkey(m) for _, m in sim)
    for k in set(wk) | set(gk):
        if gk[k] > wk[k]:
            raise pbt.Fail("unexpected message %s x%d (expected %d)\n%s" % (k, gk[k], wk[k], near(wk, k)), "extra", repr(r))
        if gk[k] < wk[k] - opt[k]:
            raise pbt.Fail("missing message %s x%d (got %d)\n%s" % (k, wk[k], gk[k], near(gk, k)), "missing", repr(r))
    # at least one message at the stop point must be there, and one of the stopping severity
    if stop_at and not any(m["t"] == stop_at[0] and m["d"] == stop_at[1] or m["text"].startswith("@@") for _, m in sim):
        raise pbt.Fail("nothing at the stop point %s" % (stop_at,), "stop", repr(r))
    # order within a stream and process; lines; streams
    by = {}
    for m in want:
        by.setdefault(key(m), []).append(m)
    seq = collections.defaultdict(list)
    for st, m in sim:
        k = gkey(m)
        lines = [w[5] for w in by[k]]
        if k[0] != "fmt" and all(l is not None for l in lines):
            ok = any(m["line"] == l if not isinstance(l, (tuple, list)) else l[0] <= (m["line"] or 0) <= l[1] for l in lines)
            if not ok:
                raise pbt.Fail("message %s located at %s:%s, expected line %s" % (k, m["src"], m["line"], lines), "line", repr(r))
        if k[0] != "fmt":
            sv = SEV.index(m["sev"])
            if o["stderr"] is not None and by[k][0][6] != "stop" and (st == "err") != (sv >= o["stderr"]) or o["stderr"] is None and st != "err":
                raise pbt.Fail("message %s on std%s" % (k, st), "stream", repr(r))
            seq[st].append((m["t"], m["d"]))
    for st, l in seq.items():
        if l != sorted(l):
            raise pbt.Fail("messages out of time order on std%s: %s" % (st, l), "order", repr(r))
    if o["mode"] == "full":
        for p in set(m[2] for m in want):
            a = [key(m) for m in want if m[2] == p and m[6] not in ("fmt",)]
            for stream in ("err", "out"):
                b = [gkey(m) for st, m in sim if st == stream and m["proc"] == p and m["t"] is not None]
                it = iter(a)
                if not all(x in it for x in b):
                    raise pbt.Fail("messages of %s out of order: %s expected %s" % (p, b, a), "porder", repr(r))
    lines = [l[1:] for l in r.out.split("\n") if l.startswith("#")]
    if lines != case["out"]:
        raise pbt.Fail("assertion API returned %s expected %s" % (lines, case["out"]), "api", repr(r))
    if case["rc"] is not None and r.rc not in case["rc"] and not (case["cleared"] and stop_at):
        raise pbt.Fail("exit status %d, expected %s" % (r.rc, case["rc"]), "rc", repr(r))
    if len(case["msgs"]) >= 3:
        env.mark(case["src"] + str(o))


def near(c, k):
    return "\n".join(map(str, sorted(map(str, c))[:30]))


PINNED = []

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
