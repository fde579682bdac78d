#!/usr/bin/env python3
"""C20: conditional analysis and macro preprocessing select the right text."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt

PID = "C20"
CASES = {"quick": 6000, "thorough": 60000}
BUDGET = {"quick": 300, "thorough": 2 * 3600}
RULE = "a generated text with at least three directives of which one skips text, or a malformed one; distinct by text and definitions"
TECHNIQUE = ("model-based property testing: generated nests of VHDL conditional analysis directives and of Verilog preprocessor directives and "
             "macros; a Python reference evaluates them; compared are the exact preprocessed text, the reports of the simulated design with "
             "their source lines, and the diagnostics with their source lines; malformed and unbalanced directives must be rejected")
NOTE = "nesting up to 4; macros without arguments (nvc has none); sampled"
ASSUMPTIONS = ["skipped VHDL text consists of lexical elements",
               "macro bodies contain whole lexical elements (no unclosed string or comment)"]

NAMES = ["FOO", "BAR_1", "Debug", "x", "LEVEL", "mode"]
VALUES = ["1", "0", "", "abc", "ABC", "10", "9", "a b", "x-y", "2008"]


# ---------------------------------------------------------------- VHDL
def rcase(s, n):
    return s.choice([n, n, n.lower(), n.upper(), n.swapcase()])


def vcond(s, defs, depth, undef_ok):
    """-> (text, value or None when an undefined identifier is evaluated)"""
    def rel(d):
        k = s.weighted([(5, "rel"), (2 if d else 0, "par"), (2 if d else 0, "not")])
        if k == "rel":
            if undef_ok and s.int(0, 3) == 0:
                return '%s = "%s"' % (s.choice(["NOSUCH", "other_def"]), s.choice(VALUES)), False
            n = s.choice(sorted(defs))
            v = defs[n]
            op = s.choice(["=", "=", "/=", "<", "<=", ">", ">="])
            w = v if s.bool() else s.choice(VALUES)
            a, b = v.encode("latin-1"), w.encode("latin-1")
            r = {"=": a == b, "/=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            sp = s.choice(["", " "])
            return '%s%s%s%s"%s"' % (rcase(s, n), sp, op, sp, w), r
        t, r = expr(d - 1)
        if k == "par":
            return "(%s)" % t, r
        return s.choice(["not (%s)", "NOT(%s)"]) % t, not r

    def expr(d):
        t, r = rel(d)
        n = s.weighted([(5, 0), (3, 1), (2, 2)])
        op = s.choice(["and", "or", "xor", "xnor"])
        for _ in range(n):
            t2, r2 = rel(d)
            t += " %s %s" % (s.choice([op, op.upper()]), t2)
            r = {"and": r and r2, "or": r or r2, "xor": r != r2, "xnor": r == r2}[op]
        return t, r
    return expr(depth)


def vblock(s, defs, depth, active, out, st, n=None):
    """append lines to out (list of text); st collects expectations by marking lines: (kind, id) per emitted piece"""
    for _ in range(n if n is not None else s.int(1, 4)):
        if st["left"] <= 0:
            break
        st["left"] -= 1
        k = s.weighted([(5, "text"), (4 if depth else 0, "if"), (1, "warn"), (1 if st["errs"] else 0, "err"), (2, "noise"),
                        (2 if st["errs"] else 0, "undef")])
        if k == "text":
            st["n"] += 1
            out.append(("report \"T%d\";" % st["n"], ("T", "T%d" % st["n"]) if active else None))
        elif k == "undef":
            st["n"] += 1
            out.append(("nodecl%d := 1;" % st["n"], ("E", "no visible declaration for NODECL%d" % st["n"]) if active else None))
        elif k in ("warn", "err"):
            st["n"] += 1
            d = "`" + rcase(s, "warning" if k == "warn" else "error")
            m = "M%d" % st["n"]
            out.append(('%s "%s"' % (d, m), (("W" if k == "warn" else "E"), m) if active else None))
        elif k == "noise":
            out.append((s.choice(["-- `else", "/* `end if */", "-- `if A = \"1\" then", "null; /* `else", "", "report \"`else\" severity failure; -- x"]
                                 if not active else ["-- `else", "/* `end if */", "null; -- `elsif", "", "null; /* `if */ null;"]), None))
            if out[-1][0].endswith("/* `else"):
                out.append(("`end if */", None))
            if not active and s.bool():
                out.append((s.choice(["end if; end process; end;", "this is not vhdl ( ; := begin", "'x' 16#ff# x\"0f\" 1.0e3", "package is ) end"]), None))
        else:
            taken = False
            seen = []
            nb = s.int(1, 4)
            haselse = s.bool()
            st["dirs"] += nb + 1
            for i in range(nb):
                skipcond = not active or taken
                ct, cv = vcond(s, defs, s.int(0, 2), skipcond)
                here = active and not taken and cv
                out.append(("`%s %s %s" % (rcase(s, "if" if i == 0 else "elsif"), ct, rcase(s, "then")), None))
                vblock(s, defs, depth - 1, here, out, st)
                st["skip"] += not here
                taken = taken or cv
            if haselse:
                out.append(("`" + rcase(s, "else"), None))
                vblock(s, defs, depth - 1, active and not taken, out, st)
            out.append((s.choice(["`end if", "`end", "`END IF", "`end if -- done"]), None))
    return out


def gen_vhdl(s):
    std = s.choice(["1993", "2000", "2002", "2008", "2008", "2019", "2019"])
    cmd = []
    for n in s.sample(NAMES, s.int(1, 4)):
        cmd.append((n, s.choice(VALUES)))
    if s.int(0, 4) == 0:
        cmd.append((cmd[0][0], s.choice(VALUES)))
    defs = {"VHDL_VERSION": std, "TOOL_TYPE": "SIMULATION", "TOOL_NAME": "nvc", "TOOL_EDITION": "GPL"}
    for n, v in cmd:
        defs[n] = v
    st = {"left": s.int(6, 30), "n": 0, "errs": s.int(0, 2) == 0, "dirs": 0, "skip": 0}
    out = []
    while st["left"] > 0:
        vblock(s, defs, s.int(1, 4), True, out, st, 1)
    # C-style comments exist from VHDL-2008 on
    if std < "2008":
        out = [(re.sub(r"/\*.*", "", t) if not t.startswith("`end if */") else "", e) for t, e in out]
    else:
        out = [("/* `else" if False else t, e) for t, e in out]
    bad = None
    dirs = [i for i, (t, _) in enumerate(out) if re.match(r"`(if|elsif|else|end)\b", t.lower()) and not t.startswith("`end if */")]
    if dirs and s.int(0, 5) == 0:
        bad = s.choice(["dropend", "extraend", "dupelse", "elsifafter", "strayelse", "strayelsif", "undef", "nothen", "noparen", "mixed", "norel", "notstr"])
        pos = len(out)
        top = s.bool()
        d = s.choice(sorted(defs))
        c = '%s = "%s"' % (d, defs[d] if s.bool() else "zz")
        new = {"dropend": ["`if %s then" % c],
               "extraend": ["`end if"],
               "dupelse": ["`if %s then" % c, "`else", "`else", "`end if"],
               "elsifafter": ["`if %s then" % c, "`else", "`elsif %s then" % c, "`end if"],
               "strayelse": ["`else"], "strayelsif": ["`elsif %s then" % c, ],
               "undef": ['`if NOSUCH = "1" then', "`end if"],
               "nothen": ["`if %s" % c, "null;", "`end if"],
               "noparen": ["`if (%s then" % c, "null;", "`end if"],
               "mixed": ["`if %s and %s or %s then" % (c, c, c), "`end if"],
               "norel": ["`if %s then" % d, "`end if"],
               "notstr": ["`if %s = 1 then" % d, "`end if"]}[bad]
        # a place outside any directive
        depth, places = 0, [0]
        for i, (t, _) in enumerate(out):
            tl = t.lower()
            if tl.startswith("`if"):
                depth += 1
            elif tl.startswith("`end") and not tl.startswith("`end if */"):
                depth -= 1
            if depth == 0 and not t.endswith("/* `else"):
                places.append(i + 1)
        p = s.choice(places)
        out[p:p] = [(t, None) for t in new]
    join = s.weighted([(4, False), (1, True)])
    lines = [[]]
    exp = []
    pre = ["entity t is end entity;", "architecture a of t is", "begin", "  process is begin"]
    for t, e in out:
        if e:
            exp.append((e[0], len(lines) + len(pre), e[1]))
        lines[-1].append(t)
        if not (join and "--" not in t and s.int(0, 2) == 0) or "/*" in t or t.endswith("*/"):
            lines.append([])
    body = [" " + " ".join(l) for l in lines]
    src = "\n".join(pre + body + ["  wait; end process;", "end architecture;"]) + "\n"
    return {"kind": "vhdl", "std": std, "src": src, "defs": cmd, "exp": exp, "bad": bad, "ok": st["dirs"] >= 3 and st["skip"] > 0}


def diags(text):
    r = []
    for l in text.splitlines():
        m = re.match(r"^t\.\w+:(\d+):(?:\d+:)? (note|warning|error|fatal): (?:\S+\+\d+: )?(.*)$", l)
        if m:
            r.append((m.group(2), int(m.group(1)), m.group(3).strip(chr(34))))
    return r


def same(exp, got, what, det):
    if exp != got:
        i = 0
        while i < min(len(exp), len(got)) and exp[i] == got[i]:
            i += 1
        raise pbt.Fail("%s: expected %r but got %r" % (what, exp[i] if i < len(exp) else "nothing more", got[i] if i < len(got) else "nothing more"),
                       sig=what, detail=det)


def check_vhdl(case, env):
    d = env.dir()
    open(os.path.join(d, "t.vhd"), "w").write(case["src"])
    args = [env.nvc, "--std=" + case["std"], "--messages=compact", "-L", env.lib, "-a"]
    for n, v in case["defs"]:
        args += ["-D%s=%s" % (n, v)] if v or env.case_flip else ["-D" + n]
    r = nvc.run(args + ["t.vhd"], d, {}, 20)
    det = "%s\n%s\n%s" % (args, case["src"], r.err)
    if r.crashed or r.timeout:
        raise pbt.Fail("analysis crashed", sig="crash", detail=det)
    got = diags(r.err)
    if case["bad"]:
        env.mark([case.get("src"),case.get("files"),case["defs"]])
        env.label("bad:" + case["bad"])
        if r.rc == 0 or not any(k == "error" for k, l, m in got):
            raise pbt.Fail("malformed directives (%s) accepted" % case["bad"], sig="bad", detail=det)
        return
    exp = case["exp"]
    e1 = sorted((l, {"W": "warning", "E": "error"}[k], m) for k, l, m in exp if k != "T")
    g1 = sorted((l, k, m) for k, l, m in got if k != "note")
    same(e1, g1, "diagnostics", det)
    (case["ok"] and env.mark([case.get("src"),case.get("files"),case["defs"]]))
    errs = any(k == "E" for k, _, _ in exp)
    if errs != (r.rc != 0):
        raise pbt.Fail("analysis exit status %d" % r.rc, sig="rc", detail=det)
    if errs:
        env.label("vhdl-errors")
        return
    env.label("vhdl-run")
    r = nvc.run([env.nvc, "--std=" + case["std"], "--messages=compact", "-L", env.lib, "-e", "--jit", "--no-save", "t", "-r", "t"], d, {}, 20)
    det += "\n" + r.out + r.err
    g2 = [(l, m.split(": ", 1)[-1]) for k, l, m in diags(r.err + r.out) if k == "note"]
    same([(l, m) for k, l, m in exp if k == "T"], g2, "reports", det)


# ---------------------------------------------------------------- Verilog
WORDS = ["foo", "x1", "+", "8'hff", "\"str\"", "\"a `M0 b\"", "\"// no\"", "\"/* no\"", "a<=b;", "/*c*/", "/* `M1 */", "(", ")", "$display", "\"\\\"q\"", "1.5", "\"`endif\"", "~", "/"]
MACROS = ["M0", "M1", "m1", "MAC_2", "_u$3", "ifdefx", "endif2", "LONG_MACRO_NAME"]
LANGDIR = ["`timescale 1ns/1ps", "`default_nettype none", "`resetall", "`celldefine", "`endcelldefine"]


class Pp:
    """reference preprocessor over abstract lines"""
    def __init__(self, fname, macros):
        self.fname, self.macros = fname, macros
        self.warn = []

    def expand(self, text, line, stack=()):
        out, i = "", 0
        while i < len(text):
            if text.startswith("//", i):
                j = text.find("\n", i)
                j = len(text) if j < 0 else j
                out += text[i:j]
                i = j
            elif text.startswith("/*", i):
                j = text.index("*/", i + 2) + 2
                out += text[i:j]
                i = j
            elif text[i] == '"':
                m = re.match(r'"([^"\\\r\n]|\\.)*"', text[i:])
                out += m.group(0)
                i += m.end()
            elif text[i] == "`":
                m = re.match(r"`([A-Za-z_][A-Za-z0-9_$]*)", text[i:])
                n = m.group(1)
                i += m.end()
                if n == "__LINE__":
                    out += str(line)
                elif n == "__FILE__":
                    out += self.fname
                elif n in self.macros:
                    out += self.expand(self.macros[n], line, stack + (n,))
                elif n in ("timescale", "default_nettype", "resetall", "celldefine", "endcelldefine"):
                    out += "`" + n
                else:
                    self.warn.append((line, "warning", "macro %s undefined" % n))
            else:
                out += text[i]
                i += 1
        return out


def ptext(s, macros, maxw=5):
    ws = []
    for _ in range(s.int(0, maxw)):
        if s.int(0, 2) == 0:
            ws.append("`" + s.choice(macros + ["__LINE__", "__FILE__"]))
        else:
            ws.append(s.choice(WORDS))
    t = s.choice(["", "  ", "\t"]) + s.choice([" ", "  "]).join(ws)
    return t


def gen_vpp(s):
    """one or two files; lines: (directive..)"""
    single = s.bool()
    cmd = [(n, s.choice(["1", "", "ab c"])) for n in s.sample([m for m in MACROS if m != "_u$3"], s.int(0, 2))]
    nfiles = s.weighted([(3, 1), (1, 2)])
    macros = {}
    files, outs, warns = [], [], []
    stats = {"dirs": 0, "skip": 0}
    err = False
    badk = s.choice(["dropend", "extraend", "dupelse", "elsifafter", "strayelse", "noname", "recursive", "strayelsif"]) if s.int(0, 9) == 0 else None
    for fi in range(nfiles):
        fname = "f%d.v" % fi
        if fi == 0 or not single:
            macros = dict(cmd)
        pp = Pp(fname, macros)
        lines, out = [], []
        left = [s.int(5, 25)]

        def emit(t, o):
            lines.append(t)
            out.append(o)

        def block(depth, active, n):
            for _ in range(n):
                if left[0] <= 0:
                    return
                left[0] -= 1
                k = s.weighted([(6, "text"), (4, "define"), (1, "undef"), (5 if depth else 0, "if"), (1, "comment"), (1, "lang"), (1, "multi")])
                ln = len(lines) + 1
                if k == "text":
                    t = ptext(s, MACROS)
                    if s.int(0, 4) == 0:
                        t += s.choice([" // tail `M0 `else", "// \"", " /* `endif */ z"])
                    emit(t, pp.expand(t, ln) if active else "")
                elif k == "lang":
                    t = s.choice(LANGDIR)
                    emit(t, t if active else "")
                elif k == "comment":
                    t = s.choice(["// `define M0 77", "// `else", "/* `endif */", "// don't \" care"])
                    emit(t, t if active else "")
                elif k == "multi":
                    t = [s.choice(["/* start", "x /* `else"]), s.choice(["`endif", "`define M0 5 \\", "mid \" `M1"]), s.choice(["`else */ y", "*/"])]
                    for x in t:
                        emit(x, x if active else "")
                elif k == "define":
                    stats["dirs"] += 1
                    n = s.choice(MACROS)
                    # only macros that come earlier in MACROS may be used: no recursion
                    body = ptext(s, MACROS[:MACROS.index(n)], 4).strip() if MACROS.index(n) else s.choice(["1", "", "a + b", "\"s\""])
                    parts = [body]
                    while s.int(0, 3) == 0 and len(parts) < 4:
                        parts.append(ptext(s, MACROS[:MACROS.index(n)] or ["__LINE__"], 3) if MACROS.index(n) else " z")
                    tail = s.choice(["", "", " ", " // comment `M1", "// c"])
                    if tail == "// c" and parts[-1].endswith("/") and not parts[-1].endswith("*/"):
                        tail = " // c"
                    sp = s.choice([" ", "  ", "\t"])
                    full = "`define%s%s%s" % (s.choice([" ", "  ", "\t"]), n, (sp if body else "") + " \\\n".join(parts) + (tail if body else ""))
                    if full.count("\n") and not body:
                        full = full.replace(n, n + " ", 1)
                    ls = full.split("\n")
                    for x in ls:
                        emit(x, "")
                    if active:
                        macros[n] = "\n".join(p if i == len(parts) - 1 else p + " " for i, p in enumerate(parts)).rstrip(" \t\n")
                        if not body:
                            macros[n] = ("\n".join([""] + [p if i == len(parts) - 2 else p + " " for i, p in enumerate(parts[1:])])).rstrip(" \t\n") if len(parts) > 1 else ""
                elif k == "undef":
                    n = s.choice(MACROS)
                    emit("`undef " + n + s.choice(["", " "]), "")
                    if active:
                        macros.pop(n, None)
                else:
                    taken = False
                    nb = s.int(1, 3)
                    for i in range(nb):
                        stats["dirs"] += 1
                        n = s.choice(MACROS)
                        neg = i == 0 and s.int(0, 2) == 0
                        d = "elsif" if i else "ifndef" if neg else "ifdef"
                        # a condition of a skipped branch has no effect whatever it says
                        cond = (n in macros) != neg
                        here = active and not taken and cond
                        cm = s.choice(["", "", " // x `else", " junk"])
                        emit("`%s %s%s" % (d, n, cm), pp.expand(cm, len(lines) + 1) if here else "")
                        block(depth - 1, here, s.int(0, 3))
                        stats["skip"] += not here
                        taken = taken or cond
                    if s.bool():
                        here = active and not taken
                        cm = s.choice(["", " // e", " txt"])
                        emit("`else" + cm, cm if here else "")
                        block(depth - 1, here, s.int(0, 3))
                    cm = s.choice(["", " // " + s.choice(MACROS), " t2"])
                    emit("`endif" + cm, cm if active else "")
        while left[0] > 0:
            block(s.int(1, 4), True, 1)
        if badk and fi == nfiles - 1:
            m = s.choice(MACROS)
            lines += {"dropend": ["`ifdef %s" % m], "extraend": ["`endif"], "dupelse": ["`ifdef %s" % m, "`else", "`else", "`endif"],
                      "elsifafter": ["`ifndef %s" % m, "`else", "`elsif %s" % m, "`endif"], "strayelse": ["`else"],
                      "strayelsif": ["`elsif %s" % m], "noname": [s.choice(["`define 1", "`ifdef 5", "`ifndef +", "`ifdef"])],
                      "recursive": ["`define %s a `%s" % (m, m), "`" + m]}[badk]
        files.append("\n".join(lines) + "\n")
        outs.append("\n".join(out) + "\n")
        warns += pp.warn
    eol = s.weighted([(5, "\n"), (1, "\r\n")])
    return {"kind": "vpp", "files": files, "outs": outs, "warns": warns, "defs": cmd, "single": single, "bad": badk, "eol": eol,
            "ok": stats["dirs"] >= 3 and stats["skip"] > 0}


def check_vpp(case, env):
    d = env.dir()
    names = []
    for i, f in enumerate(case["files"]):
        names.append("f%d.v" % i)
        open(os.path.join(d, names[-1]), "w", newline="").write(f.replace("\n", case["eol"]))
    args = [env.nvc, "--messages=compact", "--preprocess"] + (["--single-unit"] if case["single"] and len(names) else [])
    for n, v in case["defs"]:
        args += ["-D%s=%s" % (n, v)] if v else ["-D" + n]
    r = nvc.run(args + names, d, {}, 20)
    det = "%s\n%s\n--- got\n%s\n%s" % (args, "\n---\n".join(case["files"]), r.out, r.err)
    if r.crashed or r.timeout:
        raise pbt.Fail("preprocessor crashed or hung", sig="crash", detail=det)
    got = []
    for l in r.err.splitlines():
        m = re.match(r"^f\d\.v:(\d+):(?:\d+:)? (warning|error): (.*)$", l)
        if m:
            got.append((int(m.group(1)), m.group(2), m.group(3)))
    if case["bad"]:
        env.mark([case.get("src"),case.get("files"),case["defs"]])
        env.label("bad:" + case["bad"])
        if not any(k == "error" for _, k, _ in got) and "error" not in r.err:
            raise pbt.Fail("malformed directives (%s) accepted" % case["bad"], sig="bad", detail=det)
        return
    (case["ok"] and env.mark([case.get("src"),case.get("files"),case["defs"]]))
    env.label("vpp")
    exp = "".join(case["outs"]).split("\n")
    same(exp, r.out.split("\n"), "preprocessed text", det)
    same([list(w) for w in case["warns"]], [list(w) for w in got], "diagnostics", det)
    if r.rc != 0:
        raise pbt.Fail("exit status %d" % r.rc, sig="rc", detail=det)


# Verilog analysis: selected text and lines of diagnostics
def gen_vlog(s):
    cmd = [(n, s.choice(["1", "7"])) for n in s.sample([m for m in MACROS if m != "_u$3"], s.int(0, 2))]
    macros = dict(cmd)
    errs = s.bool()
    lines, exp = [], []
    left = [s.int(5, 25)]
    cnt = [0]
    stats = {"dirs": 0, "skip": 0}

    def text(active):
        cnt[0] += 1
        vals = sorted(n for n, v in macros.items())
        if errs and s.int(0, 3) == 0:
            lines.append("    nodecl%d = 1;" % cnt[0])
            if active:
                exp.append(["E", len(lines), "nodecl%d" % cnt[0]])
        elif vals and s.bool() and active:
            n = s.choice(vals)
            v = macros[n]
            lines.append("    $display(\"D%d %%0d\", `%s);%s" % (cnt[0], n, s.choice(["", " // `else"])))
            exp.append(["T", len(lines), "D%d %d" % (cnt[0], eval(re.sub(r"\s+", " ", full(v)).replace("`__LINE__", str(len(lines)))))])
        else:
            lines.append("    $display(\"D%d\");" % cnt[0])
            if active:
                exp.append(["T", len(lines), "D%d" % cnt[0]])

    def full(v):
        while True:
            w = re.sub(r"`([A-Za-z_][\w$]*)", lambda m: "(" + macros[m.group(1)] + ")" if m.group(1) in macros else m.group(0), v)
            if w == v:
                return v
            v = w

    def block(depth, active, n):
        for _ in range(n):
            if left[0] <= 0:
                return
            left[0] -= 1
            k = s.weighted([(5, "text"), (4, "define"), (5 if depth else 0, "if"), (1, "comment")])
            if k == "text":
                text(active)
            elif k == "comment":
                lines.extend(s.choice([["// `else"], ["/* `endif", "`else */"], ["/* `define M0 6 */"]]))
            elif k == "define":
                stats["dirs"] += 1
                n = s.choice(MACROS)
                usable = [m for m in MACROS[:MACROS.index(n)] if m in macros]
                # a macro used in the body must stay what it is: only define macros not used by others
                if any(("`" + n) in v for v in macros.values()):
                    continue
                atoms = [str(s.int(0, 99)), "`__LINE__" if s.int(0, 5) == 0 else "3"] + ["`" + m for m in usable]
                parts = ["(%s" % s.choice(atoms)] + ["%s %s" % (s.choice(["+", "+ 1 +"]), s.choice(atoms)) for _ in range(s.int(0, 3))]
                parts[-1] += ")"
                ls = []
                cur = "`define %s " % n
                for p in parts:
                    cur += p + " "
                    if s.int(0, 2) == 0 and p is not parts[-1]:
                        ls.append(cur + "\\")
                        cur = "  "
                ls.append(cur + s.choice(["", "// comment"]))
                lines.extend(ls)
                if active:
                    macros[n] = " ".join(parts)
            else:
                taken = False
                for i in range(s.int(1, 3)):
                    stats["dirs"] += 1
                    n = s.choice(MACROS)
                    neg = i == 0 and s.int(0, 2) == 0
                    cond = (n in macros) != neg
                    here = active and not taken and cond
                    lines.append("`%s %s" % ("elsif" if i else "ifndef" if neg else "ifdef", n))
                    block(depth - 1, here, s.int(0, 3))
                    stats["skip"] += not here
                    taken = taken or cond
                if s.bool():
                    lines.append("`else")
                    block(depth - 1, active and not taken, s.int(0, 3))
                lines.append("`endif")
    lines += ["module t;", "  initial begin"]
    while left[0] > 0:
        block(s.int(1, 4), True, 1)
    text(True)
    lines += ["  end", "endmodule"]
    return {"kind": "vlog", "src": "\n".join(lines) + "\n", "defs": cmd, "exp": exp, "ok": stats["dirs"] >= 3 and stats["skip"] > 0}


def check_vlog(case, env):
    d = env.dir()
    open(os.path.join(d, "t.v"), "w").write(case["src"])
    args = [env.nvc, "--std=2008", "--messages=compact", "-L", env.lib, "-a"]
    for n, v in case["defs"]:
        args += ["-D%s=%s" % (n, v)]
    r = nvc.run(args + ["t.v"], d, {}, 20)
    det = "%s\n%s\n%s" % (args, case["src"], r.err)
    if r.crashed or r.timeout:
        raise pbt.Fail("analysis crashed or hung", sig="crash", detail=det)
    (case["ok"] and env.mark([case.get("src"),case.get("files"),case["defs"]]))
    errs = [(l, m) for k, l, m in case["exp"] if k == "E"]
    got = [(l, m) for k, l, m in diags(r.err) if k == "error"]
    same([(l, "no visible declaration for " + m) for l, m in errs], got, "verilog diagnostics", det)
    if errs:
        env.label("vlog-errors")
        return
    if r.rc != 0:
        raise pbt.Fail("exit status %d" % r.rc, sig="rc", detail=det)
    env.label("vlog-run")
    r = nvc.run([env.nvc, "--std=2008", "--messages=compact", "-L", env.lib, "-e", "--jit", "--no-save", "t", "-r", "t"], d, {}, 20)
    got = [" ".join(l.split()) for l in r.out.splitlines()]   # nvc does not support the width of %0d
    same([m for k, _, m in case["exp"] if k == "T"], got, "verilog output", det + "\n" + r.out + r.err)


PINNED = []


def gen(s, index):
    k = s.weighted([(4, "vhdl"), (5, "vpp"), (3, "vlog")])
    c = {"vhdl": gen_vhdl, "vpp": gen_vpp, "vlog": gen_vlog}[k](s)
    c["flip"] = s.bool()
    return c


def check(case, env):
    env.label("kind:" + case["kind"])
    env.case_flip = case.get("flip", False)
    {"vhdl": check_vhdl, "vpp": check_vpp, "vlog": check_vlog}[case["kind"]](case, env)


if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
