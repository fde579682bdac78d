#!/usr/bin/env python3
"""C04: signals, drivers and processes follow the LRM simulation cycle."""
import collections, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt, simgen

PID = "C04"
CASES = {"quick": 1600, "thorough": 60000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = ("one generated network of processes; non-trivial if the reference saw at least 5 events, 3 delta cycles or time steps "
        "and two processes that logged; distinct by source text")
TECHNIQUE = ("model-based property testing: generated process/signal networks against a reference simulator of the LRM "
             "simulation cycle (drivers, projected waveforms, resolution, signal attributes, waits), on several engines")
NOTE = "random networks up to 6 signals and 5 processes plus one monitor per signal, 40-60 ns; sampled"
ASSUMPTIONS = ["the reference simulator in vp/simgen.py is a faithful reading of IEEE 1076-2008 10.5.2, 14.7 and 16.2"]
DLIMIT = 60


def gen(s, index):
    g = simgen.Gen(s, {"force": s.bool(0.0)})
    g.build()
    stop = s.choice([20, 40, 60])
    sim = g.simulate(stop * simgen.NS, DLIMIT)
    logs = {p.pid: p.log for p in g.procs if p.log}
    return {"src": g.flat(), "logs": logs, "stop": stop, "limit": sim.limit_hit, "limit_time": sim.now,
            "events": sim.events, "cycles": sim.cycles, "labels": sorted(g.labels),
            "engine": s.weighted([(5, "interp"), (2, "jit"), (2, "mixed"), (1, "aot2")]),
            "std": s.choice(["2008", "2019"])}


def by_proc(lines):
    d = collections.defaultdict(list)
    for l in lines:
        m = re.match(r"([pm]\w+?)(\.\d+)? @", l)
        d[m.group(1) if m else "?"].append(l)
    return d


def check(case, env):
    d = env.dir()
    r = nvc.sim(env, d, simgen.PKG + case["src"], std=case["std"], engine=case["engine"],
                ropts=["--stop-time=%dns" % case["stop"], "--stop-delta=%d" % (DLIMIT if case["limit"] else 5000)])
    env.count(sum(len(v) for v in case["logs"].values()))
    env.label(*case["labels"])
    if case["limit"]:
        env.label("delta-limit")
    if r.timeout:
        raise pbt.Skip("timeout")
    if r.crashed:
        raise pbt.Fail("nvc crashed", detail=repr(r))
    m = re.search(r"(?:Fatal|Error): (\d+)ns\+\d+: limit of", r.err)
    if not case["limit"] and m and int(m.group(1)) >= case["stop"]:
        raise pbt.Skip("delta cycle limit at the stop time")
    if case["limit"]:
        if r.rc == 0 or not re.search(r"delta cycle", r.err):
            raise pbt.Fail("zero-delay oscillation not reported", detail=repr(r))
    elif r.rc != 0:
        raise pbt.Fail("unexpected failure: " + r.err[:300], sig="rc", detail=repr(r))
    stop_ps = case["stop"] * 1000
    if case["limit"]:
        stop_ps = case["limit_time"] // 1000
    lines = []
    for l in r.out.split("\n"):
        if not l:
            continue
        m = re.search(r" @(\d+)", l)
        if not m:
            raise pbt.Fail("unexpected output " + l, sig="output")
        if int(m.group(1)) < stop_ps:
            lines.append(l)
    got = by_proc(lines)
    for p in sorted(set(case["logs"]) | set(got)):
        w = [l for l in case["logs"].get(p, []) if int(re.search(r" @(\d+)", l).group(1)) < stop_ps]
        h = got.get(p, [])
        for i in range(max(len(w), len(h))):
            a = h[i] if i < len(h) else "(nothing)"
            b = w[i] if i < len(w) else "(nothing)"
            if a != b:
                raise pbt.Fail("engine %s, process %s, line %d: got '%s' expected '%s'" % (case["engine"], p, i, a, b),
                               sig="log-" + p[0])
    if case["events"] >= 5 and case["cycles"] >= 3 and len(case["logs"]) >= 2:
        env.mark(case["src"])


PINNED = []

def pin(id, decl, body, want, std="2008", stop=40):
    """want: process -> lines logged as '<proc> @<ps> ...'"""
    src = ("library ieee; use ieee.std_logic_1164.all; use work.sp.all;\nentity tb is end entity;\narchitecture a of tb is\n"
           + decl + "\nbegin\n" + body + "\nend architecture;\n")
    logs = {}
    for l in want:
        logs.setdefault(l.split(" ")[0].split(".")[0], []).append(l)
    return {"id": id, "case": {"src": src, "logs": logs, "stop": stop, "limit": False, "limit_time": 0, "events": 0, "cycles": 0,
                               "labels": [], "engine": "interp", "std": std}}


L = "log(\"%s @\" & INTEGER'image(now / 1 ps)%s);"
PINNED = [
    pin("K04-lastactive", "signal s : INTEGER := 0;",
        "p0: process is begin s <= 1; wait for 2 ns; s <= 2; " + L % ("p0", " & im(la(s'last_active))") + " wait; end process;", ["p0 @2000 2000"]),
    pin("K04-delayedres", "signal s : RI := 3;",
        "p0: process is begin " + L % ("p0", " & im(p(s)) & im(p(s'delayed(1 ns)))") + " s <= 5; wait; end process;\n"
        "p1: process is begin s <= 3; wait; end process;", ["p0 @0 6 6"]),
    pin("K04-vecreject", "signal s : BIT_VECTOR(0 to 1);",
        "p0: process is begin s <= \"10\" after 2 ns; s <= \"11\" after 3 ns; wait; end process;\n"
        "p1: process (s) is begin " + L % ("p1", " & im(p(s(0))) & im(p(s(1)))") + " end process;",
        ["p1 @0 0 0", "p1 @2000 1 0", "p1 @3000 1 1"]),
    pin("K04-foldsens", "signal s, t, u : INTEGER := 0;",
        "p0: process is begin wait for 1 ns; t <= 1; wait; end process;\n"
        "p1: u <= s when INTEGER'(3) = 3 else t;\n"
        "p2: process is begin wait for 0 ns; wait for 0 ns; loop " + L % ("p2", " & im(p(u'active))") +
        " wait on u'transaction; end loop; end process;",
        ["p2 @0 0", "p2 @1000 1"]),
    pin("K04-postponedwait", "signal s : INTEGER := 0;",
        "p0: process is begin wait for 1 ns; s <= 1; wait; end process;\n"
        "p1: postponed process is begin wait for 1 ns; " + L % ("p1", " & im(p(s))") + " wait; end process;", ["p1 @1000 1"]),
    pin("K04-lastvalue", "signal s : I_V(0 to 1) := (0, 0);",
        "p0: process is begin s <= (1, 0); wait for 1 ns; s <= (1, 1); wait for 1 ns; " + L % ("p0", " & im(s(0)'last_value)") + " wait; end process;",
        ["p0 @2000 0"]),
    pin("F04-delayed", "signal s : INTEGER := 7;",
        "p0: process (s'delayed(1 ns)) is begin " + L % ("p0", " & im(s'delayed(1 ns))") + " end process;", ["p0 @0 7"]),
    pin("F04-selected", "signal s, u : INTEGER := 0;",
        "p0: process is begin s <= 1; wait for 1 ns; s <= 2; wait for 1 ns; s <= 3; wait; end process;\n"
        "p1: with s select u <= 5 after 3 ns when 2, 6 after 3 ns when others;\n"
        "p2: process (u) is begin " + L % ("p2", " & im(u)") + " end process;", ["p2 @0 0", "p2 @5000 6"]),
    pin("F04-reject", "signal s : INTEGER := 0;",
        "p0: process is begin s <= transport 1 after 1 ns; s <= transport 2 after 2 ns; s <= transport 1 after 3 ns; s <= transport 3 after 4 ns; "
        "s <= reject 4 ns inertial 1 after 5 ns; wait; end process;\n"
        "p2: process (s) is begin " + L % ("p2", " & im(s)") + " end process;", ["p2 @0 0", "p2 @5000 1"]),
    pin("F04-split", "signal s : I_V(0 to 1) := (0, 0);",
        "p0: process is begin wait for 5 ns; s(0) <= 1; wait for 5 ns; s(1) <= 1; wait; end process;\n"
        "p1: process (s'quiet(2 ns)) is begin " + L % ("p1", " & im(p(s'quiet(2 ns)))") + " end process;\n"
        "p2: process (s'stable(1 ns)) is begin " + L % ("p2", " & im(p(s'stable(1 ns)))") + " end process;",
        ["p1 @0 1", "p1 @5000 0", "p1 @7000 1", "p1 @10000 0", "p1 @12000 1", "p2 @0 1", "p2 @5000 0", "p2 @6000 1", "p2 @10000 0", "p2 @11000 1"]),
    pin("F04-init", "signal s : STD_LOGIC := '0'; signal r : RI := 3;",
        "p0: process is begin " + L % ("p0", " & im(la(r'last_event)) & im(r'last_value)") + " r <= 4; wait; end process;\n"
        "p1: process is begin " + L % ("p1", " & im(la(r'last_event)) & im(r'last_value)") + " r <= 4; wait; end process;",
        ["p0 @0 -1 6", "p1 @0 -1 6"]),
    pin("F04-active", "signal s, t : INTEGER := 0;",
        "p0: process is begin s <= 0; s <= 5 after 5 ns; t <= 1; wait; end process;\n"
        "p1: process (t) is begin " + L % ("p1", " & im(p(s'active))") + " end process;", ["p1 @0 0", "p1 @0 0"]),
]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
