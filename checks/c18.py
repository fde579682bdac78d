#!/usr/bin/env python3
"""C18: simulation is deterministic and independent of internal scheduling."""
import collections, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import nvc, pbt, seqgen, simgen

PID = "C18"
CASES = {"quick": 500, "thorough": 20000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = "one generated design run under at least 6 configurations with at least 5 output lines; distinct by source and configurations"
TECHNIQUE = ("differential/metamorphic property testing: generated race-free designs (process networks, sequential programs, random number users) "
             "run repeatedly under different thread counts, shuffle, compile timing, tracing, dumping, statistics and coverage options; "
             "output and waveform must not change")
NOTE = "6-9 configurations per design; sampled"
ASSUMPTIONS = ["simgen networks have no order-dependent code (no shared variables; commutative resolution functions)",
               "with --shuffle the relative order of lines of different processes in one delta cycle may change"]

RND = """
library nvc; use nvc.random.all; use std.textio.all;
entity rnd is end entity;
architecture a of rnd is
  signal dummy : bit;         -- known finding K06-empty
begin
  process is variable l : line; variable n : t_uint32;
  begin
    for i in 1 to %d loop
      n := get_random; write(l, string'("r @")); write(l, t_uint32'image(n)); writeline(output, l);
      wait for 1 ns;
    end loop;
    wait;
  end process;
end architecture;
"""

VAR = {
    "repeat": {},
    "threads-1": {"xenv": {"NVC_MAX_THREADS": "1"}},
    "threads-8": {"xenv": {"NVC_MAX_THREADS": "8", "NVC_CONCURRENT_JOBS": "8"}},
    "shuffle": {"ropts": ["--shuffle"], "shuffle": True},
    "wave-vcd": {"ropts": ["--wave=x.vcd", "--format=vcd", "--dump-arrays"], "wave": True},
    "wave-fst": {"ropts": ["--wave=x.fst", "--dump-arrays"]},
    "trace": {"ropts": ["--trace"]},
    "stats": {"ropts": ["--stats"]},
    "async-1": {"engine": "interp", "xenv": {"NVC_JIT_THRESHOLD": "1", "NVC_JIT_ASYNC": "1", "NVC_MAX_THREADS": "4"}},
    "async-3": {"engine": "interp", "xenv": {"NVC_JIT_THRESHOLD": "3", "NVC_JIT_ASYNC": "1", "NVC_MAX_THREADS": "4"}},
    "async-20": {"engine": "interp", "xenv": {"NVC_JIT_THRESHOLD": "20", "NVC_JIT_ASYNC": "1", "NVC_MAX_THREADS": "8"}},
    "sync-2": {"engine": "interp", "xenv": {"NVC_JIT_THRESHOLD": "2", "NVC_JIT_ASYNC": "0"}},
    "aot": {"engine": "aot2"},
    "aot-jobs": {"engine": "aot1", "xenv": {"NVC_MAX_THREADS": "8", "NVC_CONCURRENT_JOBS": "8"}},
    "heap": {"gopts": ["-H", "4m"]},
    "cover": {"eopts": ["--cover"], "cover": True},
    "dump-vcode": {"engine": "aot0"},
    "shuffle-wave": {"ropts": ["--shuffle", "--wave=x.vcd", "--format=vcd", "--dump-arrays"], "shuffle": True, "wave": True},
    "async-wave": {"engine": "interp", "xenv": {"NVC_JIT_THRESHOLD": "1", "NVC_JIT_ASYNC": "1"}, "ropts": ["--wave=x.vcd", "--format=vcd", "--dump-arrays"], "wave": True},
}


def gen(s, index):
    k = s.weighted([(6, "sim"), (3, "seq"), (1, "rnd")])
    names = s.sample(sorted(VAR), s.int(5, 8))
    if s.bool(0.8) and "repeat" not in names:
        names[0] = "repeat"
    if k == "rnd":
        names = [x for x in names if "shuffle" not in x]        # known finding K18-shufflernd
        n = s.int(2, 12)
        seed = s.int(0, 2**31 - 1)
        return {"kind": k, "src": RND % n, "top": "rnd", "std": "2008", "vars": names, "gopts": ["--seed=%d" % seed], "ropts": [], "labels": []}
    if k == "seq":
        std = s.choice(["2008", "2019"])
        p = seqgen.Program(s, waits=s.bool(0.4), maxstmts=s.choice([20, 40]), bits=64 if std == "2019" else 32)
        p.execute()
        return {"kind": k, "src": p.emit().replace("architecture a of tb is\n", "architecture a of tb is\n  signal dummy : bit;\n"), "top": "tb", "std": std, "vars": names, "gopts": [], "ropts": [], "labels": []}
    g = simgen.Gen(s, {})
    g.build()
    stop = s.choice([20, 40])
    sim = g.simulate(stop * simgen.NS, 60)
    return {"kind": k, "src": simgen.PKG + g.flat(), "top": "tb", "std": s.choice(["2008", "2019"]), "vars": names, "gopts": [],
            "ropts": ["--stop-time=%dns" % stop, "--stop-delta=%d" % (60 if sim.limit_hit else 5000)], "limit": sim.limit_hit, "labels": sorted(g.labels)}


def by_proc(lines):
    d = collections.defaultdict(list)
    for l in lines:
        m = re.match(r"([pm]\w+?)(\.\d+)? @", l)
        d[m.group(1) if m else "?"].append(l)
    return d


def msgs(err):
    """Diagnostics without the trace and statistics lines."""
    return [l for l in err.split("\n") if not re.match(r"TRACE|\s*$|\[\d|  +|== |.*(?:setup|run|maxrss|ms |kB)|\*\* (Note|Warning): (?:.*(?:writing|arrays of|"
                                                      r"shuffle|statistics|cannot represent|setup:|coverage|run:|.*kB))", l) and not l.startswith("   ")]


def cycles(err):
    return None


def run1(case, env, v, wave=None):
    d = env.dir()
    o = VAR[v] if v else {}
    r = nvc.sim(env, d, case["src"], top=case["top"], std=case["std"], engine=o.get("engine", "interp"), gopts=list(case["gopts"]) + list(o.get("gopts", [])),
                ropts=case["ropts"] + o.get("ropts", []), eopts=o.get("eopts", []), xenv=dict(o.get("xenv", {}), TMPDIR=d))
    w = None
    if o.get("wave"):
        p = os.path.join(d, "x.vcd")
        w = open(p, encoding="latin-1").read() if os.path.exists(p) else ""
        w = re.sub(r"(?s)\$date.*?\$end", "", w, count=1)
        w = w.replace(d, "DIR")
    return r, w, d


def check(case, env):
    base, _, d0 = run1(case, env, None)
    if base.timeout:
        raise pbt.Skip("timeout")
    if base.crashed:
        raise pbt.Fail("nvc crashed", "crash", repr(base))
    env.label("kind-" + case["kind"])
    lines = base.out.split("\n")
    waves = {}
    for v in case["vars"]:
        r, w, d = run1(case, env, v)
        env.count()
        env.label("var-" + v)
        if r.timeout:
            raise pbt.Skip("timeout")
        if r.crashed and "Fatal: " not in r.err:
            raise pbt.Fail("%s: nvc crashed" % v, "crash " + v, repr(r))
        if r.rc != base.rc:
            raise pbt.Fail("%s: exit status %d, without it %d" % (v, r.rc, base.rc), "rc " + v, repr(r) + repr(base))
        got = r.out.split("\n")
        if v == "cover":
            got = [l for l in got if not l.startswith("** Note")]
        if VAR[v].get("shuffle"):
            a, b = by_proc(got), by_proc(lines)
            if case.get("limit"):
                continue            # the output of the cycle in which the limit is hit is cut off
            for p in sorted(set(a) | set(b)):
                if a[p] != b[p]:
                    raise pbt.Fail("%s: output of process %s differs" % (v, p), "out " + v, "\n".join(a[p]) + "\n--\n" + "\n".join(b[p]))
        elif got != lines:
            k = next((i for i, (x, y) in enumerate(zip(got, lines)) if x != y), min(len(got), len(lines)))
            raise pbt.Fail("%s: output line %d is %s, without it %s" % (v, k, got[k:k + 1], lines[k:k + 1]), "out " + v, repr(r) + repr(base))
        if v in ("repeat", "threads-1", "threads-8", "heap") and r.err.replace(d, "") != base.err.replace(d0, ""):
            raise pbt.Fail("%s: diagnostics differ" % v, "err " + v, repr(r) + repr(base))
        if w is not None and not case.get("limit"):
            # the same set of changes at each time, whatever the order within one time step
            waves[v] = norm(w)
            if waves[v] != next(iter(waves.values())):
                raise pbt.Fail("%s: waveform differs from %s" % (v, next(iter(waves))), "wave " + v, w[:6000])
    if len(case["vars"]) >= 5 and len(lines) >= 5:
        env.mark(case["src"] + str(case["vars"]))


def norm(w):
    h, _, b = w.partition("$enddefinitions")
    out, cur = [h], {}
    for l in b.split("\n"):
        if l.startswith("#"):
            out.append(sorted(cur.items()))
            out.append(l)
            cur = {}
        elif l and l[0] in "bsr":
            cur[l.split(" ")[1]] = l
        elif l and l[0] != "$":
            cur[l[1:]] = l
    out.append(sorted(cur.items()))
    return out


PINNED = [{"id": "K18-shufflernd", "case": {"kind": "rnd", "src": RND % 3, "top": "rnd", "std": "2008", "vars": ["shuffle"], "gopts": ["--seed=5"],
                                            "ropts": [], "labels": []}}]

if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
