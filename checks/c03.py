"""C03: sequential code behaves per the LRM, identically on every engine."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vp import nvc, pbt, seqgen
from vp.pbt import Fail, Skip

PID = "C03"
CASES = {"quick": 1600, "thorough": 20000}
BUDGET = {"quick": 300, "thorough": 3 * 3600}
RULE = ("a program is non-trivial when its reference execution takes at least 30 steps and prints at least 5 "
        "lines that depend on computed values; keyed by its source text")
TECHNIQUE = "generated sequential programs against a reference interpreter, differential over execution engines"
NOTE = ("random well-defined programs (typed expressions with interval analysis, nested loops, case, subprograms, recursion, "
        "up-level access, waits) run on interpreter, JIT and AOT -O0..-O3 and compared with the reference output")
ASSUMPTIONS = ["programs avoid order-dependent side effects, aliasing and run-time errors by construction",
               "integer arithmetic stays inside 32 bits"]


def gen(s, index):
    waits = s.bool(0.4)
    std = s.choice(["2008", "2008", "2019"])
    p = seqgen.Program(s, waits=waits, maxstmts=s.choice([20, 40, 60, 90]), bits=64 if std == "2019" else 32)
    exp = p.execute()
    engines = [s.choice(["interp", "mixed"]), "jit", s.choice(["aot0", "aot1", "aot2", "aot3"])]
    return {"std": std, "src": p.emit(), "expect": exp, "engines": engines, "steps": p.steps, "features": sorted(p.g.features)}


def check(case, env):
    if case["steps"] >= 30 and len(set(case["expect"])) >= 3 and len(case["expect"]) >= 5:
        env.mark(case["src"])
    env.label(*["stmt-" + f for f in case["features"]])
    for eng in case["engines"]:
        d = env.dir()
        r = nvc.sim(env, d, case["src"], std=case["std"], engine=eng, cpu=40)
        env.count()
        env.label("engine-" + eng)
        if r.timeout:
            raise Skip("timeout on %s: %r" % (eng, r))
        if r.crashed or r.rc != 0:
            raise Fail("%s: nvc failed: rc=%s" % (eng, r.rc), detail={"out": r.out[-1500:], "err": r.err[-3000:]})
        got = r.out.split("\n")
        if got and got[-1] == "":
            got.pop()
        if got != case["expect"]:
            k = next((i for i, (a, b) in enumerate(zip(got, case["expect"])) if a != b), min(len(got), len(case["expect"])))
            raise Fail("%s: output differs at line %d: got %s, expected %s" % (
                eng, k, got[k:k + 3], case["expect"][k:k + 3]), sig="%s output" % eng, detail={"got": got, "expected": case["expect"]})


if __name__ == "__main__":
    pbt.run(sys.modules[__name__])
