"""A small property-based testing engine.

A case is a pure function of a sequence of bounded integer choices (as in
Hypothesis / minithesis): `Src` hands out choices from a seeded generator or
replays a recorded sequence, and failures are shrunk on that sequence
(deleting blocks, zeroing and lowering choices), so that replay and shrinking
never involve the generator's source of randomness.  Case i of a run depends
only on (VERIF_SEED, property id, i).
"""
import collections, hashlib, json, multiprocessing as mp, os, random, shutil, signal
import sys, tempfile, time, traceback

from . import build as _build

VERIF = _build.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Src:
    def __init__(self, key=None, choices=None):
        self.rng = random.Random(key) if choices is None else None
        self.replay = choices
        self.choices = []

    def raw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            i = len(self.choices)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def bool(self, p=0.5):
        # 0 shrinks to False
        return self.raw(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.raw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first shrinks best."""
        tot = sum(w for w, _ in pairs)
        v = self.raw(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def edge(self, lo, hi):
        """Integer in [lo, hi], biased towards boundaries and powers of two."""
        k = self.raw(10)
        if k <= 2:
            base = max(lo, min(hi, 0))
            return max(lo, min(hi, base + self.int(-4, 12)))
        if k == 3:
            return min(hi, lo + self.raw(4))
        if k == 4:
            return max(lo, hi - self.raw(4))
        if k <= 6:
            b = self.raw(max(abs(lo), abs(hi), 1).bit_length() + 1)
            v = (1 << b) + self.int(-2, 2)
            if self.bool():
                v = -v
            return max(lo, min(hi, v))
        if k == 7:
            r = self.int(0, max(abs(lo), abs(hi)).bit_length())
            v = self.raw(1 << r)
            if self.bool():
                v = -v
            return max(lo, min(hi, v))
        return self.int(lo, hi)

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.raw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


class Fail(Exception):
    """The property does not hold for this case."""
    def __init__(self, msg, sig=None, detail=None):
        super().__init__(msg)
        self.msg, self.sig, self.detail = msg, sig or msg.split("\n")[0][:120], detail


class Skip(Exception):
    """Inconclusive (time limit, say): never a violation, counted."""


class Env:
    """Per-worker context given to check(case, env)."""
    def __init__(self, built, tmp):
        self.b = built
        self.nvc = built["nvc"]
        self.lib = built["lib"]
        self.tmp = tmp
        self.n = 0
        self.labels = collections.Counter()
        self.evals = 0
        self.nontrivial = []

    def dir(self):
        self.n += 1
        d = os.path.join(self.tmp, "c%d" % self.n)
        os.makedirs(d)
        self._last = d
        return d

    def clean(self):
        for f in os.listdir(self.tmp):
            shutil.rmtree(os.path.join(self.tmp, f), ignore_errors=True)

    def label(self, *ls):
        for l in ls:
            self.labels[l] += 1

    def count(self, n=1):
        self.evals += n

    def mark(self, key):
        """Record a non-trivial case (distinct by key)."""
        self.nontrivial.append(hashlib.sha256(repr(key).encode()).hexdigest()[:16])


def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        try:
            t = tempfile.mkdtemp(prefix="nvcvp-", dir=d)
            return t
        except OSError:
            continue
    raise RuntimeError("no scratch directory")


def case_hash(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


_W = {}


def _winit(mod, built, root):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    tmp = tempfile.mkdtemp(prefix="w", dir=root)
    _W["env"] = Env(built, tmp)
    _W["mod"] = mod


def _one(mod, env, src, index):
    """Returns (status, failure, case)."""
    env.labels = collections.Counter()
    env.evals = 0
    env.nontrivial = []
    case = None
    try:
        case = mod.gen(src, index)
        mod.check(case, env)
        st = ("ok", None)
    except Fail as f:
        st = ("fail", {"msg": f.msg, "sig": f.sig, "detail": f.detail})
    except Skip as s:
        st = ("skip", {"msg": str(s)})
    except Exception:
        st = ("error", {"msg": traceback.format_exc()})
    finally:
        try:
            env.clean()
        except OSError:
            pass
    return st[0], st[1], case


def _work(args):
    pid, seed, index = args
    mod, env = _W["mod"], _W["env"]
    src = Src(key="%s/%s/%s" % (seed, pid, index))
    t0 = time.time()
    st, f, case = _one(mod, env, src, index)
    return {"i": index, "st": st, "f": f, "choices": src.choices if st in ("fail", "error") else None,
            "labels": dict(env.labels), "evals": env.evals, "nt": env.nontrivial,
            "case": case if (st != "ok" or index < 3) else None,
            "t": time.time() - t0}


def _try(args):
    index, choices = args
    src = Src(choices=choices)
    st, f, case = _one(_W["mod"], _W["env"], src, index)
    return st, f, case, src.choices


def shrink(pool, index, choices, sig, budget_s):
    """Shrink on the choice sequence, evaluating candidates in parallel."""
    best = list(choices)
    best_res = None
    end = time.time() + budget_s

    def size(c):
        return (len(c), sum(min(x, 1 << 40) for x in c))

    def batch(cands):
        nonlocal best, best_res
        cands = [c for c in cands if size(c) < size(best)]
        improved = False
        for k in range(0, len(cands), 8):
            if time.time() > end:
                return improved
            rs = pool.map(_try, [(index, c) for c in cands[k:k + 8]], chunksize=1)
            good = [(r[3], r) for r in rs if r[0] == "fail"]
            good = [g for g in good if size(g[0]) < size(best)]
            if good:
                g = min(good, key=lambda x: size(x[0]))
                best, best_res = list(g[0]), g[1]
                return True
        return improved

    while time.time() < end:
        before = size(best)
        n = len(best)
        k = max(1, n // 2)
        while k >= 1 and time.time() < end:
            i = 0
            step = [best[:j] + best[j + k:] for j in range(0, len(best), k)]
            while batch(step) and time.time() < end:
                step = [best[:j] + best[j + k:] for j in range(0, len(best), k)]
            k //= 2
            if k < 1:
                break
        if time.time() < end:
            batch([best[:j] + [0] + best[j + 1:] for j in range(len(best)) if best[j]])
            batch([best[:j] + [best[j] // 2] + best[j + 1:] for j in range(len(best)) if best[j] > 1])
            batch([best[:j] + [best[j] - 1] + best[j + 1:] for j in range(len(best)) if best[j] > 0])
        if size(best) == before:
            break
    return best, best_res


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                j = json.loads(line)
                if j.get("property") == pid and j.get("status") == "known":
                    out.append(j)
    return out


def write_replay(pid, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, case_hash(data.get("case"))))
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def run(mod):
    """Entry point of a check."""
    pid = mod.PID
    t0 = time.time()
    sys.stdout.reconfigure(line_buffering=True)
    try:
        built = _build.build("base")
        for v in getattr(mod, "VARIANTS", []):
            built[v] = _build.build(v)
        if hasattr(mod, "prepare"):
            mod.prepare(built)
    except _build.BuildError as e:
        print("build failed, no answer:", e)
        sys.exit(2)
    t_build = time.time() - t0
    root = scratch_root()
    rc = 2
    try:
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            rc = _replay(mod, built, root, sys.argv[2])
        else:
            rc = _campaign(mod, built, root, t0, t_build)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.exit(rc)


def _replay(mod, built, root, path):
    j = json.load(open(path))
    _winit(mod, built, root)
    env = _W["env"]
    case = j["case"]
    try:
        mod.check(case, env)
    except Fail as f:
        print("still fails:", f.msg)
        if f.detail:
            print(f.detail if isinstance(f.detail, str) else json.dumps(f.detail, indent=1, default=str))
        print("VIOLATION property=%s replay=%s" % (mod.PID, path))
        return 1
    except Skip as s:
        print("inconclusive:", s)
        return 2
    print("replay passes")
    return 0


def _campaign(mod, built, root, t0, t_build):
    pid = mod.PID
    n = mod.CASES[TIER]
    if os.environ.get("VERIF_CASES"):
        n = int(os.environ["VERIF_CASES"])
    budget = getattr(mod, "BUDGET", {"quick": 420, "thorough": 3600 * 3})[TIER]
    nproc = getattr(mod, "NPROC", 8)
    known = known_findings(pid)
    labels = collections.Counter()
    evals = 0
    nt = set()
    samples, fails, errors = [], [], []
    skips = 0
    done = 0
    stopped = False
    viol = []
    slow = 0.0
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc, initializer=_winit, initargs=(mod, built, root)) as pool:
        # 1. pinned cases: known and fixed findings, regressions
        pinned = list(getattr(mod, "PINNED", []))
        for p in pinned:
            st, f, case, _ = pool.apply(_pin, (p,))
            evals += 1
            kf = [k for k in known if k.get("pin") == p["id"]]
            if st == "fail":
                if kf:
                    print("KNOWN-FINDING: property=%s %s" % (pid, kf[0]["what"]))
                else:
                    path = write_replay(pid, {"property": pid, "pin": p["id"], "case": case, "msg": f["msg"], "detail": f["detail"]})
                    print("pinned case %s fails: %s" % (p["id"], f["msg"][:2000]))
                    print("VIOLATION property=%s replay=%s" % (pid, path))
                    viol.append(path)
            elif st == "error":
                errors.append(f["msg"])
        # 2. generated cases
        tasks = ((pid, SEED, i) for i in range(n))
        maxfail = 3
        for r in pool.imap_unordered(_work, tasks, chunksize=1):
            done += 1
            evals += r["evals"] or 1
            labels.update(r["labels"])
            nt.update(r["nt"])
            slow = max(slow, r["t"])
            if r["st"] == "skip":
                skips += 1
                if skips <= 3 or r["t"] > 20:
                    print("inconclusive case %d: %s" % (r["i"], r["f"]["msg"][:300]))
            elif r["st"] == "fail":
                fails.append(r)
                if len(fails) >= maxfail:
                    stopped = True
                    break
            elif r["st"] == "error":
                errors.append(r["f"]["msg"])
                if len(errors) > 3:
                    stopped = True
                    break
            if r["case"] is not None and len(samples) < 3:
                samples.append(r["case"])
            if time.time() - t0 - t_build > budget:
                stopped = True
                labels["time-budget-reached"] += 1
                break
    # a fresh pool, as the old one may still be working
    if fails and not viol:
        with ctx.Pool(8, initializer=_winit, initargs=(mod, built, root)) as pool:
            fails.sort(key=lambda r: r["i"])
            for r in fails:
                again = pool.map(_try, [(r["i"], r["choices"])] * 3, chunksize=1)
                if not all(a[0] == "fail" for a in again):
                    if getattr(mod, "NONDET", False) and any(a[0] == "fail" for a in again):
                        pass
                    else:
                        print("case %d failed once but not on replay: %s %s" % (
                            r["i"], r["f"]["msg"][:600], str(r["f"]["detail"])[:int(os.environ.get("VERIF_DETAIL", 300))]))
                        labels["unreproduced"] += 1
                        continue
                best, res = shrink(pool, r["i"], r["choices"], r["f"]["sig"], int(os.environ.get("VERIF_SHRINK", 0)) or (60 if TIER == "quick" else 240))
                if res:
                    st, f, case, _ = res
                else:
                    f, case = r["f"], r["case"]
                path = write_replay(pid, {"property": pid, "seed": SEED, "index": r["i"], "choices": best,
                                          "case": case, "msg": f["msg"], "detail": f["detail"]})
                print("case %d: %s" % (r["i"], f["msg"][:3000]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                viol.append(path)
                break
    for e in errors[:3]:
        print("harness error:\n" + e)
    if not samples:
        samples = [{"note": "no case finished"}]
    samples = [_trim(s) for s in samples]
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(nt), "rule": mod.RULE,
            "samples": samples, "cases": done, "inconclusive": skips,
            "classes": dict(sorted(labels.items())), "stopped_early": stopped,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d cases, %d evaluations, %d distinct non-trivial, %d inconclusive, %.0f s (build %.0f s), slowest case %.1f s"
          % (pid, done, evals, len(nt), skips, time.time() - t0, t_build, slow))
    if os.environ.get("VERIF_SHOW"):
        for k, v in sorted(labels.items()):
            print("   %-40s %d" % (k, v))
    if viol:
        return 1
    if errors:
        return 2
    return 0


def _pin(p):
    """A pinned case: {'id':..., 'case':...}."""
    mod, env = _W["mod"], _W["env"]
    env.labels = collections.Counter()
    env.evals = 0
    env.nontrivial = []
    try:
        mod.check(p["case"], env)
        return "ok", None, p["case"], None
    except Fail as f:
        return "fail", {"msg": f.msg, "sig": f.sig, "detail": f.detail}, p["case"], None
    except Skip as s:
        return "skip", {"msg": str(s)}, p["case"], None
    except Exception:
        return "error", {"msg": traceback.format_exc()}, p["case"], None
    finally:
        env.clean()


def _trim(s, n=6000):
    t = json.dumps(s, default=str)
    if len(t) <= n:
        return s
    return {"truncated": t[:n]}
