"""Running nvc on generated sources."""
import os, re, resource, signal, subprocess

from .pbt import Skip

BASE_ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
            "NVC_COLORS": "never", "NVC_MAX_THREADS": "2", "TERM": "dumb",
            "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "print_stacktrace=1"}

CRASH = re.compile(r"\*\*\* Caught signal|Assertion .* failed|AddressSanitizer|Internal error|"
                   r"should not reach here|fatal_trace|runtime error:|LLVM ERROR|PLEASE submit a bug report|"
                   r"Stack dump:|\[0x[0-9a-f]+\] ")


class R:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def all(self):
        return self.out + self.err

    @property
    def crashed(self):
        return self.rc < 0 or self.rc >= 128 or CRASH.search(self.err) is not None \
            or CRASH.search(self.out) is not None

    def __repr__(self):
        return "rc=%s%s\n--- stdout\n%s\n--- stderr\n%s" % (
            self.rc, " TIMEOUT" if self.timeout else "", self.out[-3000:], self.err[-3000:])


def run(argv, cwd, env=None, cpu=60, stdin=None, mem=None, wall=None):
    e = dict(BASE_ENV)
    e["HOME"] = cwd
    if env:
        e.update(env)

    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre,
                         start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout=wall or cpu * 2 + 30)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, er = p.communicate()
        return R(p.returncode, o.decode("latin-1"), er.decode("latin-1"), True)
    return R(p.returncode, o.decode("latin-1"), er.decode("latin-1"), p.returncode == -signal.SIGXCPU)


# engine configurations: (elaboration options, environment)
ENGINES = {
    "interp": (["--jit", "--no-save"], {"NVC_JIT_THRESHOLD": "0"}),
    "jit": (["--jit", "--no-save"], {"NVC_JIT_THRESHOLD": "1", "NVC_JIT_ASYNC": "0"}),
    "mixed": (["--jit", "--no-save"], {"NVC_JIT_THRESHOLD": "3", "NVC_JIT_ASYNC": "0"}),
    "aot0": (["-O0", "--no-save"], {}),
    "aot1": (["-O1", "--no-save"], {}),
    "aot2": (["--no-save"], {}),
    "aot3": (["-O3", "--no-save"], {}),
}


def sim(env, d, src, top="tb", std="2008", engine="interp", name="t.vhd", aopts=(), eopts=(), ropts=(),
        gopts=(), xenv=None, cpu=60, nvc=None, save=False):
    """Analyse, elaborate and run in one command; src None: the file is already there."""
    if src is not None:
        with open(os.path.join(d, name), "w", encoding="latin-1") as f:
            f.write(src)
    eo, ee = ENGINES[engine]
    if save:
        eo = [x for x in eo if x != "--no-save"]
    e = dict(ee)
    if xenv:
        e.update(xenv)
    names = name if isinstance(name, (list, tuple)) else [name]
    argv = [nvc or env.nvc, "-L", env.lib, "--std=" + std, *gopts, "-a", *aopts, *names,
            "-e", *eo, *eopts, top, "-r", *ropts]
    if engine.startswith("aot") and not save:
        # AOT code lives in the library, so it must be saved
        argv.remove("--no-save")
    return run(argv, d, e, cpu)


def sanitizer_report(r):
    return re.search(r"AddressSanitizer|runtime error:", r.err)
