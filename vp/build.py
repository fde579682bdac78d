"""Builds nvc from /repo's working tree into /verif/.build (never writes in /repo).

The working tree is mirrored by content (so make sees only real changes), then
the project's own autotools build is run in a separate object directory.  Two
variants: 'base' (as the project's debug CI build: internal assertions on) and
'asan' (address + undefined sanitizers, same libraries).
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BLD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(BLD, "src")
SKIP_TOP = {".git", "_build", "autom4te.cache", "www"}
SKIP_TEST = {"regress", "parse", "sem", "simp", "lower", "bounds", "elab", "eopt",
             "perf", "jit", "vlog", "psl", "dump", "diag", "sdf", "model",
             "charset", "driver", "misc", "shell", "group", "vests"}
GEN_TOP = {"aclocal.m4", "config.h.in", "configure", "config.guess", "config.sub",
           "compile", "depcomp", "install-sh", "missing", "ylwrap", "Makefile.in",
           "INSTALL", "configure~"}


class BuildError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("NVC_") and k not in
         ("MAKEFLAGS", "MAKELEVEL", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "DESTDIR")}
    e["LANG"] = e["LC_ALL"] = "C.UTF-8"
    return e


def _sources():
    """Relative paths of the files the build needs."""
    for top in sorted(os.listdir(REPO)):
        if top in SKIP_TOP or top in GEN_TOP:
            continue
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            yield top
        elif os.path.isdir(p):
            for dp, dn, fn in os.walk(p):
                rel = os.path.relpath(dp, REPO)
                if rel == "test":
                    dn[:] = [d for d in dn if d not in SKIP_TEST]
                if rel == "contrib/gui":
                    dn[:] = [d for d in dn if d not in ("node_modules", "dist")]
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".o", ".a", ".so", ".lo", "~")):
                        continue
                    yield os.path.join(rel, f)


def _mirror():
    """Copy changed contents only; returns (changed, digest, autotools_digest)."""
    changed = []
    h, ha = hashlib.sha256(), hashlib.sha256()
    seen = set()
    for rel in _sources():
        if rel == "src/lexer.c" or (rel == "src/vlog/vlog-pp.c"):
            continue
        seen.add(rel)
        s, d = os.path.join(REPO, rel), os.path.join(SRC, rel)
        if os.path.islink(s) and not os.path.exists(s):
            continue
        with open(s, "rb") as f:
            data = f.read()
        h.update(rel.encode() + b"\0" + hashlib.sha256(data).digest())
        if rel.endswith((".am", ".ac", ".m4")):
            ha.update(rel.encode() + b"\0" + data)
        old = None
        try:
            with open(d, "rb") as f:
                old = f.read()
        except OSError:
            pass
        if old != data:
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, "wb") as f:
                f.write(data)
            shutil.copymode(s, d)
            changed.append(rel)
    # remove files which have gone from the tree
    for sub in ("src", "lib", "thirdparty"):
        for dp, dn, fn in os.walk(os.path.join(SRC, sub)):
            for f in fn:
                rel = os.path.relpath(os.path.join(dp, f), SRC)
                if rel not in seen and rel.endswith((".c", ".h", ".vhd", ".l")):
                    os.unlink(os.path.join(SRC, rel))
                    changed.append(rel)
    return changed, h.hexdigest(), ha.hexdigest()


def _run(cmd, cwd, log, timeout=840):
    with open(log, "ab") as f:
        f.write(("$ %s\n" % cmd).encode())
        f.flush()
        r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdin=subprocess.DEVNULL,
                           stdout=f, stderr=subprocess.STDOUT, env=env(), timeout=timeout)
    if r.returncode:
        with open(log, "rb") as f:
            tail = f.read()[-3000:].decode("utf-8", "replace")
        raise BuildError("build step failed: %s\n%s" % (cmd, tail))


def _read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return None


def _write(p, s):
    with open(p, "w") as f:
        f.write(s)


VARIANTS = {
    "base": ("", "-g1 -O1"),
    "asan": ("", "-g1 -O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize=alignment,vptr -fsanitize-recover=undefined"),
}


def build(variant="base", libs=True, quiet=False):
    """Returns a dict with the paths of the built tree."""
    os.makedirs(BLD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BLD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(SRC, exist_ok=True)
        os.makedirs(os.path.join(SRC, ".git", "logs"), exist_ok=True)
        p = os.path.join(SRC, ".git", "logs", "HEAD")
        if not os.path.exists(p):
            _write(p, "")
        _, digest, adig = _mirror()
        log = os.path.join(BLD, "build-%s.log" % variant)
        stamp = os.path.join(BLD, "autoreconf.stamp")
        if _read(stamp) != adig or not os.path.exists(os.path.join(SRC, "configure")):
            _run("autoreconf --force --install -I m4", SRC, log)
            _write(stamp, adig)
        obj = os.path.join(BLD, variant)
        key = digest + " " + VARIANTS[variant][1]
        done = os.path.join(obj, ".done")
        if _read(done) != key:
            os.makedirs(obj, exist_ok=True)
            if _read(os.path.join(obj, ".conf")) != adig + VARIANTS[variant][1]:
                extra, cflags = VARIANTS[variant]
                _run("CC=gcc CXX=g++ CFLAGS='%s' CXXFLAGS='%s' LDFLAGS='%s' ../src/configure "
                     "--enable-debug --enable-tcl --enable-server "
                     "--with-llvm=/usr/bin/llvm-config-18 %s" % (
                         cflags, cflags, cflags if "sanitize" in cflags else "", extra), obj, log)
                _write(os.path.join(obj, ".conf"), adig + VARIANTS[variant][1])
            _run("make -j8 gitsha.h && make -j8 bin/nvc bin/fstdump", obj, log)
            if variant == "base" and libs:
                with open(os.path.join(obj, "bin/nvc"), "rb") as f:
                    nh = hashlib.sha256(f.read()).hexdigest()
                lp = os.path.join(obj, ".libs-by")
                if _read(lp) != nh:
                    for d in os.listdir(os.path.join(obj, "lib")):
                        q = os.path.join(obj, "lib", d)
                        if os.path.isdir(q):
                            shutil.rmtree(q)
                        elif d.startswith("preload"):
                            os.unlink(q)
                _run("make -j8 all", obj, log)
                _write(lp, nh)
            _write(done, key)
    return {"src": SRC, "obj": obj, "nvc": os.path.join(obj, "bin", "nvc"),
            "fstdump": os.path.join(BLD, "base", "bin", "fstdump"),
            "lib": os.path.join(BLD, "base", "lib"), "digest": digest,
            "build_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["base"]):
        print(build(v))
