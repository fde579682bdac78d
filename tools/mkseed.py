#!/usr/bin/env python3
"""mkseed.py: create seeded/<id> from a description file (python literal dict).

keys: id, property, needs, breaks, edits: [(file, old, new)], and either
 vhdl + expect (+ engines, std, top, ropts) for the standard demonstration, or
 files: {name: text} (must include demo.sh)."""
import sys, os, subprocess, json, difflib
V = "/verif"
DEMO = r'''#!/bin/bash
# Runs t.vhd on the listed engines and compares the output with expect.txt.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$H/t.vhd" "$T"; cd "$T" || exit 2
export NVC_COLORS=never HOME=$T
rc=0
for e in @ENG@; do
  unset NVC_JIT_THRESHOLD NVC_JIT_ASYNC
  case $e in
    interp) o="--jit --no-save"; export NVC_JIT_THRESHOLD=0;;
    jit) o="--jit --no-save"; export NVC_JIT_THRESHOLD=1 NVC_JIT_ASYNC=0;;
    aot) o="";;
  esac
  timeout 60 /repo/_build/bin/nvc -L /repo/_build/lib --std=@STD@ @G@ -a t.vhd -e $o @TOP@ -r @ROPTS@ > out.txt 2> err.txt
  s=$?
  @CMP@
done
exit $rc
'''
for f in sys.argv[1:]:
    d = eval(open(f).read())
    if isinstance(d, dict): d = [d]
    for s in d:
        p = os.path.join(V, "seeded", s["id"]); os.makedirs(p, exist_ok=True)
        diff = ""
        edits = {}
        for fn, old, new in s["edits"]:
            t = edits.get(fn) or (open("/repo/" + fn, encoding="latin-1").read(),) * 2
            assert t[1].count(old) == 1, (s["id"], fn, t[1].count(old), old)
            edits[fn] = (t[0], t[1].replace(old, new))
        for fn, (a, b) in edits.items():
            diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + fn, "b/" + fn))
        open(p + "/patch.diff", "w", encoding="latin-1").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(p + "/meta.json", "w"), indent=1)
        if "vhdl" in s:
            open(p + "/t.vhd", "w").write(s["vhdl"])
            cmp = s.get("cmp")
            if not cmp:
                open(p + "/expect.txt", "w").write(s["expect"])
                cmp = 'if ! cmp -s out.txt "$H/expect.txt" || [ $s != @RC@ ]; then echo "$e: status $s"; diff out.txt "$H/expect.txt" | head -5; head -3 err.txt; rc=1; fi'
                cmp = cmp.replace("@RC@", str(s.get("rc", 0)))
            t = DEMO.replace("@CMP@", cmp).replace("@ENG@", s.get("engines", "interp jit")).replace("@STD@", s.get("std", "2008"))
            t = t.replace("@TOP@", s.get("top", "tb")).replace("@ROPTS@", s.get("ropts", "")).replace("@G@", s.get("gopts", ""))
            open(p + "/demo.sh", "w").write(t)
        for n, t in s.get("files", {}).items():
            open(p + "/" + n, "w").write(t)
        print(s["id"])
