#!/bin/bash
# Runs t.vhd on the listed engines and compares the output with expect.txt.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$H/t.vhd" "$T"; cd "$T" || exit 2
export NVC_COLORS=never HOME=$T
rc=0
for e in interp; do
  unset NVC_JIT_THRESHOLD NVC_JIT_ASYNC
  case $e in
    interp) o="--jit --no-save"; export NVC_JIT_THRESHOLD=0;;
    jit) o="--jit --no-save"; export NVC_JIT_THRESHOLD=1 NVC_JIT_ASYNC=0;;
    aot) o="";;
  esac
  timeout 60 /repo/_build/bin/nvc -L /repo/_build/lib --std=2008  -a t.vhd -e $o tb -r  > out.txt 2> err.txt
  s=$?
  if ! cmp -s out.txt "$H/expect.txt" || [ $s != 1 ]; then echo "$e: status $s"; diff out.txt "$H/expect.txt" | head -5; head -3 err.txt; rc=1; fi
done
exit $rc
