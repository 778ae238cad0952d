#!/bin/bash
# replay.sh <model file>: rebuilds the harness natively (AddressSanitizer) from /repo and runs the recorded counterexample
set -e
V=$(cd "$(dirname "$0")" && pwd); M=$1
src=$(sed -n 's/^# property .* source \(\S*\) harness .*/\1/p' "$M"); h=$(sed -n 's/^# property .* harness \(\S*\).*/\1/p' "$M")
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
python3 - "$V" "$src" "$d" <<'PY'
import sys; V, src, d = sys.argv[1:]
sys.path.insert(0, V + "/lib"); import build, re
fl = sum((m.split() for m in re.findall(r"^//\s*@flags\s+(.*)", open(src).read(), re.M)), [])
build.build_rt(d + "/rt.o"); build.build_native(src, d + "/nat", d + "/rt.o", fl)
PY
"$d/nat" "$h" "$M"
