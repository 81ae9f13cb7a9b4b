#!/bin/bash
# bug.sh confirm <id>  - in a scratch copy: patch applies, builds, stable tests pass, demo 0 -> nonzero
# bug.sh check <id> [prop...] - apply to /repo, run the quick checks, undo
set -u
cmd="$1"; id="$2"; d="/verif/seeded/$id"
W=/tmp/bugw
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
case "$cmd" in
confirm)
  mkdir -p "$W"; rm -rf "$W/repo"; git clone -q /repo "$W/repo" || exit 2
  cd "$W/repo"
  ( bash "$d/demo.sh" >"$W/demo0.log" 2>&1 ); c0=$?
  git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
  CARGO_TARGET_DIR="$W/target" cargo test --offline --no-fail-fast >"$W/test.log" 2>&1
  python3 /opt/vp/results.py "$W/o.json" "cargo:$W/test.log" >/dev/null
  python3 - "$W/o.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open(sys.argv[1]))
m=[x for x in b if x not in o['passed']]
print("tests missing:",m) if m else print("tests ok")
P
  ( bash "$d/demo.sh" >"$W/demo1.log" 2>&1 ); c1=$?
  echo "$id: demo unchanged=$c0 patched=$c1"; [ $c0 = 0 ] || tail -5 "$W/demo0.log"; tail -3 "$W/demo1.log"
  ;;
check)
  prop="${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}"
  git -C /repo apply "$d/patch.diff" || exit 2
  trap 'git -C /repo checkout -q -- .' EXIT
  for p in $prop; do
    s=$(date +%s); bash /verif/check.sh "$p" quick >/tmp/bugcheck.log 2>&1; c=$?
    echo "$id: $p rc=$c $(( $(date +%s) - s ))s $(grep -E '^(minimised|violation class)' /tmp/bugcheck.log | tail -1 | cut -c1-220)"
  done
  ;;
esac
