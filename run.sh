#!/bin/bash
# run.sh <property> [tier] : build what the property's check needs from /repo's working tree, run it.
# Exit 0: held; 1 + VIOLATION line: broken; anything else: the check itself could not run.
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
. /verif/env.sh
cd /verif || exit 2
build() { # dir, extra cargo args
  ( cd "/verif/$1" && shift && cargo build --offline -q "$@" ) || { echo "check $ID: build failed" >&2; exit 2; }
}
# Build a crate of generated programs. They compile on the unchanged tree: if the libraries build and the programs no
# longer do, the derive macro rejects, or expands to broken code for, what it has to support.
buildgen() { # dir, library crate
  build "$2"
  mkdir -p /verif/replay; local log="/verif/replay/$ID-build.log"
  ( cd "/verif/$1" && cargo build --offline -q --keep-going ) >"$log" 2>&1 && { rm -f "$log"; return; }
  cat "$log" | tail -40
  if grep -q -- '--> .*gen/[a-z]*[0-9]*/src/' "$log"; then
    echo "$ID: programs that have to compile do not (see $log)"
    echo "VIOLATION property=$ID replay=$log"
    exit 1
  fi
  echo "check $ID: build failed" >&2; exit 2
}
run() { # binary; a crash of the process (abort, stack overflow) is a crash of the code under test
  "$@"; local rc=$?
  case $rc in 101|132|134|139)
    mkdir -p /verif/replay
    echo "{\"property\": \"$ID\", \"crashed\": \"$*\", \"status\": $rc}" > "/verif/replay/$ID-crash.json"
    echo "$ID: the code under test crashed the checker (status $rc): $*"
    echo "VIOLATION property=$ID replay=/verif/replay/$ID-crash.json"
    exit 1 ;;
  esac
  exit $rc
}
case "$ID" in
  T03) # the reference evaluator decides it: compare it with another validator first
    build jx; /verif/target/debug/jx "$TIER" >/tmp/.jx.$$ 2>&1 || { cat /tmp/.jx.$$; rm -f /tmp/.jx.$$; echo "check $ID: the evaluator differs" >&2; exit 2; }
    rm -f /tmp/.jx.$$; build mc; run /verif/target/debug/mc "$ID" "$TIER" ;;
  G01|G02|G03|N01|T0[124]|S01|O01|V01)
    build mc; run /verif/target/debug/mc "$ID" "$TIER" ;;
  D0[1-3])
    python3 tools/gen_derive.py >/dev/null || exit 2
    buildgen dchk dlib; run /verif/target/debug/dchk "$ID" "$TIER" ;;
  D04)
    python3 tools/gen_d04.py >/dev/null || exit 2
    buildgen achk alib; run /verif/target/debug/achk "$ID" "$TIER" ;;
  D05)
    python3 tools/gen_d05.py >/dev/null || exit 2
    buildgen vchk alib; run /verif/target/debug/vchk "$ID" "$TIER" ;;
  D06)
    python3 tools/gen_d06.py >/dev/null || exit 2
    buildgen wchk alib; run /verif/target/debug/wchk "$ID" "$TIER" ;;
  D07)
    python3 tools/gen_d07.py >/dev/null || exit 2
    build rchk; run /verif/target/debug/rchk "$ID" "$TIER" ;;
  D08)
    python3 tools/gen_d08.py >/dev/null || exit 2
    buildgen nchk nlib; run /verif/target/debug/nchk "$ID" "$TIER" ;;
  S02)
    python3 tools/gen_s02.py >/dev/null || exit 2
    buildgen ordp olib; buildgen ordn olib; build ochk; run /verif/target/debug/ochk "$ID" "$TIER" ;;
  I0[1-2])
    build impls; run /verif/target/debug/impls "$ID" "$TIER" ;;
  *) echo "no check for $ID" >&2; exit 2 ;;
esac
