#!/bin/bash
# Build every harness from the committed files (checks rebuild what changed in /repo).
. /verif/env.sh
set -e
python3 /verif/tools/gen_derive.py >/dev/null
python3 /verif/tools/gen_d04.py >/dev/null
python3 /verif/tools/gen_d05.py >/dev/null
python3 /verif/tools/gen_d06.py >/dev/null
python3 /verif/tools/gen_d07.py >/dev/null
python3 /verif/tools/gen_d08.py >/dev/null
python3 /verif/tools/gen_s02.py >/dev/null
for d in mc dchk impls achk vchk wchk nchk rchk olib ordp ordn ochk jx; do
  [ -d "/verif/$d" ] || continue
  ( cd "/verif/$d" && cargo build --offline -q )
done
