#!/bin/bash
# rebuild /repo and run its stable tests; print the ones that do not pass
. /verif/env.sh; unset CARGO_TARGET_DIR
bash /opt/vp/build.sh >/tmp/rt-build.log 2>&1 || { tail -20 /tmp/rt-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt-out.json >/tmp/rt-test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/rt-out.json'))
p=set(o['passed']);m=[t for t in b if t not in p];print('passed',len(p),'missing',m[:10])
P
