#!/bin/bash
# stable.sh ids... : the repository's own tests with each planted bug, in a scratch copy
. /opt/vp/env.sh
for i in "$@"; do
  rm -rf /tmp/seed/st; mkdir -p /tmp/seed/st
  git -C /repo archive HEAD | tar x -C /tmp/seed/st
  cd /tmp/seed/st; git init -q .; git apply /verif/seeded/$i/patch.diff || { echo "$i no apply"; continue; }
  CARGO_TARGET_DIR=/tmp/seed/st_target timeout -s INT -k 20 780 cargo nextest run --workspace --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp > /tmp/seed/st.out 2>&1
  python3 /opt/vp/results.py /tmp/seed/st.json "junit:/tmp/seed/st/target/nextest/vp/junit.xml" >/dev/null 2>&1
  python3 - $i <<'P'
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed/st.json'))
print(sys.argv[1], 'FAILED' if s-set(r.get('passed',[])) else 'stable ok', sorted(s-set(r.get('passed',[])))[:6], flush=True)
P
done
