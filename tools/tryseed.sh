#!/bin/bash
# tryseed.sh ID [tests|demo|check]...: run a planted bug in a scratch copy (tests, demo) and the check of its property against /repo
ID=$1; shift; W=${@:-demo check}
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for w in $W; do case $w in
demo|tests)
  rm -rf /tmp/ts_$ID; cp -a /repo /tmp/ts_$ID; cd /tmp/ts_$ID; git apply $S/patch.diff || exit 9
  if [ $w = demo ]; then bash $S/demo.sh >/tmp/ts_$ID.log 2>&1; echo "$ID demo with patch rc=$? (want !=0)"; git checkout -q -- .; bash $S/demo.sh >>/tmp/ts_$ID.log 2>&1; echo "$ID demo without rc=$? (want 0)"
  else cd /tmp/ts_$ID; RUSTFLAGS= cargo test --workspace --offline -q 2>&1 | grep -E "test result|FAILED|panicked|failed" | grep -v "cavp\|rs:37:29" | head -8; fi
  cd /; rm -rf /tmp/ts_$ID ;;
check) cd /repo && git apply $S/patch.diff && (cd /verif && timeout 900 python3 check.py $P quick 2>&1 | tail -4); git -C /repo checkout -q -- . ;;
esac; done
