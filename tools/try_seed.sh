#!/bin/bash
# try_seed.sh <id>...: confirm seeded bugs (applies to /repo, reverts afterwards): stable tests pass, demo 0/nonzero, which checks catch it
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  [ "${SKIPCLEAN:-}" ] || { bash "$S/demo.sh" >/tmp/ts.log 2>&1 && echo "$id demo clean ok" || { echo "$id DEMO FAILS ON CLEAN"; tail -5 /tmp/ts.log; }; }
  git apply "$S/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; continue; }
  if bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1 || true; then
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/ts.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
m=names(b)-names(t)
print('  tests:', 'all pass' if not m else 'BROKEN %d %s'%(len(m),list(m)[:3]))
P
  fi
  bash "$S/demo.sh" >/tmp/ts2.log 2>&1; echo "  $id demo with patch: $? ($(grep -v '^demo exit' /tmp/ts2.log | tail -1 | cut -c1-150))"
  for c in $P ${ALSO:-}; do
    /verif/check.sh $c quick >/tmp/ts3.log 2>&1; RC=$?
    echo "  $id check $c: exit $RC $(grep -c '^VIOLATION' /tmp/ts3.log) violations; $(grep signature: /tmp/ts3.log | head -2 | cut -c1-120 | tr '\n' ' ')"
  done
  git checkout -q -- .
done
rm -rf /tmp/ts.json
