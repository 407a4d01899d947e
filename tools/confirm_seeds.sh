#!/bin/bash
# Confirms that planted changes build and pass the stable tests: tools/confirm_seeds.sh ID... (applies each to /repo and undoes it)
cd /repo || exit 2
for id in "$@"; do
	p=/verif/seeded/$id/patch.diff
	git apply "$p" || { echo "$id: does not apply"; continue; }
	bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_test.log 2>&1
	python3 - "$id" <<'PY'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed_out.json"))
want = b.get("passed") or b.get("stable") or b.get("tests") or b
want = set(want); got = set(o["passed"])
missing = sorted(want - got)
print(sys.argv[1], "tests ok" if not missing else "TESTS FAIL: %d missing, e.g. %s" % (len(missing), missing[:3]))
PY
	git checkout -q -- .
done
