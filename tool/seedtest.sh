#!/bin/bash
# seedtest.sh ID...: confirm planted changes in a scratch copy of /repo: builds, stable tests pass, demo fails; then run the property's check
for id in "$@"; do
	s=/verif/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	(cd /repo && bash "$s/demo.sh" >/tmp/seed.log 2>&1) && a=0 || a=$?
	git -C /repo apply "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
	bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 && b=ok || b=FAILS
	bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
	t=$(python3 -c "
import json
a=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(sorted(set(b['stable'])-set(a['passed'])) or 'ok')")
	(cd /repo && bash "$s/demo.sh" >/tmp/seed2.log 2>&1) && d=0 || d=$?
	c=skipped
	if [ -z "$NOCHECK" ]; then (cd /verif && timeout 900 python3-vt check.py $prop >/tmp/seed-check.log 2>&1) && c=MISSED || c=$(grep -c "^VIOLATION property=$prop" /tmp/seed-check.log); fi
	git -C /repo checkout -q -- .
	echo "$id ($prop): demo clean=$a patched=$d build=$b tests=$t check=$c $(grep -m1 '^VIOLATION' /tmp/seed-check.log | grep -o no-failing.*)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
