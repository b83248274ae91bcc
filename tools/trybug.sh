#!/bin/bash
# trybug.sh ID [CHECK...]: demo on the clean tree, then with the patch: build, tests, demo, checks; always undone.
id=$1; shift
S=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
checks=${*:-$prop}
bash /opt/vp/build.sh >/tmp/trybug.build 2>&1 || { echo "clean build failed"; exit 2; }
if [ -z "$NODEMO" ]; then (timeout 300 bash $S/demo.sh >/tmp/trybug.demo0 2>&1); echo "$id demo clean: $?"; fi
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/trybug.build 2>&1 || { echo "$id does not build"; tail -5 /tmp/trybug.build; exit 1; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/test.sh /tmp/trybug.json >/tmp/trybug.test 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/trybug.json'))
def passed(x):
    return set(x.get('passed') or x.get('pass') or [])
want=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
print("$id tests lost:", sorted(want-passed(r))[:5])
P
(timeout 300 bash $S/demo.sh >/tmp/trybug.demo1 2>&1); echo "$id demo patched: $?"
fi
for c in $checks; do
	(cd /verif && timeout 900 python3 check.py $c >/tmp/trybug.check 2>&1); echo "$id check $c: $? $(grep -h ^VIOLATION /tmp/trybug.check) $(grep -h '^status' /tmp/trybug.check | tail -1 | cut -c1-200)"
done
