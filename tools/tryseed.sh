#!/bin/bash
# tryseed.sh ID...: demo and check on the unchanged and on the patched tree
for id in "$@"; do
	d=/verif/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	cd /repo && bash $d/demo.sh >/dev/null 2>&1; a=$?
	git -C /repo apply $d/patch.diff || exit 1
	bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1; t=$?
	cd /repo && bash $d/demo.sh >/dev/null 2>&1; b=$?
	cd /verif && python3 run.py $p quick > /tmp/seed.out 2>&1; c=$?
	git -C /repo checkout -- .
	echo "$id $p: demo unchanged $a, patched $b; tests $t; check $c: $(grep -m1 violated /tmp/seed.out) $(tail -1 /tmp/seed.out)"
done
