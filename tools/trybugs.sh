#!/bin/bash
# usage: trybugs.sh id...: apply each seeded bug, run its property's check
export VF_CACHE=${VF_CACHE:-/tmp/vfcache}
cd /verif
for id in "$@"; do
	p=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
	timeout 900 python3 lib/vf.py $p > /tmp/trybug_$id.log 2>&1; rc=$?
	git -C /repo checkout -- .
	echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/trybug_$id.log)"
done
