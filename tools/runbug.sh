#!/bin/bash
# runbug.sh ID [Cxx...]: checks of a planted bug on a copy of the repository
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
id=$1; shift
w=/tmp/bug-$id
rm -rf "$w"; git clone -q /repo "$w"
git -C "$w" apply /verif/seeded/$id/patch.diff || exit 1
ps=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $ps; do
	t=$(date +%s)
	/tmp/sortyvc check $p -repo "$w" -base ${VBASE:-/tmp/vbase} > /tmp/bug-$id-$p.log 2>&1
	r=$?
	echo "$id $p: exit $r, $(( $(date +%s) - t )) s: $(grep -a VIOLATION /tmp/bug-$id-$p.log) $(grep -a 'failing input:' /tmp/bug-$id-$p.log | cut -c1-200)"
done
rm -rf "$w"
