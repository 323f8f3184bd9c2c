#!/bin/bash
# tryseed.sh ID [tests]: demo on the unchanged tree and with the patch, stable tests with the patch
. /opt/vp/env.sh
id=$1; s=/verif/seeded/$id; w=/tmp/try-$id; d=/tmp/try-$id-demo
trap 'rm -rf "$w" "$d"' EXIT
mkdir -p "$d" && cp "$s"/demo* "$d"
git clone -q /repo "$w" && cd "$w" || exit 1
bash "$d/demo.sh" > "$w.clean" 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build . || { echo "$id: does not build"; exit 1; }
bash "$d/demo.sh" > "$w.bug" 2>&1; b=$?
r="$id: clean $a, patched $b"
if [ $a -ne 0 ]; then tail -5 "$w.clean"; fi
if [ $b -eq 0 ]; then tail -5 "$w.bug"; else r="$r ($(grep -m1 -E 'panic|zz_demo|RACE' "$w.bug" | cut -c1-90))"; fi
rm -f "$w.clean" "$w.bug"
if [ "$2" = tests ]; then
	go test -c -vet=off -o "$w/t.test" .
	for t in $(python3 -c "import json;print(*[x.split('/')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']])"); do
		( timeout 600 "$w/t.test" -test.run "^$t\$" > /dev/null 2>&1 || echo "$t" >> "$w/failed" ) &
	done
	wait
	r="$r, failed tests: $(cat "$w/failed" 2>/dev/null | tr '\n' ' ')"
fi
echo "$r"
