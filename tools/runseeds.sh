#!/bin/bash
# runseeds.sh [ID...]: runs the check of each planted bug on a changed scratch clone.
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for id in "$@"; do
	d=$(mktemp -d /tmp/runseed-XXXXXX) || exit 2
	git clone -q /repo "$d/repo"
	git -C "$d/repo" apply "$here/seeded/$id/patch.diff" || echo "$id: patch does not apply"
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$here/seeded/$id/meta.json")
	s=$(date +%s)
	REPO=$d/repo VERIF_SEED=1 bash "$here/run.sh" "$p" quick > "$d/log" 2>&1
	rc=$?
	echo "$id $p exit $rc $(($(date +%s) - s)) s $(grep -m1 -A1 ^VIOLATION "$d/log" | tail -1)"
	rm -rf "$d"
done
