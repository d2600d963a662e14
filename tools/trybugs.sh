#!/bin/bash
# trybugs.sh ID...: runs the check of each planted bug's property on a scratch copy of /repo with the bug applied.
cd /verif && ./build.sh || exit 2
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	s=$(mktemp -d /tmp/trybug.XXXXXX)
	cp -a /repo "$s/repo"; mkdir "$s/v"; ln -s /verif/contracts /verif/known_findings.json "$s/v/"
	git -C "$s/repo" checkout -q -- . && git -C "$s/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf "$s"; continue; }
	t=$(date +%s)
	out=$(GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local bin/govc check "$p" --tier quick --repo "$s/repo" --dir "$s/v" 2>&1); rc=$?
	echo "$id rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -a '^VIOLATION' | sed 's/replay=.*json/replay/' | sort | uniq -c | tr '\n' ' ')"
	[ -n "$V" ] && echo "$out" | cut -c1-200 | tail -40
	rm -rf "$s"
done
