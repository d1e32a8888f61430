#!/bin/bash
# seed.sh ID — confirm seeded/ID: applies, builds, stable tests pass, demo 0 without and nonzero with it.
id=$1; d=/verif/seeded/$id
s=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$s"' EXIT
cp -a /repo "$s/repo"; cp -a "$d" "$s/d"; rm -f "$s"/d/*.diff "$s"/d/meta.json
. /opt/vp/env.sh
cd "$s/repo" || exit 1
git checkout -q -- .; 
bash "$s/d/demo.sh" >"$s/o1" 2>&1; r1=$?
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
( go build ./... && cd cmd/sqlgen && go build ./... ) || { echo "$id: does not build"; exit 1; }
bash "$s/d/demo.sh" >"$s/o2" 2>&1; r2=$?
echo "$id: demo clean=$r1 patched=$r2"
[ $r1 = 0 ] || tail -20 "$s/o1"
[ $r2 != 0 ] && tail -5 "$s/o2"
if [ "$2" = tests ]; then
git -C /repo apply "$d/patch.diff" && bash /opt/vp/test.sh "$s/t.json" >/dev/null 2>&1; git -C /repo checkout -q -- .
python3 - "$s/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open(sys.argv[1]))['passed'])
print('lost tests:',[x for x in b if x not in p])
P
fi
