#!/bin/bash
# tools/seedtest.sh <seeded id> [nocheck|notest]: validates one planted bug in
# a scratch copy of /repo: applies, builds, stable tests pass, demo 0 on clean
# and non-zero on patched, and whether the property's check catches it.
id=$1
here=$(cd "$(dirname "$0")/.." && pwd)
sd=$here/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mkdir "$W/vp"
for f in /opt/vp/*.sh /opt/vp/*.py; do sed "s#/repo#$W/repo#g; s#/opt/vp/env.sh#$W/vp/env.sh#; s#/opt/vp/check.py#$W/vp/check.py#" "$f" > "$W/vp/$(basename $f)"; done
demo() { mkdir -p "$W/demo"; cp -r "$sd"/. "$W/demo/"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"; sed -i "s#/repo#$W/repo#g; s#/opt/vp/env.sh#$W/vp/env.sh#g" "$W"/demo/*.sh "$W"/demo/*.py 2>/dev/null; (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/demo.out" 2>&1); echo $?; }
c=$(demo)
git -C "$W/repo" apply "$sd/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
p=$(demo)
[ "$p" = 0 ] && cat "$W/demo.out"
t=skipped
if [ "$2" != notest ]; then
bash "$W/vp/build.sh" >"$W/build.out" 2>&1 || echo "$id: BUILD FAILS"
bash "$W/vp/test.sh" "$W/out.json" >"$W/test.out" 2>&1
t=$(python3 - "$W/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
base=set(names(b)); got=set(names(o))
print('%d/%d'%(len(base&got),len(base)), sorted(base-got)[:3])
PY
)
fi
prop=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
r=skipped
if [ "$2" != nocheck ]; then
r=$(VERIF_REPO="$W/repo" VERIF_SEED=${VERIF_SEED:-1} bash $here/run.sh $prop --no-evidence 2>&1 | egrep '^violated|^VIOLATION|HARNESS|runs,' | cut -c1-150)
fi
echo "== $id ($prop) demo clean=$c patched=$p tests=$t"
echo "$r"
