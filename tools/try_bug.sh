#!/bin/bash
# try_bug.sh ID [check...]: confirm a planted bug in a scratch copy of /repo and
# run the given checks (default: the property of meta.json) against it.
# The copy is mounted over /repo in a private mount namespace.
id=$1; shift
here=/verif/seeded/$id
copy=/tmp/seed-$id
rm -rf "/tmp/seed-$id"
cp -a /repo "$copy" || exit 2
out=/tmp/seed-$id.out
vcopy=/tmp/seedv-$id
rm -rf "/tmp/seedv-$id"; mkdir "$vcopy"
cp -a /verif/engine /verif/props /verif/*.py /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl /verif/MANIFEST.json "$vcopy"/
checks=$*
[ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('$here/meta.json'))['property'])")
export id here checks vcopy
unshare -m bash -c '
mount --bind /tmp/seed-$id /repo
cd /repo
if [ -z "$SKIP_VALIDATE" ]; then
bash $here/demo.sh >/dev/null 2>&1; a=$?
echo "$id demo clean: $a"
fi
git apply $here/patch.diff || { echo "$id PATCH FAILED"; exit 1; }
if [ -z "$SKIP_VALIDATE" ]; then
bash /opt/vp/build.sh >/tmp/seed-$id.build 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/seed-$id.build; exit 1; }
bash /opt/vp/test.sh /tmp/seed-$id.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/seed-$id.json"))
want=set(b["stable"])
got=set(r.get("passed") or r.get("pass") or [])
print("$id tests: want",len(want),"passed",len(got),"missing",sorted(want-got)[:5])
P
bash $here/demo.sh 2>&1 | tail -2; 
bash $here/demo.sh >/dev/null 2>&1; echo "$id demo patched: $?"
fi
cd $vcopy
for c in $checks; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 run_check.py $c quick > /tmp/seed-$id.$c.log 2>&1
  echo "$id check $c: exit $? $(grep -m1 VIOLATION /tmp/seed-$id.$c.log)"
done
'
rm -rf "/tmp/seed-$id" "/tmp/seedv-$id" "/tmp/seed-$id.json" "/tmp/seed-$id.build"
