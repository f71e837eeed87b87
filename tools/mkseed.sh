#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" < patch-edit-script ; expects /tmp/seed/{demo.rs} and edits already made in /tmp/seedrepo
# Confirms: patch applies to /repo HEAD, builds, tests pass 25, demo passes on the unchanged tree and fails with the patch.
id=$1; prop=$2; needs=$3; what=$4; demo=$5
d=/verif/seeded/$id; mkdir -p "$d"
git -C /tmp/seedrepo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
cp "$demo" "$d/demo.rs"; cp /verif/tools/demo/demo.sh /verif/tools/demo/Cargo.lock "$d/"
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
PY
(cd /repo && bash "$d/demo.sh") >/tmp/seed.out 2>&1; a=$?
(cd /tmp/seedrepo && bash "$d/demo.sh") >/tmp/seed.out2 2>&1; b=$?
git -C /repo apply --check "$d/patch.diff" || echo "DOES NOT APPLY"
git -C /repo apply "$d/patch.diff" && bash /opt/vp/build.sh >/tmp/seed.b 2>&1; bb=$?
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
n=$(python3 - <<'PY'
import json
r=json.load(open('/tmp/seed.json')); base=json.load(open('/opt/vp/BASELINE.json'))
b=base.get('stable') or base.get('passed') or base
p=set(r['passed']) if isinstance(r.get('passed'),list) else set(k for k,v in r.items())
b=set(b) if isinstance(b,list) else set(b)
print(len(p&b),'/',len(b))
PY
)
git -C /repo checkout -- . 
echo "$id: demo clean=$a patched=$b build=$bb stable=$n"
[ $a = 0 ] || tail -5 /tmp/seed.out; tail -2 /tmp/seed.out2
