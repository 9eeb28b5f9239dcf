#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy bound to /repo in a namespace of its own,
# and see whether the property's check catches them. Prints one line per bug.
one() {
  id=$1; S=/tmp/sb-$id; D=/verif/seeded/$id; L=/tmp/seed-$id.log
  rm -rf "$S"; cp -a /repo "$S"; prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  rm -rf /tmp/sd-$id; mkdir /tmp/sd-$id; cp $D/* /tmp/sd-$id/; rm -f /tmp/sd-$id/*.diff /tmp/sd-$id/meta.json
  git -C $S checkout -q -- .
  D=$D S=$S id=$id prop=$prop unshare -Urm bash -c '
    mount --bind $S /repo || exit 9; cd /repo
    bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD0 FAILS"
    timeout 300 bash /tmp/sd-$id/demo.sh >/tmp/sd-$id/out0 2>&1; d0=$?
    git apply $D/patch.diff || { echo "$id NO-APPLY"; exit 1; }
    bash /opt/vp/test.sh /tmp/sd-$id/res.json >/tmp/sd-$id/test.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; o=json.load(open(\"/tmp/sd-$id/res.json\"))[\"passed\"]
print([t for t in b if t not in o][:4])")
    timeout 300 bash /tmp/sd-$id/demo.sh >/tmp/sd-$id/out1 2>&1; d1=$?
    git status --short | grep -v "^ M" 
    if [ -n "$NOCHECK" ]; then c=skipped; else
    t0=$SECONDS; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 /verif/vf/check.py $prop quick >/tmp/sd-$id/check.log 2>&1; rc=$?
    c="$rc $(grep -c "VIOLATION property=$prop" /tmp/sd-$id/check.log) $((SECONDS-t0))s"; fi
    ok=BAD; [ $d0 = 0 -a $d1 != 0 -a "$t" = "[]" ] && ok=good
    echo "$id $prop $ok demo:$d0/$d1 missing:$t check: $c"
  '
  rm -rf "$S"
}
for i in "$@"; do one $i; done
