#!/bin/bash
# run_seeded.sh [ID...]: runs the quick check of its property against each planted
# bug and reports which are caught. Works on copies of /repo and /verif under
# /tmp/claxon-seeded. A development tool, no check uses it.
w=/tmp/claxon-seeded
mkdir -p "$w/verif" && rm -rf /tmp/claxon-seeded/repo && cp -a /repo "$w/repo" || exit 2
cp -a /verif/*.sh /verif/known_findings.txt "$w/verif/"
mkdir -p "$w/verif/sim" && cp -a /verif/sim/Cargo.* /verif/sim/steps.c "$w/verif/sim/" && rm -rf /tmp/claxon-seeded/verif/sim/src && cp -a /verif/sim/src "$w/verif/sim/" || exit 2
sed -i "s#/repo/#$w/repo/#g" "$w/verif/build.sh"
cd /verif/seeded || exit 2
ids=${*:-$(ls)}
for id in $ids; do
    prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id $prop DOES-NOT-APPLY"; continue; }
    s=$(date +%s)
    out=$(bash "$w/verif/check.sh" "$prop" quick 2>&1); rc=$?
    git -C "$w/repo" checkout -q -- .
    v=$(echo "$out" | grep -m1 "^VIOLATION property=$prop")
    f=$(sed -n 's/.*replay=//p' <<<"$v")
    c=$(sed -n 's/^class=//p' "$f" 2>/dev/null | head -1)
    if [ $rc = 1 ] && [ -n "$v" ]; then r=caught; else r="MISSED(rc=$rc)"; fi
    echo "$id $prop $r $(( $(date +%s) - s ))s $c $(echo "$out" | grep -v ^VIOLATION | tail -1 | cut -c1-150)"
done
