#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
# Exit 0: held. Exit 1: a VIOLATION line was printed. Exit 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
# C14 preempts decoders inside the code under test, and C08 bounds its work, so they use the build that counts steps.
profile=release
case $id in C08|C14) profile=stepped;; esac
bash "$here/build.sh" "$profile" || exit 2
if [ "$tier" = thorough ]; then
    bash "$here/build.sh" shipped || exit 2
    # Once as shipped, with another seed; its evidence goes aside.
    aside=$here/sim/target/aside-$id
    mkdir -p "$aside" || exit 2
    cp "$here/known_findings.txt" "$aside/"
    "$here/sim/target/shipped/dst" check --prop "$id" --seed $((seed + 1000003)) --tier thorough --root "$aside"  > "$aside/out" 2>&1
    rc=$?
    sum=$(tail -n 1 "$aside/out")
    if [ $rc -ne 0 ]; then
        mkdir -p "$here/replays"
        cp "$aside"/replays/*.replay "$here/replays/" 2>/dev/null
        sed "s#$aside#$here#g" "$aside/out"
        [ -f "$aside/evidence/$id.json" ] && mkdir -p "$here/evidence" && cp "$aside/evidence/$id.json" "$here/evidence/"
        exit $rc
    fi
    exec "$here/sim/target/$profile/dst" check --prop "$id" --seed "$seed" --tier thorough --root "$here" --extra "as shipped (no debug assertions, wrapping arithmetic), seed $((seed + 1000003)): $sum"
fi
exec "$here/sim/target/$profile/dst" check --prop "$id" --seed "$seed" --tier quick --root "$here"
