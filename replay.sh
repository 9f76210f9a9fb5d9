#!/bin/bash
# replay.sh FILE: repeats a recorded violation exactly. Exit 1: it happened again.
set -u
here=$(cd "$(dirname "$0")" && pwd)
profile=$(sed -n 's/^profile=//p' "$1" | head -n 1)
profile=${profile:-release}
bash "$here/build.sh" "$profile" || exit 2
exec "$here/sim/target/$profile/dst" replay "$1"
