#!/bin/bash
# Builds the simulator once, in all profiles.
set -u
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" release && bash "$here/build.sh" shipped && bash "$here/build.sh" stepped
