#!/bin/bash
# Builds every rig once (each check rebuilds what it needs from /repo again).
root=$(cd "$(dirname "$0")/.." && pwd)
rigs="lib lib-race"
for r in run cli; do [ -e "$root/sim/$r/READY" ] && rigs="$rigs $r"; done
exec bash "$root/tools/build.sh" $rigs
