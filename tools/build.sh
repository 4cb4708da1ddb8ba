#!/bin/bash
# build.sh RIG...: builds the named rigs (lib, lib-race, run, cli) from /repo's
# current working tree into /verif/.build.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
. "$root/tools/env.sh"
out=$root/.build
mkdir -p "$out"
exec 9>"$out/lock"
flock 9
cd "$root/tools"
go build -o "$out/simbuild" ./simbuild
"$out/simbuild" -repo /repo -out "$out" -src "$root/tools/stdpatch"
# -mod=mod may rewrite the module file: it gets a copy
cmp -s "$root/sim/go.mod" "$out/sim.mod.orig" || { cp "$root/sim/go.mod" "$out/sim.mod"; cp "$root/sim/go.sum" "$out/sim.sum"; cp "$root/sim/go.mod" "$out/sim.mod.orig"; }
cd "$root/sim"
mod="-mod=mod -modfile=$out/sim.mod"
for r in "$@"; do
	case $r in
	lib) go build $mod -overlay "$out/overlay_lib.json" -o "$out/lib" ./lib ;;
	lib-race) go build $mod -race -overlay "$out/overlay_lib.json" -o "$out/lib-race" ./lib ;;
	run) go build $mod -overlay "$out/overlay_base.json" -o "$out/run" ./run
		go build $mod -o "$out/run-mark" ./run/mark ;;
	cli) go build $mod -o "$out/cli" ./cli
		go build $mod -overlay "$out/overlay_cli.json" -o "$out/cli-client" ./cli/client
		(cd /repo && go build -mod=mod -modfile="$out/repo.mod" -overlay "$out/overlay_cli.json" -o "$out/drone-yaml" .) ;;
	*) echo "unknown rig $r" >&2; exit 2 ;;
	esac
done
