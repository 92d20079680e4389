#!/bin/bash
# usage: run.sh ID [quick|thorough]     decide one property
#        run.sh ID replay FILE          re-run one saved case
#        run.sh build                   only build (used as setup)
# Rebuilds the harness against /repo's current working tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=${1:?property id}
mode=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}

work=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 2
chmod 711 "$work" # radolan2png is run as an unprivileged user
cleanup() { chmod -R u+w "$work" 2>/dev/null; rm -rf -- "$work"; }
trap cleanup EXIT
trap 'exit 2' INT TERM

export HOME=${HOME:-/root}
modcache=${GOMODCACHE:-/root/go/pkg/mod}
export GO111MODULE=off GOPATH=$work/gopath GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build} TZ=Europe/Berlin
src=$GOPATH/src
mkdir -p "$src/gitlab.cs.fau.de/since" "$src/pgregory.net" "$src/verif" || exit 2
ln -s "$repo" "$src/gitlab.cs.fau.de/since/radolan"
ln -s "$modcache/pgregory.net/rapid@v1.3.0" "$src/pgregory.net/rapid"
ln -s "$here/harness" "$src/verif/harness"

build() { # output package extra...
	local out=$1 pkg=$2; shift 2
	(cd "$src/verif/harness" && go build "$@" -o "$out" "$pkg") >"$work/build.log" 2>&1 && return 0
	echo "BUILD FAILED: $pkg" >&2
	cat "$work/build.log" >&2
	return 1
}

CGO_ENABLED=0 build "$work/harness.bin" verif/harness || exit 2
CGO_ENABLED=0 build "$work/radolan2png.bin" gitlab.cs.fau.de/since/radolan/radolan2png || exit 2
export VERIF_CLI=$work/radolan2png.bin

extra=()
if [ "$id" = C22 ] || [ "$id" = build ]; then
	CGO_ENABLED=1 build "$work/harness.race" verif/harness -race || exit 2
	extra=(-racebin "$work/harness.race")
fi
[ "$id" = build ] && { echo "build ok"; exit 0; }

if [ "$mode" = thorough ] && { [ "$id" = C01 ] || [ "$id" = C02 ]; }; then # coverage-guided search
	(cd "$src/verif/harness" && CGO_ENABLED=0 go test -c -fuzz "Fuzz$id" -o "$work/fuzz.bin" .) >"$work/build.log" 2>&1 || { cat "$work/build.log" >&2; exit 2; }
	extra+=(-fuzzbin "$work/fuzz.bin")
fi

if [ "$mode" = replay ]; then
	bin=$work/harness.bin
	"$bin" -verif "$here" -replay "$(realpath "${3:?replay file}")"
	exit $?
fi
"$work/harness.bin" -verif "$here" -prop "$id" -tier "$mode" -seed "$seed" "${extra[@]}" ${VERIF_ARGS:-}
exit $?
