#!/bin/bash
# Run in the repository's directory after its build. Exit 0: behaves as stated.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d "${TMPDIR:-/tmp}/demo-XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
export HOME=${HOME:-/root} GO111MODULE=off GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off TZ=Europe/Berlin
export GOPATH=$work/gopath CGO_ENABLED=@CGO@ SCRATCH=$work/scratch
src=$GOPATH/src
mkdir -p "$src/gitlab.cs.fau.de/since" "$src/demo" "$SCRATCH" || exit 2
ln -s "$repo" "$src/gitlab.cs.fau.de/since/radolan"
cp "$here"/*.go "$src/demo/" || exit 2
cd "$src/demo" || exit 2
go build @RACE@ -o "$work/demo" demo || exit 2
@CLI@
"$work/demo"
