#!/bin/bash
# try.sh ID... : verify planted bugs in a scratch clone (and that the quick check catches them)
R=/tmp/seedgen/repo
[ -d $R ] || git clone -q /repo $R
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $R checkout -q -- . ; git -C $R clean -fdq
  (cd $R && bash $d/demo.sh >/tmp/seedgen/o1 2>&1); a=$?
  git -C $R apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
  (cd $R && timeout 300 bash $d/demo.sh >/tmp/seedgen/o2 2>&1); b=$?
  # stable tests
  w=$(mktemp -d); mkdir -p $w/src/gitlab.cs.fau.de/since; ln -s $R $w/src/gitlab.cs.fau.de/since/radolan
  t=$(cd $w/src/gitlab.cs.fau.de/since/radolan && GO111MODULE=off GOPATH=$w GOENV=off GOTOOLCHAIN=local GOFLAGS=-buildvcs=false TZ=Europe/Berlin CGO_ENABLED=0 go build ./... 2>&1 && cd $w/src/gitlab.cs.fau.de/since/radolan && GO111MODULE=off GOPATH=$w GOENV=off GOTOOLCHAIN=local GOFLAGS=-buildvcs=false TZ=Europe/Berlin CGO_ENABLED=0 go test -vet=off -count=1 -v ./... 2>&1 | grep -E "^(---|ok|FAIL)" | grep -c "^--- PASS")
  rm -rf $w
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$NOCHECK" ]; then
  (cd /verif && VERIF_REPO=$R VERIF_ARGS=-noevidence timeout 900 ./run.sh $p quick >/tmp/seedgen/o3 2>&1); c=$?
  fi
  echo "$id unchanged=$a patched=$b tests=$t check=$c $(grep -c VIOLATION /tmp/seedgen/o3) $(head -c 150 /tmp/seedgen/o2 | head -1)"
  [ "$a" != 0 ] && cat /tmp/seedgen/o1 | head -10
  git -C $R checkout -q -- .
done
