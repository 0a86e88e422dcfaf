#!/bin/bash
# plant.sh ID: checks the planted bug /verif/seeded/ID in a scratch copy of /repo: it applies, builds, passes the
# repository's tests, and its demonstration passes without it and fails with it.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")" && pwd); S=$V/seeded/$1
W=/tmp/plant-$1
rm -rf "/tmp/plant-$1"
mkdir "$W" && cp -a /repo/. "$W/" || exit 2
cd "$W" || exit 2
fin() { cd /; rm -rf "/tmp/plant-$1"; echo "$1: $2"; exit $3; }
git checkout -q -- . 
go build ./... || fin $1 "base does not build" 1
timeout 280 bash "$S/demo.sh" >/tmp/pl/$1.clean 2>&1 || fin $1 "demo fails on the unchanged tree (/tmp/pl/$1.clean)" 1
git apply "$S/patch.diff" || fin $1 "patch does not apply" 1
go build ./... || fin $1 "does not build" 1
go test -vet=off -count=1 ./... >/tmp/pl/$1.tests 2>&1 || fin $1 "tests notice (/tmp/pl/$1.tests)" 1
if timeout 280 bash "$S/demo.sh" >/tmp/pl/$1.bug 2>&1; then fin $1 "demo passes with the bug" 1; fi
fin $1 ok 0
