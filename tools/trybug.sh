#!/bin/bash
# usage: trybug.sh PATCH PROP [tier]: runs the check of PROP against a scratch copy of /repo with the patch
set -u
D=$(mktemp -d /tmp/mr.XXXX)
mkdir -p $D/repo && git -C /repo archive HEAD | tar x -C $D/repo
(cd $D/repo && git init -q . && git apply "$1") || exit 2
REPO=$D/repo VERIF_SEED=${VERIF_SEED:-1} python3-vt /verif/vc/check.py $2 ${3:+--tier $3}
r=$?
rm -rf "$D"
exit $r
