#!/bin/bash
# try.sh SEED PROPERTY..: runs checks with a planted bug applied (development aid).
s="$1"; shift
git -C /repo apply /verif/seeded/$s/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in "$@"; do (cd /verif && ./check.sh $p quick); echo "rc=$?"; done
