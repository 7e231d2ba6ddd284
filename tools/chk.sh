#!/bin/bash
# chk.sh SEED PROP : run check on a copy with the patch
c=$(mktemp -d /tmp/chk.XXXXXX); cp -a /repo/. $c; git -C $c apply /verif/seeded/$1/patch.diff || echo NOAPPLY
VERIF_REPO=$c /verif/run.sh check $2 -j 8 ${3:-} | grep -v "^   slow" | cut -c1-200 | grep -v "^  [a-z].*'violations': 0\|^  [a-z_]* *{'configs'" | head -6
rm -rf $c
