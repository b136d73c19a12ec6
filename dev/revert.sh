#!/bin/bash
# revert.sh COMMIT PROP... : do the checks see the defect again when a fix is taken back?
d=$(mktemp -d /tmp/rev-XXXX); cp -a /repo/include /repo/source $d/
git -C /repo show $1 -- include source | (cd $d && patch -R -p1 -s --binary) || echo PATCH FAILED
shift; for p in "$@"; do VERIF_REPO=$d VERIF_OUT=$d python3 /verif/check.py $p --quick | grep -v obligations | cut -c1-220; done; rm -rf "$d"
