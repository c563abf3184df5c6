#!/bin/bash
# dev/seed.sh ID CHECK...: run checks on a planted bug, showing undecided reasons
d=$(mktemp -d /tmp/sd.XXXX); cp -r /repo/dynetworkx $d/; s=$(ls -d /verif/seeded/$1* | head -1); (cd $d && patch -sp1 < $s/patch.diff); shift
for c in "$@"; do VERIF_REPO=$d VERIF_EVIDENCE=$d/ev python3 /verif/check.py $c | cut -c1-400 | head -${N:-6}; python3 /verif/dev/und.py $d/ev/$c.json | head -20; done
rm -r $d
