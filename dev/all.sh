#!/bin/bash
# runs every check on /repo (or $VERIF_REPO), one after another (each uses all cores)
cd /verif
for c in $(python3 -c 'import json
for c in json.load(open("MANIFEST.json"))["checks"]: print(c["property"])'); do timeout 900 python3 check.py $c 2>&1 | cut -c1-300 | tail -${N:-1}; done
