#!/bin/bash
# trybug.sh ID [CHECK...]: confirm a planted bug (suite passes, demo discriminates) and run checks against it, in a scratch copy.
set -u
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$ID
W=/tmp/trybug.$ID
rm -rf "$W"; cp -a "${PLANT_SRC:-/repo}" "$W"
cd "$W" && git checkout -q -- . 
D=/tmp/trybug.$ID.demo; rm -rf "$D"; mkdir "$D"; cp -a "$S"/. "$D"/; rm -f "$D"/*.diff "$D"/meta.json
export PYTHONPATH=$W/src
bash "$D/demo.sh" >/tmp/trybug.$ID.d0 2>&1; echo "demo clean: $?"
git apply "$S/patch.diff" || { echo "patch does not apply"; exit 2; }
bash "$D/demo.sh" >/tmp/trybug.$ID.d1 2>&1; echo "demo bug: $?"
if [ "${SUITE:-1}" = 1 ]; then /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider 2>&1 | tail -1; fi
unset PYTHONPATH
P=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
cd "$V"
for c in ${@:-$P}; do VERIF_REPO=$W timeout 900 python3-vt check.py $c --tier quick 2>&1 | grep "VIOLATION\|INCONCL\|-> rc" | cut -c1-250 | tail -3; done
rm -rf "$W" "$D"
