#!/bin/bash
# tools/seedtest.sh ID [--notests]: validate a planted bug in a scratch copy and run its property's check on the copy
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed_$ID
rm -rf "$W"; cp -a /repo "$W"; cd "$W"
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
bash $S/demo.sh >/tmp/seed_$ID.d0 2>&1; echo "$ID demo clean: $?"
git apply $S/patch.diff || { echo "$ID PATCH FAILS"; exit 1; }
bash $S/demo.sh >/tmp/seed_$ID.d1 2>&1; echo "$ID demo patched: $?"
if [ "$2" != "--notests" ]; then
  PYTHONPATH=$W timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=400 -n 8 -W ignore::SyntaxWarning tests 2>&1 | tail -3 | tr -d 'u' | sed "s/^/$ID tests: /"
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif; VP_REPO=$W python3 run_check.py $P quick 2>&1 | tail -25 | cut -c1-300 | sed "s/^/$ID check: /" | grep "VIOLATION\|obligations,"
rm -rf "$W"
