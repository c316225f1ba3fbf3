#!/bin/bash
# tools/seed.sh <seed id> [check ids...]: confirm a planted bug in a scratch copy and run checks on it
# (default: the check of its property)
set -u
SEED=/verif/seeded/$1
ID=$1; shift
PROP=$(python3 -c "import json;print(json.load(open('$SEED/meta.json'))['property'])")
[ $# -eq 0 ] && set -- $PROP
W=/tmp/seedwork-$ID
rm -rf "$W"; cp -a /repo "$W"; mkdir "$W.d"; cp "$SEED"/* "$W.d/"; rm -f "$W.d"/*.diff "$W.d/meta.json"
cd "$W" || exit 2
# the demonstration uses the package of the current directory
echo "== demo on unchanged tree"; PYTHONPATH=$W timeout 300 bash "$W.d/demo.sh" >"$W.out" 2>&1; A=$?
git apply "$SEED/patch.diff" || { echo "PATCH DOES NOT APPLY"; rm -rf "$W" "$W.d" "$W.out"; exit 1; }
echo "== demo on changed tree"; PYTHONPATH=$W timeout 300 bash "$W.d/demo.sh" >"$W.out2" 2>&1; B=$?
tail -3 "$W.out2"
T=$(export GIT_CONFIG_COUNT=3 GIT_CONFIG_KEY_0=init.defaultBranch GIT_CONFIG_VALUE_0=main \
  GIT_CONFIG_KEY_1=user.email GIT_CONFIG_VALUE_1=test.action@example.com \
  GIT_CONFIG_KEY_2=user.name GIT_CONFIG_VALUE_2="Test Action" XDG_CACHE_HOME=$W.d/cache
  PYTHONPATH=$W /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider dataladmetadatamodel \
  --ignore=dataladmetadatamodel/tests/test_remote.py \
  --ignore=dataladmetadatamodel/mapper/gitmapper/tests/test_localcache.py 2>&1 | grep -aE 'passed|failed|error' | tail -2 | tr '\n' ' ')
echo "seed $ID: demo unchanged=$A changed=$B tests: $T"
[ $A -ne 0 ] && tail -5 "$W.out"
for C in "$@"; do
  OUT=$(cd /verif && VERIF_REPO=$W timeout 900 ./run.sh $C 2>&1); R=$?
  echo "check $C on $ID: rc=$R $(echo "$OUT" | grep -m2 -A1 VIOLATION | tr '\n' ' ' | cut -c1-300)"
done
rm -rf "$W" "$W.d" "$W.out" "$W.out2"
