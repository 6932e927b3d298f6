#!/bin/bash
# usage: seed_try.sh <seed id>...   For each /verif/seeded/<id>: applies patch.diff to a scratch copy of /repo, runs the
# stable tests and the demo on both trees, then the property's check against the patched scratch copy (RV_REPO).
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PIP_NO_INDEX=1 PROJ_NETWORK=OFF
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/seedtry.XXXXXX)
  cp -a /repo "$s/repo"; mkdir "$s/rep"
  git -C "$s/repo" checkout -q -- .
  ( cd "$s/repo" && timeout 300 bash $d/demo.sh >"$s/demo0" 2>&1 ); r0=$?
  git -C "$s/repo" apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$s"; continue; }
  ( cd "$s/repo" && timeout 300 bash $d/demo.sh >"$s/demo1" 2>&1 ); r1=$?
  ( cd "$s/repo" && timeout 600 /opt/venv/bin/python -m pytest tests/tests -q -p no:cacheprovider -W ignore >"$s/t" 2>&1 ); t=$(tail -1 "$s/t")
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  RV_REPO=$s/repo RV_NOEV=1 bash /verif/check.sh $p >"$s/c" 2>&1; c=$?
  echo "$id: demo clean=$r0 patched=$r1 | tests: $t | check $p exit=$c"
  [ $r0 != 0 ] && tail -5 "$s/demo0"
  grep -A3 "cases" "$s/c" | grep -v VIOLATION | cut -c1-220 | sed 's/^/      /' | head -3
  rm -rf "$s"
done
