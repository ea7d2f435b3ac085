#!/bin/bash
# tools/seedtry.sh ID...: for each planted change, in a scratch copy: demo on the clean tree, demo with the
# patch, and the property's check against the patched tree. (A development aid; no check uses it.)
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=/verif/seeded/$id
  w=/tmp/seedtry/$id
  mkdir -p $w && git -C /repo archive HEAD | tar x -C $w
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd $w && bash $d/demo.sh >$w/.clean 2>&1 ); a=$?
  ( cd $w && git init -q . >/dev/null 2>&1; git apply $d/patch.diff ) || { echo "$id: patch does not apply"; continue; }
  ( cd $w && bash $d/demo.sh >$w/.bad 2>&1 ); b=$?
  VERIF_REPO=$w python3 checks/$p.py >$w/.out 2>&1; c=$?
  echo "$id property=$p clean=$a patched=$b check=$c $(grep -c '^VIOLATION' $w/.out) :: $(grep -m1 rejected $w/.out | cut -c1-300)"
  [ $a = 0 ] || tail -5 $w/.clean
  [ $b != 0 ] || tail -5 $w/.bad
  [ $c -le 1 ] || tail -5 $w/.out
  rm -rf "/tmp/seedtry/$id"
done
