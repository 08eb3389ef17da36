#!/bin/bash
# lab.sh <seed id>... : verifies planted bugs in a scratch copy of /repo and
# runs the property's check against it.  Usage needs nothing from git.
set -u
LAB=${LAB:-/tmp/lab}
R=$LAB/repo
mkdir -p $LAB
[ -d $R ] || git -C /repo worktree list >/dev/null && { [ -d $R ] || git clone -q /repo $R; }
git -C $R fetch -q origin && git -C $R checkout -q -f FETCH_HEAD && git -C $R clean -fdqx -e _build
for v in openssl boringssl; do
  [ -f $R/_build/$v/build.ninja ] || cmake -S /opt/vp/cmake -B $R/_build/$v -G Ninja -DREPO=$R -DVARIANT=$v -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g" -DCMAKE_CXX_FLAGS="-Wno-error -Wno-deprecated-declarations" -Wno-dev >/dev/null
done
for id in "$@"; do
  S=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C $R checkout -q -f . ; git -C $R clean -fdqx -e _build
  D=$LAB/demo; rm -rf $LAB/demo; mkdir $D; cp -r $S/* $D/; rm -f $D/*.diff $D/meta.json
  (cd $R && timeout 300 bash $D/demo.sh >$LAB/$id.clean.log 2>&1); c=$?
  git -C $R apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=ok; t=ok
  if [ -z "${NOBUILD:-}" ]; then
  for v in openssl boringssl; do
    ninja -C $R/_build/$v >$LAB/$id.build.log 2>&1 || b=FAIL
    ctest --test-dir $R/_build/$v -j8 --timeout 120 >$LAB/$id.test.$v.log 2>&1 || t=FAIL
  done
  fi
  (cd $R && timeout 300 bash $D/demo.sh >$LAB/$id.bug.log 2>&1); d=$?
  (cd /verif && S2A_REPO=$R python3 check.py $prop >$LAB/$id.check.log 2>&1); k=$?
  echo "$id $prop: demo clean=$c bug=$d build=$b tests=$t check=$k  $(grep -m1 'rule .* violated' $LAB/$id.check.log | cut -c1-160)"
  git -C $R checkout -q -f .
done
