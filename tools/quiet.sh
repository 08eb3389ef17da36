#!/bin/bash
# quiet.sh [name...] : applies behaviour-preserving edits (quiet/<name>.diff) to
# a scratch copy of /repo, builds and tests it (unless NOBUILD=1), and runs the
# checks of the properties it touches: all must exit 0.
set -u
LAB=${LAB:-/tmp/labq}
R=$LAB/repo
mkdir -p $LAB
[ -d $R ] || git clone -q /repo $R
git -C $R fetch -q origin && git -C $R checkout -q -f FETCH_HEAD && git -C $R clean -fdqx -e _build
for v in openssl boringssl; do
  [ -f $R/_build/$v/build.ninja ] || cmake -S /opt/vp/cmake -B $R/_build/$v -G Ninja -DREPO=$R -DVARIANT=$v -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g" -DCMAKE_CXX_FLAGS="-Wno-error -Wno-deprecated-declarations" -Wno-dev >/dev/null
done
[ $# -gt 0 ] || set -- $(cd /verif/quiet && ls *.diff | sed 's/.diff$//')
for n in "$@"; do
  git -C $R checkout -q -f . ; git -C $R clean -fdqx -e _build
  git -C $R apply /verif/quiet/$n.diff || { echo "$n: patch does not apply"; continue; }
  b=ok; t=ok
  if [ -z "${NOBUILD:-}" ]; then
  for v in openssl boringssl; do
    ninja -C $R/_build/$v >$LAB/$n.build.log 2>&1 || b=FAIL
    ctest --test-dir $R/_build/$v -j8 --timeout 120 >$LAB/$n.test.$v.log 2>&1 || t=FAIL
  done
  fi
  props=$(python3 - $n <<'P'
import sys, re
d = open("/verif/quiet/%s.diff" % sys.argv[1]).read()
m = re.findall(r"^\+\+\+ b/(\S+)", d, re.M)
out = []
for f in m:
    if "crypter_openssl" in f or "crypter_boringssl" in f or "aes_gcm" in f or "chacha" in f or "aead_crypter" in f:
        out += "C01 C03 C04 C05 C06 C07 C08 C36 C02".split()
    if "hkdf" in f: out += "C07 C08 C09".split()
    if "sslerr" in f or "s2a_aead_crypter_util" in f: out += ["C08", "C07"]
    if "handshake_message" in f: out += "C10 C11 C12".split()
    if "options" in f: out += "C31 C32".split()
    if "token" in f: out += ["C33"]
    if "half_conn" in f or "crypter_util.cc" in f and "aead" not in f: out += "C13 C14 C15 C16".split()
    if "s2a_crypter.cc" in f or "s2a_crypter.h" in f: out += "C16 C17 C18 C19 C20 C21".split()
    if "frame_protector" in f: out += "C16 C22 C23 C24".split()
    if "handshaker" in f or "context" in f or "proxy" in f: out += "C16 C25 C26 C27 C28 C29 C30".split()
print(" ".join(dict.fromkeys(out)))
P
)
  (cd /verif && S2A_REPO=$R python3 tools/multi.py ${PROPS:-$props} >$LAB/$n.log 2>&1)
  res=$(tail -1 $LAB/$n.log)
  echo "$n: build=$b tests=$t $res"
  git -C $R checkout -q -f .
done
