#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds the harnesses against /repo's working tree and decides the property.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$here
prop=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p "$here/evidence/replays"
rm -f "$here/evidence/$prop.json"
# which engines decide the property
case $prop in
  C15|C17|C25) engines="kani" ;;
  C16|C24) engines="symx kani" ;;
  C26|C28) engines="symp" ;;
  C31) engines="symb" ;;
  *) engines="symx" ;;
esac
worst=0
for e in $engines; do
  rc=0
  if [ $e != kani ]; then
    cd "$here/$e" || exit 2
    if ! RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline >"$here/evidence/$prop.build.log" 2>&1; then
      tail -40 "$here/evidence/$prop.build.log"
      echo "ERROR: the harness does not build against /repo"
      rc=2
    else
      rm -f "$here/evidence/$prop.build.log"
      ./target/debug/$e "$prop"
      rc=$?
    fi
  else
    python3 "$here/kani/run.py" "$prop" "$VERIF_TIER"
    rc=$?
  fi
  # a violation outweighs a missing answer
  if [ $rc -eq 1 ] || { [ $rc -ne 0 ] && [ $worst -ne 1 ]; }; then worst=$rc; fi
done
exit $worst
