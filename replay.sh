#!/bin/bash
# replay.sh <replay file>: rebuild from /repo's working tree and repeat one recorded run exactly
cd "$(dirname "$0")" || exit 2
. tools/common.sh
f=$(realpath "$1") || exit 2
build_sim && build_rpc || exit 2
case $f in
  *C14-*.json|*C24-*.json) id=C${f##*/C}; id=${id%%-*}; export VERIF_SEED=$(grep -oE '"verif_seed":-?[0-9]+' "$f" | head -1 | grep -oE '\-?[0-9]+$')
    build_relay $(grep -oE '"stubs":[0-9]+' "$f" | grep -oE '[0-9]+$') $id || exit; SIM=$RELAY;;
  *C14-compile-*|*C24-compile-*) id=C${f##*/C}; id=${id%%-*}; export VERIF_SEED=$(grep -oE 'VERIF_SEED=-?[0-9]+' "$f" | head -1 | cut -d= -f2)
    build_relay $(grep -oE 'interfaces=[0-9]+' "$f" | head -1 | cut -d= -f2) $id; exit;;
esac
exec "$SIM" replay "$f"
