#!/bin/bash
# check.sh <property>: build the simulator from /repo's working tree and decide one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build or harness error).
cd "$(dirname "$0")" || exit 2
. tools/common.sh
id=$1; shift
build_sim || { echo "$id: the simulator does not build against this tree"; exit 2; }
case $id in C09|C10|C11|C12|C13|C14|C22|C24) build_rpc || { echo "$id: rpcgen does not build from this tree"; exit 2; };; esac
if [ "$id" = C14 ] || [ "$id" = C24 ]; then
  n=36; [ "$VERIF_TIER" = thorough ] && n=96
  build_relay $n $id; rc=$?
  [ $rc = 2 ] && echo "$id: the relays do not build against this tree"
  [ $rc = 0 ] || exit $rc
  SIM=$RELAY
fi
exec "$SIM" run "$id" "$@"
