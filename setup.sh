#!/bin/bash
# build the framework once; every check also builds what it needs itself
cd "$(dirname "$0")" || exit 2
. tools/common.sh
build_sim && build_rpc || exit 2
build_relay 24 C14 || true # decided by the check of C14
