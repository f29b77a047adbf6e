#!/bin/bash
# RUSTC_WRAPPER: instrument the code under test and the harness (its generic instantiations) with
# edge/load/store callbacks, the simulator's preemption and step points. Everything else is built plain.
rc=$1; shift
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case "$name" in
  serde_xdr|rpcgen|xsim|xsim_main|relay*)
    exec "$rc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rc" "$@" ;;
esac
