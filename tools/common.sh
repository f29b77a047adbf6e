# sourced by check.sh and setup.sh, with /verif as working directory
export VERIF_DIR=$PWD
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WORKSPACE_WRAPPER
T=$VERIF_DIR/target
SIM=$T/sim/release/xsim-main
mkdir -p "$T"
quietly() { # run a build; show its output only when it fails
  local log=$T/build.$$.log
  if "$@" >"$log" 2>&1; then rm -f "$log"; return 0; fi
  tail -40 "$log" >&2; rm -f "$log"; return 1
}
build_sim() {
  ( cd sim && RUSTC_WRAPPER=$VERIF_DIR/tools/rustc-cov.sh quietly cargo build --release --offline --locked --target-dir "$T/sim" )
}
build_rpc() { # the shipped command and its system-call seam
  ( cd rpcbin && quietly cargo build --release --offline --locked --target-dir "$T/rpc" ) &&
  quietly gcc -O2 -Wall -shared -fPIC shim/shim.c -o "$T/shim.$$" && mv "$T/shim.$$" "$T/shim.so"
}
build_relay() { # C14, C24: stubs generated by the shipped command for this seed, compiled with the scenario
  local n=$1 id=$2 log=$T/relay.$$.log rc
  local dir=$T/stubs; [ $id = C14 ] || dir=$T/stubs-$id
  RELAY=$T/sim/release/relay-main
  "$SIM" stubs "$dir" "$n" $id; rc=$?
  [ $rc = 0 ] || return $rc
  if ( cd relay && RELAY_REGISTRY=$dir/registry.rs RUSTC_WRAPPER=$VERIF_DIR/tools/rustc-cov.sh \
       cargo build --release --offline --locked --target-dir "$T/sim" ) >"$log" 2>&1; then rm -f "$log"; return 0; fi
  tail -60 "$log" >&2
  # an error inside a generated module is a broken stub; anything else is no answer
  if grep -A3 '^error' "$log" | grep -qE -- "--> .*/stubs[^/]*/(m[0-9]+_[0-9]+|registry)\.rs"; then
    mkdir -p replays
    local rep=replays/$id-compile-seed${VERIF_SEED:-1}.txt
    { echo "VERIF_SEED=${VERIF_SEED:-1} interfaces=$n"; grep -A12 '^error' "$log"
      for k in $(grep -A3 '^error' "$log" | grep -oE "/m[0-9]+_" | grep -oE '[0-9]+' | sort -un | head -3); do
        for f in "$dir"/idl$k.x "$dir"/idl${k}e*.x; do [ -f $f ] && echo "--- ${f##*/}" && cat $f; done; done; } >"$rep"
    echo "$id: generated stubs do not compile: $(grep -m1 '^error' "$log")"
    echo "VIOLATION property=$id replay=$VERIF_DIR/$rep"
    rm -f "$log"; return 1
  fi
  rm -f "$log"; return 2
}
