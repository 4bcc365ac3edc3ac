#!/bin/bash
# bash /verif/run.sh PROPERTY quick|thorough   runs one check against /repo's working tree
# bash /verif/run.sh --replay FILE             re-runs one failing case
# bash /verif/run.sh --build                   builds only
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$V/mc" || exit 3
export CARGO_INCREMENTAL=0 MC_VERIF=$V
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

# The properties that are also decided for the crate built with its default features and `rand`
# but without `silent-payments`, which compiles other code in the maps and in v0 signing.
PLAIN=" C01 C02 C03 C05 K01 R02 S02 E02 "
full() { CARGO_TARGET_DIR=$V/target cargo build --release --offline --locked; }
plain() { CARGO_TARGET_DIR=$V/target/plain cargo build --release --offline --locked --no-default-features --features plain; }
build() {
  local log
  log=$(mktemp)
  if ! $1 >"$log" 2>&1; then
    cat "$log"
    /bin/rm -f "$log"
    echo "the harness does not build against /repo ($1 configuration)"
    exit 3
  fi
  /bin/rm -f "$log"
}
F=$V/target/release/mc
P=$V/target/plain/release/mc
case $1 in
  --build)
    build full
    build plain
    exit 0 ;;
  --replay)
    if grep -q '"build": *"plain"' "$2"; then
      build plain
      "$P" --replay "$2"
    else
      build full
      "$F" --replay "$2"
    fi
    exit ;;
esac
T=${2:-quick}
/bin/rm -f "$V/target/$1.part.json"
code=0
if [[ $PLAIN == *" $1 "* ]]; then
  (build plain) &
  (build full) || { c=$?; wait; exit $c; }
  # A tree that only builds with all features is decided for those.
  if wait $!; then
    "$P" "$1" --tier "$T"
    code=$?
  fi
else
  build full
fi
"$F" "$1" --tier "$T"
full=$?
# A violation in either configuration counts.
[ $full -eq 0 ] && exit $code
[ $full -ne 1 ] && [ $code -eq 1 ] && exit 1
exit $full
