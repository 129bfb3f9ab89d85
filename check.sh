#!/bin/bash
# check.sh <property id> <tier>: build the property's explorer against /repo's current tree and run it.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: error of the check
P=$1; export VERIF_TIER=${2:-${VERIF_TIER:-quick}}; export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_DIR=/verif CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg geos_verif" CARGO_TARGET_DIR=/verif/harness/target
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
cd /verif/harness || exit 3
bin=$(echo "$P" | tr 'A-Z' 'a-z')
mkdir -p "$CARGO_TARGET_DIR" /verif/evidence /verif/replays
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
# always recompile the crate under test, whatever its files' timestamps say
find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'geos-rs-*' -exec rm -rf {} + 2>/dev/null
built=
if [ "$P" = P24 ]; then # with the random generator under control, if the code's use of it can be built that way
  (cd /verif/harness-rand && cargo build --release --quiet --bin p24c 2>"$CARGO_TARGET_DIR/build-P24c.log") && { built=1; bin=p24c; }
fi
if [ -z "$built" ] && ! cargo build --release --quiet --bin "$bin" 2>"$CARGO_TARGET_DIR/build-$P.log"; then
  grep -E '^error' -A8 "$CARGO_TARGET_DIR/build-$P.log" | head -40
  echo "check $P: build failed"; exit 3
fi
exe="$CARGO_TARGET_DIR/run-$P"; cp -f "$CARGO_TARGET_DIR/release/$bin" "$exe" || exit 3
flock -u 9; exec 9>&-
ulimit -v 25000000
lim=850; [ "$VERIF_TIER" = thorough ] && lim=7200
timeout $lim "$exe"; rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || { echo "check $P: engine error (exit $rc)"; exit 3; }
exit $rc
