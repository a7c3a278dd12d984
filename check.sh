#!/bin/bash
# check.sh <ID> [quick|thorough]      decide a property on /repo's current working tree
# check.sh <ID> --replay <file>       re-run a recorded violation
# check.sh --setup                    compile the dependencies ahead of time
# exit 0 held, 1 violated (VIOLATION line), 2 no verdict (build failure, harness error)
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/.build" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp)"; trap 'rm -f "$log"' EXIT
build() {
  # file times in a copied tree prove nothing: the crate under test is always rebuilt
  cargo clean --offline --manifest-path "$here/harness/Cargo.toml" -p syntaxis -p mon >/dev/null 2>&1
  cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1
}
if ! build; then
  grep -E '^error' -A12 "$log" | head -60
  echo "INCONCLUSIVE property=$id: the harness does not build against /repo's working tree"
  exit 2
fi
mon="$here/.build/debug/mon"
if [ "$id" = "--setup" ]; then
  for i in C03 C19 C22; do MON_SCALE=0.01 "$mon" gen "$i" warm >/dev/null 2>&1; done
  echo "setup done"; exit 0
fi
case "$id" in
  C03|C19|C22) "$mon" gen "$id" "${@:2}" ;;
  *) if [ "$tier" = "--replay" ]; then "$mon" replay "$3"; else "$mon" run "$id" "$tier"; fi ;;
esac
