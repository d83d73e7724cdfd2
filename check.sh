#!/bin/bash
# check.sh ID [quick|thorough]      decide property ID on /repo's working tree
# check.sh --replay SCENARIO xHEX   run one assignment natively
# check.sh --setup                  build only
set -u
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$B" "$V/evidence" "$V/out"
fail() { echo "check.sh: $*" >&2; exit 2; }

build() {
  exec 9>"$B/lock"
  flock 9
  # what the artifacts are made of
  local now
  now=$( { cat /repo/Cargo.toml /repo/Cargo.lock 2>/dev/null; find /repo/src -type f | LC_ALL=C sort | xargs -d '\n' sha256sum
          find "$V/harness" "$V/symex" \( -name target -o -name 'target-*' \) -prune -o -type f -print | LC_ALL=C sort | xargs -d '\n' sha256sum
          rustc -V; } | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$B/stamp" 2>/dev/null)" = "$now" ] && [ -s "$B/h.ll" ] && [ -x "$B/replay" ] && [ -x "$B/symex" ]; then
    flock -u 9; return 0
  fi
  rm -f "$B/stamp" "$B/h.ll" "$B/replay" "$B/symex"
  rm -rf "$B"/t-*/release/.fingerprint/{nom-sparql,harness,symex}-* "$B"/t-*/replay/.fingerprint/{nom-sparql,harness}-* "$B"/t-ir/release/deps/h-*.ll
  ( cd "$V/symex" && CARGO_TARGET_DIR=$B/t-symex cargo build --release --offline >"$B/symex.log" 2>&1 && cp "$B/t-symex/release/symex" "$B/symex" ) &
  local p1=$!
  ( cd "$V/harness" && RUSTFLAGS="--cfg nom_sparql_verif" CARGO_TARGET_DIR=$B/t-replay \
      cargo build --offline --profile replay --bin replay >"$B/replay.log" 2>&1 && cp "$B/t-replay/replay/replay" "$B/replay" ) &
  local p2=$!
  ( cd "$V/harness" && RUSTFLAGS="--cfg nom_sparql_verif" CARGO_TARGET_DIR=$B/t-ir \
      cargo rustc --offline --release --lib --crate-type staticlib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp >"$B/ir.log" 2>&1 \
      && cp "$B"/t-ir/release/deps/h-*.ll "$B/h.ll" ) &
  local p3=$!
  wait $p1 || { tail -40 "$B/symex.log" >&2; fail "the executor does not build"; }
  wait $p2 || { tail -40 "$B/replay.log" >&2; fail "the native harness does not build"; }
  wait $p3 || { tail -40 "$B/ir.log" >&2; fail "the intermediate representation cannot be made"; }
  echo "$now" >"$B/stamp"
  flock -u 9
}

case "${1:-}" in
  --setup) build; exit 0 ;;
  --replay) build; exec "$B/replay" show "$2" "$3" ;;
  "") fail "usage: check.sh ID [quick|thorough]" ;;
esac
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
case $TIER in quick) BUDGET=${BUDGET:-360} ;; thorough) BUDGET=${BUDGET:-780} ;; *) fail "tier $TIER" ;; esac
build
J=$(nproc)
exec "$B/symex" --ll "$B/h.ll" --replay "$B/replay" --prop "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" \
  --budget "$BUDGET" --jobs "$J" --evidence "$V/evidence/$ID.json" --outdir "$V/out" --known "$V/known_findings.txt"
