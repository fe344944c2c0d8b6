#!/bin/bash
# run.sh setup | run.sh <property id> : build from /repo's working tree, then check.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. /opt/vp/env.sh
ROOT=$PWD
export CARGO_TARGET_DIR=$ROOT/.target VERIF_ROOT=$ROOT
# the build does not depend on file times: whatever differs in content is rebuilt
mkdir -p "$CARGO_TARGET_DIR"
(
  flock 9
  now=$(cd "$ROOT/../repo" && find Cargo.toml Cargo.lock src svdtools -type f -not -name '*.pyc' 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
  now="$now $(cd harness && find Cargo.toml Cargo.lock src -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)"
  if [ "$now" != "$(cat "$CARGO_TARGET_DIR/stamp" 2>/dev/null)" ]; then
    rm -f "$CARGO_TARGET_DIR/stamp"
    cargo clean --offline --manifest-path harness/Cargo.toml -p svdtools -p svdpbt >/dev/null 2>&1
    if ! cargo build --offline --locked --manifest-path harness/Cargo.toml >"$CARGO_TARGET_DIR/build.log" 2>&1; then
      tail -40 "$CARGO_TARGET_DIR/build.log"
      echo "the harness does not build against the repository"
      exit 2
    fi
    echo "$now" >"$CARGO_TARGET_DIR/stamp"
  fi
) 9>"$CARGO_TARGET_DIR/lock" || exit 2
[ "$1" = setup ] && exit 0
exec "$CARGO_TARGET_DIR/debug/pbt" "$@"
