#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build from /repo's working tree and run one check.
# check.sh build | check.sh replay FILE
cd "$(dirname "$0")/mc" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target"
# A second copy of the core crate, built with comment reporting: a crate of another name, so that both
# can be linked and compared.
core=../../repo/yam-core copy=target/comment-core
fresh=$(mktemp -d) || exit 2
cp -r "$core/src" "$fresh/src" && sed 's/^name = "yam-core"/name = "yam-core-comment"/' "$core/Cargo.toml" >"$fresh/Cargo.toml" || exit 2
if ! diff -rq "$fresh" "$copy" >/dev/null 2>&1; then
  mkdir -p target && rm -rf "$PWD/$copy" && cp -r "$fresh" "$copy" || exit 2
fi
rm -rf "$fresh"
log=$(mktemp) || exit 2
# Only P23 needs that copy: if it alone does not build, the other checks still run.
if ! cargo build --release --offline >"$log" 2>&1 &&
  ! { [ "$1" != P23 ] && cargo build --release --offline --no-default-features >"$log" 2>&1; }; then
  grep -E '^error' -A12 "$log" | head -60
  rm -f "$log"
  echo "the checks do not build against /repo" >&2
  exit 2
fi
rm -f "$log"
export MC_DIR="$(dirname "$PWD")"
case "$1" in
  build) exit 0 ;;
  replay) exec target/release/yam-mc replay "$2" ;;
  *) exec target/release/yam-mc check "$1" "${2:-quick}" ;;
esac
