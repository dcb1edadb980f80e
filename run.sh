#!/bin/bash
# run.sh ID   - build the harness from /repo's working tree and run the check of one property
# run.sh build - only build
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
cd "$here/harness" || exit 2
mkdir -p target
exec 9>target/.lock
flock 9
# cargo goes by file times; go by content as well
now=$(cd /repo && find src Cargo.toml "$here/stubs" -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat target/.repo-hash 2>/dev/null)" ]; then
  cargo clean --offline -p monolith -p tikv-client -p server >/dev/null 2>&1
fi
# the program of /repo is wanted by one check only
if ! cargo build --offline --workspace >target/build.log 2>&1 && ! cargo build --offline >target/build.log 2>&1; then
  tail -40 target/build.log >&2
  echo "build failed" >&2
  exit 2
fi
echo "$now" >target/.repo-hash
flock -u 9
[ "${1:-}" = build ] && exit 0
exec ./target/debug/vharness check "$1"
