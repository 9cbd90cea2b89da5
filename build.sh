#!/bin/bash
# Builds the server from /repo's working tree and the monitors, both into /verif/.build (ignored
# by git). Debug assertions and overflow checks are on: a panic of the server is an observation.
# Usage: build.sh [server|harness]...
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
REPO=${HIRMON_REPO:-/repo}
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=1.74.1
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p .build
exec 9> .build/lock
flock 9
what=${*:-server harness}
for w in $what; do
  case $w in
  server)
    export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
    export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true
    # Never trust time stamps: the crate itself is compiled unless the contents of the whole tree
    # are those of the last successful build
    hash=$( (cat build.sh; rustc -V; cd "$REPO" && find . \( -name .git -o -name target -o -name node_modules \) -prune -o \( -type f -o -type l \) -print0 |
      LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
    if [ -x .build/server/debug/hyper-ir-lsp ] && [ "$(cat .build/server.hash 2> /dev/null)" = "$hash" ]; then
      continue
    fi
    rm -f .build/server.hash
    rm -rf "$ROOT"/.build/server/debug/.fingerprint/hyper-ir-lsp-*
    (cd "$REPO" && CARGO_TARGET_DIR=$ROOT/.build/server cargo build --bins --locked --offline) \
      > .build/server.log 2>&1 || { tail -40 .build/server.log >&2; echo "the server does not build" >&2; exit 4; }
    echo "$hash" > .build/server.hash
    ;;
  harness)
    (cd harness && CARGO_TARGET_DIR=$ROOT/.build/harness cargo build --offline) \
      > .build/harness.log 2>&1 || { tail -40 .build/harness.log >&2; echo "the harness does not build" >&2; exit 4; }
    gcc -O1 -shared -fPIC -o .build/heap.so.new harness/heap.c && mv .build/heap.so.new .build/heap.so || exit 4
    ;;
  esac
done
