#!/bin/bash
# run.sh build | run.sh <property> [--tier quick|thorough] [--replay file]
# Builds the check machinery against the current tree of /repo and runs it.
set -u
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
umask 022
export GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOTOOLCHAIN=local
B="${VERIF_BUILD:-$VERIF_DIR/.build}"
export VERIF_BUILD="$B"
mkdir -p "$B"
if [ -z "${VERIF_SCRATCH:-}" ] && [ -d /dev/shm ] && [ -w /dev/shm ]; then export VERIF_SCRATCH=/dev/shm; fi
exec 9>"$B/lock"
flock 9
# VERIF_REPO: another working tree of the repository (development only).
MOD=""
if [ -n "${VERIF_REPO:-}" ]; then
  sed "s#=> /repo#=> $VERIF_REPO#" "$VERIF_DIR/harness/go.mod" > "$B/alt.mod"
  cp "$VERIF_DIR/harness/go.sum" "$B/alt.sum"
  MOD="-modfile=$B/alt.mod"
fi
(cd "$VERIF_DIR/harness" && go build $MOD -o "$B/check.new" ./cmd/check && mv -f "$B/check.new" "$B/check") || {
  echo "MACHINERY: the harness does not build against /repo" >&2
  exit 2
}
case "${1:-}" in
build | C11 | C12 | C13 | C14 | C15 | C20 | C22 | C23 | C25 | C26 | C27 | C28 | C29 | C30 | C31)
  # the programs under observation, with the system call hook
  (cd "$VERIF_DIR/harness" && go run ./cmd/prepare "$B/overlay" &&
    go build $MOD -overlay "$B/overlay/overlay.json" -o "$B/driver.new" ./cmd/driver && mv -f "$B/driver.new" "$B/driver" &&
    go build $MOD -overlay "$B/overlay/overlay.json" -o "$B/krypto431.new" github.com/sa6mwa/krypto431/cmd/krypto431 && mv -f "$B/krypto431.new" "$B/krypto431") || {
    echo "MACHINERY: the observed programs do not build" >&2
    exit 2
  } ;;
esac
case "${1:-}" in
build | C24)
  # the check itself, with the random number code under the scheduler
  rm -rf "$B/sched"
  (cd "$VERIF_DIR/harness" && go run ./cmd/prepare "$B/sched" sched "${VERIF_REPO:-/repo}" 2>/dev/null &&
    go build $MOD -overlay "$B/sched/overlay.json" -o "$B/check-sched.new" ./cmd/check && mv -f "$B/check-sched.new" "$B/check-sched") || {
    echo "MACHINERY: the scheduled program does not build" >&2
    exit 2
  } ;;
esac
[ "${1:-}" = build ] && exit 0
flock -u 9
exec 9>&-
[ "${1:-}" = C24 ] && exec "$B/check-sched" "$@"
exec "$B/check" "$@"
