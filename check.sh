#!/bin/bash
# check.sh <property> [quick|thorough]: builds the property's check from /repo's working tree and runs it
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
P=${1:?property}; T=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$T VERIF_SEED=${VERIF_SEED:-1}
. mc/env.sh
b=$(echo "$P" | tr A-Z a-z)
mkdir -p mc/target evidence || exit 2
exec 9>mc/target/.build.lock
flock 9
build() { mc/build.sh "$@" >mc/target/.build-$b.log 2>&1; }
if ! build "$b"; then
  cat mc/target/.build-$b.log >&2
  echo "check.sh: build of $b failed" >&2
  exit 2
fi
read -r exe part <<<"$(tail -1 mc/target/.build-$b.log)"
flock -u 9
exec 9>&-
if [ -n "$part" ]; then
  # the part in the instrumented build comes first and leaves its results to the other one
  export MC_JOIN=$PWD/mc/target/.part-$b.$$
  rm -f "$MC_JOIN"
  MC_PROPERTY=$P MC_PART=$MC_JOIN MC_WALL_S=${MC_WALL_S:-$([ "$T" = quick ] && echo 200 || echo 7200)} "$part" || echo "check.sh: $part ended with $?" >&2
fi
exec "$exe"
