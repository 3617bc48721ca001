#!/bin/bash
# build.sh <check>|all: builds check binaries; the last line printed is the binary's path
# (two: of both parts of the check)
set -eu
cd "$(dirname "$(readlink -f "$0")")"
. ./env.sh
# cargo trusts time stamps; the sources under test may have been laid down with any
h=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
# fresh <target directory> <cargo clean options>: forget what was built from other sources
fresh() {
  mkdir -p "$1"
  if [ "$(cat "$1/.repo-hash" 2>/dev/null)" != "$h" ]; then
    rm -f "$PWD/$1/.repo-hash"
    cargo clean --offline --target-dir "$@" -p walky 2>/dev/null || true
  fi
}
seq_build() {
  fresh target
  cargo build --offline "$@"
  echo "$h" >target/.repo-hash
}
# instrumented, with an instrumented standard library
par_build() (
  . ./env-par.sh
  fresh target/par --target x86_64-unknown-linux-gnu
  cargo build --offline -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu --target-dir target/par "$@"
  echo "$h" >target/par/.repo-hash
)
# one cargo invocation per package: the packages enable different features of walky
case $1 in
all)
  for p in h_seq h_cli h_mpi; do seq_build -p $p; done
  par_build -p h_par
  par_build -p h_mem
  ;;
c12|c13|c14|c21) seq_build -p h_mpi --bin "$1"; echo "$PWD/target/debug/$1" ;;
c11|c19|c22) seq_build -p h_cli; echo "$PWD/target/debug/$1" ;;
c23) par_build -p h_mem; echo "$PWD/target/par/x86_64-unknown-linux-gnu/debug/c23" ;;
c03|c15) par_build -p h_par --bin "$1"; echo "$PWD/target/par/x86_64-unknown-linux-gnu/debug/$1" ;;
c04|c05|c07|c08|c18)
  # two parts: plain, and interleavings in the instrumented build
  seq_build -p h_seq --bin "$1"
  par_build -p h_par --bin inter
  echo "$PWD/target/debug/$1 $PWD/target/par/x86_64-unknown-linux-gnu/debug/inter"
  ;;
*) seq_build -p h_seq --bin "$1"; echo "$PWD/target/debug/$1" ;;
esac
