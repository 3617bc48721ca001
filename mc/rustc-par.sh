#!/bin/bash
# rustc wrapper of the instrumented build: the machinery itself must not be instrumented
rustc=$1
shift
name=
prev=
for a; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case $name in
mcrt | hx | mpi_sys | rayon_core | rand | libc)
  args=()
  for a; do
    [ "$a" = -Zsanitizer=thread ] || args+=("$a")
  done
  exec "$rustc" "${args[@]}"
  ;;
esac
exec "$rustc" "$@"
