#!/bin/bash
# Compiles the library under test and the simulator so that every atomic operation in them (also those
# inlined from std: reference counts, locks, channels, once cells) is a call into simrt/src/tsan.rs.
# No sanitizer runtime is linked. All other crates compile as usual.
rustc=$1
shift
name= prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case $name in
  osmpbf | osmsim)
    export RUSTC_BOOTSTRAP=1
    exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer \
      -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
      -Cllvm-args=-tsan-instrument-memintrinsics=0
    ;;
esac
exec "$rustc" "$@"
