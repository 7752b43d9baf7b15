#!/bin/bash
# RUSTC_WRAPPER: $1 = rustc
rustc="$1"; shift
name=""; prev=""
args=()
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
flags=()
if [ "$name" = polymers ]; then
  new=(); prev=""
  for a in "$@"; do
    if [ "$prev" = "--crate-type" ]; then
       case "$a" in cdylib|staticlib) unset 'new[${#new[@]}-1]'; prev="$a"; continue;; esac
    fi
    new+=("$a"); prev="$a"
  done
  set -- "${new[@]}" -Awarnings
fi
case "$INSTR:$name" in
 1:polymers|1:inst) flags=(-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores) ;;
esac
if [ "$name" = polymers ]; then
  # Cargo rebuilds what lacks an output: stand-ins for the libraries left out.
  prev=""; for a in "$@"; do [ "$prev" = "--out-dir" ] && out="$a"; prev="$a"; done
  "$rustc" "$@" "${flags[@]}" && touch "$out/libpolymers.so" "$out/libpolymers.a"
  exit
fi
exec "$rustc" "$@" "${flags[@]}"
