#!/bin/bash
# rustc wrapper: LLVM's coverage callbacks in ibig, and nowhere else. SANCOV says which.
rustc=$1; shift
case "$SANCOV" in
    count) flags=(-Cllvm-args=-sanitizer-coverage-trace-pc-guard) ;;
    *) flags=(-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares) ;;
esac
for ((i = 1; i <= $#; i++)); do
    if [ "${!i}" = --crate-name ]; then
        j=$((i + 1))
        if [ "${!j}" = ibig ]; then
            exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "${flags[@]}"
        fi
    fi
done
exec "$rustc" "$@"
