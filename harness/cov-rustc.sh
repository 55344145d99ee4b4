#!/bin/bash
# RUSTC_WRAPPER of the checked build: the library and the harness get coverage counters and comparison tracing
rustc=$1
shift
case " $* " in
*" --crate-name fxd "* | *" --crate-name fxdcheck "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"
