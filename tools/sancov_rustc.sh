#!/bin/sh
# rustc wrapper: instrument only the library for coverage-guided workloads
rustc="$1"
shift
case " $* " in
*" --crate-name blitstr "*)
    # functions must not be compiled into the (uninstrumented) monitors instead
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zcross-crate-inline-threshold=never -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
        -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
